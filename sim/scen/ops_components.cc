// Z08: connected components and zero-dimensional persistence.

#include "hierarchy.hh"

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/persistentHomology/ExtendedPersistenceHierarchy.hh>

#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/UnionFind.hh>

#include <limits>
#include <stdexcept>

namespace
{

using namespace ops;
namespace topo = aleph::topology;

std::vector<Cell> sample( bool triangles )
{
  unsigned n = sim::flip( 1, 6 ) ? 14 : 7;
  return filtration( randomSet( n, triangles ? 2 : 1, n + 4, labels() ) );
}

using Points = std::vector< std::pair<double, std::string> >;

std::string show( Points p )
{
  std::sort( p.begin(), p.end() );
  std::string s = "points:";
  for( auto&& x : p ) s += " " + number( x.first ) + "," + x.second;
  return s;
}

using Pairs = std::vector< std::pair<std::size_t, std::string> >;

std::string show( Pairs p )
{
  std::sort( p.begin(), p.end() );
  std::string s = " pairs:";
  for( auto&& x : p ) s += " " + std::to_string( x.first ) + "-" + x.second;
  return s;
}

template <class Diagram> Points points( const Diagram& D )
{
  Points p;
  for( auto&& x : D ) p.push_back( { double( x.x() ), x.isUnpaired() ? "inf" : number( double( x.y() ) ) } );
  return p;
}

template <class Pairing> Pairs pairs( const Pairing& P )
{
  Pairs p;
  for( auto&& x : P )
    p.push_back( { x.first, x.second == std::numeric_limits<typename Pairing::IndexType>::max() ? "inf" : std::to_string( x.second ) } );
  return p;
}

// Collects what the functor is told.
template <class Simplex> struct Listener
{
  using D = typename Simplex::DataType;
  using V = typename Simplex::VertexType;
  std::vector<std::string>* log;
  void initialize( V v ) { Calm q; log->push_back( "init " + std::to_string( v ) ); }
  void operator()( V younger, V older, D creation, D destruction, V u, V v )
  {
    Calm q;
    log->push_back( "merge " + std::to_string( younger ) + " " + std::to_string( older ) + " " + number( double( creation ) ) + " " + number( double( destruction ) )
                    + " " + std::to_string( std::min( u, v ) ) + " " + std::to_string( std::max( u, v ) ) );
  }
  void operator()( V root, D creation ) { Calm q; log->push_back( "root " + std::to_string( root ) + " " + number( double( creation ) ) ); }
};

template <class Simplex> struct ZeroDimensional : Op
{
  using Complex = topo::SimplicialComplex<Simplex>;
  using V = typename Simplex::VertexType;

  std::vector<Cell> cs;
  Complex K;
  unsigned mode;

  ZeroDimensional()
  {
    cs   = sample( true );
    K    = build<Complex>( cs );
    mode = unsigned( sim::choose( 5 ) );
    sim::story( "mode %u: %s", mode, ops::text( cs ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }

  using Pairing   = aleph::PersistencePairing<V>;
  using WithPairs = aleph::traits::PersistencePairingCalculation<Pairing>;
  using NoPairs   = aleph::traits::NoPersistencePairingCalculation<Pairing>;
  using Diagonal  = aleph::traits::DiagonalElementCalculation;
  using NoDiagonal = aleph::traits::NoDiagonalElementCalculation;

  template <class T> static std::string result( const T& t )
  {
    Calm q;
    return show( points( std::get<0>( t ) ) ) + show( pairs( std::get<1>( t ) ) );
  }
  std::string run( unsigned ) const override
  {
    switch( mode )
    {
    case 0: return result( aleph::calculateZeroDimensionalPersistenceDiagram( K ) );
    case 1: return result( aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, WithPairs>( K ) );
    case 2: return result( aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, WithPairs, Diagonal>( K ) );
    case 3: return result( aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, NoPairs, Diagonal>( K ) );
    default:
      {
        std::vector<std::string> log;
        Listener<Simplex> l{ &log };
        auto s = result( aleph::calculateZeroDimensionalPersistenceDiagram<Simplex, WithPairs, NoDiagonal>( K, l ) );
        Calm q;
        std::vector<std::string> sorted( log.begin(), log.end() );
        // Components are reported in no particular order, merges in order.
        std::stable_sort( sorted.begin(), sorted.end(), []( const std::string& a, const std::string& b )
        {
          bool m = a[0] == 'm', n = b[0] == 'm';
          return m != n ? m < n : m ? false : a < b;
        } );
        for( auto&& x : sorted ) s += "|" + x;
        return s;
      }
    }
  }
  void judge( const std::string& r, unsigned ) const override
  {
    Elder e( cs );
    bool diagonal = mode == 2 || mode == 3, paired = mode == 1 || mode == 2 || mode == 4;
    Points p;
    Pairs q;
    for( auto&& m : e.merges )
      if( diagonal || cs[ m.creator ].w != cs[ m.edge ].w )
      {
        p.push_back( { cs[ m.creator ].w, number( cs[ m.edge ].w ) } );
        q.push_back( { m.creator, std::to_string( m.edge ) } );
      }
    for( auto&& i : e.roots )
    {
      p.push_back( { cs[i].w, "inf" } );
      q.push_back( { i, "inf" } );
    }
    if( !paired ) q.clear();
    std::string s = show( p ) + show( q );
    if( mode == 4 )
    {
      std::vector<std::string> log, merges;
      for( auto&& x : e.component ) log.push_back( "init " + std::to_string( x.first ) );
      for( auto&& i : e.roots ) log.push_back( "root " + std::to_string( cs[i].v[0] ) + " " + number( cs[i].w ) );
      std::sort( log.begin(), log.end() );
      for( auto&& m : e.merges )
        log.push_back( "merge " + std::to_string( m.younger ) + " " + std::to_string( m.older ) + " " + number( cs[ m.creator ].w ) + " " + number( cs[ m.edge ].w )
                       + " " + std::to_string( cs[ m.edge ].v[0] ) + " " + std::to_string( cs[ m.edge ].v[1] ) );
      for( auto&& x : log ) s += "|" + x;
    }
    require( r, s );
    // The general computation must say the same about dimension zero.
    if( diagonal && paired )
    {
      auto g = reduce( cs );
      Pairs h;
      for( auto&& x : g.pairs )
        if( cs[ x.first ].v.size() == 1 ) h.push_back( { x.first, std::to_string( x.second ) } );
      for( auto&& i : g.unpaired )
        if( cs[i].v.size() == 1 ) h.push_back( { i, "inf" } );
      require( r, show( p ) + show( h ) );
    }
  }
};

struct Components : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  Complex K;

  Components()
  {
    cs = sample( true );
    if( sim::flip( 1, 2 ) ) sim::shuffle( cs );
    K = build<Complex>( cs );
    sim::story( "%s", ops::text( cs ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }
  std::string run( unsigned ) const override
  {
    auto uf = topo::calculateConnectedComponents( K );
    std::vector<unsigned> roots;
    uf.roots( std::back_inserter( roots ) );
    std::vector< std::vector<unsigned> > parts;
    for( auto&& r : roots )
    {
      std::vector<unsigned> part;
      uf.get( r, std::back_inserter( part ) );
      parts.push_back( part );
    }
    Calm q;
    for( auto&& p : parts ) std::sort( p.begin(), p.end() );
    std::sort( parts.begin(), parts.end() );
    std::string s;
    for( auto&& p : parts ) s += ops::text( p );
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    Elder e( cs );
    std::map< unsigned, std::vector<unsigned> > parts;
    for( auto&& p : e.component ) parts[ p.second ].push_back( p.first );
    std::vector< std::vector<unsigned> > l;
    for( auto&& p : parts ) l.push_back( p.second );
    std::sort( l.begin(), l.end() );
    std::string s;
    for( auto&& p : l ) s += ops::text( p );
    require( r, s );
  }
};

// Histories of merges and queries.
struct Forest : Op
{
  struct Step { unsigned what, u, v; };
  std::vector<unsigned> vertices;
  std::vector<Step> steps;

  Forest()
  {
    auto l = labels();
    unsigned n = 1 + unsigned( sim::choose( 10 ) );
    for( unsigned i = 0; i < n; i++ ) vertices.push_back( l( i ) );
    for( auto k = sim::choose( 24 ); k > 0; k-- )
    {
      Step s{ unsigned( sim::choose( 6 ) ), sim::pick( vertices ), sim::pick( vertices ) };
      if( s.what >= 4 && sim::flip( 1, 4 ) ) s.u = 9999;
      steps.push_back( s );
    }
    for( auto&& s : steps ) sim::story( "step %u %u %u", s.what, s.u, s.v );
  }

  // 0, 1: merge; 2: roots; 3: members; 4: find; 5: contains
  template <class F> std::string play( F& f ) const
  {
    std::string out;
    for( auto&& s : steps )
    {
      std::string x;
      switch( s.what )
      {
      case 0: case 1: f.merge( s.u, s.v ); break;
      case 2: x = f.roots(); break;
      case 3: x = f.get( s.u ); break;
      case 4: x = f.find( s.u ); break;
      default: x = f.contains( s.u ); break;
      }
      Calm q;
      out += x + ";";
      x = std::string();
    }
    return out;
  }

  struct Real
  {
    topo::UnionFind<unsigned> uf;
    void merge( unsigned u, unsigned v ) { uf.merge( u, v ); }
    std::string roots() { std::vector<unsigned> r; uf.roots( std::back_inserter( r ) ); Calm q; std::sort( r.begin(), r.end() ); return join( r ); }
    std::string get( unsigned u ) { std::vector<unsigned> r; uf.get( u, std::back_inserter( r ) ); Calm q; std::sort( r.begin(), r.end() ); return join( r ); }
    std::string find( unsigned u )
    {
      try { auto r = uf.find( u ); Calm q; return std::to_string( r ); }
      catch( const std::out_of_range& ) { Calm q; return "unknown"; }
    }
    std::string contains( unsigned u ) { return uf.contains( u ) ? "yes" : "no"; }
  };

  struct Model
  {
    std::map<unsigned, unsigned> root;
    void merge( unsigned u, unsigned v )
    {
      if( u == v ) return;
      auto a = root[u], b = root[v];
      for( auto&& p : root ) if( p.second == a ) p.second = b;
    }
    std::string roots() { std::set<unsigned> r; for( auto&& p : root ) r.insert( p.second ); return join( r ); }
    std::string get( unsigned u ) { std::set<unsigned> r; for( auto&& p : root ) if( p.second == root[u] ) r.insert( p.first ); return join( r ); }
    std::string find( unsigned u ) { return root.count( u ) ? std::to_string( root[u] ) : "unknown"; }
    std::string contains( unsigned u ) { return root.count( u ) ? "yes" : "no"; }
  };

  std::string run( unsigned ) const override
  {
    Real f{ topo::UnionFind<unsigned>( vertices.begin(), vertices.end() ) };
    return play( f );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    Model m;
    for( auto&& v : vertices ) m.root[v] = v;
    require( r, play( m ) );
  }
};

struct Hierarchy : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  Complex K;

  Hierarchy() { cs = sample( true ); K = build<Complex>( cs ); sim::story( "%s", ops::text( cs ).c_str() ); }
  std::string input() const override { return ops::text( cells( K ) ); }
  std::string run( unsigned ) const override
  {
    aleph::ExtendedPersistenceHierarchy<Simplex> h;
    auto r = h( K );
    Calm q;
    std::string s = show( pairs( r.first ) ) + " edges:";
    for( auto&& e : r.second ) s += " " + std::to_string( e.first ) + ">" + std::to_string( e.second );
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    // Indices refer to the vertices and edges only.
    std::vector<Cell> graph;
    for( auto&& c : cs ) if( c.v.size() <= 2 ) graph.push_back( c );
    Elder e( graph );
    Pairs p;
    for( auto&& m : e.merges ) p.push_back( { m.creator, std::to_string( m.edge ) } );
    for( auto&& i : e.roots ) p.push_back( { i, "inf" } );
    auto want = show( p ) + " edges:";
    auto at = r.find( " edges:" );
    require( r.substr( 0, at ) + " edges:", want );
    std::istringstream in( r.substr( at + 7 ) );
    for( auto&& l : links( graph ) )
    {
      unsigned a = 0, b = 0;
      char c = 0;
      if( !( in >> a >> c >> b ) || b != l.younger || l.sources.count( a ) == 0 )
        sim::violate( cls( "wrong" ), "edge " + std::to_string( a ) + ">" + std::to_string( b ) + " of the hierarchy where " + std::to_string( l.younger )
                      + " joins " + std::to_string( l.older ) + ", expected from " + join( l.sources ) + ": " + r );
    }
    std::string rest;
    if( in >> rest ) sim::violate( cls( "wrong" ), "too many edges: " + r );
  }
};

Add< ZeroDimensional< topo::Simplex<double, unsigned> > >    a1( "Z08", "zero-dimensional", 4 );
Add< ZeroDimensional< topo::Simplex<float, unsigned short> > > a2( "Z08", "zero-dimensional-float", 1 );
Add<Components> a3( "Z08", "components", 2 );
Add<Forest>     a4( "Z08", "union-find", 2 );
Add<Hierarchy>  a5( "Z08", "hierarchy", 2 );

} // namespace
