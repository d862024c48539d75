// H07: persistence pairings and diagrams of filtered complexes.

#include "intersection.hh"
#include "ops.hh"

#include <aleph/persistenceDiagrams/Calculation.hh>

#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/PhiPersistence.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>

#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/filtrations/Data.hh>

#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

#include <limits>

namespace
{

using namespace ops;

namespace alg  = aleph::persistentHomology::algorithms;
namespace topo = aleph::topology;
namespace rep  = aleph::topology::representations;

std::vector<Cell> sample( bool integral = false )
{
  unsigned n = sim::flip( 1, 8 ) ? 9 : 6;
  return filtration( randomSet( n, 3, n + 2, labels() ), integral );
}

std::size_t dimension( const std::vector<Cell>& c )
{
  std::size_t d = 0;
  for( auto&& x : c ) d = std::max( d, x.v.size() - 1 );
  return d;
}

std::string pairText( std::size_t i, std::size_t j, bool paired ) { return std::to_string( i ) + "-" + ( paired ? std::to_string( j ) : "inf" ) + " "; }

std::string expectedPairing( const std::vector<Cell>& c, bool all, std::size_t end = std::size_t( -1 ) )
{
  auto r = reduce( c );
  auto d = dimension( c );
  std::string s;
  for( std::size_t i = 0; i < std::min( end, c.size() ); i++ )
  {
    auto p = r.pairs.find( i );
    if( p != r.pairs.end() ) s += pairText( i, p->second, true );
    else if( r.unpaired.count( i ) && ( all || c[i].v.size() - 1 != d ) ) s += pairText( i, 0, false );
  }
  return s;
}

template <class Pairing> std::string text( const Pairing& p )
{
  using Index = typename Pairing::IndexType;
  std::string s;
  for( auto&& x : p )
    s += pairText( x.first, x.second, x.second != std::numeric_limits<Index>::max() );
  return s;
}

template <class Diagram> std::string diagramText( const Diagram& D )
{
  std::vector< std::pair<double, std::string> > points;
  for( auto&& p : D )
    points.push_back( { double( p.x() ), p.isUnpaired() ? "inf" : number( double( p.y() ) ) } );
  std::sort( points.begin(), points.end() );
  std::string s = "dimension " + std::to_string( D.dimension() ) + " betti " + std::to_string( D.betti() ) + ":";
  for( auto&& p : points ) s += " " + number( p.first ) + "," + p.second;
  return s + ";";
}

std::string expectedDiagrams( const std::vector<Cell>& c, bool all )
{
  auto r = reduce( c );
  auto top = dimension( c );
  std::map< std::size_t, std::vector< std::pair<double, std::string> > > points;
  std::map<std::size_t, std::size_t> essential;
  for( std::size_t i = 0; i < c.size(); i++ )
  {
    auto d = c[i].v.size() - 1;
    auto p = r.pairs.find( i );
    if( p != r.pairs.end() ) points[d].push_back( { c[i].w, number( c[ p->second ].w ) } );
    else if( r.unpaired.count( i ) && ( all || d != top ) ) { points[d].push_back( { c[i].w, "inf" } ); essential[d]++; }
  }
  std::string s;
  for( auto&& p : points )
  {
    std::sort( p.second.begin(), p.second.end() );
    s += "dimension " + std::to_string( p.first ) + " betti " + std::to_string( essential[ p.first ] ) + ":";
    for( auto&& q : p.second ) s += " " + number( q.first ) + "," + q.second;
    s += ";";
  }
  return s;
}

// Every combination of algorithm, representation and dualisation.
template <class Simplex> struct Diagrams : Op
{
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  Complex K;
  unsigned algorithm, representation;
  bool dualise, all;

  Diagrams()
  {
    cs = sample( !std::is_floating_point<typename Simplex::DataType>::value );
    K = build<Complex>( cs );
    algorithm      = unsigned( sim::choose( 3 ) );
    representation = unsigned( sim::choose( 3 ) );
    dualise        = sim::flip( 1, 2 );
    all            = sim::flip( 1, 2 );
    sim::story( "algorithm %u representation %u dualised %d all %d: %s", algorithm, representation, dualise, all, ops::text( cs ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }

  template <class A, class R> std::string go() const
  {
    auto r = aleph::calculatePersistenceDiagrams<A, R>( K, dualise, all );
    Calm q;
    std::string s;
    for( auto&& D : r ) s += diagramText( D );
    return s;
  }
  template <class A> std::string go() const
  {
    switch( representation )
    {
    case 0:  return go< A, rep::Vector<unsigned> >();
    case 1:  return go< A, rep::Set<unsigned> >();
    default: return go< A, rep::List<unsigned> >();
    }
  }
  std::string run( unsigned ) const override
  {
    switch( algorithm )
    {
    case 0:  return go<alg::Standard>();
    case 1:  return go<alg::Twist>();
    default: return go<alg::StandardRectangular>();
    }
  }
  void judge( const std::string& r, unsigned ) const override { require( r, expectedDiagrams( cs, all ) ); }
};

// The same for pairings; the index type of the matrix varies as well.
struct Pairings : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  Complex K;
  unsigned algorithm, representation;
  bool dualise, all;
  std::size_t end; // creators from here on are left out

  Pairings()
  {
    cs = sample();
    K = build<Complex>( cs );
    algorithm      = unsigned( sim::choose( 3 ) );
    representation = unsigned( sim::choose( 5 ) );
    dualise        = sim::flip( 1, 2 );
    all            = sim::flip( 1, 2 );
    end            = sim::flip( 1, 4 ) ? sim::choose( cs.size() + 1 ) : cs.size();
    sim::story( "algorithm %u representation %u dualised %d all %d end %zu: %s", algorithm, representation, dualise, all, end, ops::text( cs ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }

  template <class A, class R> std::string go() const
  {
    auto M = topo::makeBoundaryMatrix<R>( K );
    auto p = end == cs.size() ? aleph::calculatePersistencePairing<A>( dualise ? M.dualize() : M, all )
                              : aleph::calculatePersistencePairing<A>( dualise ? M.dualize() : M, all, typename R::Index( end ) );
    Calm q;
    return ::text( p );
  }
  template <class A> std::string go() const
  {
    switch( representation )
    {
    case 0:  return go< A, rep::Vector<unsigned> >();
    case 1:  return go< A, rep::Set<unsigned> >();
    case 2:  return go< A, rep::List<unsigned> >();
    case 3:  return go< A, rep::Vector<unsigned long> >();
    default: return go< A, rep::Vector<int> >();
    }
  }
  std::string run( unsigned ) const override
  {
    switch( algorithm )
    {
    case 0:  return go<alg::Standard>();
    case 1:  return go<alg::Twist>();
    default: return go<alg::StandardRectangular>();
    }
  }
  void judge( const std::string& r, unsigned ) const override { require( r, expectedPairing( cs, all, end ) ); }
};

// Several callers reduce one boundary matrix.
template <class R> struct SharedMatrix : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  topo::BoundaryMatrix<R> M, N;
  bool all;

  SharedMatrix()
  {
    cs = sample();
    auto K = build<Complex>( cs );
    M = topo::makeBoundaryMatrix<R>( K );
    N = M.dualize();
    all = sim::flip( 1, 2 );
    sim::story( "all %d: %s", all, ops::text( cs ).c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( auto* B : { &M, &N } )
      for( std::size_t j = 0; j < std::size_t( B->getNumColumns() ); j++ )
        s += join( B->getColumn( typename R::Index( j ) ) ) + "|" + std::to_string( B->getDimension( typename R::Index( j ) ) ) + ";";
    return s;
  }
  std::string run( unsigned variant ) const override
  {
    switch( variant )
    {
    case 0:  { auto p = aleph::calculatePersistencePairing<alg::Standard>( M, all ); Calm q; return ::text( p ); }
    case 1:  { auto p = aleph::calculatePersistencePairing<alg::Twist>( M, all );    Calm q; return ::text( p ); }
    case 2:  { auto p = aleph::calculatePersistencePairing<alg::Twist>( N, all );    Calm q; return ::text( p ); }
    default: { auto p = aleph::calculatePersistencePairing<alg::Standard>( M.dualize().dualize(), all ); Calm q; return ::text( p ); }
    }
  }
  void judge( const std::string& r, unsigned ) const override { require( r, expectedPairing( cs, all ) ); }
};

// Boundary matrices and their duals.
template <class R> struct Matrices : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  Complex K;

  Matrices() { cs = sample(); K = build<Complex>( cs ); sim::story( "%s", ops::text( cs ).c_str() ); }
  std::string input() const override { return ops::text( cells( K ) ); }

  std::string run( unsigned ) const override
  {
    auto M = topo::makeBoundaryMatrix<R>( K );
    auto N = M.dualize();
    bool same = N.dualize() == M;
    Calm q;
    std::string s;
    for( auto* B : { &M, &N } )
    {
      s += B->isDualized() ? "dual " : "plain ";
      for( std::size_t j = 0; j < std::size_t( B->getNumColumns() ); j++ )
      {
        auto c = B->getColumn( typename R::Index( j ) );
        std::sort( c.begin(), c.end() );
        auto m = B->getMaximumIndex( typename R::Index( j ) );
        s += join( c ) + "|" + std::to_string( B->getDimension( typename R::Index( j ) ) ) + "|" + ( m.second ? std::to_string( m.first ) : "-" ) + ";";
      }
    }
    return s + ( same ? "same" : "different" );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto n = cs.size();
    std::map<Vertices, std::size_t> index;
    for( std::size_t i = 0; i < n; i++ ) index[ cs[i].v ] = i;
    std::vector< std::set<std::size_t> > M( n ), N( n );
    for( std::size_t j = 0; j < n; j++ )
      for( auto&& f : boundary( cs[j].v ) )
      {
        M[j].insert( index.at( f ) );
        N[ n - 1 - index.at( f ) ].insert( n - 1 - j );
      }
    auto d = dimension( cs );
    auto show = [&]( const std::vector< std::set<std::size_t> >& B, bool dual )
    {
      std::string s = dual ? "dual " : "plain ";
      for( std::size_t j = 0; j < n; j++ )
      {
        auto dim = dual ? d - ( cs[ n - 1 - j ].v.size() - 1 ) : cs[j].v.size() - 1;
        s += join( B[j] ) + "|" + std::to_string( dim ) + "|" + ( B[j].empty() ? "-" : std::to_string( *B[j].rbegin() ) ) + ";";
      }
      return s;
    };
    require( r, show( M, false ) + show( N, true ) + "same" );
  }
};

// Edits of columns, comparisons and pairings against plain sets.
template <class R> struct Edits : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;
  using Index   = typename R::Index;

  struct Edit { unsigned kind; std::size_t column, other; std::vector<Index> rows; };

  std::vector<Cell> cs;
  Complex K;
  std::size_t max;
  std::vector<Edit> edits;
  std::vector< std::pair<unsigned, unsigned> > pairs, others;

  Edits()
  {
    cs  = sample();
    K   = build<Complex>( cs );
    max = sim::flip( 1, 3 ) ? sim::choose( cs.size() + 1 ) : 0;
    auto n = cs.size();
    for( auto k = n ? 1 + sim::choose( 6 ) : 0; k > 0; k-- )
    {
      Edit e{ unsigned( sim::choose( 4 ) ), sim::choose( n ), sim::choose( n ), {} };
      for( std::size_t i = 0; i < n; i++ ) if( sim::flip( 1, 3 ) ) e.rows.push_back( Index( i ) );
      sim::shuffle( e.rows );
      edits.push_back( e );
    }
    for( auto* P : { &pairs, &others } )
      for( auto k = sim::choose( 5 ); k > 0; k-- ) P->push_back( { unsigned( sim::choose( 3 ) ), sim::flip( 1, 3 ) ? ~0u : unsigned( sim::choose( 3 ) ) } );
    if( sim::flip( 1, 3 ) ) others = pairs;
    sim::story( "%zu columns, %zu edits: %s", max, edits.size(), ops::text( cs ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }

  std::string run( unsigned ) const override
  {
    auto M = max ? topo::makeBoundaryMatrix<R>( K, max ) : topo::makeBoundaryMatrix<R>( K );
    std::string s;
    auto show = [&] ( bool same, bool different )
    {
      Calm q;
      for( std::size_t j = 0; j < std::size_t( M.getNumColumns() ); j++ )
      {
        auto c = M.getColumn( Index( j ) );
        auto m = M.getMaximumIndex( Index( j ) );
        s += join( c ) + "|" + std::to_string( M.getDimension( Index( j ) ) ) + "|" + ( m.second ? std::to_string( m.first ) : "-" ) + ";";
      }
      s += std::to_string( M.getDimension() ) + ( same ? " same " : " other " ) + ( different ? "different\n" : "equal\n" );
    };
    show( M == M, M != M );
    for( auto&& e : edits )
    {
      auto N = M;
      if( e.kind == 0 ) M.setColumn( Index( e.column ), e.rows.begin(), e.rows.end() );
      else if( e.kind == 1 ) M.clearColumn( Index( e.column ) );
      else if( e.kind == 2 ) M.setDimension( Index( e.column ), Index( e.other % 4 ) );
      else if( e.column != e.other ) M.addColumns( Index( e.other ), Index( e.column ) );
      show( M == N, M != N );
    }
    aleph::PersistencePairing<unsigned> p, o;
    for( auto&& x : pairs )  { if( x.second == ~0u ) p.add( x.first ); else p.add( x.first, x.second ); }
    for( auto&& x : others ) { if( x.second == ~0u ) o.add( x.first ); else o.add( x.first, x.second ); }
    std::ostringstream out;
    out.exceptions( std::ios::badbit );
    out << p;
    bool same = p == o, different = p != o;
    Calm q;
    s += std::to_string( p.size() ) + ( p.empty() ? " empty" : "" ) + ( same ? " same " : " other " ) + ( different ? "different\n" : "equal\n" );
    for( unsigned i = 0; i < 3; i++ )
    {
      s += p.contains( i ) ? std::to_string( p.find( i ) - p.begin() ) + ":" : "-:";
      for( unsigned j : { 0u, 1u, 2u, ~0u } ) s += p.contains( i, j ) ? std::to_string( p.find( i, j ) - p.begin() ) + " " : "- ";
    }
    std::istringstream in( out.str() );
    std::string l;
    while( std::getline( in, l ) ) if( l.find_first_not_of( "- " ) != std::string::npos ) s += "\n" + l;
    return s;
  }

  void judge( const std::string& r, unsigned ) const override
  {
    auto n = cs.size();
    std::map<Vertices, std::size_t> index;
    for( std::size_t i = 0; i < n; i++ ) index[ cs[i].v ] = i;
    using Column = std::pair<std::set<std::size_t>, std::size_t>;
    std::vector<Column> M( n );
    for( std::size_t j = 0; j < n; j++ )
    {
      if( !max || j < max ) for( auto&& f : boundary( cs[j].v ) ) M[j].first.insert( index.at( f ) );
      M[j].second = cs[j].v.size() - 1;
    }
    std::string s;
    auto show = [&] ( bool same )
    {
      std::size_t d = 0;
      for( auto&& c : M )
      {
        d = std::max( d, c.second );
        s += join( c.first ) + "|" + std::to_string( c.second ) + "|" + ( c.first.empty() ? "-" : std::to_string( *c.first.rbegin() ) ) + ";";
      }
      s += std::to_string( d ) + ( same ? " same equal\n" : " other different\n" );
    };
    show( true );
    for( auto&& e : edits )
    {
      auto N = M;
      auto& c = M[ e.column ];
      if( e.kind == 0 ) { c.first.clear(); for( auto&& i : e.rows ) c.first.insert( std::size_t( i ) ); c.second = e.rows.empty() ? 0 : e.rows.size() - 1; }
      else if( e.kind == 1 ) c.first.clear();
      else if( e.kind == 2 ) c.second = e.other % 4;
      else if( e.column != e.other ) for( auto&& i : M[ e.other ].first ) if( !c.first.insert( i ).second ) c.first.erase( i );
      show( M == N );
    }
    s += std::to_string( pairs.size() ) + ( pairs.empty() ? " empty" : "" ) + ( pairs == others ? " same equal\n" : " other different\n" );
    for( unsigned i = 0; i < 3; i++ )
    {
      auto at = [&] ( std::function<bool( const std::pair<unsigned, unsigned>& )> f )
      {
        auto it = std::find_if( pairs.begin(), pairs.end(), f );
        return it == pairs.end() ? std::string( "-" ) : std::to_string( it - pairs.begin() );
      };
      s += at( [&] ( const std::pair<unsigned, unsigned>& x ) { return x.first == i; } ) + ":";
      for( unsigned j : { 0u, 1u, 2u, ~0u } ) s += at( [&] ( const std::pair<unsigned, unsigned>& x ) { return x.first == i && x.second == j; } ) + " ";
    }
    for( auto&& x : pairs ) s += "\n" + std::to_string( x.first ) + "," + std::to_string( x.second );
    require( r, s );
  }
};

// From a sorted complex to diagrams with the defaults.
struct Defaults : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  Complex K;

  Defaults()
  {
    cs = sample();
    auto shuffled = cs;
    sim::shuffle( shuffled );
    K = build<Complex>( shuffled );
    sim::story( "%s", ops::text( shuffled ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }
  std::string run( unsigned ) const override
  {
    auto L = K;
    L.sort( topo::filtrations::Data<Simplex>() );
    auto r = aleph::calculatePersistenceDiagrams( L );
    Calm q;
    std::string s;
    for( auto&& D : r ) s += diagramText( D );
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    // Any order of simplices of equal weight gives the same diagrams up to
    // points on the diagonal; the order of the library is used for all points.
    auto c = cs;
    std::sort( c.begin(), c.end(), []( const Cell& a, const Cell& b )
    {
      if( a.w != b.w ) return a.w < b.w;
      if( a.v.size() != b.v.size() ) return a.v.size() < b.v.size();
      return std::lexicographical_compare( a.v.rbegin(), a.v.rend(), b.v.rbegin(), b.v.rend() );
    } );
    require( r, expectedDiagrams( c, false ) );
  }
};

// Diagrams of one-dimensional functions, given by a matrix and a list of values.
struct Function : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  std::vector<double> values;
  Complex K;
  unsigned representation;
  bool dualise;

  Function()
  {
    unsigned n = 1 + unsigned( sim::choose( sim::flip( 1, 8 ) ? 30 : 8 ) );
    std::vector<double> f;
    for( unsigned i = 0; i < n; i++ ) f.push_back( sim::range( -6, 6 ) * 0.5 );
    for( unsigned i = 0; i < n; i++ ) cs.push_back( { { i }, f[i] } );
    for( unsigned i = 0; i + 1 < n; i++ ) cs.push_back( { { i, i + 1 }, std::max( f[i], f[i+1] ) } );
    std::stable_sort( cs.begin(), cs.end(), []( const Cell& a, const Cell& b ) { return a.w < b.w; } );
    for( auto&& c : cs ) values.push_back( c.w );
    K = build<Complex>( cs );
    representation = unsigned( sim::choose( 3 ) );
    dualise        = sim::flip( 1, 2 );
    sim::story( "representation %u dualised %d: %s", representation, dualise, ops::text( cs ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ) + join( values ); }

  template <class R> std::string go() const
  {
    auto M = topo::makeBoundaryMatrix<R>( K );
    auto D = aleph::calculatePersistenceDiagram( dualise ? M.dualize() : M, values );
    Calm q;
    return diagramText( D );
  }
  std::string run( unsigned ) const override
  {
    switch( representation )
    {
    case 0:  return go< rep::Vector<unsigned> >();
    case 1:  return go< rep::Set<unsigned> >();
    default: return go< rep::List<unsigned> >();
    }
  }
  void judge( const std::string& r, unsigned ) const override
  {
    require( r, cs.size() == 1 ? "dimension 0 betti 0:;" : expectedDiagrams( cs, false ) );
  }
};

// Persistent intersection homology of a filtered complex with strata.
struct Intersection : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  std::vector<Cell> cs;
  std::vector< std::set<Vertices> > strata;
  std::vector<int> values;                  // as given
  std::vector<int> perversity;              // of codimension 1, 2, ...
  bool original = false;
  bool tooFew   = false;
  std::size_t top;
  Complex K;
  std::vector<Complex> X;

  Intersection()
  {
    cs  = filtration( randomSet( 6, 3, 8, labels() ) );
    top = dimension( cs );
    original = top >= 2 && sim::flip( 1, 3 );

    strata.resize( top + 1 );
    for( auto&& c : cs ) strata[top].insert( c.v );
    for( std::size_t i = top; i-- > 0; )
    {
      std::vector<Vertices> pool;
      bool equal = original && i + 2 == top;
      for( auto&& v : strata[i+1] )
      {
        if( equal || ( original && i + 1 == top ? v.size() < top : v.size() <= i + 1 ) ) pool.push_back( v );
      }
      for( auto&& v : pool )
        if( equal || sim::flip( 1, 3 ) ) closure( strata[i], v );
    }
    tooFew = !original && top > 0 && sim::flip( 1, 16 );
    if( tooFew ) strata.pop_back();

    auto n = sim::choose( top + 2 );
    for( std::uint64_t i = 0; i < n; i++ )
      values.push_back( int( sim::choose( original ? 4 : 7 ) ) - ( original ? 0 : 2 ) );
    if( original && !values.empty() ) values[0] = 0;
    for( std::size_t i = 0; i < values.size(); i++ )
    {
      int v = values[i];
      if( !original ) v = std::max( -1, std::min( v, int( i ) ) );
      else if( i > 0 && v != perversity[i-1] && v != perversity[i-1] + 1 ) v = perversity[i-1] + 1;
      perversity.push_back( v );
    }
    if( original ) perversity.insert( perversity.begin(), 0 );
    perversity.resize( top + 1, 0 );

    K = build<Complex>( cs );
    for( auto&& x : strata )
    {
      std::vector<Cell> part;
      for( auto&& c : cs )
        if( x.count( c.v ) ) part.push_back( c );
      X.push_back( build<Complex>( part ) );
    }
    std::string s;
    for( auto&& x : X ) s += " X: " + ops::text( cells( x ) );
    sim::story( "%s%s p: %s%s", ops::text( cs ).c_str(), s.c_str(), join( values ).c_str(), original ? " original" : "" );
  }

  std::string input() const override
  {
    std::string s = ops::text( cells( K ) );
    for( auto&& x : X ) s += "|" + ops::text( cells( x ) );
    return s;
  }

  std::string run( unsigned variant ) const override
  {
    std::vector< aleph::PersistenceDiagram<double> > r;
    try
    {
      bool dualize = variant % 2;
      r = original ? aleph::calculateIntersectionHomology( K, X, aleph::PerversityGM( values.begin(), values.end() ), dualize )
                   : aleph::calculateIntersectionHomology( K, X, aleph::Perversity( values.begin(), values.end() ), dualize );
    }
    catch( std::runtime_error& )
    {
      return "refused";
    }
    Calm q;
    std::string s;
    for( auto&& D : r )
    {
      D.removeDiagonal();
      if( !D.empty() ) s += diagramText( D );
    }
    return s;
  }

  std::string expected() const
  {
    std::bitset<64> allowable;
    for( std::size_t i = 0; i < cs.size(); i++ )
    {
      std::set<Vertices> faces;
      closure( faces, cs[i].v );
      bool good = true;
      for( std::size_t k = original ? 2 : 1; k <= top; k++ )
        for( auto&& f : faces )
          if( strata[ top - k ].count( f ) )
            good = good && int( f.size() ) - 1 <= int( cs[i].v.size() ) - 1 - int( k ) + perversity[ k - 1 ];
      allowable[i] = good;
    }

    std::string s;
    for( auto&& D : intersection::points( cs, allowable ) )
    {
      if( D.second.empty() ) continue;
      auto essential = std::count_if( D.second.begin(), D.second.end(), [] ( const std::pair<double, double>& p ) { return std::isinf( p.second ); } );
      std::vector< std::pair<double, std::string> > points;
      for( auto&& p : D.second ) points.push_back( { p.first, std::isinf( p.second ) ? "inf" : number( p.second ) } );
      std::sort( points.begin(), points.end() );
      s += "dimension " + std::to_string( D.first ) + " betti " + std::to_string( essential ) + ":";
      for( auto&& p : points ) s += " " + number( p.first ) + "," + p.second;
      s += ";";
    }
    return s;
  }

  void judge( const std::string& r, unsigned ) const override
  {
    require( r, tooFew ? "refused" : expected() );
  }
};

Add< Diagrams< topo::Simplex<double, unsigned> > >             a1( "H07", "diagrams", 4 );
Add< Diagrams< topo::Simplex<float, unsigned short> > >        a2( "H07", "diagrams-float", 1 );
Add< Diagrams< topo::Simplex<unsigned, std::size_t> > >        a3( "H07", "diagrams-unsigned", 1 );
Add<Pairings>                                                  a4( "H07", "pairings", 4 );
Add< SharedMatrix< rep::Vector<unsigned> > >                   a5( "H07", "shared-matrix-vector", 1 );
Add< SharedMatrix< rep::Set<unsigned> > >                      a6( "H07", "shared-matrix-set", 1 );
Add< SharedMatrix< rep::List<unsigned> > >                     a7( "H07", "shared-matrix-list", 1 );
Add< Matrices< rep::Vector<unsigned> > >                       a8( "H07", "matrix-vector", 1 );
Add< Matrices< rep::Set<unsigned> > >                          a9( "H07", "matrix-set", 1 );
Add< Matrices< rep::List<unsigned> > >                         b1( "H07", "matrix-list", 1 );
Add< Edits< rep::Vector<unsigned> > >                          b5( "H07", "edits-vector", 1 );
Add< Edits< rep::Set<unsigned> > >                             b6( "H07", "edits-set", 1 );
Add< Edits< rep::List<unsigned> > >                            b7( "H07", "edits-list", 1 );
Add< Edits< rep::Vector<int> > >                               b8( "H07", "edits-signed", 1 );
Add<Defaults>                                                  b2( "H07", "default-diagrams", 2 );
Add<Function>                                                  b4( "H07", "function", 1 );
Add<Intersection>                                              b3( "H07", "intersection", 3 );

} // namespace
