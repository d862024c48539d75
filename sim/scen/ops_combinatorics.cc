// K10: cliques, clique graphs, skeletons, spines, cones, suspensions,
// subdivisions and intersections.

#include "ops.hh"

#include <aleph/topology/BarycentricSubdivision.hh>
#include <aleph/topology/CliqueGraph.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/MaximalCliques.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/Skeleton.hh>
#include <aleph/topology/Spine.hh>

#include <aleph/topology/filtrations/Degree.hh>

namespace
{

using namespace ops;
namespace topo = aleph::topology;

using Simplex = topo::Simplex<double, unsigned>;
using Complex = topo::SimplicialComplex<Simplex>;

// An operation on one drawn complex.
struct OnComplex : Op
{
  std::set<Vertices> s;
  std::vector<Cell> c;
  Complex K;

  OnComplex( unsigned n = 7, unsigned dimension = 3, unsigned simplices = 7 )
  {
    s = randomSet( n, dimension, simplices, labels() );
    c = filtration( s );
    K = build<Complex>( c );
    sim::story( "complex %s", ops::text( c ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }
};

std::string text( const std::set<Vertices>& s )
{
  std::string r;
  for( auto&& v : s ) r += ops::text( v ) + ";";
  return r;
}

struct Cliques : OnComplex
{
  Cliques() : OnComplex( 8, 2, 14 ) {}
  std::string run( unsigned variant ) const override
  {
    auto r = variant & 1 ? topo::maximalCliquesKoch( K ) : topo::maximalCliquesBronKerbosch( K );
    Calm q;
    std::vector<Vertices> list;
    for( auto&& x : r ) list.push_back( Vertices( x.begin(), x.end() ) );
    std::sort( list.begin(), list.end() );
    std::string t;
    for( auto&& x : list ) t += ops::text( x ) + ";";
    return t;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::vector<unsigned> v;
    for( auto&& x : s ) if( x.size() == 1 ) v.push_back( x[0] );
    std::set<Vertices> all, maximal;
    for( unsigned mask = 1; mask < ( 1u << v.size() ); mask++ )
    {
      Vertices x;
      for( std::size_t i = 0; i < v.size(); i++ ) if( mask & ( 1u << i ) ) x.push_back( v[i] );
      bool ok = true;
      for( std::size_t i = 0; i < x.size(); i++ )
        for( std::size_t j = i + 1; j < x.size(); j++ ) ok = ok && s.count( { x[i], x[j] } );
      if( ok ) all.insert( x );
    }
    for( auto&& x : all )
    {
      bool ok = true;
      for( auto&& y : all ) ok = ok && ( x == y || !std::includes( y.begin(), y.end(), x.begin(), x.end() ) );
      if( ok ) maximal.insert( x );
    }
    require( r, ::text( maximal ) );
  }
};

struct CliqueGraph : OnComplex
{
  unsigned k;
  CliqueGraph() : OnComplex( 7, 3, 10 ) { k = unsigned( sim::choose( 4 ) ); }
  std::string run( unsigned variant ) const override
  {
    auto L = variant & 1 ? topo::getCliqueGraph( K, k ) : topo::getCliqueGraph( K, k, []( double a, double b ) { return a + b; } );
    Calm q;
    return ops::text( sorted( cells( L ) ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::vector<Cell> want;
    for( unsigned i = 0; i < c.size(); i++ )
    {
      if( c[i].v.size() != k + 1 ) continue;
      want.push_back( { { i }, c[i].w } );
      for( unsigned j = i + 1; j < c.size() && k > 0; j++ )
      {
        if( c[j].v.size() != k + 1 ) continue;
        Vertices common;
        std::set_intersection( c[i].v.begin(), c[i].v.end(), c[j].v.begin(), c[j].v.end(), std::back_inserter( common ) );
        if( common.size() == k ) want.push_back( { { i, j }, variant & 1 ? std::max( c[i].w, c[j].w ) : c[i].w + c[j].w } );
      }
    }
    require( r, ops::text( sorted( want ) ) );
  }
};

// The order of the input is kept.
struct Skeleton : OnComplex
{
  unsigned k;
  Skeleton() { k = unsigned( sim::choose( 5 ) ); }
  std::string run( unsigned variant ) const override
  {
    unsigned m = k;
    auto L = variant & 1 ? topo::Skeleton()( k, K ) : topo::Filter()( K, [m]( const Simplex& x ) { return x.dimension() != m; } );
    Calm q;
    return ops::text( cells( L ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::vector<Cell> want;
    for( auto&& x : c )
      if( variant & 1 ? x.v.size() <= k + 1 : x.v.size() != k + 1 ) want.push_back( x );
    require( r, ops::text( want ) );
  }
};

template <bool Dumb> struct Spine : OnComplex
{
  Spine() : OnComplex( 6, Dumb ? 2 : 3, Dumb ? 5 : 8 ) {}
  std::string run( unsigned ) const override
  {
    auto L = Dumb ? topo::dumb::spine( K ) : topo::spine( K );
    Calm q;
    return ops::text( cells( L ) );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto have = parseCells( r );
    if( ops::text( have ) != r ) sim::violate( cls( "wrong" ), "not a list of simplices: " + r );
    std::map<Vertices, double> weights;
    std::set<Vertices> t;
    for( auto&& x : c ) weights[ x.v ] = x.w;
    std::size_t position = 0;
    for( auto&& x : have )
    {
      if( !weights.count( x.v ) || weights[ x.v ] != x.w || !t.insert( x.v ).second )
        sim::violate( cls( "wrong" ), "simplex " + ops::text( x ) + " is not one of the complex" );
      while( position < c.size() && c[position].v != x.v ) position++;
      if( position == c.size() ) sim::violate( cls( "wrong" ), "the order of the complex is not kept" );
    }
    if( !closed( t ) ) sim::violate( cls( "wrong" ), "a face is missing: " + r );
    if( betti( t ) != betti( s ) ) sim::violate( cls( "wrong" ), "the homology changed: " + r );
    for( auto&& f : t )
    {
      unsigned cofaces = 0;
      Vertices coface;
      for( auto&& g : t )
        if( g.size() == f.size() + 1 && std::includes( g.begin(), g.end(), f.begin(), f.end() ) ) { cofaces++; coface = g; }
      if( cofaces != 1 ) continue;
      bool principal = true;
      for( auto&& g : t )
        if( g.size() == coface.size() + 1 && std::includes( g.begin(), g.end(), coface.begin(), coface.end() ) ) principal = false;
      if( principal ) sim::violate( cls( "wrong" ), "the face " + ops::text( f ) + " is still free: " + r );
    }
  }
};

struct Cone : OnComplex
{
  static double weight( const Simplex& x ) { return x.empty() ? -7 : 3 * x.data() + double( x.size() ); }
  std::string run( unsigned variant ) const override
  {
    Complex L;
    switch( variant )
    {
    case 0: L = topo::cone( K ); break;
    case 1: L = topo::cone( K, weight ); break;
    case 2: L = topo::suspension( K ); break;
    default: L = topo::suspension( K, weight ); break;
    }
    Calm q;
    return ops::text( sorted( cells( L ) ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    unsigned top = 0;
    for( auto&& v : s ) top = std::max( top, v.back() );
    auto want = c;
    for( unsigned apex = top + 1; apex <= top + ( variant < 2 ? 1 : 2 ); apex++ )
    {
      want.push_back( { { apex }, variant & 1 ? -7.0 : 0.0 } );
      for( auto&& x : c )
      {
        auto y = x;
        y.v.push_back( apex );
        y.w = variant & 1 ? 3 * x.w + double( x.v.size() ) : 0;
        want.push_back( y );
      }
    }
    require( r, ops::text( sorted( want ) ) );
  }
};

struct Subdivision : OnComplex
{
  Subdivision() : OnComplex( 6, 3, 3 ) {}
  static double scale( std::size_t dimension ) { return double( dimension + 1 ); }
  std::string run( unsigned variant ) const override
  {
    topo::BarycentricSubdivision f;
    auto L = variant & 1 ? f( K ) : f( K, scale );
    Calm q;
    return ops::text( sorted( cells( L ) ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    auto have = parseCells( r );
    if( ops::text( have ) != r ) sim::violate( cls( "wrong" ), "not a list of simplices: " + r );
    std::map<Vertices, double> weights;
    unsigned top = 0, barycentres = 0;
    for( auto&& x : c ) { weights[ x.v ] = x.w; top = std::max( top, x.v.back() ); barycentres += x.v.size() > 1; }

    // The simplex behind each barycentre is known from its neighbours.
    std::map<unsigned, Vertices> simplex;
    for( auto&& x : have )
    {
      if( x.v.size() == 1 && x.v[0] <= top ) simplex[ x.v[0] ] = x.v;
      if( x.v.size() == 2 && x.v[0] <= top && x.v[1] > top ) simplex[ x.v[1] ].push_back( x.v[0] );
    }
    std::vector<std::string> list, want;
    for( auto&& x : have )
    {
      std::set<Vertices> chain;
      for( auto&& v : x.v ) chain.insert( simplex[v] );
      if( v_outside( x.v, top, barycentres ) ) sim::violate( cls( "wrong" ), "unexpected vertex: " + r );
      list.push_back( render( chain, x.w ) );
    }
    std::vector< std::set<Vertices> > chains;
    for( auto&& v : s ) chains.push_back( { v } );
    for( std::size_t i = 0; i < chains.size(); i++ )
    {
      auto chain = chains[i];
      auto largest = *chain.begin();
      for( auto&& v : chain ) if( v.size() > largest.size() ) largest = v;
      auto w = weights[largest];
      if( largest.size() > 1 && !( variant & 1 ) ) w *= scale( chain.size() - 1 );
      want.push_back( render( chain, w ) );
      for( auto&& v : s )
        if( v.size() > largest.size() && std::includes( v.begin(), v.end(), largest.begin(), largest.end() ) )
        {
          auto longer = chain;
          longer.insert( v );
          chains.push_back( longer );
        }
    }
    std::sort( list.begin(), list.end() );
    std::sort( want.begin(), want.end() );
    std::string a, b;
    for( auto&& x : list ) a += x;
    for( auto&& x : want ) b += x;
    require( a, b );
  }
  static bool v_outside( const Vertices& v, unsigned top, unsigned barycentres )
  {
    for( auto&& x : v ) if( x > top + barycentres ) return true;
    return false;
  }
  static std::string render( const std::set<Vertices>& chain, double w ) { return "[" + ::text( chain ) + "]:" + number( w ) + " "; }
};

struct Intersections : OnComplex
{
  Vertices x;
  Intersections()
  {
    std::set<unsigned> v;
    for( unsigned i = 1 + unsigned( sim::choose( 4 ) ); i > 0; i-- ) v.insert( unsigned( sim::choose( 12 ) ) );
    x.assign( v.begin(), v.end() );
    if( sim::flip( 1, 3 ) ) { auto it = s.begin(); std::advance( it, std::ptrdiff_t( sim::choose( s.size() ) ) ); x = *it; }
    sim::story( "simplex %s", ops::text( x ).c_str() );
  }
  std::string run( unsigned variant ) const override
  {
    Simplex y( x.begin(), x.end() );
    std::set<Simplex> r;
    switch( variant )
    {
    case 0: r = topo::intersect( K, y ); break;
    case 1: r = topo::intersectWithConstrainedDimension( K, y ); break;
    case 2: { auto z = topo::lastLexicographicalIntersection( K, y ); if( z ) r.insert( z ); break; }
    default:
      for( auto&& t : K )
      {
        auto z = topo::intersect( y, t );
        if( z.size() != topo::sizeOfIntersection( y, t ) ) return "sizes differ";
        if( z ) r.insert( z );
      }
      break;
    }
    Calm q;
    std::set<Vertices> out;
    for( auto&& z : r ) out.insert( cell( z ).v );
    return ::text( out );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::set<Vertices> out;
    for( auto&& t : s )
    {
      Vertices common;
      std::set_intersection( x.begin(), x.end(), t.begin(), t.end(), std::back_inserter( common ) );
      if( common.empty() || ( variant == 0 && t.size() > x.size() ) || ( variant == 1 && t.size() != x.size() ) ) continue;
      out.insert( common );
    }
    if( variant == 0 && s.count( x ) ) out = { x };
    if( variant == 2 )
    {
      Vertices best;
      for( auto&& v : out )
        if( v.size() > best.size() || ( v.size() == best.size() && std::lexicographical_compare( best.rbegin(), best.rend(), v.rbegin(), v.rend() ) ) ) best = v;
      out.clear();
      if( !best.empty() ) out.insert( best );
    }
    require( r, ::text( out ) );
  }
};

struct Degrees : OnComplex
{
  std::string run( unsigned variant ) const override
  {
    std::vector<unsigned> d;
    if( variant & 1 )
      for( auto&& x : K ) d.push_back( topo::filtrations::n_degree( K, x ) );
    else
      topo::filtrations::degrees( K, std::back_inserter( d ) );
    Calm q;
    return join( d );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::size_t top = 0;
    for( auto&& v : s ) top = std::max( top, v.size() );
    auto cofaces = [&] ( const Vertices& v )
    {
      unsigned n = 0;
      for( auto&& w : s )
        n += std::includes( w.begin(), w.end(), v.begin(), v.end() ) && ( variant & 1 ? w.size() == top : w.size() > 1 );
      return n;
    };
    std::vector<unsigned> d;
    if( variant & 1 ) for( auto&& x : c ) d.push_back( cofaces( x.v ) );
    else for( auto&& v : s ) if( v.size() == 1 ) d.push_back( cofaces( v ) );
    require( r, join( d ) );
  }
};

Add<Cliques>        a1( "K10", "maximal-cliques", 3 );
Add<CliqueGraph>    a2( "K10", "clique-graph", 2 );
Add<Skeleton>       a3( "K10", "skeleton", 1 );
Add< Spine<false> > a4( "K10", "spine", 3 );
Add< Spine<true> >  a5( "K10", "spine-baseline", 1 );
Add<Cone>           a6( "K10", "cone-and-suspension", 2 );
Add<Subdivision>    a7( "K10", "barycentric-subdivision", 2 );
Add<Intersections>  a8( "K10", "intersections", 1 );
Add<Degrees>        a9( "K10", "degrees", 1 );

} // namespace
