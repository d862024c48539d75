// G09: neighbour queries and complexes built from points.

#include "balls.hh"
#include "ops.hh"

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/BetaSkeleton.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/CechComplex.hh>
#include <aleph/geometry/DowkerComplex.hh>
#include <aleph/geometry/FLANN.hh>
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/WitnessComplex.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Hamming.hh>
#include <aleph/geometry/distances/Manhattan.hh>

namespace
{

using namespace ops;
namespace topo = aleph::topology;
namespace geo  = aleph::geometry;

using Cloud     = aleph::containers::PointCloud<double>;
using Euclidean = geo::distances::Euclidean<double>;
using Manhattan = geo::distances::Manhattan<double>;
using Hamming   = geo::distances::Hamming<double>;

using Points = std::vector< std::vector<double> >;

// Coordinates are multiples of 1/2, so that sums of squares are exact.
Points randomPoints( unsigned most, unsigned dimensions, unsigned spread = 12 )
{
  unsigned n = 1 + unsigned( sim::choose( most ) );
  unsigned d = 1 + unsigned( sim::choose( dimensions ) );
  Points p( n, std::vector<double>( d ) );
  for( auto&& x : p )
    for( auto&& c : x ) c = 0.5 * double( sim::choose( spread ) );
  return p;
}

Cloud cloud( const Points& p )
{
  Cloud c( p.size(), p.front().size() );
  for( std::size_t i = 0; i < p.size(); i++ ) c.set( i, p[i].begin(), p[i].end() );
  return c;
}

std::string text( const Cloud& c )
{
  std::string s;
  for( std::size_t i = 0; i < c.size(); i++ ) s += join( c[i] ) + ";";
  return s;
}

template <class D> struct Metric;

template <> struct Metric<Euclidean>
{
  static double of( const std::vector<double>& a, const std::vector<double>& b )
  {
    double s = 0;
    for( std::size_t i = 0; i < a.size(); i++ ) s += ( a[i] - b[i] ) * ( a[i] - b[i] );
    return std::sqrt( s );
  }
  static double radius() { return std::sqrt( 0.25 * double( sim::choose( 120 ) ) + 0.125 ); }   // never a distance
};

template <> struct Metric<Manhattan>
{
  static double of( const std::vector<double>& a, const std::vector<double>& b )
  {
    double s = 0;
    for( std::size_t i = 0; i < a.size(); i++ ) s += std::abs( a[i] - b[i] );
    return s;
  }
  static double radius() { return 0.5 * double( sim::choose( 24 ) ) + 0.25; }
};

template <> struct Metric<Hamming>
{
  static double of( const std::vector<double>& a, const std::vector<double>& b )
  {
    double s = 0;
    for( std::size_t i = 0; i < a.size(); i++ ) s += a[i] != b[i];
    return s;
  }
  static double radius() { return double( sim::choose( 5 ) ) + 0.5; }
};

// -- queries ------------------------------------------------------------

using Indices   = std::vector< std::vector<std::size_t> >;
using Distances = std::vector< std::vector<double> >;

std::string rows( const Indices& indices, const Distances& distances )
{
  std::string s;
  if( indices.size() != distances.size() ) return "sizes differ";
  for( std::size_t i = 0; i < indices.size(); i++ )
  {
    if( indices[i].size() != distances[i].size() ) return "sizes differ";
    std::vector< std::pair<double, std::size_t> > r;
    for( std::size_t j = 0; j < indices[i].size(); j++ ) r.push_back( { distances[i][j], indices[i][j] } );
    std::sort( r.begin(), r.end() );
    for( auto&& x : r ) s += std::to_string( x.second ) + "@" + number( x.first ) + " ";
    s += ";";
  }
  return s;
}

template <template <class, class> class NN, class D> struct Queries : Op
{
  Points p;
  Cloud c;
  bool shared;
  double radius;
  unsigned k;
  std::unique_ptr< NN<Cloud, D> > nn;

  Queries()
  {
    // Beyond ten points, searches use a tree.
    p      = randomPoints( sim::flip( 1, 4 ) ? 40 : 9, 5, 2 + unsigned( sim::choose( 12 ) ) );
    c      = cloud( p );
    radius = Metric<D>::radius();
    k      = unsigned( sim::choose( p.size() + 3 ) );
    shared = sim::flip( 1, 2 );
    if( shared ) nn.reset( new NN<Cloud, D>( c ) );
    sim::story( "radius %.17g k %u shared %d points %s", radius, k, shared, ::text( c ).c_str() );
  }
  std::string input() const override { return ::text( c ); }
  std::string query( const NN<Cloud, D>& n, unsigned variant ) const
  {
    // Whatever the output arguments held before must not matter.
    Indices indices;
    Distances distances;
    if( variant & 1 ) { indices.resize( 2 ); indices[0].assign( 3, 7 ); distances.resize( 1 ); distances[0].assign( 2, -1 ); }
    if( variant & 2 ) n.radiusSearch( radius, indices, distances );
    else              n.neighbourSearch( k, indices, distances );
    Calm q;
    return rows( indices, distances );
  }
  std::string run( unsigned variant ) const override
  {
    if( shared ) return query( *nn, variant );
    NN<Cloud, D> n( c );
    return query( n, variant );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::vector< std::vector< std::pair<double, std::size_t> > > want;
    for( std::size_t i = 0; i < p.size(); i++ )
    {
      want.push_back( {} );
      for( std::size_t j = 0; j < p.size(); j++ )
      {
        auto d = Metric<D>::of( p[i], p[j] );
        if( !( variant & 2 ) || d < radius ) want.back().push_back( { d, j } );
      }
      std::sort( want.back().begin(), want.back().end() );
    }
    if( variant & 2 )
    {
      std::string s;
      for( auto&& w : want ) { for( auto&& x : w ) s += std::to_string( x.second ) + "@" + number( x.first ) + " "; s += ";"; }
      require( r, s );
      return;
    }
    // Ties may be resolved in any way.
    std::istringstream in( r );
    for( std::size_t i = 0; i < p.size(); i++ )
    {
      std::string row;
      if( !std::getline( in, row, ';' ) ) sim::violate( cls( "wrong" ), "no row for point " + std::to_string( i ) + ": " + r );
      std::istringstream items( row );
      std::set<std::size_t> seen;
      std::size_t j, count = 0;
      char at;
      double d;
      while( items >> j >> at >> d )
      {
        if( j >= p.size() || !seen.insert( j ).second || count >= want[i].size() || d != want[i][count].first || d != Metric<D>::of( p[i], p[j] ) )
          sim::violate( cls( "wrong" ), "neighbours of point " + std::to_string( i ) + " are wrong: " + r );
        count++;
      }
      if( count != std::min<std::size_t>( k, p.size() ) )
        sim::violate( cls( "wrong" ), std::to_string( count ) + " neighbours of point " + std::to_string( i ) + " instead of " + std::to_string( std::min<std::size_t>( k, p.size() ) ) );
    }
  }
};

// -- expansion ----------------------------------------------------------

// All cliques of a graph with at most the given number of vertices.
void cliques( const std::vector<unsigned>& vertices, const std::map<Vertices, double>& edges, std::size_t most, std::set<Vertices>& out, Vertices current = Vertices(), std::size_t from = 0 )
{
  for( std::size_t i = from; i < vertices.size(); i++ )
  {
    bool ok = true;
    for( auto&& u : current ) ok = ok && edges.count( { u, vertices[i] } );
    if( !ok || current.size() + 1 > most ) continue;
    auto next = current;
    next.push_back( vertices[i] );
    out.insert( next );
    cliques( vertices, edges, most, out, next, i + 1 );
  }
}

double largestEdge( const Vertices& v, const std::map<Vertices, double>& edges )
{
  double w = 0;
  bool first = true;
  for( std::size_t i = 0; i < v.size(); i++ )
    for( std::size_t j = i + 1; j < v.size(); j++ )
    {
      auto e = edges.at( { v[i], v[j] } );
      w = first ? e : std::max( w, e );
      first = false;
    }
  return w;
}

// Simplices as a set, and whether their order is a filtration.
template <class Complex> std::string asFiltration( const Complex& K )
{
  auto c = cells( K );
  std::set<Vertices> seen;
  bool ok = true;
  for( std::size_t i = 0; i < c.size(); i++ )
  {
    if( i > 0 && c[i].w < c[i-1].w ) ok = false;
    for( auto&& f : boundary( c[i].v ) ) if( !seen.count( f ) ) ok = false;
    seen.insert( c[i].v );
  }
  return ops::text( sorted( c ) ) + ( ok ? "" : "not a filtration" );
}

template <template <class, class> class NN, class D> struct VietorisRips : Op
{
  Points p;
  Cloud c;
  double radius;
  unsigned dimension;
  bool shared;
  std::vector<double> data;
  std::unique_ptr< NN<Cloud, D> > nn;

  VietorisRips()
  {
    p         = randomPoints( sim::flip( 1, 8 ) ? 16 : 7, 3, 8 );
    c         = cloud( p );
    radius    = Metric<D>::radius() / 2;
    if( std::is_same<D, Euclidean>::value ) radius = std::sqrt( 0.25 * double( sim::choose( 40 ) ) + 0.125 );
    else radius = 0.5 * double( sim::choose( 12 ) ) + 0.25;
    dimension = unsigned( sim::choose( 5 ) );
    if( sim::flip( 1, 3 ) ) for( std::size_t i = 0; i < p.size(); i++ ) data.push_back( double( sim::choose( 9 ) ) - 4 );
    shared    = sim::flip( 1, 2 );
    if( shared ) nn.reset( new NN<Cloud, D>( c ) );
    sim::story( "radius %.17g dimension %u data %s points %s", radius, dimension, join( data ).c_str(), ::text( c ).c_str() );
  }
  std::string input() const override { return ::text( c ); }
  std::string make( const NN<Cloud, D>& n ) const
  {
    auto K = data.empty() ? geo::buildVietorisRipsComplex( n, radius, dimension ) : geo::buildVietorisRipsComplex( n, radius, dimension, data.begin(), data.end() );
    Calm q;
    return asFiltration( K );
  }
  std::string run( unsigned ) const override
  {
    if( shared ) return make( *nn );
    NN<Cloud, D> n( c );
    return make( n );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::map<Vertices, double> edges;
    std::vector<unsigned> v;
    for( unsigned i = 0; i < p.size(); i++ )
    {
      v.push_back( i );
      for( unsigned j = i + 1; j < p.size(); j++ )
        if( Metric<D>::of( p[i], p[j] ) < radius ) edges[ { i, j } ] = Metric<D>::of( p[i], p[j] );
    }
    std::set<Vertices> s;
    cliques( v, edges, dimension + 1, s );
    std::vector<Cell> want;
    for( auto&& x : s )
    {
      double w = largestEdge( x, edges );
      if( !data.empty() ) { w = data[ x[0] ]; for( auto&& i : x ) w = std::max( w, data[i] ); }
      want.push_back( { x, w } );
    }
    require( r, ops::text( sorted( want ) ) );
  }
};

struct Graph
{
  std::vector<unsigned> vertices;
  std::map<unsigned, double> vertexWeight;
  std::map<Vertices, double> edges;

  Graph( unsigned most = 7 )
  {
    auto l = labels();
    unsigned n = 1 + unsigned( sim::choose( most ) );
    unsigned p = 1 + unsigned( sim::choose( 10 ) );
    for( unsigned i = 0; i < n; i++ ) { vertices.push_back( l( i ) ); vertexWeight[ l( i ) ] = sim::flip( 1, 3 ) ? 0.25 * double( sim::choose( 4 ) ) : 0; }
    for( unsigned i = 0; i < n; i++ )
      for( unsigned j = i + 1; j < n; j++ )
        if( sim::choose( 10 ) < p ) edges[ { l( i ), l( j ) } ] = 1 + 0.5 * double( sim::choose( 10 ) );
  }
  std::vector<Cell> cells() const
  {
    std::vector<Cell> c;
    for( auto&& v : vertices ) c.push_back( { { v }, vertexWeight.at( v ) } );
    for( auto&& e : edges ) c.push_back( { e.first, e.second } );
    return c;
  }
};

struct Expansion : Op
{
  using Simplex = topo::Simplex<double, unsigned>;
  using Complex = topo::SimplicialComplex<Simplex>;

  Graph g;
  Complex K;
  unsigned dimension, minimum, mode;
  std::vector<double> data;

  Expansion()
  {
    auto c = g.cells();
    sim::shuffle( c );
    K = build<Complex>( c );
    dimension = unsigned( sim::choose( 5 ) );
    mode      = unsigned( sim::choose( 6 ) );
    minimum   = unsigned( sim::choose( dimension + 1 ) );
    for( std::size_t i = 0; i < g.vertices.size(); i++ ) data.push_back( double( sim::choose( 9 ) ) - 4 );
    sim::story( "mode %u dimension %u minimum %u data %s graph %s", mode, dimension, minimum, join( data ).c_str(), ops::text( c ).c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }
  std::string run( unsigned ) const override
  {
    Complex L;
    geo::RipsExpander<Complex> e;
    geo::RipsExpanderTopDown<Complex> t;
    switch( mode )
    {
    case 0: L = e( K, dimension ); break;
    case 1: L = e.assignMaximumWeight( e( K, dimension ) ); break;
    case 2: L = e.assignMaximumData( e( K, dimension ), data.begin(), data.end() ); break;
    case 3: L = e.assignData( e( K, dimension ), data.begin(), data.end(), 100.0, []( double a, double b ) { return std::min( a, b ); } ); break;
    case 4: L = t( K, dimension, minimum ); break;
    default: L = t.assignMaximumWeight( t( K, dimension ), K ); break;
    }
    Calm q;
    return ops::text( sorted( cells( L ) ) );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::set<Vertices> s;
    cliques( g.vertices, g.edges, dimension + 1, s );
    std::map<unsigned, double> value;
    for( std::size_t i = 0; i < g.vertices.size(); i++ ) value[ g.vertices[i] ] = data[i];
    std::vector<Cell> want;
    for( auto&& x : s )
    {
      double w = 0, original = x.size() == 1 ? g.vertexWeight.at( x[0] ) : x.size() == 2 ? g.edges.at( x ) : 0;
      switch( mode )
      {
      case 0: w = original; break;
      case 1: w = x.size() == 1 ? original : largestEdge( x, g.edges ); break;
      case 2: w = value[ x[0] ]; for( auto&& v : x ) w = std::max( w, value[v] ); break;
      case 3: w = value[ x[0] ]; for( auto&& v : x ) w = std::min( w, value[v] ); break;
      case 4: if( x.size() < minimum + 1 ) continue; break;
      default: w = x.size() == 1 ? 0 : largestEdge( x, g.edges ); break;
      }
      want.push_back( { x, w } );
    }
    require( r, ops::text( sorted( want ) ) );
  }
};

// -- Čech complexes --------------------------------------------------------

struct Cech : Op
{
  Points p;
  Cloud c;
  double radius;
  std::map<Vertices, double> want;   // diameters, zero for vertices

  Cech()
  {
    p      = randomPoints( 6, 3, 10 );
    c      = cloud( p );
    radius = 0.05 + 0.37 * double( sim::choose( 10 ) );
    for( unsigned mask = 1; mask < ( 1u << p.size() ); mask++ )
    {
      Points s;
      Vertices v;
      for( unsigned i = 0; i < p.size(); i++ ) if( mask & ( 1u << i ) ) { s.push_back( p[i] ); v.push_back( i ); }
      double r = s.size() == 1 ? 0 : enclosingRadius( s );
      if( std::abs( r - radius ) < 1e-6 ) sim::discard();
      if( r <= radius ) want[v] = 2 * r;
    }
    sim::story( "radius %.17g points %s", radius, ::text( c ).c_str() );
  }
  std::string input() const override { return ::text( c ); }
  std::string run( unsigned ) const override
  {
    // Radii are rounded, so that a simplex may get a marginally smaller
    // weight than its face: only the order of the weights is judged here.
    auto K = geo::buildCechComplex( c, radius );
    Calm q;
    auto list = cells( K );
    for( std::size_t i = 1; i < list.size(); i++ )
      if( list[i].w < list[i-1].w - 1e-6 ) return "weights in no order";
    return ops::text( sorted( list ) );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    // Numerical results: compare with a tolerance.
    std::map<Vertices, double> have;
    for( auto&& c : parseCells( r ) ) have[ c.v ] = c.w;
    bool ok = have.size() == want.size();
    for( auto&& w : want ) ok = ok && have.count( w.first ) && std::abs( have[ w.first ] - w.second ) < 1e-6;
    if( !ok )
    {
      std::string s;
      for( auto&& w : want ) s += ops::text( w.first ) + ":" + number( w.second ) + ";";
      sim::violate( cls( "wrong" ), "got " + r + " instead of " + s );
    }
  }
};

// -- witness and Dowker complexes --------------------------------------------

template <class D> struct Witness : Op
{
  Points p;
  Cloud c;
  std::vector<std::size_t> landmarks;
  unsigned dimension, nu;
  double R;

  Witness()
  {
    p = randomPoints( 9, 3, 10 );
    c = cloud( p );
    std::vector<std::size_t> order;
    for( std::size_t i = 0; i < p.size(); i++ ) order.push_back( i );
    sim::shuffle( order );
    landmarks.assign( order.begin(), order.begin() + 1 + std::ptrdiff_t( sim::choose( std::min<std::size_t>( 6, order.size() ) ) ) );
    dimension = unsigned( sim::choose( 4 ) );
    nu        = unsigned( sim::choose( std::min<std::size_t>( 4, landmarks.size() + 1 ) ) );
    R         = sim::flip( 1, 2 ) ? 0.0 : 0.3173 * double( 1 + sim::choose( 4 ) );
    sim::story( "landmarks %s dimension %u nu %u R %g points %s", join( landmarks ).c_str(), dimension, nu, R, ::text( c ).c_str() );
  }
  std::string input() const override { return ::text( c ); }
  std::string run( unsigned ) const override
  {
    auto K = geo::buildWitnessComplex<D>( c, landmarks.begin(), landmarks.end(), dimension, nu, R );
    Calm q;
    return asFiltration( K );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto n = landmarks.size();
    std::vector<double> m( p.size() );
    for( std::size_t i = 0; i < p.size() && nu > 0; i++ )
    {
      std::vector<double> d;
      for( auto&& l : landmarks ) d.push_back( Metric<D>::of( p[l], p[i] ) );
      std::sort( d.begin(), d.end() );
      m[i] = d[ nu - 1 ];
    }
    std::map<Vertices, double> edges;
    std::vector<unsigned> v;
    for( unsigned a = 0; a < n; a++ )
    {
      v.push_back( a );
      for( unsigned b = a + 1; b < n; b++ )
        for( std::size_t i = 0; i < p.size(); i++ )
        {
          auto x = std::max( Metric<D>::of( p[ landmarks[a] ], p[i] ), Metric<D>::of( p[ landmarks[b] ], p[i] ) );
          if( x > R + m[i] ) continue;
          auto e = edges.find( { a, b } );
          if( e == edges.end() ) edges[ { a, b } ] = x;
          else e->second = std::min( e->second, x );
        }
    }
    std::set<Vertices> s;
    cliques( v, edges, ( dimension == 0 ? p[0].size() + 1 : dimension ) + 1, s );
    std::vector<Cell> want;
    for( auto&& x : s ) want.push_back( { x, largestEdge( x, edges ) } );
    require( r, ops::text( sorted( want ) ) );
  }
};

struct Dowker : Op
{
  using Row = std::vector<double>;
  std::vector<Row> W;
  double R;
  unsigned dimension;

  Dowker()
  {
    std::size_t n = 1 + sim::choose( 5 );
    unsigned density = 1 + unsigned( sim::choose( 10 ) );
    W.assign( n, Row( n ) );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        if( i != j && sim::choose( 10 ) < density ) W[i][j] = 0.5 * double( 1 + sim::choose( 8 ) );
    R = 0.25 + 0.5 * double( sim::choose( 12 ) );
    dimension = unsigned( sim::choose( 4 ) );
    sim::story( "R %g dimension %u weights %s", R, dimension, input().c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( auto&& r : W ) s += join( r ) + ";";
    return s;
  }
  std::string run( unsigned variant ) const override
  {
    if( variant & 1 )
    {
      auto K = geo::buildDowkerSourceCompplex<std::vector<Row>, unsigned, double>( W, R, dimension );
      Calm q;
      return asFiltration( K );
    }
    auto pairs = geo::admissiblePairs( W, R );
    auto K = geo::buildDowkerSinkSourceComplexes<unsigned, double>( pairs, dimension );
    Calm q;
    std::vector<std::string> list;
    for( auto&& x : pairs ) list.push_back( std::to_string( x.p ) + ">" + std::to_string( x.q ) + "@" + number( x.w ) );
    std::sort( list.begin(), list.end() );
    std::string s;
    for( auto&& x : list ) s += x + " ";
    return s + "source " + asFiltration( K.first ) + "sink " + asFiltration( K.second );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::size_t n = W.size();
    std::vector<Row> D( n, Row( n, 1e300 ) );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        if( i == j ) D[i][j] = 0;
        else if( W[i][j] > 0 ) D[i][j] = W[i][j];
    for( std::size_t k = 0; k < n; k++ )
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ ) D[i][j] = std::min( D[i][j], D[i][k] + D[k][j] );
    std::vector<std::string> list;
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ )
        if( D[i][j] <= R ) list.push_back( std::to_string( i ) + ">" + std::to_string( j ) + "@" + number( D[i][j] ) );
    std::sort( list.begin(), list.end() );
    std::string s;
    for( auto&& x : list ) s += x + " ";
    auto complex = [&]( bool source )
    {
      std::vector<Cell> c;
      for( unsigned mask = 1; mask < ( 1u << n ); mask++ )
      {
        Vertices v;
        for( unsigned i = 0; i < n; i++ ) if( mask & ( 1u << i ) ) v.push_back( i );
        if( dimension > 0 && v.size() > dimension + 1 ) continue;
        double best = 1e300;
        for( std::size_t b = 0; b < n; b++ )
        {
          double w = 0;
          for( auto&& x : v ) w = std::max( w, source ? D[b][x] : D[x][b] );
          if( w <= R ) best = std::min( best, w );
        }
        if( best < 1e300 ) c.push_back( { v, best } );
      }
      return ops::text( sorted( c ) );
    };
    if( variant & 1 ) require( r, complex( true ) );
    else require( r, s + "source " + complex( true ) + "sink " + complex( false ) );
  }
};

struct BetaSkeleton : Op
{
  Points p;
  Cloud c;
  double beta;
  std::vector<Cell> want;

  BetaSkeleton()
  {
    unsigned n = 1 + unsigned( sim::choose( 8 ) ), d = 1 + unsigned( sim::choose( 3 ) );
    p.assign( n, std::vector<double>( d ) );
    for( auto&& x : p ) for( auto&& y : x ) y = double( sim::choose( 997 ) ) / 128;
    c    = cloud( p );
    beta = 1 + 0.25 * double( sim::choose( 6 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      want.push_back( { { i }, 0 } );
      for( unsigned j = i + 1; j < n; j++ )
      {
        double dist = Metric<Euclidean>::of( p[i], p[j] );
        if( dist == 0 ) sim::discard();
        bool empty = true;
        for( unsigned k = 0; k < n; k++ )
        {
          if( k == i || k == j ) continue;
          std::vector<double> a( d ), b( d );
          for( unsigned x = 0; x < d; x++ )
          {
            a[x] = ( 1 - beta / 2 ) * p[i][x] + beta / 2 * p[j][x];
            b[x] = ( 1 - beta / 2 ) * p[j][x] + beta / 2 * p[i][x];
          }
          double u = Metric<Euclidean>::of( a, p[k] ), v = Metric<Euclidean>::of( b, p[k] ), r = beta * dist / 2;
          if( std::abs( u - r ) < 1e-9 || std::abs( v - r ) < 1e-9 ) sim::discard();
          if( u <= r && v <= r ) empty = false;
        }
        if( empty ) want.push_back( { { i, j }, dist } );
      }
    }
    sim::story( "beta %g points %s", beta, ::text( c ).c_str() );
  }
  std::string input() const override { return ::text( c ); }
  std::string run( unsigned ) const override
  {
    auto K = geo::buildBetaSkeletonNaive<Euclidean>( c, beta );
    Calm q;
    return ops::text( sorted( cells( K ) ) );
  }
  void judge( const std::string& r, unsigned ) const override { require( r, ops::text( sorted( want ) ) ); }
};

template <class C, class D> using Brute = geo::BruteForce<C, D>;
template <class C, class D> using Flann = geo::FLANN<C, D>;

Add< Queries<Brute, Euclidean> >      a1( "G09", "brute-force-euclidean", 2 );
Add< Queries<Brute, Manhattan> >      a2( "G09", "brute-force-manhattan", 1 );
Add< Queries<Brute, Hamming> >        a3( "G09", "brute-force-hamming", 1 );
Add< Queries<Flann, Euclidean> >      a4( "G09", "flann-euclidean", 2 );
Add< Queries<Flann, Manhattan> >      a5( "G09", "flann-manhattan", 1 );
Add< VietorisRips<Brute, Euclidean> > b1( "G09", "vietoris-rips", 2 );
Add< VietorisRips<Brute, Manhattan> > b2( "G09", "vietoris-rips-manhattan", 1 );
Add< VietorisRips<Flann, Euclidean> > b3( "G09", "vietoris-rips-flann", 2 );
Add<Expansion>                        c1( "G09", "expansion", 4 );
Add<Cech>                             c2( "G09", "cech", 2 );
Add< Witness<Euclidean> >             c3( "G09", "witness", 2 );
Add< Witness<Manhattan> >             c4( "G09", "witness-manhattan", 1 );
Add<Dowker>                           c5( "G09", "dowker", 3 );
Add<BetaSkeleton>                     c6( "G09", "beta-skeleton", 1 );

} // namespace
