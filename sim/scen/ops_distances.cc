// D11: distances between persistence diagrams.

#include "ops.hh"

#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/distances/Bottleneck.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/PointSet.hh>
#include <aleph/persistenceDiagrams/distances/Wasserstein.hh>

#include <aleph/persistenceDiagrams/distances/detail/Munkres.hh>

#include <functional>
#include <sstream>

namespace
{

using namespace ops;

struct Dot { double x, y; };

double infinity( const Dot& a, const Dot& b ) { return std::max( std::abs( a.x - b.x ), std::abs( a.y - b.y ) ); }
double diagonal( const Dot& a ) { return std::abs( a.y - a.x ) / 2; }

// Coordinates are multiples of 1/2, so that the values are exact.
std::vector<Dot> randomDots( unsigned most )
{
  unsigned n = unsigned( sim::choose( most + 1 ) );
  unsigned spread = 2 + unsigned( sim::choose( sim::flip( 1, 3 ) ? 1000 : 12 ) );
  bool inverted = sim::flip( 1, 6 );
  std::vector<Dot> d;
  for( unsigned i = 0; i < n; i++ )
  {
    double x = 0.5 * double( sim::choose( spread ) ) - 1, y = x + 0.5 * double( sim::choose( spread ) );
    if( inverted ) std::swap( x, y );
    d.push_back( { x, y } );
  }
  return d;
}

template <class T> aleph::PersistenceDiagram<T> diagram( const std::vector<Dot>& d )
{
  aleph::PersistenceDiagram<T> r;
  for( auto&& p : d ) r.add( T( p.x ), T( p.y ) );
  return r;
}

template <class T> std::string text( const aleph::PersistenceDiagram<T>& d )
{
  std::string s;
  for( auto&& p : d ) s += "(" + number( double( p.x() ) ) + "," + number( double( p.y() ) ) + ")";
  return s;
}

// Smallest cost of all matchings; points may be left to the diagonal.
double optimum( const std::vector<Dot>& a, const std::vector<Dot>& b, double power, bool largest )
{
  auto add = [&]( double sum, double d ) { return largest ? std::max( sum, d ) : sum + std::pow( d, power ); };
  std::size_t all = std::size_t( 1 ) << b.size();
  std::vector<double> best( all, 1e300 );
  best[0] = 0;
  for( auto&& p : a )
  {
    std::vector<double> next( all, 1e300 );
    for( std::size_t used = 0; used < all; used++ )
    {
      if( best[ used ] > 1e299 ) continue;
      next[ used ] = std::min( next[ used ], add( best[ used ], diagonal( p ) ) );
      for( std::size_t j = 0; j < b.size(); j++ )
        if( !( used >> j & 1 ) )
        {
          auto& n = next[ used | std::size_t( 1 ) << j ];
          n = std::min( n, add( best[ used ], infinity( p, b[j] ) ) );
        }
    }
    best.swap( next );
  }
  double r = 1e300;
  for( std::size_t used = 0; used < all; used++ )
  {
    if( best[ used ] > 1e299 ) continue;
    double c = best[ used ];
    for( std::size_t j = 0; j < b.size(); j++ )
      if( !( used >> j & 1 ) ) c = add( c, diagonal( b[j] ) );
    r = std::min( r, c );
  }
  return r;
}

// What the library calculates instead of the bottleneck distance, as required
// by one of its tests: projections are tied to each other in such a way that
// hardly any point may be left unmatched.
double restricted( std::vector<Dot> a, std::vector<Dot> b )
{
  if( a.size() < b.size() ) std::swap( a, b );
  std::size_t n = a.size(), m = b.size(), size = n + m;
  if( size == 0 ) return 0;
  std::vector< std::vector<double> > w( size, std::vector<double>( size, -1 ) );
  std::set<double> weights = { 0 };
  for( auto i = n; i < size; i++ )
    for( auto j = i; j < size; j++ ) w[i][j] = 0;
  for( std::size_t i = 0; i < n; i++ )
  {
    for( std::size_t j = 0; j < m; j++ ) weights.insert( w[i][j] = infinity( a[i], b[j] ) );
    weights.insert( w[i][m+i] = diagonal( a[i] ) );
  }
  for( auto&& p : b )
    if( w[n][0] < 0 || diagonal( p ) < w[n][0] ) w[n][0] = diagonal( p );
  if( m ) weights.insert( w[n][0] );
  for( auto&& limit : weights )
  {
    std::vector<std::size_t> mate( size, size );
    std::size_t matched = 0;
    for( std::size_t i = 0; i < size; i++ )
    {
      std::vector<bool> seen( size );
      std::function<bool( std::size_t )> visit = [&]( std::size_t u )
      {
        for( std::size_t v = 0; v < size; v++ )
        {
          if( w[u][v] < 0 || w[u][v] > limit || seen[v] ) continue;
          seen[v] = true;
          if( mate[v] == size || visit( mate[v] ) ) { mate[v] = u; return true; }
        }
        return false;
      };
      matched += visit( i );
    }
    if( matched == size ) return limit;
  }
  return -1;
}

template <class T> struct Pair : Op
{
  std::vector<Dot> a, b;
  aleph::PersistenceDiagram<T> A, B;

  Pair( unsigned most = 6 )
  {
    a = randomDots( most );
    b = sim::flip( 1, 6 ) ? a : randomDots( most );
    if( !b.empty() && sim::flip( 1, 4 ) ) sim::shuffle( b );
    A = diagram<T>( a );
    B = diagram<T>( b );
    sim::story( "diagrams %s and %s", ::text( A ).c_str(), ::text( B ).c_str() );
  }
  std::string input() const override { return ::text( A ) + "/" + ::text( B ); }
  void near( const std::string& r, double want ) const
  {
    auto have = std::atof( r.c_str() );
    auto tolerance = std::is_same<T, float>::value ? 1e-5 : 1e-9;
    if( !( have == want || std::abs( have - want ) <= tolerance * std::max( 1.0, std::abs( want ) ) ) )
      require( r, number( want ) );
  }
};

// The second variant asks for the distance the other way round.  Only the
// strict operation reports the known deviation.
template <class T, bool strict = false> struct Bottleneck : Pair<T>
{
  std::string run( unsigned variant ) const override
  {
    auto d = variant & 1 ? aleph::distances::bottleneckDistance( this->A, this->B ) : aleph::distances::bottleneckDistance( this->B, this->A );
    Calm q;
    return number( double( d ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    double best = optimum( this->a, this->b, 1, true );
    auto known = variant & 1 ? restricted( this->a, this->b ) : restricted( this->b, this->a );
    if( std::atof( r.c_str() ) != best && std::atof( r.c_str() ) == known )
    {
      if( strict && sim::property() == "D11" ) sim::violate( "known-value/bottleneck", "got " + r + " instead of " + number( best ) );
      return;
    }
    this->near( r, best );
  }
};

template <class T> struct Wasserstein : Pair<T>
{
  T power;
  std::size_t dimension;
  Wasserstein()
  {
    power     = T( 1 + sim::choose( 3 ) );
    dimension = sim::choose( 3 );
    this->A.setDimension( dimension );
    this->B.setDimension( dimension );
  }
  std::string run( unsigned variant ) const override
  {
    auto d = variant & 1 ? aleph::distances::wassersteinDistance( this->A, this->B, power ) : aleph::distances::wassersteinDistance( this->B, this->A, power );
    Calm q;
    return number( double( d ) );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    double best = optimum( this->a, this->b, double( power ), false );
    this->near( r, std::pow( best, 1 / double( power ) ) );
  }
};

template <class T> struct SetDistances : Pair<T>
{
  SetDistances() : Pair<T>( 6 ) {}
  std::string run( unsigned variant ) const override
  {
    auto&& A = this->A;
    auto&& B = this->B;
    // Distances between nearest neighbours need neighbours.
    T d = T();
    switch( variant == 2 && A.empty() != B.empty() ? 0 : variant )
    {
    case 0: d = aleph::distances::hausdorffDistance( A, B ); break;
    case 1: d = aleph::distances::hausdorffDistance( B, A ); break;
    case 2: d = aleph::distances::nearestNeighbourDistance( A, B ); break;
    default: d = aleph::distances::sumOfMinimumDistances( A, B ); break;
    }
    Calm q;
    return number( double( d ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    if( this->a.empty() != this->b.empty() ) { this->require( r, "inf" ); return; }
    double largest = 0, sum = 0;
    auto side = [&]( const std::vector<Dot>& a, const std::vector<Dot>& b )
    {
      for( auto&& p : a )
      {
        double m = 1e300;
        for( auto&& q : b ) m = std::min( m, infinity( p, q ) );
        largest = std::max( largest, m );
        sum += m;
      }
    };
    side( this->a, this->b );
    side( this->b, this->a );
    this->near( r, variant < 2 ? largest : sum / 2 );
  }
};

// The assignment solver behind the Wasserstein distance.
struct Assignment : Op
{
  using Matrix = aleph::distances::detail::Matrix<double>;
  std::size_t n;
  Matrix costs;

  Assignment() : n( sim::choose( 10 ) ), costs( n )
  {
    unsigned spread = 2 + unsigned( sim::choose( sim::flip( 1, 3 ) ? 1000 : 12 ) );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = 0; j < n; j++ ) costs( i, j ) = 0.5 * double( sim::choose( spread ) );
    sim::story( "costs %s", input().c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( std::size_t i = 0; i < n; i++ )
    {
      for( std::size_t j = 0; j < n; j++ ) s += number( costs( i, j ) ) + " ";
      s += ";";
    }
    return s;
  }
  std::string run( unsigned variant ) const override
  {
    aleph::distances::detail::Munkres<double> solver( costs );
    auto M = solver();
    auto copy = M;
    M = std::move( copy );
    Calm q;
    std::vector< std::pair<std::size_t, std::size_t> > pairs;
    if( variant == 1 ) solver.matching( std::back_inserter( pairs ) );
    else if( variant == 3 )
    {
      pairs.resize( n + 1, { n, n } );
      solver.matching( pairs.begin() );
      if( pairs.back().first == n ) pairs.pop_back();
    }
    else
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = 0; j < n; j++ )
          if( M( i, j ) == 0 ) pairs.push_back( { i, j } );
    std::string s;
    for( auto&& p : pairs ) s += std::to_string( p.first ) + " " + std::to_string( p.second ) + " ";
    return s + "cost " + number( solver.cost( costs ) );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::vector<double> least( std::size_t( 1 ) << n, 1e300 );
    least[0] = 0;
    for( std::size_t used = 0; used + 1 < least.size(); used++ )
      for( std::size_t j = 0; j < n; j++ )
        if( !( used >> j & 1 ) )
        {
          auto& l = least[ used | std::size_t( 1 ) << j ];
          l = std::min( l, least[ used ] + costs( std::size_t( __builtin_popcountll( used ) ), j ) );
        }
    double best = least.back();
    std::istringstream in( r );
    std::set<std::size_t> rows, columns;
    double c = 0;
    std::size_t i, j;
    for( std::size_t k = 0; k < n; k++ )
    {
      if( !( in >> i >> j ) || i >= n || j >= n || !rows.insert( i ).second || !columns.insert( j ).second )
        sim::violate( cls( "wrong" ), "not an assignment: " + r );
      c += costs( i, j );
    }
    std::string word, value;
    in >> word >> value;
    if( c != best || word != "cost" || value != number( best ) )
      sim::violate( cls( "wrong" ), "the assignment " + r + " costs " + number( c ) + ", the best " + number( best ) );
  }
};

Add< Bottleneck<double> >   a1( "D11", "bottleneck", 3 );
Add< Bottleneck<double, true> > a0( "D11", "bottleneck-optimum", 1, NoFaults | NoThreads );
Add< Bottleneck<float> >    a2( "D11", "bottleneck-float", 1 );
Add< Wasserstein<double> >  a3( "D11", "wasserstein", 3 );
Add< Wasserstein<float> >   a4( "D11", "wasserstein-float", 1 );
Add< SetDistances<double> > a5( "D11", "set-distances", 2 );
Add< SetDistances<float> >  a6( "D11", "set-distances-float", 1 );
Add<Assignment>             a7( "D11", "assignment", 2 );

} // namespace
