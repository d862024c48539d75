// S13, S14: bootstrap and random constructions.

#include "ops.hh"

#include <aleph/math/Bootstrap.hh>

#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/SphereSampling.hh>
#include <aleph/geometry/TorusSampling.hh>
#include <aleph/geometry/WitnessComplex.hh>

#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>

#include <aleph/topology/RandomGraph.hh>

#include <sstream>

namespace
{

using namespace ops;

// -- bootstrap ------------------------------------------------------------

struct Thrown : std::exception {};

// What a statistic has been shown and has answered.
template <class T> struct Record
{
  const T* data;                            // original data
  unsigned kind = 0;                        // which statistic
  long left = -1;                           // calls until it throws
  std::vector< std::vector<T> > samples;
  std::vector<double> values;
  std::vector<T> original;
  double theta = 0;
};

template <class T> double statistic( std::vector<T> v, unsigned kind )
{
  std::sort( v.begin(), v.end() );
  if( kind == 0 )
  {
    double s = 0;
    for( auto&& x : v ) s += double( x );
    return s / double( v.size() );
  }
  if( kind == 1 ) return double( v[ v.size() / 2 ] );
  return double( v.back() );
}

template <class T> struct Statistic
{
  Record<T>* r;

  void tick() const
  {
    if( r->left == 0 ) { r->left = -1; throw Thrown(); }
    if( r->left > 0 ) r->left--;
  }
  double operator()( const T* begin, const T* end ) const
  {
    tick();
    Calm q;
    r->original.assign( begin, end );
    return r->theta = statistic( r->original, r->kind );
  }
  template <class I> double operator()( I begin, I end ) const
  {
    tick();
    Calm q;
    std::vector<T> v( begin, end );
    r->samples.push_back( v );
    r->values.push_back( v.empty() ? 0 : statistic( v, r->kind ) );
    return r->values.back();
  }
};

template <class T> struct Bootstrapped : Op
{
  std::vector<T> data;
  unsigned numSamples, kind;
  double alpha;
  long throwAt = -1;

  Bootstrapped( bool many = false )
  {
    unsigned n = many ? 1 + unsigned( sim::choose( 12 ) ) : 2 + unsigned( sim::choose( 7 ) );
    for( unsigned i = 0; i < n; i++ ) data.push_back( T( 10 * i + sim::choose( 10 ) ) );
    numSamples = many ? 100 : 2 + unsigned( sim::choose( 30 ) );
    kind  = unsigned( sim::choose( 3 ) );
    alpha = sim::pick( { 0.05, 0.1, 0.2, 0.5, 0.01, 0.9, 0.99, 1.0, 0.0, 0.3, 1e-9, 0.07 } );
    if( sim::flip( 1, 4 ) ) throwAt = long( sim::choose( numSamples ) );
    sim::story( "%u values %s, %u samples, statistic %u, alpha %g, throws at %ld", n, join( data ).c_str(), numSamples, kind, alpha, throwAt );
  }
  std::string input() const override { return join( data ); }

  template <class F> std::string attempt( F f ) const
  {
    std::string s;
    if( throwAt >= 0 )
    {
      Record<T> r;
      r.data = data.data();
      r.kind = kind;
      r.left = throwAt;
      bool thrown = false;
      try { f( Statistic<T>{ &r } ); }
      catch( const Thrown& ) { thrown = true; }
      Calm q;
      if( !thrown ) s += "swallowed\n";
    }
    Record<T> r;
    r.data = data.data();
    r.kind = kind;
    auto result = f( Statistic<T>{ &r } );
    Calm q;
    s += "values " + join( r.values ) + "\n";
    for( auto&& x : r.samples ) s += "sample " + join( x ) + "\n";
    s += "original " + join( r.original ) + "\n";
    s += "result " + join( result ) + "\n";
    return s;
  }

  struct Seen
  {
    std::vector<double> values, result, original;
    std::vector< std::vector<double> > samples;
  };

  Seen parse( const std::string& text ) const
  {
    Seen x;
    std::istringstream in( text );
    for( std::string line; std::getline( in, line ); )
    {
      std::istringstream l( line );
      std::string tag;
      l >> tag;
      std::vector<double> v;
      for( std::string y; l >> y; ) v.push_back( std::strtod( y.c_str(), nullptr ) );
      if( tag == "swallowed" ) sim::violate( cls( "report" ), "the exception of the statistic was not passed on" );
      if( tag == "values" ) x.values = v;
      if( tag == "sample" ) x.samples.push_back( v );
      if( tag == "result" ) x.result = v;
      if( tag == "original" ) x.original = v;
    }
    return x;
  }

  Seen basics( const std::string& text ) const
  {
    auto x = parse( text );
    if( x.samples.size() != numSamples ) sim::violate( cls( "wrong" ), std::to_string( x.samples.size() ) + " replicates instead of " + std::to_string( numSamples ) );
    for( auto&& s : x.samples )
    {
      if( s.size() != data.size() ) sim::violate( cls( "wrong" ), "a replicate is made from " + std::to_string( s.size() ) + " values" );
      for( auto&& y : s )
        if( std::find( data.begin(), data.end(), T( y ) ) == data.end() ) sim::violate( cls( "wrong" ), number( y ) + " does not occur in the data" );
    }
    if( !x.original.empty() && x.original != std::vector<double>( data.begin(), data.end() ) ) sim::violate( cls( "wrong" ), "the statistic was not shown the data" );
    return x;
  }

  static bool close( double a, double b ) { return std::abs( a - b ) <= 1e-9 * ( 1 + std::abs( a ) + std::abs( b ) ); }

  // Values at a percentile; there are two if the position is an integer up to
  // rounding errors.
  static std::vector<double> percentile( std::vector<double> v, double a )
  {
    std::sort( v.begin(), v.end() );
    double x = double( v.size() ) * a;
    std::vector<double> r;
    for( double y : { x - 1e-9, x, x + 1e-9 } )
    {
      long i = long( std::ceil( y ) ) - 1;
      i = std::max( 0l, std::min( i, long( v.size() ) - 1 ) );
      r.push_back( v[ std::size_t( i ) ] );
    }
    return r;
  }

  static bool among( double x, const std::vector<double>& v )
  {
    for( auto&& y : v ) if( close( x, y ) ) return true;
    return false;
  }

  void interval( const Seen& x, double a, double b ) const
  {
    sim::violate( cls( "wrong" ), "interval is " + join( x.result ) + " instead of " + number( a ) + " " + number( b ) + " for the replicates " + join( x.values ) );
  }
};

template <class T> struct Replicates : Bootstrapped<T>
{
  std::string run( unsigned variant ) const override
  {
    auto n = this->numSamples;
    auto&& d = this->data;
    return this->attempt( [&]( Statistic<T> s )
    {
      std::vector<double> out;
      aleph::math::Bootstrap b;
      if( variant & 1 ) b.makeReplicates( n, d.data(), d.data() + d.size(), s, std::back_inserter( out ) );
      else
      {
        out.resize( n );
        b.makeReplicates( n, d.data(), d.data() + d.size(), s, out.begin() );
      }
      return out;
    } );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto x = this->basics( r );
    if( x.result != x.values ) sim::violate( this->cls( "wrong" ), "replicates are " + join( x.result ) + " although the statistic returned " + join( x.values ) );
  }
};

template <class T> struct Reachable : Bootstrapped<T>
{
  Reachable() : Bootstrapped<T>( true ) { this->throwAt = -1; sim::randomness::style( 0 ); }
  std::string run( unsigned ) const override
  {
    return this->attempt( [&]( Statistic<T> s )
    {
      std::vector<double> out;
      aleph::math::Bootstrap b;
      b.makeReplicates( this->numSamples, this->data.data(), this->data.data() + this->data.size(), s, std::back_inserter( out ) );
      return out;
    } );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto x = this->basics( r );
    for( auto&& y : this->data )
    {
      bool found = false;
      for( auto&& s : x.samples ) found = found || std::find( s.begin(), s.end(), double( y ) ) != s.end();
      if( !found ) sim::violate( this->cls( "wrong" ), number( double( y ) ) + " never occurs in " + std::to_string( this->numSamples ) + " replicates" );
    }
    // Replicates are drawn with replacement and independently.
    if( this->data.size() > 2 )
    {
      bool repeated = false, different = false;
      for( auto&& s : x.samples )
      {
        auto t = s, u = x.samples.front();
        std::sort( t.begin(), t.end() );
        std::sort( u.begin(), u.end() );
        repeated  = repeated || std::adjacent_find( t.begin(), t.end() ) != t.end();
        different = different || t != u;
      }
      if( !repeated || !different ) sim::violate( this->cls( "wrong" ), repeated ? "all replicates are the same" : "values are drawn without replacement" );
    }
  }
};

template <class T, unsigned Kind> struct Interval : Bootstrapped<T>
{
  std::string run( unsigned ) const override
  {
    auto n = this->numSamples;
    auto a = this->alpha;
    auto* d = this->data.data();
    auto* e = d + this->data.size();
    return this->attempt( [&]( Statistic<T> s )
    {
      aleph::math::Bootstrap b;
      auto p = Kind == 0 ? b.percentileConfidenceInterval( n, a, d, e, s )
             : Kind == 1 ? b.basicConfidenceInterval( n, a, d, e, s )
             :             b.studentConfidenceInterval( n, std::min( 0.99, std::max( 0.01, a ) ), d, e, s );
      return std::vector<double>{ p.first, p.second };
    } );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto x = this->basics( r );
    if( x.result.size() != 2 ) sim::violate( this->cls( "wrong" ), r );
    auto lo = this->percentile( x.values, this->alpha / 2 ), hi = this->percentile( x.values, 1 - this->alpha / 2 );
    auto theta = statistic( this->data, this->kind );
    if( Kind == 0 )
    {
      if( !this->among( x.result[0], lo ) || !this->among( x.result[1], hi ) ) this->interval( x, lo[1], hi[1] );
    }
    else if( Kind == 1 )
    {
      for( auto&& y : lo ) y = 2 * theta - y;
      for( auto&& y : hi ) y = 2 * theta - y;
      if( !this->among( x.result[0], hi ) || !this->among( x.result[1], lo ) ) this->interval( x, hi[1], lo[1] );
    }
    else
    {
      double mean = 0, se = 0;
      for( auto&& y : x.values ) mean += y / double( x.values.size() );
      for( auto&& y : x.values ) se += ( y - mean ) * ( y - mean );
      se = std::sqrt( se / double( x.values.size() - 1 ) );
      auto a = std::min( 0.99, std::max( 0.01, this->alpha ) );
      boost::math::students_t t( double( this->data.size() - 1 ) );
      auto q = boost::math::quantile( t, 1 - a );
      if( std::abs( x.result[0] - ( theta - q * se ) ) > 1e-6 * ( 1 + std::abs( q * se ) ) || std::abs( x.result[1] - ( theta + q * se ) ) > 1e-6 * ( 1 + std::abs( q * se ) ) )
        this->interval( x, theta - q * se, theta + q * se );
    }
  }
};

template <class T> struct Deviation : Bootstrapped<T>
{
  std::string run( unsigned ) const override
  {
    return this->attempt( [&]( Statistic<T> s )
    {
      aleph::math::Bootstrap b;
      return std::vector<double>{ b.standardError( this->numSamples, this->data.data(), this->data.data() + this->data.size(), s ) };
    } );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    auto x = this->basics( r );
    double mean = 0, se = 0;
    for( auto&& y : x.values ) mean += y / double( x.values.size() );
    for( auto&& y : x.values ) se += ( y - mean ) * ( y - mean );
    se = std::sqrt( se / double( x.values.size() - 1 ) );
    if( std::abs( x.result.at( 0 ) - se ) > 1e-6 * ( 1 + se ) ) this->interval( x, se, se );
  }
};

// Nothing to draw from
struct NoData : Op
{
  std::string run( unsigned ) const override
  {
    aleph::math::Bootstrap b;
    std::vector<double> none, out;
    auto f = []( std::vector<double>::const_iterator a, std::vector<double>::const_iterator e ) { return double( e - a ); };
    const auto& n = none;
    b.makeReplicates( 3, n.begin(), n.end(), [&]( auto, auto ) { return 1.0; }, std::back_inserter( out ) );
    (void) f;
    return std::to_string( out.size() );
  }
  void judge( const std::string& r, unsigned ) const override { require( r, "0" ); }
};

Add< Replicates<double> >     b1( "S13", "replicates", 3 );
Add< Replicates<unsigned> >   b2( "S13", "replicates-integer", 2 );
Add< Reachable<double> >      b3( "S13", "reachable", 1 );
Add< Interval<double, 0> >    b4( "S13", "percentile-interval", 3 );
Add< Interval<double, 1> >    b5( "S13", "basic-interval", 3 );
Add< Interval<unsigned, 2> >  b6( "S13", "student-interval", 2 );
Add< Deviation<double> >      b7( "S13", "standard-error", 2 );
Add< NoData >                 b8( "S13", "no-data", 1 );

// -- landmarks -----------------------------------------------------------------

struct RandomLandmarks : Op
{
  unsigned n, k;
  RandomLandmarks()
  {
    n = unsigned( sim::choose( 12 ) );
    k = unsigned( sim::choose( n + 3 ) );
    sim::story( "%u of %u", k, n );
  }
  std::string run( unsigned variant ) const override
  {
    std::string s;
    if( variant & 1 )
    {
      std::vector<std::size_t> out;
      try { aleph::geometry::generateRandomLandmarks( std::size_t( n ), std::size_t( k ), std::back_inserter( out ) ); }
      catch( const std::out_of_range& ) { return "refused"; }
      Calm q;
      s = join( out );
    }
    else
    {
      std::vector<unsigned> out;
      try { aleph::geometry::generateRandomLandmarks( n, k, std::back_inserter( out ) ); }
      catch( const std::out_of_range& ) { return "refused"; }
      Calm q;
      s = join( out );
    }
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    if( k > n ) { require( r, "refused" ); return; }
    std::istringstream in( r );
    std::set<unsigned> seen;
    unsigned m = 0;
    for( unsigned x; in >> x; m++ )
    {
      if( x >= n || !seen.insert( x ).second ) sim::violate( cls( "wrong" ), "landmarks are " + r );
    }
    if( m != k || !in.eof() ) sim::violate( cls( "wrong" ), std::to_string( k ) + " landmarks of " + std::to_string( n ) + " are " + r );
  }
};

// Every point must be able to become a landmark.
struct LandmarkCover : Op
{
  unsigned n;
  bool maxmin;
  aleph::containers::PointCloud<double> pc;
  LandmarkCover() : n( 1 + unsigned( sim::choose( 4 ) ) ), maxmin( sim::flip( 1, 2 ) ), pc( n, 1 )
  {
    sim::randomness::style( 0 );
    for( unsigned i = 0; i < n; i++ ) pc.set( i, { double( i * i ) } );
    sim::story( "one of %u%s", n, maxmin ? ", max-min" : "" );
  }
  std::string run( unsigned ) const override
  {
    std::vector<unsigned> count( n );
    for( unsigned i = 0; i < 150; i++ )
    {
      std::vector<unsigned> out;
      if( maxmin ) aleph::geometry::generateMaxMinLandmarks( pc, 1, std::back_inserter( out ), aleph::geometry::distances::Euclidean<double>() );
      else         aleph::geometry::generateRandomLandmarks( n, 1u, std::back_inserter( out ) );
      if( out.size() == 1 && out[0] < n ) count[ out[0] ] = 1;
      else return "wrong";
    }
    Calm q;
    return join( count );
  }
  void judge( const std::string& r, unsigned ) const override { require( r, join( std::vector<int>( n, 1 ) ) ); }
};

template <class Distance> struct MaxMin : Op
{
  aleph::containers::PointCloud<double> pc;
  std::vector< std::vector<double> > points;
  unsigned n, d, k;
  MaxMin() : pc( 0, 0 )
  {
    n = unsigned( sim::choose( 9 ) );
    d = 1 + unsigned( sim::choose( 3 ) );
    k = unsigned( sim::choose( n + 2 ) );
    pc = aleph::containers::PointCloud<double>( n, d );
    bool coarse = sim::flip( 1, 2 );
    for( unsigned i = 0; i < n; i++ )
    {
      std::vector<double> p;
      for( unsigned j = 0; j < d; j++ ) p.push_back( coarse ? double( sim::choose( 4 ) ) : double( sim::choose( 1000 ) ) / 64 );
      points.push_back( p );
      pc.set( i, p.begin(), p.end() );
    }
    sim::story( "%u of %u points: %s", k, n, input().c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( unsigned i = 0; i < n; i++ ) s += "(" + join( pc[i] ) + ")";
    return s;
  }
  std::string run( unsigned ) const override
  {
    std::vector<std::size_t> out;
    try { aleph::geometry::generateMaxMinLandmarks( pc, k, std::back_inserter( out ), Distance() ); }
    catch( const std::out_of_range& ) { return "refused"; }
    Calm q;
    return join( out );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    if( k > n ) { require( r, "refused" ); return; }
    std::istringstream in( r );
    std::vector<std::size_t> l;
    for( std::size_t x; in >> x; ) l.push_back( x );
    if( !in.eof() || l.size() != k ) sim::violate( cls( "wrong" ), std::to_string( k ) + " landmarks are " + r );
    for( auto&& x : l ) if( x >= n ) sim::violate( cls( "wrong" ), "landmarks are " + r );
    Distance distance;
    auto least = [&]( std::size_t i, std::size_t m )
    {
      double b = 1e300;
      for( std::size_t j = 0; j < m; j++ ) b = std::min( b, double( distance( points[i].begin(), points[ l[j] ].begin(), d ) ) );
      return b;
    };
    for( std::size_t m = 1; m < l.size(); m++ )
    {
      double best = 0;
      for( std::size_t i = 0; i < n; i++ ) best = std::max( best, least( i, m ) );
      if( least( l[m], m ) < best - 1e-9 ) sim::violate( cls( "wrong" ), "landmark " + std::to_string( m ) + " of " + r + " is not a farthest point" );
    }
  }
};

// -- samples of surfaces ------------------------------------------------------------

template <class T> struct Sphere : Op
{
  unsigned n;
  T r, c[3];
  Sphere()
  {
    n = unsigned( sim::choose( 12 ) );
    r = sim::pick( { T( 1 ), T( 0.25 ), T( 7 ), T( 100 ) } );
    for( auto&& x : c ) x = T( sim::choose( 5 ) );
    sim::story( "%u points, radius %g", n, double( r ) );
  }
  std::string run( unsigned variant ) const override
  {
    auto angles = aleph::geometry::sphereSampling<T>( n );
    auto pc = variant & 1 ? aleph::geometry::makeSphere( angles, r ) : aleph::geometry::makeSphere( angles, r, c[0], c[1], c[2] );
    Calm q;
    std::string s = std::to_string( angles.size() ) + " " + std::to_string( pc.size() ) + " " + std::to_string( pc.dimension() ) + "\n";
    for( auto&& a : angles ) s += number( a.first ) + " " + number( a.second ) + "\n";
    for( std::size_t i = 0; i < pc.size(); i++ ) s += join( pc[i] ) + "\n";
    return s;
  }
  void judge( const std::string& text, unsigned variant ) const override
  {
    std::istringstream in( text );
    std::size_t a = 0, b = 0, d = 0;
    in >> a >> b >> d;
    if( a != n || b != n || ( n > 0 && d != 3 ) ) sim::violate( cls( "wrong" ), "there are " + std::to_string( a ) + " angles and " + std::to_string( b ) + " points" );
    auto next = [&]
    {
      std::string y;
      in >> y;
      return std::strtod( y.c_str(), nullptr );
    };
    std::vector<double> theta, phi;
    for( unsigned i = 0; i < n; i++ )
    {
      theta.push_back( next() );
      phi.push_back( next() );
      if( !( theta[i] >= 0 && theta[i] <= 2 * M_PI + 1e-5 && phi[i] >= 0 && phi[i] <= M_PI + 1e-5 ) ) sim::violate( cls( "wrong" ), "angles are " + text );
    }
    double eps = ( sizeof( T ) == 4 ? 1e-5 : 1e-12 ) * ( 1 + double( r ) + 5 );
    for( unsigned i = 0; i < n; i++ )
    {
      double p[3];
      for( auto&& x : p ) x = next();
      if( !( variant & 1 ) ) for( unsigned k = 0; k < 3; k++ ) p[k] -= double( c[k] );
      double m = std::sqrt( p[0]*p[0] + p[1]*p[1] + p[2]*p[2] );
      double w[3] = { double( r ) * std::cos( theta[i] ) * std::sin( phi[i] ), double( r ) * std::sin( theta[i] ) * std::sin( phi[i] ), double( r ) * std::cos( phi[i] ) };
      if( !( std::abs( m - double( r ) ) < eps ) ) sim::violate( cls( "wrong" ), "point " + std::to_string( i ) + " has distance " + number( m ) + " from the centre: " + text );
      for( unsigned k = 0; k < 3; k++ )
        if( !( std::abs( p[k] - w[k] ) < 10 * eps ) ) sim::violate( cls( "wrong" ), "point " + std::to_string( i ) + " does not belong to its angles: " + text );
    }
  }
};

template <class T> struct Torus : Op
{
  unsigned n;
  T R, r;
  Torus()
  {
    n = unsigned( sim::choose( 10 ) );
    R = sim::pick( { T( 2 ), T( 1 ), T( 50 ) } );
    r = R * sim::pick( { T( 0.5 ), T( 0.125 ), T( 0.99 ) } );
    sim::story( "%u points, radii %g and %g", n, double( R ), double( r ) );
  }
  std::string run( unsigned ) const override
  {
    auto angles = aleph::geometry::torusRejectionSampling( R, r, n );
    auto pc = aleph::geometry::makeTorus( angles, R, r );
    Calm q;
    std::string s = std::to_string( angles.size() ) + " " + std::to_string( pc.size() ) + " " + std::to_string( pc.dimension() ) + "\n";
    for( auto&& a : angles ) s += number( a.first ) + " " + number( a.second ) + "\n";
    for( std::size_t i = 0; i < pc.size(); i++ ) s += join( pc[i] ) + "\n";
    return s;
  }
  void judge( const std::string& text, unsigned ) const override
  {
    std::istringstream in( text );
    std::size_t a = 0, b = 0, d = 0;
    in >> a >> b >> d;
    if( a != n || b != n || ( n > 0 && d != 3 ) ) sim::violate( cls( "wrong" ), "there are " + std::to_string( a ) + " angles and " + std::to_string( b ) + " points" );
    auto next = [&]
    {
      std::string y;
      in >> y;
      return std::strtod( y.c_str(), nullptr );
    };
    std::vector<double> theta, psi;
    for( unsigned i = 0; i < n; i++ )
    {
      theta.push_back( next() );
      psi.push_back( next() );
      if( !( theta[i] >= 0 && theta[i] <= 2 * M_PI + 1e-5 && psi[i] >= 0 && psi[i] <= 2 * M_PI + 1e-5 ) ) sim::violate( cls( "wrong" ), "angles are " + text );
    }
    double eps = ( sizeof( T ) == 4 ? 1e-5 : 1e-12 ) * ( 1 + double( R ) );
    for( unsigned i = 0; i < n; i++ )
    {
      double x = next(), y = next(), z = next();
      double ring = std::sqrt( x*x + y*y ) - double( R );
      if( !( std::abs( std::sqrt( ring*ring + z*z ) - double( r ) ) < eps ) ) sim::violate( cls( "wrong" ), "point " + std::to_string( i ) + " is not on the torus: " + text );
      double q = double( R ) + double( r ) * std::cos( theta[i] );
      if( !( std::abs( x - q * std::cos( psi[i] ) ) < 10 * eps && std::abs( y - q * std::sin( psi[i] ) ) < 10 * eps && std::abs( z - double( r ) * std::sin( theta[i] ) ) < 10 * eps ) )
        sim::violate( cls( "wrong" ), "point " + std::to_string( i ) + " does not belong to its angles: " + text );
    }
  }
};

// -- random graphs --------------------------------------------------------------------

template <bool Weighted> struct Graph : Op
{
  unsigned n;
  double p;
  Graph()
  {
    n = unsigned( sim::choose( 8 ) );
    p = sim::pick( { 0.5, 0.0, Weighted ? 0.75 : 1.0, 0.1, 0.9 } );
    sim::story( "%u vertices, probability %g", n, p );
  }
  std::string run( unsigned ) const override { return Weighted ? text( aleph::topology::generateWeightedRandomGraph( n, p ) ) : text( aleph::topology::generateErdosRenyiGraph( n, p ) ); }
  template <class K> static std::string text( const K& k )
  {
    Calm q;
    std::ostringstream s;
    for( auto&& x : k )
    {
      s << x.size();
      for( auto&& v : x ) s << " " << v;
      s << " " << double( x.data() ) << "\n";
    }
    return s.str();
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::istringstream in( r );
    std::set<unsigned> vertices;
    std::set< std::pair<unsigned, unsigned> > edges;
    double last = 0;
    for( unsigned k; in >> k; )
    {
      unsigned u = 0, v = 0;
      double w = 0;
      bool good = k == 1 || k == 2;
      if( good )
      {
        in >> u;
        if( k == 2 ) in >> v;
        in >> w;
        good = u < n && v < n && ( k == 1 ? w == 0 && vertices.insert( u ).second
                                           : u != v && vertices.count( u ) && vertices.count( v ) && edges.insert( std::minmax( u, v ) ).second );
        if( Weighted && k == 2 ) good = good && w >= 1;
        if( Weighted ) { good = good && w >= last; last = w; }
        if( !Weighted ) good = good && w == 0;
      }
      if( !good ) sim::violate( cls( "wrong" ), r );
    }
    if( vertices.size() != n ) sim::violate( cls( "wrong" ), "vertices are missing: " + r );
    if( p == 0 && !edges.empty() ) sim::violate( cls( "wrong" ), "edges with probability 0: " + r );
    if( p == 1 && edges.size() != n * ( n - 1 ) / 2 && n > 0 ) sim::violate( cls( "wrong" ), "missing edges with probability 1: " + r );
  }
};

// Every edge must be able to occur and to be missing.
template <bool Weighted> struct GraphCover : Op
{
  unsigned n;
  GraphCover() : n( 2 + unsigned( sim::choose( 3 ) ) ) { sim::randomness::style( 0 ); sim::story( "%u vertices", n ); }
  template <class K> static void mark( const K& k, std::map< std::pair<unsigned, unsigned>, unsigned >& m )
  {
    for( auto&& s : k ) if( s.size() == 2 ) m[ std::minmax( s[0], s[1] ) ]++;
  }
  std::string run( unsigned ) const override
  {
    std::map< std::pair<unsigned, unsigned>, unsigned > m;
    for( unsigned i = 0; i < 100; i++ )
    {
      if( Weighted ) mark( aleph::topology::generateWeightedRandomGraph( n, 0.5 ), m );
      else           mark( aleph::topology::generateErdosRenyiGraph( n, 0.5 ), m );
    }
    unsigned good = 0;
    for( auto&& x : m ) good += x.second > 0 && x.second < 100;
    return std::to_string( good );
  }
  void judge( const std::string& r, unsigned ) const override { require( r, std::to_string( n * ( n - 1 ) / 2 ) ); }
};

Add< RandomLandmarks >        c1( "S14", "random-landmarks", 3 );
Add< LandmarkCover >          c2( "S14", "landmark-cover", 1, NoThreads );
Add< MaxMin< aleph::geometry::distances::Euclidean<double> > > c3( "S14", "max-min-landmarks", 3 );
Add< MaxMin< aleph::geometry::distances::Manhattan<double> > > c4( "S14", "max-min-landmarks-manhattan", 2 );
Add< Sphere<double> >         c5( "S14", "sphere", 2 );
Add< Sphere<float> >          c6( "S14", "sphere-float", 2 );
Add< Torus<double> >          c7( "S14", "torus", 2 );
Add< Torus<float> >           c8( "S14", "torus-float", 2 );
Add< Graph<false> >           c9( "S14", "random-graph", 3 );
Add< Graph<true> >            c10( "S14", "weighted-random-graph", 3 );
Add< GraphCover<false> >      c11( "S14", "graph-cover", 1, NoThreads );
Add< GraphCover<true> >       c12( "S14", "weighted-graph-cover", 1, NoThreads );

} // namespace
