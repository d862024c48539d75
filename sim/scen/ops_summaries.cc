// D12: summaries of persistence diagrams and the functions they are made of.

#include "ops.hh"

#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/StepFunction.hh>

#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/Extraction.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

#include <sstream>

namespace
{

using namespace ops;

const double unbounded = std::numeric_limits<double>::infinity();

struct Dot { double x, y; };
bool operator<( const Dot& a, const Dot& b ) { return a.x != b.x ? a.x < b.x : a.y < b.y; }
bool operator==( const Dot& a, const Dot& b ) { return a.x == b.x && a.y == b.y; }

bool close( double a, double b, double tolerance = 1e-9 )
{
  return a == b || ( std::isnan( a ) && std::isnan( b ) ) || std::abs( a - b ) <= tolerance * std::max( 1.0, std::abs( b ) );
}

std::string rows( const std::vector<Dot>& v )
{
  std::string s;
  for( auto&& p : v ) s += number( p.x ) + " " + number( p.y ) + "\n";
  return s;
}

std::vector<double> numbers( const std::string& s )
{
  std::vector<double> r;
  std::istringstream in( s );
  std::string w;
  while( in >> w ) r.push_back( std::strtod( w.c_str(), nullptr ) );
  return r;
}

// Compares a list of numbers.
void compare( const Op& op, const std::string& r, const std::vector<double>& want, double tolerance = 1e-9, const std::vector<double>* at = nullptr )
{
  auto have = numbers( r );
  if( have.size() != want.size() )
    sim::violate( op.cls( "wrong" ), "got " + std::to_string( have.size() ) + " values instead of " + std::to_string( want.size() ) + ": " + r.substr( 0, 800 ) );
  for( std::size_t i = 0; i < want.size(); i++ )
    if( !close( have[i], want[i], tolerance ) )
      sim::violate( op.cls( "wrong" ), "value " + ( at && i < at->size() ? "at " + number( (*at)[i] ) : "number " + std::to_string( i ) ) + " is " + number( have[i] ) + " instead of " + number( want[i] ) );
}

enum : unsigned { Essential = 1, Inverted = 2 };

struct Diagram : Op
{
  using D = aleph::PersistenceDiagram<double>;
  std::vector<Dot> p;
  D d;
  bool inverted = false;

  explicit Diagram( unsigned options = Essential | Inverted, unsigned most = 8 )
  {
    unsigned n = unsigned( sim::choose( most + 1 ) ), spread = 1 + unsigned( sim::choose( 8 ) );
    if( sim::flip( 1, 12 ) ) n += 17 + unsigned( sim::choose( 24 ) );    // small ranges are sorted in another way
    double base = sim::flip( 1, 2 ) ? -2.0 : 0.0;
    inverted = ( options & Inverted ) && sim::flip( 1, 5 );
    bool essential = !inverted && ( options & Essential ) && sim::flip( 1, 2 );
    for( unsigned i = 0; i < n; i++ )
    {
      double x = base + 0.5 * double( sim::choose( spread ) ), y = x + 0.5 * double( sim::choose( spread ) );
      if( inverted ) std::swap( x, y );
      if( essential && sim::flip( 1, 4 ) ) { d.add( x ); y = unbounded; }
      else d.add( x, y );
      p.push_back( { x, y } );
    }
    // Points on the diagonal do not tell which way round a diagram is.
    inverted = false;
    for( auto&& q : p ) inverted = inverted || q.x > q.y;
    sim::story( "diagram %s", rows( p ).c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( auto&& q : d ) s += number( q.x() ) + " " + number( q.y() ) + "\n";
    return s;
  }
};

struct Plain : Diagram
{
  explicit Plain( unsigned options, unsigned most ) : Diagram( options, most ) {}
  std::string run( unsigned ) const override { return ""; }
  void judge( const std::string&, unsigned ) const override {}
};

struct Indicator : Diagram
{
  std::vector<double> at, want;

  Indicator()
  {
    std::set<double> events;
    for( auto&& q : p )
    {
      events.insert( q.x );
      if( q.y != unbounded ) events.insert( q.y );
    }
    if( events.empty() ) events.insert( 0 );
    at.push_back( *events.begin() - 1 );
    at.push_back( *events.rbegin() + 1 );
    for( auto it = events.begin(); std::next( it ) != events.end(); ++it ) at.push_back( ( *it + *std::next( it ) ) / 2 );
    // At an event itself the value is only defined if nothing else starts
    // where something ends.
    for( auto&& e : events )
    {
      bool starts = false, ends = false;
      for( auto&& q : p ) { starts = starts || std::min( q.x, q.y ) == e; ends = ends || std::max( q.x, q.y ) == e; }
      if( !starts || !ends ) at.push_back( e );
    }
    for( auto&& x : at )
    {
      double n = 0;
      for( auto&& q : p ) n += std::min( q.x, q.y ) <= x && x <= std::max( q.x, q.y );
      want.push_back( n );
    }
  }
  std::string run( unsigned variant ) const override
  {
    auto f = aleph::persistenceIndicatorFunction( d );
    if( variant & 1 ) f = aleph::math::StepFunction<double>( f );
    Calm q;
    std::string s;
    for( auto&& x : at ) s += number( f( x ) ) + " ";
    return s;
  }
  void judge( const std::string& r, unsigned ) const override { compare( *this, r, want, 0, &at ); }
};

struct EnvelopeOf : Diagram
{
  bool unpaired = false;
  EnvelopeOf() : Diagram( Essential )
  {
    for( auto&& q : p ) unpaired = unpaired || q.y == unbounded;
  }
  std::string run( unsigned variant ) const override
  {
    aleph::Envelope e;
    if( variant & 1 ) e.setRemoveUnpairedPoints( unpaired );
    auto f = e( d );
    Calm q;
    std::vector<double> X, Y;
    f.domain( std::back_inserter( X ) );
    f.image( std::back_inserter( Y ) );
    std::string s;
    for( std::size_t i = 0; i < X.size(); i++ ) s += number( X[i] ) + " " + number( Y[i] ) + "\n";
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::map<double, double> m;
    for( auto&& q : p )
      if( q.y != unbounded )
      {
        auto it = m.emplace( q.x + q.y, q.y - q.x ).first;
        it->second = std::max( it->second, q.y - q.x );
      }
    std::string want;
    for( auto&& q : m ) want += number( q.first ) + " " + number( q.second ) + "\n";
    require( r, want );
  }
};

struct Norms : Diagram
{
  double k;
  bool weighted;
  Norms() : Diagram( Inverted ), k( double( 1 + sim::choose( 4 ) ) ), weighted( sim::flip( 1, 2 ) ) {}
  std::string run( unsigned ) const override
  {
    std::vector<double> v = { aleph::totalPersistence( d, k, weighted ), aleph::pNorm( d, k, weighted ), aleph::infinityNorm( d ),
                              aleph::totalPersistence( d ), aleph::pNorm( d ) };
    std::vector<double> plain, absolute;
    aleph::persistence( d, std::back_inserter( plain ) );
    aleph::persistence( d, std::back_inserter( absolute ), true );
    Calm q;
    std::string s;
    for( auto&& w : { v, plain, absolute } )
      for( auto&& x : w ) s += number( x ) + " ";
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::vector<double> want( 5 );
    for( auto&& q : p )
    {
      auto e = std::abs( q.y - q.x );
      want[3] += e * e;
      want[0] += std::pow( e, k ) * ( weighted ? std::abs( q.x ) : 1.0 );
      want[2] = std::max( want[2], e );
    }
    want[1] = std::pow( want[0], 1 / k );
    want[4] = std::sqrt( want[3] );
    for( auto&& q : p ) want.push_back( q.y - q.x );
    for( auto&& q : p ) want.push_back( std::abs( q.y - q.x ) );
    compare( *this, r, want );
  }
};

struct Weighted : Diagram
{
  Weighted() : Diagram( Inverted ) {}
  std::string run( unsigned ) const override
  {
    std::vector<double> v;
    aleph::weightedPersistence( d, std::back_inserter( v ) );
    Calm q;
    std::string s;
    for( auto&& x : v ) s += number( x ) + " ";
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::map<Dot, double> m;
    for( auto&& q : p ) m[q] += 1;
    std::vector<double> want;
    for( auto&& q : m ) want.push_back( q.second / double( p.size() ) * ( q.first.y - q.first.x ) );
    compare( *this, r, want );
  }
};

struct Entropy : Diagram
{
  Entropy() : Diagram( 0 ) {}
  std::string run( unsigned ) const override
  {
    auto e = aleph::persistentEntropy( d );
    Calm q;
    return number( e );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    double sum = 0, e = 0;
    for( auto&& q : p ) sum += q.y - q.x;
    if( sum == 0 && !p.empty() ) return; // not defined
    for( auto&& q : p )
      if( q.y != q.x ) e -= ( q.y - q.x ) / sum * std::log2( ( q.y - q.x ) / sum );
    compare( *this, r, { e } );
  }
};

struct Neighbours : Diagram
{
  Neighbours() : Diagram( Inverted, 7 )
  {
    while( p.size() < 2 ) { p.push_back( { double( p.size() ), 7 } ); d.add( p.back().x, p.back().y ); }
  }
  std::string run( unsigned ) const override
  {
    auto e = aleph::nearestNeighbourAreaEntropy( d );
    Calm q;
    return number( e );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::vector<double> area;
    double sum = 0, e = 0;
    for( std::size_t i = 0; i < p.size(); i++ )
    {
      double m = 1e300;
      for( std::size_t j = 0; j < p.size(); j++ )
        if( i != j ) m = std::min( m, ( p[i].x - p[j].x ) * ( p[i].x - p[j].x ) + ( p[i].y - p[j].y ) * ( p[i].y - p[j].y ) );
      area.push_back( m );
      sum += m;
    }
    if( sum == 0 ) return; // not defined
    for( auto&& a : area )
      if( a > 0 ) e -= a / sum * std::log2( a / sum );
    compare( *this, r, { e }, 1e-6 );
  }
};

// The grid has a power of two of intervals, so that the largest value lies in
// the last cell regardless of rounding; the others keep off the grid lines.
struct Grid : Diagram
{
  unsigned n;
  bool defined = true;
  double want = 0;

  Grid() : Diagram( 0, 0 ), n( 1 + ( 1u << sim::choose( 3 ) ) )
  {
    d = D();
    p.clear();
    for( unsigned k = unsigned( sim::choose( 11 ) ); k > 0; k-- )
    {
      double x = double( sim::choose( 40 ) ) - 8;
      p.push_back( { x, x + double( sim::choose( 40 ) ) } );
      d.add( p.back().x, p.back().y );
    }
    sim::story( "n = %u, diagram %s", n, rows( p ).c_str() );
    std::vector<double> X, Y;
    for( auto&& q : p ) { X.push_back( q.y ); Y.push_back( -q.x ); }
    std::map< std::pair<int, int>, double > cells;
    if( p.empty() ) return;
    auto x0 = *std::min_element( X.begin(), X.end() ), x1 = *std::max_element( X.begin(), X.end() );
    auto y0 = *std::min_element( Y.begin(), Y.end() ), y1 = *std::max_element( Y.begin(), Y.end() );
    if( x0 == x1 || y0 == y1 || std::count( X.begin(), X.end(), x1 ) > 1 || std::count( Y.begin(), Y.end(), y1 ) > 1 ) { defined = false; return; }
    auto cell = [&]( double v, double a, double b )
    {
      auto u = ( v - a ) / ( ( b - a ) / ( n - 1 ) );
      if( v != a && v != b && std::abs( u - std::round( u ) ) < 1e-6 ) defined = false;
      return int( std::floor( u ) );
    };
    for( std::size_t i = 0; i < X.size(); i++ ) cells[ { cell( X[i], x0, x1 ), cell( Y[i], y0, y1 ) } ] += 1;
    for( auto&& c : cells ) want -= c.second / double( p.size() ) * std::log2( c.second / double( p.size() ) );
  }
  std::string run( unsigned ) const override
  {
    auto e = defined ? aleph::gridEntropy( d, n ) : 0.0;
    Calm q;
    return number( e );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    if( defined ) compare( *this, r, { want } );
  }
};

// A history of changes of a diagram, compared with a plain list of points.
struct Editing : Diagram
{
  struct Change { unsigned kind; std::vector<Dot> points; unsigned a, b; };
  std::vector<Change> changes;

  Editing()
  {
    unsigned n = 1 + unsigned( sim::choose( 6 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      Change c{ unsigned( sim::choose( 8 ) ), {}, unsigned( sim::choose( 12 ) ), unsigned( sim::choose( 12 ) ) };
      for( unsigned k = unsigned( sim::choose( 4 ) ); k > 0; k-- )
      {
        double x = 0.5 * double( sim::choose( 4 ) );
        c.points.push_back( { x, sim::flip( 1, 4 ) ? unbounded : x + 0.5 * double( sim::choose( 3 ) ) } );
      }
      changes.push_back( c );
    }
  }
  // Coordinates are multiples of one half, so that their doubles are integers.
  template <class T> static aleph::PersistenceDiagram<T> make( const std::vector<Dot>& v )
  {
    aleph::PersistenceDiagram<T> r;
    for( auto&& q : v ) { if( q.y == unbounded ) r.add( T( 2 * q.x ) ); else r.add( T( 2 * q.x ), T( 2 * q.y ) ); }
    return r;
  }
  template <class T> static std::string state( const aleph::PersistenceDiagram<T>& d )
  {
    using Limits = std::numeric_limits<T>;
    auto last = Limits::has_infinity ? Limits::infinity() : Limits::max();
    std::string s = std::to_string( d.size() ) + "/" + std::to_string( d.betti() ) + "/" + std::to_string( d.dimension() ) + ( d.empty() ? "e" : "" ) + ":";
    for( auto&& q : d ) s += "(" + number( 0.5 * double( q.x() ) ) + "," + number( q.y() == last ? unbounded : 0.5 * double( q.y() ) ) + ( q.isUnpaired() ? "u" : "" ) + ")";
    return s + "\n";
  }
  static std::string state( const std::vector<Dot>& v, unsigned dimension )
  {
    std::string s;
    unsigned u = 0;
    for( auto&& q : v )
    {
      s += "(" + number( q.x ) + "," + number( q.y ) + ( q.y == unbounded ? "u" : "" ) + ")";
      u += q.y == unbounded;
    }
    return std::to_string( v.size() ) + "/" + std::to_string( u ) + "/" + std::to_string( dimension ) + ( v.empty() ? "e" : "" ) + ":" + s + "\n";
  }
  std::string run( unsigned variant ) const override
  {
    switch( variant )
    {
    case 0:  return edit<double>();
    case 1:  return edit<int>();
    case 2:  return edit<float>();
    default: return edit<long>();
    }
  }
  template <class T> std::string edit() const
  {
    using D = aleph::PersistenceDiagram<T>;
    std::string s;
    D start;
    { Calm q; start = make<T>( p ); }
    D e( start );
    for( auto&& c : changes )
    {
      D other;
      { Calm q; other = make<T>( c.points ); }
      auto size = unsigned( e.size() );
      switch( c.kind )
      {
      case 0: e.removeDiagonal(); break;
      case 1: e.removeUnpaired(); break;
      case 2: e.removeDuplicates(); break;
      case 3: e.merge( other ); break;
      case 4: e.insert( e.begin() + c.a % ( size + 1 ), other.begin(), other.end() ); break;
      case 5: if( size ) e.erase( e.begin() + c.a % size ); break;
      case 6: e.erase( e.begin() + std::min( c.a % ( size + 1 ), c.b % ( size + 1 ) ), e.begin() + std::max( c.a % ( size + 1 ), c.b % ( size + 1 ) ) ); break;
      default: e.setDimension( c.a ); break;
      }
      Calm q;
      s += state( e );
      s += e == start ? "same\n" : "different\n";
    }
    return s;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::string s;
    auto v = p;
    unsigned dimension = 0;
    for( auto&& c : changes )
    {
      auto size = unsigned( v.size() );
      auto drop = [&]( bool ( *f )( const Dot& ) ) { v.erase( std::remove_if( v.begin(), v.end(), f ), v.end() ); };
      switch( c.kind )
      {
      case 0: drop( []( const Dot& q ) { return q.x == q.y; } ); break;
      case 1: drop( []( const Dot& q ) { return q.y == unbounded; } ); break;
      case 2: std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() ); break;
      case 3: v.insert( v.end(), c.points.begin(), c.points.end() ); break;
      case 4: v.insert( v.begin() + c.a % ( size + 1 ), c.points.begin(), c.points.end() ); break;
      case 5: if( size ) v.erase( v.begin() + c.a % size ); break;
      case 6: v.erase( v.begin() + std::min( c.a % ( size + 1 ), c.b % ( size + 1 ) ), v.begin() + std::max( c.a % ( size + 1 ), c.b % ( size + 1 ) ) ); break;
      default: dimension = c.a; break;
      }
      s += state( v, dimension );
      s += v == p ? "same\n" : "different\n";
    }
    require( r, s );
  }
};

// -- step functions -----------------------------------------------------

using Steps = aleph::math::StepFunction<double>;

struct Step { double a, b, y; };

std::vector<Step> randomSteps()
{
  unsigned n = unsigned( sim::choose( 6 ) );
  bool negative = sim::flip( 1, 2 );
  double x = double( sim::choose( 6 ) ) - 3;
  std::vector<Step> s;
  for( unsigned i = 0; i < n; i++ )
  {
    if( sim::flip( 1, 2 ) ) x += double( 1 + sim::choose( 2 ) );
    double b = x + double( 1 + sim::choose( 3 ) ), y = 0.5 * double( 1 + sim::choose( 4 ) );
    if( negative && sim::flip( 1, 2 ) ) y = -y;
    s.push_back( { x, b, y } );
    x = b;
  }
  return s;
}

std::string render( const std::vector<Step>& v )
{
  std::string s;
  for( auto&& t : v ) s += "[" + number( t.a ) + "," + number( t.b ) + "]:" + number( t.y ) + " ";
  return s;
}

std::string render( const Steps& f )
{
  std::string s;
  for( auto&& t : f.indicatorFunctions() ) s += "[" + number( t.a() ) + "," + number( t.b() ) + "]:" + number( t.y() ) + " ";
  return s;
}

double value( const std::vector<Step>& v, double x )
{
  double y = 0;
  for( auto&& t : v )
    if( t.a <= x && x <= t.b && std::abs( t.y ) > std::abs( y ) ) y = t.y;
  return y;
}

// Values of equal size and opposite sign at a common end: either will do.
bool ambiguous( const std::vector<Step>& v, double x )
{
  for( auto&& s : v )
    for( auto&& t : v )
      if( s.b == x && t.a == x && s.y == -t.y ) return true;
  return false;
}

// What the library calculates instead of the sum of two step functions, as
// required by one of its tests: an interval takes the value of its ends if
// these agree, so dips between equal values disappear.
std::vector<Step> filled( const std::vector<Step>& a, const std::vector<Step>& b )
{
  auto up   = []( double x ) { return std::nextafter( x, 1e300 ); };
  auto down = []( double x ) { return std::nextafter( x, -1e300 ); };
  std::set<double> X;
  for( auto&& t : a ) { X.insert( t.a ); X.insert( t.b ); }
  for( auto&& t : b ) { X.insert( t.a ); X.insert( t.b ); }
  std::vector<Step> h;
  auto add = [&]( double l, double r, double y )
  {
    if( l < r && ( h.empty() || h.back().b <= l ) ) h.push_back( { l, r, y } );
  };
  if( X.empty() ) return h;
  auto left = *X.begin();
  for( auto it = std::next( X.begin() ); it != X.end(); ++it )
  {
    auto right = *it;
    auto u = value( a, left ), v = value( b, left );
    auto s = value( a, right ), t = value( b, right );
    if( u == s && v == t ) { add( left, right, u + v ); left = right; continue; }
    auto inside = value( a, up( left ) ) + value( b, up( left ) );
    if( value( a, up( left ) ) != u || value( b, up( left ) ) != v ) left = up( left );
    if( inside != s + t ) { add( left, down( right ), inside ); add( right, up( right ), s + t ); }
    else add( left, up( right ), inside );
    left = up( right );
  }
  return h;
}

// Accepts either the right or the filled values; only a strict operation
// reports the latter, which is a known deviation.
void compareSum( const Op& op, const std::string& r, const std::vector<double>& want, const std::vector<double>& known, const std::vector<double>& at, bool strict )
{
  auto have = numbers( r );
  bool good = have.size() == want.size(), bad = good;
  for( std::size_t i = 0; i < have.size() && i < want.size(); i++ )
  {
    good = good && close( have[i], want[i] );
    bad  = bad  && close( have[i], known[i] );
  }
  if( !good && bad )
  {
    if( strict && sim::property() == "D12" ) sim::violate( "known-value/step-sum", "a sum fills the gaps between equal values" );
    return;
  }
  compare( op, r, want, 1e-9, &at );
}

struct StepBase : Op
{
  std::vector<Step> a, b;
  Steps f, g;
  std::vector<double> at;

  StepBase()
  {
    a = randomSteps();
    b = sim::flip( 1, 8 ) ? a : randomSteps();
    for( auto&& t : a ) f.add( t.a, t.b, t.y );
    for( auto&& t : b ) g.add( t.a, t.b, t.y );
    sim::story( "functions %s and %s", render( a ).c_str(), render( b ).c_str() );
    for( double x = -5; x < 44; x += 0.5 )
      if( !ambiguous( a, x ) && !ambiguous( b, x ) ) at.push_back( x );
  }
  std::string input() const override { return render( f ) + "/" + render( g ); }
  std::string values( const Steps& h ) const
  {
    std::string s;
    for( auto&& x : at ) s += number( h( x ) ) + " ";
    return s;
  }
};

template <bool strict> struct StepSum : StepBase
{
  std::string run( unsigned variant ) const override
  {
    Steps h;
    if( variant == 0 )      h = f + g;
    else if( variant == 1 ) h = f - g;
    else if( variant == 2 ) { h = g; h += f; }
    else                    { h = f; h -= g; }
    auto size = std::abs( h.integral() );
    auto copy = h;
    auto area = copy.abs().integral();
    Calm q;
    return values( h ) + number( size ) + " " + number( area );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    double sign = variant & 1 ? -1 : 1;
    auto negated = b;
    for( auto&& t : negated ) t.y *= sign;
    auto h = variant == 2 ? filled( negated, a ) : filled( a, negated );
    std::vector<double> want, known;
    double size = 0, area = 0, knownSize = 0, knownArea = 0;
    for( auto&& x : at )
    {
      want.push_back( value( a, x ) + value( negated, x ) );
      known.push_back( value( h, x ) );
    }
    for( double x = -4.5; x < 44; x += 1 )
    {
      auto y = value( a, x ) + value( negated, x ), z = value( h, x );
      size += y;
      area += std::abs( y );
      knownSize += z;
      knownArea += std::abs( z );
    }
    want.push_back( std::abs( size ) );
    want.push_back( area );
    known.push_back( std::abs( knownSize ) );
    known.push_back( knownArea );
    compareSum( *this, r, want, known, at, strict );
  }
};

struct StepScalar : StepBase
{
  double lambda;
  unsigned kind;
  StepScalar() : lambda( 0.5 * ( double( sim::choose( 9 ) ) - 4 ) ), kind( unsigned( sim::choose( 10 ) ) ) { sim::story( "operation %u with %g", kind, lambda ); }
  std::string run( unsigned ) const override
  {
    Steps h = f;
    switch( kind )
    {
    case 0: h = f + lambda; break;
    case 1: h = f - lambda; break;
    case 2: h = f * lambda; break;
    case 3: h *= lambda; break;
    case 4: if( lambda != 0 ) h = f / lambda; break;
    case 5:
      try { h /= lambda; }
      catch( std::runtime_error& )
      {
        Calm q;
        if( lambda != 0 ) sim::violate( cls( "report" ), "division failed" );
        return "";
      }
      break;
    case 6: h = -f; break;
    case 7: h.abs(); break;
    case 8: h.pow( 2 ); break;
    default: h = 2.0 * f; break;
    }
    auto integral = h.integral();
    auto max = h.max(), sup = h.sup();
    Calm q;
    return values( h ) + number( integral ) + " " + number( max ) + " " + number( sup );
  }
  double apply( double y ) const
  {
    switch( kind )
    {
    case 0: return y + lambda;
    case 1: return y - lambda;
    case 2: case 3: return y * lambda;
    case 4: return lambda != 0 ? y / lambda : y;
    case 5: return y / lambda;
    case 6: return -y;
    case 7: return std::abs( y );
    case 8: return y * y;
    default: return 2 * y;
    }
  }
  void judge( const std::string& r, unsigned ) const override
  {
    if( kind == 5 && lambda == 0 ) { require( r, "" ); return; }
    auto v = a;
    for( auto&& t : v ) t.y = apply( t.y );
    double integral = 0, max = v.empty() ? 0 : -1e300;
    for( auto&& t : v ) { integral += t.y * ( t.b - t.a ); max = std::max( max, t.y ); }
    std::vector<double> want;
    auto have = numbers( r );
    for( std::size_t i = 0; i < at.size(); i++ )
    {
      if( ambiguous( v, at[i] ) && i < have.size() ) want.push_back( have[i] );
      else want.push_back( value( v, at[i] ) );
    }
    want.push_back( integral );
    want.push_back( max );
    want.push_back( max );
    compare( *this, r, want, 1e-9, &at );
  }
};

struct StepNormal : StepBase
{
  double low, high;
  StepNormal() : low( double( sim::choose( 3 ) ) ), high( low + 1 + double( sim::choose( 3 ) ) ) {}
  std::string run( unsigned ) const override
  {
    auto h = aleph::math::normalize( f, low, high );
    Calm q;
    return render( h );
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::set<double> image;
    for( auto&& t : a ) image.insert( t.y );
    auto v = a;
    // Relative to zero; the documentation says nothing about functions that
    // are never positive.
    if( image.size() > 1 && *image.rbegin() <= 0 ) return;
    if( image.size() > 1 )
      for( auto&& t : v ) t.y = low + t.y / *image.rbegin() * ( high - low );
    std::string s = r, have, want;
    std::vector<double> w;
    for( auto&& t : v ) { w.push_back( t.a ); w.push_back( t.b ); w.push_back( t.y ); }
    for( auto& c : s ) if( c == '[' || c == ']' || c == ',' || c == ':' ) c = ' ';
    compare( *this, s, w );
  }
};

// Averages and differences of indicator functions.
struct IndicatorSum : Diagram
{
  Plain other;
  std::vector<double> at, want;
  unsigned kind;

  // Indicator function as intervals.
  static std::vector<Step> steps( const std::vector<Dot>& p )
  {
    std::map< double, std::pair<double, double> > events;
    for( auto&& q : p )
    {
      events[ std::min( q.x, q.y ) ].first  += 1;
      events[ std::max( q.x, q.y ) ].second += 1;
    }
    std::vector<Step> v;
    double active = 0, left = 0;
    for( auto it = events.begin(); it != events.end(); ++it )
    {
      if( it != events.begin() ) v.push_back( { left, it->first, active } );
      auto&& e = it->second;
      active += e.first - e.second;
      left = e.first > 0 && e.second > 0 ? std::nextafter( it->first, 1e300 ) : it->first;
    }
    return v;
  }

  IndicatorSum() : Diagram( Inverted, 5 ), other( 0, 5 ), kind( unsigned( sim::choose( 3 ) ) )
  {
    auto count = []( const std::vector<Dot>& p, double x )
    {
      double n = 0;
      for( auto&& q : p ) n += std::min( q.x, q.y ) <= x && x <= std::max( q.x, q.y );
      return n;
    };
    double total = 0;
    for( double x = -4.25; x < 8; x += 0.5 )
    {
      at.push_back( x );
      auto u = count( p, x ), v = count( other.p, x );
      auto y = kind == 0 ? u + v : kind == 1 ? std::abs( u - v ) : 0.5 * ( u + v );
      want.push_back( y );
      total += 0.5 * y;
    }
    want.push_back( total );
  }
  std::string run( unsigned variant ) const override
  {
    auto f = aleph::persistenceIndicatorFunction( variant & 1 ? d : other.d );
    auto g = aleph::persistenceIndicatorFunction( variant & 1 ? other.d : d );
    Steps h;
    if( kind == 0 )      h = f + g;
    else if( kind == 1 ) h = ( f - g ).abs();
    else                 h = ( f + g ) / 2;
    auto total = h.integral();
    Calm q;
    std::string s;
    for( auto&& x : at ) s += number( h( x ) ) + " ";
    return s + number( total );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    auto a = steps( variant & 1 ? p : other.p ), b = steps( variant & 1 ? other.p : p );
    if( kind == 1 )
      for( auto&& t : b ) t.y = -t.y;
    auto h = filled( a, b );
    std::vector<double> known;
    double total = 0;
    for( auto&& x : at )
    {
      auto y = value( h, x );
      if( kind == 1 ) y = std::abs( y );
      if( kind == 2 ) y /= 2;
      known.push_back( y );
      total += 0.5 * y;
    }
    known.push_back( total );
    compareSum( *this, r, want, known, at, false );
  }
};

// Reading a step function from its text; faulty lines are left out.
struct StepText : StepBase
{
  std::string run( unsigned ) const override
  {
    std::string s;
    {
      std::ostringstream o;
      o << f;
      std::istringstream i( o.str() );
      Steps h;
      i >> h;
      // Streams keep allocation failures to themselves.
      if( !o || i.bad() ) throw std::bad_alloc();
      Calm q;
      s = render( h );
    }
    return s;
  }
  void judge( const std::string& r, unsigned ) const override { require( r, render( a ) ); }
};

// -- piecewise linear functions -----------------------------------------

using Linear = aleph::math::PiecewiseLinearFunction<double>;

std::vector<Dot> randomLinear( bool zeroEnds )
{
  std::map<double, double> m;
  unsigned n = unsigned( sim::choose( 6 ) );
  for( unsigned i = 0; i < n; i++ ) m[ double( sim::choose( 8 ) ) ] = 0.5 * ( double( sim::choose( 9 ) ) - 4 );
  if( !m.empty() && zeroEnds ) m.begin()->second = m.rbegin()->second = 0;
  std::vector<Dot> v;
  for( auto&& q : m ) v.push_back( { q.first, q.second } );
  return v;
}

double value( const std::vector<Dot>& v, double x )
{
  for( std::size_t i = 0; i < v.size(); i++ )
  {
    if( v[i].x == x ) return v[i].y;
    if( i && v[i-1].x < x && x < v[i].x ) return v[i-1].y + ( v[i].y - v[i-1].y ) * ( x - v[i-1].x ) / ( v[i].x - v[i-1].x );
  }
  return 0;
}

// Integral of the absolute value to the power of p of the line between two values.
double area( double a, double b, double width, double p )
{
  if( a * b < 0 )
  {
    auto t = std::abs( a ) / ( std::abs( a ) + std::abs( b ) );
    return area( a, 0, width * t, p ) + area( 0, b, width * ( 1 - t ), p );
  }
  a = std::abs( a );
  b = std::abs( b );
  if( std::abs( a - b ) <= 1e-5 * ( a + b ) ) return std::pow( ( a + b ) / 2, p ) * width;
  return std::abs( std::pow( b, p + 1 ) - std::pow( a, p + 1 ) ) / ( std::abs( b - a ) * ( p + 1 ) ) * width;
}

struct LinearBase : Op
{
  std::vector<Dot> a, b;
  Linear f, g;
  double p;
  std::vector<double> at;

  static Linear make( const std::vector<Dot>& v )
  {
    std::vector< std::pair<double, double> > w;
    for( auto&& q : v ) w.push_back( { q.x, q.y } );
    return Linear( w.begin(), w.end() );
  }
  static std::string render( const Linear& f )
  {
    std::vector<double> X, Y;
    f.domain( std::back_inserter( X ) );
    f.image( std::back_inserter( Y ) );
    std::string s;
    for( std::size_t i = 0; i < X.size(); i++ ) s += number( X[i] ) + ":" + number( Y[i] ) + " ";
    return s;
  }
  // Functions are zero outside of their domain.  Sums are only continuous if
  // both have the same domain or are zero at the ends.
  LinearBase()
  {
    bool zero = sim::flip( 1, 2 );
    a = randomLinear( zero );
    b = sim::flip( 1, 8 ) ? a : randomLinear( zero );
    if( !zero && !a.empty() && !b.empty() )
    {
      a.front().x = b.front().x = -1;
      if( a.size() == 1 ) a.push_back( { 9, 1 } );
      if( b.size() == 1 ) b.push_back( { 9, -1 } );
      a.back().x = b.back().x = 9;
    }
    f = make( a );
    g = make( b );
    p = sim::flip( 1, 2 ) ? double( 1 + sim::choose( 3 ) ) : 0.5 * double( 1 + sim::choose( 6 ) );
    sim::story( "functions %s and %s, power %g", render( f ).c_str(), render( g ).c_str(), p );
    for( double x = -1.75; x < 10; x += 0.25 ) at.push_back( x );
  }
  std::string input() const override { return render( f ) + "/" + render( g ); }
  std::string values( const Linear& h ) const
  {
    std::string s;
    for( auto&& x : at ) s += number( h( x ) ) + " ";
    return s;
  }
  double integral( const std::vector<Dot>& v ) const
  {
    double sum = 0;
    for( std::size_t i = 1; i < v.size(); i++ ) sum += area( v[i-1].y, v[i].y, v[i].x - v[i-1].x, p );
    return std::pow( sum, 1 / p );
  }
};

struct LinearSum : LinearBase
{
  std::string run( unsigned variant ) const override
  {
    Linear h = f;
    if( variant == 0 )      h = f + g;
    else if( variant == 1 ) h = f - g;
    else if( variant == 2 ) h += g;
    else                    h -= g;
    auto size = h.integral( p );
    auto max = h.max();
    bool same = h == f, differs = h != f;
    Calm q;
    auto s = values( h ) + number( size ) + " " + number( max );
    if( same == differs ) s += " both";
    return s;
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    double sign = variant & 1 ? -1 : 1;
    std::set<double> X;
    for( auto&& q : a ) X.insert( q.x );
    for( auto&& q : b ) X.insert( q.x );
    std::vector<Dot> v;
    for( auto&& x : X ) v.push_back( { x, value( a, x ) + sign * value( b, x ) } );
    double max = v.empty() ? 0 : -1e300;
    for( auto&& q : v ) max = std::max( max, q.y );
    std::vector<double> want;
    for( auto&& x : at ) want.push_back( value( v, x ) );
    want.push_back( integral( v ) );
    // The intersection with the axis is a point of a function, too.
    want.push_back( max );
    compare( *this, r, want, 1e-9, &at );
  }
};

struct LinearScalar : LinearBase
{
  double lambda;
  unsigned kind;
  LinearScalar() : lambda( 0.5 * ( double( sim::choose( 9 ) ) - 4 ) ), kind( unsigned( sim::choose( 10 ) ) ) { sim::story( "operation %u with %g", kind, lambda ); }
  std::string run( unsigned ) const override
  {
    Linear h = f;
    switch( kind )
    {
    case 0: h = f + lambda; break;
    case 1: h = f - lambda; break;
    case 2: h = f * lambda; break;
    case 3: h *= lambda; break;
    case 4: case 5:
      try { if( kind == 4 ) h = f / lambda; else h /= lambda; }
      catch( std::runtime_error& )
      {
        Calm q;
        if( lambda != 0 ) sim::violate( cls( "report" ), "division failed" );
        return "";
      }
      break;
    case 6: h = -f; break;
    case 7: h.abs(); break;
    case 8: h = f + lambda; h.abs(); break;
    default: h = 2.0 * f; break;
    }
    auto size = h.integral( p );
    auto max = h.max(), sup = h.sup();
    Calm q;
    return values( h ) + number( size ) + " " + number( max ) + " " + number( sup );
  }
  double apply( double y ) const
  {
    switch( kind )
    {
    case 0: return y + lambda;
    case 1: return y - lambda;
    case 2: case 3: return y * lambda;
    case 4: case 5: return y / lambda;
    case 6: return -y;
    case 7: case 8: return std::abs( y );
    default: return 2 * y;
    }
  }
  void judge( const std::string& r, unsigned ) const override
  {
    if( ( kind == 4 || kind == 5 ) && lambda == 0 ) { require( r, "" ); return; }
    // With the zeros of the function.
    std::vector<Dot> v;
    auto a = this->a;
    if( kind == 8 )
      for( auto&& q : a ) q.y += lambda;
    for( std::size_t i = 0; i < a.size(); i++ )
    {
      if( i && a[i-1].y * a[i].y < 0 )
        v.push_back( { a[i-1].x + ( a[i].x - a[i-1].x ) * a[i-1].y / ( a[i-1].y - a[i].y ), 0 } );
      v.push_back( a[i] );
    }
    for( auto&& q : v ) q.y = apply( q.y );
    double max = v.empty() ? 0 : -1e300;
    for( auto&& q : v ) max = std::max( max, q.y );
    std::vector<double> want;
    for( auto&& x : at ) want.push_back( value( v, x ) );
    want.push_back( integral( v ) );
    want.push_back( max );
    want.push_back( max );
    compare( *this, r, want, 1e-9, &at );
  }
};

Add<Indicator>    a1( "D12", "indicator-function", 4 );
Add<EnvelopeOf>   a2( "D12", "envelope", 3 );
Add<Norms>        a3( "D12", "norms", 2 );
Add<Weighted>     a4( "D12", "weighted-persistence", 1 );
Add<Entropy>      a5( "D12", "entropy", 2 );
Add<Neighbours>   a6( "D12", "neighbour-entropy", 1 );
Add<Grid>         a7( "D12", "grid-entropy", 2 );
Add<Editing>      a8( "D12", "editing", 3 );
Add< StepSum<false> > b1( "D12", "step-sum", 4 );
Add< StepSum<true> >  b0( "D12", "step-sum-gaps", 1, NoFaults | NoThreads );
Add<StepScalar>   b2( "D12", "step-scalar", 3 );
Add<StepNormal>   b3( "D12", "step-normalise", 1 );
Add<StepText>     b4( "D12", "step-text", 1, NoFaults );
Add<IndicatorSum> b5( "D12", "indicator-sum", 4 );
Add<LinearSum>    c1( "D12", "linear-sum", 3 );
Add<LinearScalar> c2( "D12", "linear-scalar", 3 );

} // namespace
