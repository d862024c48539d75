// Tools that summarise diagrams and functions.

#include "tools.hh"

#include <aleph/math/StepFunction.hh>

#include <aleph/persistenceDiagrams/Entropy.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

#include <limits>

extern "C"
{
int sim_tool_make_signature( int, char** );
int sim_tool_persistence_diagram_entropies( int, char** );
int sim_tool_persistence_diagram_statistics( int, char** );
int sim_tool_persistence_indicator_function( int, char** );
int sim_tool_persistence_indicator_function_confidence_sets( int, char** );
int sim_tool_piecewise_linear_function_smoothing( int, char** );
}

namespace
{

using namespace tools;

using Diagram = aleph::PersistenceDiagram<double>;
using Step    = aleph::math::StepFunction<double>;

const double Infinity = std::numeric_limits<double>::infinity();

Diagram make( const Points& D, bool finite = false )
{
  Diagram r;
  for( auto&& p : D )
    if( !finite || !std::isinf( p.second ) ) r.add( p.first, p.second );
  return r;
}

// -- statistics -------------------------------------------------------------

struct Statistics : Tool
{
  struct Row { std::string path, name; unsigned dimension; Points D; };
  std::vector<Row> rows;
  double power = 2;
  double invalid;
  bool filter;

  Statistics()
  {
    name    = "persistence_diagram_statistics";
    entry   = sim_tool_persistence_diagram_statistics;
    filter  = sim::flip( 1, 3 );
    invalid = value();
    if( sim::flip( 1, 2 ) )
    {
      power = sim::pick( { 1.0, 3.0, 0.5 } );
      if( sim::flip( 1, 2 ) ) arg( "--power=" + shown( power ) );
      else { arg( "-p" ); arg( shown( power ) ); }
    }
    if( filter )
    {
      if( sim::flip( 1, 2 ) ) arg( "--invalid=" + shown( invalid ) );
      else { arg( "-i" ); arg( shown( invalid ) ); }
    }
    unsigned n = 1 + unsigned( sim::choose( 4 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      Row r;
      r.name = std::string( 1, char( 'p' + i ) ) + ( sim::flip( 1, 3 ) ? "_x_d" : "" );
      r.dimension = 0;
      r.path = "/sim/" + r.name;
      if( sim::flip( 1, 2 ) )
      {
        r.dimension = unsigned( sim::choose( 12 ) );
        r.path += ( sim::flip( 1, 2 ) ? "_d" : "_k" ) + std::to_string( r.dimension );
      }
      r.path += ".txt";
      r.D = diagram( 8, !filter );
      if( filter ) for( auto&& p : r.D ) if( sim::flip( 1, 6 ) ) ( sim::flip( 1, 2 ) ? p.first : p.second ) = invalid;
      if( !filter && sim::flip( 1, 5 ) ) r.D.push_back( { value(), Infinity } );
      input( r.path, diagramFile( r.D ) );
      arg( r.path );
      rows.push_back( r );
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto l = lines( out );
    if( l.size() != rows.size() + 1 ) wrong( "there are " + std::to_string( l.size() ) + " lines:\n" + out );
    if( l[0] != "file,name,dimension,n_features,power,total_persistence,total_persistence_normalized,infinity_norm,average_persistence" )
      wrong( "header " + l[0] );
    for( std::size_t i = 0; i < rows.size(); i++ )
    {
      auto& r = rows[i];
      auto c = split( l[i+1], "," );
      if( c.size() != 9 ) wrong( "columns of " + l[i+1] );
      if( c[0] != "'" + r.path + "'" || c[1] != r.name || c[2] != std::to_string( r.dimension ) ) wrong( "identification of " + l[i+1] );
      double n = 0, total = 0, most = 0, sum = 0;
      for( auto&& p : r.D )
      {
        if( filter && ( p.first == invalid || p.second == invalid || p.first == p.second ) ) continue;
        double d = p.second - p.first;
        n++;
        total += std::pow( std::abs( d ), power );
        most = std::max( most, std::abs( d ) );
        sum += d;
      }
      double want[] = { n, power, total, total / n, most, sum / n };
      for( unsigned k = 0; k < 6; k++ )
      {
        double x;
        if( !number( c[3+k], x ) || !near( x, want[k] ) ) wrong( "column " + std::to_string( 3 + k ) + " of " + l[i+1] + " should be " + shown( want[k] ) );
      }
    }
  }
};

// -- entropies ----------------------------------------------------------------

struct Entropies : Tool
{
  std::vector<Points> diagrams;

  Entropies()
  {
    name  = "persistence_diagram_entropies";
    entry = sim_tool_persistence_diagram_entropies;
    unsigned n = 1 + unsigned( sim::choose( 3 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      auto D = diagram( 7, false );
      if( D.size() < 2 ) D = { { 0, 1 }, { 0.5, 2 } };
      diagrams.push_back( D );
      input( "/sim/e" + std::to_string( i ) + ".txt", diagramFile( D ) );
      arg( "/sim/e" + std::to_string( i ) + ".txt" );
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto l = lines( out );
    if( l.size() != diagrams.size() ) wrong( "there are " + std::to_string( l.size() ) + " lines:\n" + out );
    for( std::size_t i = 0; i < l.size(); i++ )
    {
      auto c = split( l[i], "\t" );
      if( c.size() != 3 ) wrong( "columns of " + l[i] );
      auto D = make( diagrams[i] );
      double sum = 0, entropy = 0;
      for( auto&& p : diagrams[i] ) sum += p.second - p.first;
      for( auto&& p : diagrams[i] ) entropy -= ( p.second - p.first ) / sum * std::log2( ( p.second - p.first ) / sum );
      double want[] = { double( aleph::nearestNeighbourAreaEntropy( D ) ), double( aleph::gridEntropy( D, 20 ) ), entropy };
      for( unsigned k = 0; k < 3; k++ )
      {
        double x;
        if( !number( c[k], x ) || !near( x, want[k] ) ) wrong( "column " + std::to_string( k ) + " of " + l[i] + " should be " + shown( want[k] ) );
      }
    }
  }
};

// -- signatures -----------------------------------------------------------------

struct Signature : Tool
{
  std::vector<Points> diagrams;
  double threshold = 0;
  unsigned keep = 0;
  bool normalise;

  Signature()
  {
    name      = "make_signature";
    entry     = sim_tool_make_signature;
    normalise = sim::flip( 1, 3 );
    if( sim::flip( 1, 3 ) ) threshold = value( 9 );
    if( sim::flip( 1, 3 ) ) keep = unsigned( sim::choose( 12 ) );
    if( threshold != 0 ) { if( sim::flip( 1, 2 ) ) arg( "--filter=" + shown( threshold ) ); else { arg( "-f" ); arg( shown( threshold ) ); } }
    if( keep )           { if( sim::flip( 1, 2 ) ) arg( "--keep=" + std::to_string( keep ) ); else { arg( "-k" ); arg( std::to_string( keep ) ); } }
    if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    unsigned n = 1 + unsigned( sim::choose( 4 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      auto D = diagram( 6 );
      if( sim::flip( 1, 4 ) ) for( auto&& p : D ) std::swap( p.first, p.second );
      diagrams.push_back( D );
      input( "/sim/s" + std::to_string( i ), diagramFile( D ) );
      arg( "/sim/s" + std::to_string( i ) );
    }
  }

  std::vector<double> signature( Points D ) const
  {
    Points E;
    for( auto&& p : D )
      if( threshold == 0 || std::abs( p.second - p.first ) >= threshold ) E.push_back( p );
    if( normalise && !E.empty() )
    {
      double lo = Infinity, hi = -Infinity;
      for( auto&& p : E ) { lo = std::min( { lo, p.first, p.second } ); hi = std::max( { hi, p.first, p.second } ); }
      if( lo != hi ) for( auto&& p : E ) p = { ( p.first - lo ) / ( hi - lo ), ( p.second - lo ) / ( hi - lo ) };
    }
    std::vector<double> r;
    for( std::size_t i = 0; i < E.size(); i++ )
      for( std::size_t j = i + 1; j < E.size(); j++ )
        r.push_back( std::min( { std::max( std::abs( E[i].first - E[j].first ), std::abs( E[i].second - E[j].second ) ),
                                 std::abs( E[i].second - E[i].first ), std::abs( E[j].second - E[j].first ) } ) );
    std::sort( r.rbegin(), r.rend() );
    if( keep ) r.resize( keep );
    return r;
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto l = lines( out );
    if( l.size() != diagrams.size() ) wrong( "there are " + std::to_string( l.size() ) + " lines:\n" + out );
    for( std::size_t i = 0; i < l.size(); i++ )
    {
      auto want = signature( diagrams[i] );
      auto c = words( l[i] );
      bool good = c.size() == want.size();
      double x;
      for( std::size_t k = 0; good && k < c.size(); k++ ) good = number( c[k], x ) && near( x, want[k] );
      if( !good ) wrong( "signature " + l[i] + " instead of " + ops::join( want ) );
    }
  }
};

// -- indicator functions ----------------------------------------------------------

// Steps as they are printed: both ends of every interval.
struct Steps
{
  struct Interval { double a, b, y; };
  std::vector<Interval> intervals;

  double operator()( double t ) const
  {
    for( auto&& i : intervals ) if( i.a < t && t < i.b ) return i.y;
    return 0;
  }
};

bool parseSteps( const std::vector<std::string>& l, Steps& f )
{
  for( std::size_t i = 0; i < l.size(); i += 2 )
  {
    if( i + 1 >= l.size() ) return false;
    auto p = words( l[i] ), q = words( l[i+1] );
    double a, b, y, z;
    if( p.size() != 2 || q.size() != 2 || !number( p[0], a ) || !number( p[1], y ) || !number( q[0], b ) || !number( q[1], z ) || y != z || b < a ) return false;
    if( !f.intervals.empty() && a < f.intervals.back().b ) return false;
    f.intervals.push_back( { a, b, y } );
  }
  return true;
}

std::vector<std::string> notEmpty( const std::vector<std::string>& l )
{
  std::vector<std::string> r;
  for( auto&& x : l ) if( !x.empty() ) r.push_back( x );
  return r;
}

unsigned active( const Points& D, double t )
{
  unsigned n = 0;
  for( auto&& p : D ) n += !std::isinf( p.second ) && p.first < t && t < p.second;
  return n;
}

std::vector<double> between( const std::vector<Points>& diagrams )
{
  std::set<double> x;
  for( auto&& D : diagrams ) for( auto&& p : D ) { x.insert( p.first ); if( !std::isinf( p.second ) ) x.insert( p.second ); }
  std::vector<double> r;
  for( auto it = x.begin(); it != x.end(); ++it )
  {
    if( it == x.begin() ) r.push_back( *it - 1 );
    r.push_back( std::next( it ) == x.end() ? *it + 1 : ( *it + *std::next( it ) ) / 2 );
  }
  return r;
}

struct Indicator : Tool
{
  std::vector<Points> diagrams;
  std::vector<std::string> paths;
  std::string meanPath;

  Indicator()
  {
    name   = "persistence_indicator_function";
    entry  = sim_tool_persistence_indicator_function;
    prints = false;
    std::string directory = "/tmp/", prefix = "PIF_";
    if( sim::flip( 2, 3 ) )
    {
      directory = sim::pick( { "/sim/out/", "/sim/" } );
      auto d = sim::flip( 1, 2 ) ? directory : directory.substr( 0, directory.size() - 1 );
      if( sim::flip( 1, 2 ) ) arg( "--output=" + d ); else { arg( "-o" ); arg( d ); }
    }
    if( sim::flip( 1, 3 ) )
    {
      prefix = sim::pick( { "f-", "X", "" } );
      if( prefix.empty() && directory == "/sim/" ) prefix = "Y";
      if( sim::flip( 1, 2 ) ) arg( "--prefix=" + prefix ); else { arg( "-p" ); arg( prefix ); }
    }
    bool mean = sim::flip( 1, 2 );
    if( mean )
    {
      arg( sim::flip( 1, 2 ) ? "--mean" : "-m" );
      meanPath = directory + prefix + "mean.txt";
      outputs.insert( meanPath );
    }
    unsigned n = 1 + unsigned( sim::choose( 4 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      auto D = diagram( 6 );
      if( sim::flip( 1, 3 ) ) D.push_back( { value(), Infinity } );
      diagrams.push_back( D );
      auto stem = std::string( 1, char( 'g' + i ) ) + ( sim::flip( 1, 3 ) ? "_d1" : "" );
      auto path = "/sim/in/" + stem + sim::pick( { ".txt", ".dgm", "" } );
      input( path, diagramFile( D ) );
      arg( path );
      paths.push_back( directory + prefix + stem + ".txt" );
      outputs.insert( paths.back() );
    }
  }

  void judge( const std::string&, const Files& written ) const override
  {
    for( auto&& p : outputs ) if( !written.count( p ) ) wrong( p + " is missing" );
    auto where = between( diagrams );
    for( std::size_t i = 0; i < paths.size(); i++ )
    {
      Steps f;
      if( !parseSteps( notEmpty( lines( written.at( paths[i] ) ) ), f ) ) wrong( "no step function:\n" + written.at( paths[i] ) );
      for( auto&& t : where )
        if( f( t ) != active( diagrams[i], t ) )
          wrong( paths[i] + " holds " + shown( f( t ) ) + " at " + shown( t ) + " instead of " + shown( active( diagrams[i], t ) ) + ":\n" + written.at( paths[i] ) );
    }
    if( meanPath.empty() ) return;
    Steps f;
    if( !parseSteps( notEmpty( lines( written.at( meanPath ) ) ), f ) ) wrong( "no step function:\n" + written.at( meanPath ) );
    // Sums of the library fill certain dips.
    Step sum;
    for( auto&& D : diagrams ) sum += aleph::persistenceIndicatorFunction( make( D, true ) );
    for( auto&& t : where )
    {
      double mean = 0;
      for( auto&& D : diagrams ) mean += active( D, t );
      double n = double( diagrams.size() );
      if( !near( f( t ), mean / n ) && !near( f( t ), sum( t ) / n ) )
        wrong( "the mean holds " + shown( f( t ) ) + " at " + shown( t ) + " instead of " + shown( mean / n ) + ":\n" + written.at( meanPath ) );
    }
  }
};

// Parts of a text that are separated by empty lines.
std::vector< std::vector<std::string> > blocks( const std::string& s )
{
  std::vector< std::vector<std::string> > r;
  bool fresh = true;
  for( auto&& l : lines( s ) )
  {
    if( l.empty() ) { fresh = true; continue; }
    if( fresh ) r.emplace_back();
    fresh = false;
    r.back().push_back( l );
  }
  return r;
}

struct Confidence : Tool
{
  std::vector<Points> diagrams;
  std::string path = "/tmp/Mean_plus_confidence.txt";

  Confidence()
  {
    name   = "persistence_indicator_function_confidence_sets";
    entry  = sim_tool_persistence_indicator_function_confidence_sets;
    prints = false;
    outputs.insert( path );
    if( sim::flip( 1, 2 ) ) arg( "--alpha=" + shown( sim::pick( { 0.1, 0.5, 0.9, 0.01 } ) ) );
    if( sim::flip( 1, 2 ) ) { arg( "-b" ); arg( std::to_string( 1 + sim::choose( 20 ) ) ); }
    bool steps = sim::flip( 1, 2 );
    if( steps ) arg( sim::flip( 1, 2 ) ? "--read-step-functions" : "-s" );
    unsigned n = 1 + unsigned( sim::choose( 4 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      Points D = { { value(), 0 } };
      D[0].second = D[0].first + 1 + value();
      std::string t;
      if( steps )
      {
        t = shown( D[0].first ) + "\t1\n" + shown( D[0].second ) + "\t1\n";
        if( sim::flip( 1, 3 ) ) t += "\n";
      }
      else
      {
        auto E = diagram( 4 );
        D.insert( D.end(), E.begin(), E.end() );
        if( sim::flip( 1, 3 ) ) D.push_back( { value(), Infinity } );
        t = diagramFile( D );
      }
      diagrams.push_back( D );
      auto p = "/sim/c" + std::to_string( i ) + ".txt";
      input( p, t );
      arg( p );
    }
  }

  void judge( const std::string&, const Files& written ) const override
  {
    if( !written.count( path ) ) wrong( path + " is missing" );
    auto& text = written.at( path );
    auto b = blocks( text );
    if( b.size() != 3 ) wrong( "there are " + std::to_string( b.size() ) + " functions:\n" + text );
    Steps f[3];
    for( unsigned i = 0; i < 3; i++ )
      if( !parseSteps( b[i], f[i] ) || f[i].intervals.size() != f[0].intervals.size() ) wrong( "no step function:\n" + text );
    Step sum;
    for( auto&& D : diagrams )
    {
      auto E = make( D, true );
      E.removeDiagonal();
      sum += aleph::persistenceIndicatorFunction( E );
    }
    double n = double( diagrams.size() ), most = 0;
    for( auto&& t : between( diagrams ) )
    {
      double mean = 0;
      for( auto&& D : diagrams ) { mean += active( D, t ); most = std::max( most, double( active( D, t ) ) ); }
      if( !near( f[0]( t ), mean / n ) && !near( f[0]( t ), sum( t ) / n ) )
        wrong( "the mean holds " + shown( f[0]( t ) ) + " at " + shown( t ) + " instead of " + shown( mean / n ) + ":\n" + text );
    }
    double c = f[1].intervals[0].y - f[0].intervals[0].y;
    if( c < 0 || c > most || ( diagrams.size() == 1 && c != 0 ) ) wrong( "a band of width " + shown( c ) + ":\n" + text );
    for( std::size_t i = 0; i < f[0].intervals.size(); i++ )
      if( !near( f[1].intervals[i].y - f[0].intervals[i].y, c ) || !near( f[0].intervals[i].y - f[2].intervals[i].y, c )
          || f[1].intervals[i].a != f[0].intervals[i].a || f[2].intervals[i].a != f[0].intervals[i].a )
        wrong( "the band is not parallel to the mean:\n" + text );
  }
};

// -- smoothing ------------------------------------------------------------------

struct Smoothing : Tool
{
  std::vector< std::map<double, double> > functions;

  Smoothing()
  {
    name  = "piecewise_linear_function_smoothing";
    entry = sim_tool_piecewise_linear_function_smoothing;
    if( sim::flip( 1, 2 ) ) arg( "--alpha=" + shown( sim::pick( { 0.1, 0.5, 0.9, 0.01 } ) ) );
    if( sim::flip( 1, 2 ) ) arg( "--n=" + std::to_string( 1 + sim::choose( 20 ) ) );
    unsigned n = 2 + unsigned( sim::choose( 3 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      std::map<double, double> f;
      f[0] = value() - 4;
      f[8] = value() - 4;
      for( unsigned k = unsigned( sim::choose( 5 ) ); k > 0; k-- ) f[ double( 1 + sim::choose( 7 ) ) ] = value() - 4;
      std::string t;
      if( sim::flip( 1, 3 ) ) t += "# values\n";
      for( auto&& p : f ) t += ( sim::flip( 1, 8 ) ? "  " : "" ) + shown( p.first ) + "\t" + shown( p.second ) + "\n";
      if( sim::flip( 1, 4 ) ) t.pop_back();
      functions.push_back( f );
      auto p = "/sim/l" + std::to_string( i );
      input( p, t );
      arg( p );
    }
  }

  static double at( const std::map<double, double>& f, double x )
  {
    auto r = f.lower_bound( x );
    if( r == f.end() ) return std::nan( "" );
    if( r->first == x ) return r->second;
    if( r == f.begin() ) return std::nan( "" );
    auto l = std::prev( r );
    return l->second + ( x - l->first ) / ( r->first - l->first ) * ( r->second - l->second );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto b = blocks( out );
    if( b.size() != 3 ) wrong( "there are " + std::to_string( b.size() ) + " functions:\n" + out );
    std::map<double, double> f[3];
    for( unsigned i = 0; i < 3; i++ )
      for( auto&& l : b[i] )
      {
        auto w = words( l );
        double x, y;
        if( w.size() != 2 || !number( w[0], x ) || !number( w[1], y ) ) wrong( "no values: " + l );
        f[i][x] = y;
      }
    double c = at( f[1], 0 ) - at( f[0], 0 ), most = 0;
    for( double x = 0; x <= 8; x += 0.5 )
    {
      double mean = 0;
      for( auto&& g : functions ) mean += at( g, x ) / double( functions.size() );
      for( auto&& g : functions ) most = std::max( most, std::abs( at( g, x ) - mean ) );
      // Only few digits of the ends of pieces are printed.
      if( !near( at( f[0], x ), mean, 1e-3 ) ) wrong( "the mean holds " + shown( at( f[0], x ) ) + " at " + shown( x ) + " instead of " + shown( mean ) + ":\n" + out );
      if( !near( at( f[1], x ) - at( f[0], x ), c, 2e-3 ) || !near( at( f[0], x ) - at( f[2], x ), c, 2e-3 ) )
        wrong( "the band is not parallel to the mean at " + shown( x ) + ":\n" + out );
    }
    if( !( c >= -1e-4 && c <= most + 1e-3 ) ) wrong( "a band of width " + shown( c ) + ", although no function is farther than " + shown( most ) + " from the mean:\n" + out );
  }
};

sim::Register r1( "P22", "statistics", once<Statistics> );
sim::Register r2( "P22", "entropies", once<Entropies> );
sim::Register r3( "P22", "signatures", once<Signature> );
sim::Register r4( "P22", "indicator functions", once<Indicator> );
sim::Register r5( "P22", "confidence sets", once<Confidence> );
sim::Register r6( "P22", "smoothing", once<Smoothing> );

} // namespace
