// The tool for pairwise distances of diagrams.

#include "tools.hh"

#include <aleph/math/PiecewiseLinearFunction.hh>
#include <aleph/math/StepFunction.hh>

#include <aleph/persistenceDiagrams/Envelope.hh>
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh>

#include <aleph/persistenceDiagrams/distances/Bottleneck.hh>

#include <limits>

extern "C" int sim_tool_topological_distance( int, char** );

namespace
{

using namespace tools;

using Diagram = aleph::PersistenceDiagram<double>;

const double Infinity = std::numeric_limits<double>::infinity();

double distance( const Point& p, const Point& q ) { return std::max( std::abs( p.first - q.first ), std::abs( p.second - q.second ) ); }

double hausdorff( const Points& A, const Points& B )
{
  if( A.empty() && B.empty() ) return 0;
  double r = 0;
  for( unsigned i = 0; i < 2; i++ )
    for( auto&& p : i ? B : A )
    {
      double d = Infinity;
      for( auto&& q : i ? A : B ) d = std::min( d, distance( p, q ) );
      r = std::max( r, d );
    }
  return A.empty() || B.empty() ? Infinity : r;
}

// Sum of the p-th powers along the best matching.
double matching( const Points& A, const Points& B, double p )
{
  auto alone = [&] ( const Point& a ) { return std::pow( std::abs( a.second - a.first ) / 2, p ); };
  std::vector<double> best( std::size_t( 1 ) << B.size(), Infinity );
  best[0] = 0;
  for( auto&& a : A )
  {
    std::vector<double> next( best.size(), Infinity );
    for( std::size_t m = 0; m < best.size(); m++ )
    {
      if( best[m] == Infinity ) continue;
      next[m] = std::min( next[m], best[m] + alone( a ) );
      for( std::size_t j = 0; j < B.size(); j++ )
        if( !( m >> j & 1 ) )
          next[ m | std::size_t( 1 ) << j ] = std::min( next[ m | std::size_t( 1 ) << j ], best[m] + std::pow( distance( a, B[j] ), p ) );
    }
    best = next;
  }
  double r = Infinity;
  for( std::size_t m = 0; m < best.size(); m++ )
  {
    double c = best[m];
    for( std::size_t j = 0; j < B.size(); j++ )
      if( !( m >> j & 1 ) ) c += alone( B[j] );
    r = std::min( r, c );
  }
  return r;
}

Diagram make( const Points& D )
{
  Diagram r;
  for( auto&& p : D ) r.add( p.first, p.second );
  return r;
}

struct Distances : Tool
{
  enum { Hausdorff, Wasserstein, Bottleneck, Indicator, Envelope };

  std::vector< std::map<unsigned, Points> > sets;   // in the order of the rows
  unsigned what;
  double power, sigma, factor;
  bool clean, unique, normalise, kernel, exponential;

  Distances()
  {
    name  = "topological_distance";
    entry = sim_tool_topological_distance;

    what        = unsigned( sim::choose( 5 ) );
    power       = sim::pick( { 2.0, 1.0, 3.0 } );
    sigma       = sim::pick( { 1.0, 0.5, 2.0 } );
    clean       = sim::flip( 1, 3 );
    factor      = sim::flip( 1, 3 ) ? sim::pick( { 2.0, 1.0, 1.5 } ) : 0.0;
    unique      = sim::flip( 1, 4 );
    normalise   = what == Indicator && sim::flip( 1, 3 );
    kernel      = sim::flip( 1, 4 );
    exponential = sim::flip( 1, 4 );
    bool json   = sim::flip( 1, 3 );

    unsigned n = 1 + unsigned( sim::choose( 5 ) );
    unsigned dimensions = 1 + unsigned( sim::choose( 2 ) );
    unsigned first = unsigned( sim::choose( 2 ) );
    bool gaps = sim::flip( 1, 4 );
    sets.resize( n );
    for( auto&& s : sets )
      for( unsigned d = 0; d < dimensions; d++ )
        if( s.empty() || !gaps || sim::flip( 1, 2 ) )
        {
          s[ first + d ] = diagram( what == Wasserstein ? 4 : 6 );
          if( clean || factor != 0 || what == Indicator || what == Envelope )
            for( unsigned k = unsigned( sim::choose( 3 ) ); k > 0; k-- ) s[ first + d ].push_back( { value(), Infinity } );
        }

    switch( what )
    {
    case Hausdorff:   if( sim::flip( 1, 2 ) ) arg( sim::flip( 1, 2 ) ? "--hausdorff" : "-h" ); break;
    case Wasserstein: arg( sim::flip( 1, 2 ) ? "--wasserstein" : "-w" ); break;
    case Bottleneck:  arg( sim::flip( 1, 2 ) ? "--bottleneck" : "-b" ); break;
    case Indicator:   arg( sim::flip( 1, 2 ) ? "--indicator" : "-i" ); break;
    case Envelope:    arg( sim::flip( 1, 2 ) ? "--envelope" : "-E" ); break;
    }
    if( power != 2.0 || sim::flip( 1, 4 ) ) { arg( "-p" ); arg( shown( power ) ); }
    if( sigma != 1.0 || sim::flip( 1, 4 ) ) arg( "--sigma=" + shown( sigma ) );
    if( factor != 0 ) arg( sim::flip( 1, 2 ) ? "--factor=" + shown( factor ) : "-f" + shown( factor ) );
    if( clean )       arg( sim::flip( 1, 2 ) ? "--clean" : "-c" );
    if( unique )      arg( "-r" );
    if( normalise )   arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( kernel )      arg( sim::flip( 1, 2 ) ? "--kernel" : "-k" );
    if( exponential ) arg( sim::flip( 1, 2 ) ? "--exp" : "-e" );

    std::vector<std::string> names;
    std::map< unsigned, std::vector<std::string> > namesOf;
    for( unsigned i = 0; i < n; i++ )
    {
      std::string stem = "/sim/" + std::string( 1, char( 'a' + ( i * 7 ) % 26 ) ) + std::to_string( i );
      if( json )
      {
        std::string t = "{\n\"diagrams\": [\n";
        bool comma = false;
        for( auto&& p : sets[i] )
        {
          unsigned betti = 0;
          for( auto&& q : p.second ) betti += std::isinf( q.second );
          t += std::string( comma ? ",\n" : "" ) + "{ \"betti\": " + std::to_string( betti ) + ", \"dimension\": " + std::to_string( p.first )
            + ", \"size\": " + std::to_string( p.second.size() ) + ",\n  \"diagram\": [";
          comma = true;
          for( std::size_t k = 0; k < p.second.size(); k++ )
            t += std::string( k ? "," : "" ) + "[\"" + shown( p.second[k].first ) + "\",\"" + shown( p.second[k].second ) + "\"]";
          t += "] }";
        }
        input( stem + ".json", t + "\n]\n}\n" );
        namesOf[i].push_back( stem + ".json" );
      }
      else
      {
        bool plain = sets[i].size() == 1 && sets[i].begin()->first == 0 && sim::flip( 1, 2 );
        for( auto&& p : sets[i] )
        {
          auto path = stem + ( plain ? "" : ( sim::flip( 1, 2 ) ? "_d" : "_k" ) + std::to_string( p.first ) ) + ".txt";
          input( path, diagramFile( p.second ) );
          namesOf[i].push_back( path );
        }
      }
    }
    // Rows follow the first file of every set.
    for( unsigned i = 0; i < n; i++ ) names.push_back( namesOf[i][0] );
    for( unsigned i = 0; i < n; i++ )
      for( std::size_t k = 1; k < namesOf[i].size(); k++ )
        names.insert( names.begin() + std::ptrdiff_t( i + 1 + sim::choose( names.size() - i ) ), namesOf[i][k] );
    std::map<std::string, unsigned> owner;
    for( auto&& p : namesOf ) for( auto&& x : p.second ) owner[x] = p.first;
    std::vector< std::map<unsigned, Points> > order;
    std::set<unsigned> seen;
    for( auto&& x : names )
      if( seen.insert( owner[x] ).second ) order.push_back( sets[ owner[x] ] );
    sets = order;

    if( sim::flip( 1, 4 ) )
    {
      arg( sim::flip( 1, 2 ) ? "--list" : "-l" );
      std::string t;
      for( auto&& x : names ) t += x + "\n";
      if( sim::flip( 1, 3 ) ) t.pop_back();
      input( "/sim/list", t );
      arg( "/sim/list" );
    }
    else
      for( auto&& x : names ) arg( x );
  }

  Points treated( const Points& D ) const
  {
    Points r;
    for( auto&& p : D )
      if( !clean || ( p.first != p.second && !std::isinf( p.second ) ) ) r.push_back( p );
    if( unique )
    {
      std::sort( r.begin(), r.end() );
      r.erase( std::unique( r.begin(), r.end() ), r.end() );
    }
    if( factor != 0 )
    {
      double most = -Infinity;
      for( auto&& p : r ) { most = std::max( most, p.first ); if( !std::isinf( p.second ) ) most = std::max( most, p.second ); }
      for( auto&& p : r ) if( std::isinf( p.second ) ) p.second = factor * most;
    }
    return r;
  }

  double entryOf( const std::map<unsigned, Points>& A, const std::map<unsigned, Points>& B ) const
  {
    std::set<unsigned> dimensions;
    for( auto&& s : sets ) for( auto&& p : s ) dimensions.insert( p.first );
    auto get = [&] ( const std::map<unsigned, Points>& S, unsigned d ) { return S.count( d ) ? treated( S.at( d ) ) : Points(); };
    auto finite = [] ( Points D )
    {
      D.erase( std::remove_if( D.begin(), D.end(), [] ( const Point& p ) { return std::isinf( p.second ); } ), D.end() );
      return make( D );
    };

    double r = 0;
    for( auto d : dimensions )
    {
      auto a = get( A, d ), b = get( B, d );
      switch( what )
      {
      case Hausdorff:   r += std::pow( hausdorff( a, b ), power ); break;
      case Wasserstein: r += matching( a, b, power ); break;
      case Bottleneck:  r += std::pow( aleph::distances::bottleneckDistance( make( a ), make( b ) ), power ); break;
      case Indicator:
      {
        // A missing diagram is one without points.
        using Function = aleph::math::StepFunction<double>;
        Function f = A.count( d ) ? aleph::persistenceIndicatorFunction( finite( a ) ) : Function();
        Function g = B.count( d ) ? aleph::persistenceIndicatorFunction( finite( b ) ) : Function();
        if( normalise ) { f = aleph::math::normalize( f ); g = aleph::math::normalize( g ); }
        g = -g;
        r += ( f + g ).abs().pow( power ).integral();
        break;
      }
      case Envelope:
      {
        using Function = aleph::math::PiecewiseLinearFunction<double>;
        Function f = A.count( d ) ? aleph::Envelope()( finite( a ) ) : Function();
        Function g = B.count( d ) ? aleph::Envelope()( finite( b ) ) : Function();
        g = -g;
        r += power == 1.0 ? ( f + g ).abs().integral() : ( f + g ).abs().integral( power );
        break;
      }
      }
    }
    if( what <= Bottleneck ) r = std::pow( r, 1 / power );
    if( kernel )
    {
      r = -r;
      if( exponential ) r = std::exp( sigma * r );
    }
    return r;
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto rows = lines( out );
    if( rows.size() != sets.size() )
      wrong( "the matrix has " + std::to_string( rows.size() ) + " rows instead of " + std::to_string( sets.size() ) + ":\n" + out );
    for( std::size_t i = 0; i < rows.size(); i++ )
      if( split( rows[i], " " ).size() != sets.size() ) wrong( "row " + std::to_string( i ) + " does not have " + std::to_string( sets.size() ) + " columns:\n" + out );
    for( std::size_t i = 0; i < rows.size(); i++ )
    {
      auto columns = split( rows[i], " " );
      for( std::size_t j = 0; j < columns.size(); j++ )
      {
        double x;
        if( !number( columns[j], x ) ) wrong( "no number: " + columns[j] );
        if( columns[j] != split( rows[j], " " )[i] ) wrong( "the matrix is not symmetric:\n" + out );
        if( i == j )
        {
          // The diagonal of a kernel matrix is left open.
          if( x != 0 && !kernel ) wrong( "the diagonal holds " + columns[j] );
          continue;
        }
        double y = entryOf( sets[i], sets[j] );
        // The library does not find the same bottleneck for both orders.
        if( !near( x, y ) && !near( x, entryOf( sets[j], sets[i] ) ) )
          wrong( "the entry of rows " + std::to_string( i ) + " and " + std::to_string( j ) + " is " + columns[j] + " instead of " + shown( y ) + ":\n" + out );
      }
    }
  }
};

sim::Register distances( "P21", "pairwise distances", once<Distances> );

} // namespace
