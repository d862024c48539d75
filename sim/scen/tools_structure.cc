// Tools for hierarchies, spectra, spines, triangulations, patches and matrices.

#include "balls.hh"
#include "hierarchy.hh"
#include "tools_graphs.hh"

#include <bitset>

extern "C"
{
int sim_tool_ephemeral( int, char** );
int sim_tool_interlevel_set_persistence_hierarchy( int, char** );
int sim_tool_local_dimensionality( int, char** );
int sim_tool_persistence_indicator_function_glyph( int, char** );
int sim_tool_persistent_spines( int, char** );
int sim_tool_process_image_patches( int, char** );
int sim_tool_spectral_analysis( int, char** );
int sim_tool_wicked_triangulations( int, char** );
}

namespace
{

using namespace tools;

std::vector<double> distinctValues( std::size_t n )
{
  std::vector<double> v;
  for( std::size_t i = 1; i <= std::max<std::size_t>( n, 12 ); i++ ) v.push_back( double( i ) / 4 );
  sim::shuffle( v );
  v.resize( n );
  return v;
}

// In order of a filtration: weights, then dimensions, then the vertices in
// descending order.
void arrange( std::vector<Cell>& c, bool descending )
{
  std::sort( c.begin(), c.end(), [&] ( const Cell& a, const Cell& b )
  {
    if( a.w != b.w ) return descending ? a.w > b.w : a.w < b.w;
    if( a.v.size() != b.v.size() ) return a.v.size() < b.v.size();
    return std::lexicographical_compare( a.v.rbegin(), a.v.rend(), b.v.rbegin(), b.v.rend() );
  } );
}

// -- hierarchies ------------------------------------------------------------------

struct Hierarchies : Tool
{
  std::vector< std::vector<Cell> > graphs;
  bool descending;

  void add( std::vector<double> values, std::size_t nx, std::size_t ny, std::size_t nz )
  {
    std::vector<Cell> c;
    for( unsigned i = 0; i < values.size(); i++ ) c.push_back( { { i }, values[i] } );
    auto edge = [&] ( std::size_t a, std::size_t b )
    {
      c.push_back( { { unsigned( a ), unsigned( b ) }, descending ? std::min( values[a], values[b] ) : std::max( values[a], values[b] ) } );
    };
    for( std::size_t z = 0; z < nz; z++ )
      for( std::size_t y = 0; y < ny; y++ )
        for( std::size_t x = 0; x < nx; x++ )
        {
          auto i = ( z * ny + y ) * nx + x;
          if( x + 1 < nx ) edge( i, i + 1 );
          if( y + 1 < ny ) edge( i, i + nx );
          if( z + 1 < nz ) edge( i, i + nx * ny );
        }
    arrange( c, descending );
    graphs.push_back( c );
  }

  Hierarchies()
  {
    name  = "interlevel_set_persistence_hierarchy";
    entry = sim_tool_interlevel_set_persistence_hierarchy;
    descending = sim::flip( 1, 2 );
    if( !descending && sim::flip( 1, 4 ) ) arg( "-S" );
    if( descending || sim::flip( 1, 2 ) || !args.empty() )
      arg( sim::flip( 1, 2 ) ? descending ? "--superlevels" : "--sublevels" : descending ? "-S" : "-s" );
    auto files = 1 + sim::choose( 3 );
    for( std::uint64_t i = 0; i < files; i++ )
    {
      std::string t, path;
      if( sim::flip( 1, 2 ) )
      {
        std::size_t nx = 1 + sim::choose( 4 ), ny = 1 + sim::choose( 4 ), nz = sim::flip( 1, 3 ) ? 2 : 1;
        auto v = distinctValues( nx * ny * nz );
        t = "# vtk DataFile Version 2.0\nwritten by someone\nASCII\nDATASET STRUCTURED_GRID\n";
        t += "DIMENSIONS " + std::to_string( nx ) + " " + std::to_string( ny ) + " " + std::to_string( nz ) + "\n";
        t += "POINTS " + std::to_string( v.size() ) + " float\n";
        for( std::size_t k = 0; k < v.size(); k++ )
          t += std::to_string( k % nx ) + " " + std::to_string( k / nx % ny ) + " " + std::to_string( k / nx / ny ) + "\n";
        t += "POINT_DATA " + std::to_string( v.size() ) + "\nSCALARS values float 1\nLOOKUP_TABLE default\n";
        for( std::size_t k = 0; k < v.size(); k++ ) t += shown( v[k] ) + ( ( k + 1 ) % nx ? " " : "\n" );
        add( v, nx, ny, nz );
        path = "/sim/" + std::to_string( i ) + ".vtk";
      }
      else
      {
        auto n = 1 + sim::choose( 4 );
        std::vector<double> v;
        for( std::uint64_t k = 0; k < n; k++ )
        {
          // Some functions look alike: their diagrams are the same.
          if( v.empty() || sim::flip( 2, 3 ) ) v = distinctValues( 1 + sim::choose( 11 ) );
          else if( sim::flip( 1, 2 ) )         std::reverse( v.begin(), v.end() );
          for( std::size_t x = 0; x < v.size(); x++ ) t += ( x ? " " : "" ) + shown( v[x] );
          t += "\n";
          add( v, v.size(), 1, 1 );
        }
        path = "/sim/" + std::to_string( i ) + ".txt";
      }
      input( path, t );
      arg( path );
    }
    outputs.insert( "/tmp/classes.txt" );
  }

  static Points diagram( const std::vector<Cell>& c )
  {
    ops::Elder e( c );
    Points D;
    for( auto&& m : e.merges ) if( c[m.creator].w != c[m.edge].w ) D.push_back( { c[m.creator].w, c[m.edge].w } );
    for( auto&& r : e.roots ) D.push_back( { c[r].w, Infinity } );
    std::sort( D.begin(), D.end() );
    return D;
  }

  std::map< Points, std::set<std::size_t> > classes() const
  {
    std::map< Points, std::set<std::size_t> > r;
    for( std::size_t i = 0; i < graphs.size(); i++ ) r[ diagram( graphs[i] ) ].insert( i );
    return r;
  }

  void judge( const std::string& out, const Files& written ) const override
  {
    auto l = lines( out );
    std::size_t at = 0;
    auto line = [&] () { if( at >= l.size() ) wrong( "the output ends early:\n" + out ); return l[at++]; };
    for( auto&& c : graphs )
    {
      std::map<double, unsigned> vertex;
      std::map<unsigned, double> creation, destruction;
      for( auto&& x : c ) if( x.v.size() == 1 ) { vertex[x.w] = x.v[0]; creation[ x.v[0] ] = x.w; destruction[ x.v[0] ] = Infinity; }
      for( auto&& m : ops::Elder( c ).merges ) destruction[ m.younger ] = c[m.edge].w;

      std::vector<unsigned> nodes;
      for( auto s = line(); !s.empty(); s = line() )
      {
        auto w = words( s );
        double b, d;
        if( w.size() != 3 || w[0] != std::to_string( nodes.size() ) + ":" || !number( w[1], b ) || !number( w[2], d ) || !vertex.count( b ) ) wrong( "node " + s + " in:\n" + out );
        auto v = vertex[b];
        if( !near( d, destruction[v] ) ) wrong( "the vertex of " + shown( b ) + " dies at " + shown( destruction[v] ) + ": " + s );
        nodes.push_back( v );
      }
      std::set<unsigned> used;
      auto links = ops::links( c );
      for( auto&& link : links )
      {
        auto s = line();
        auto w = words( s );
        double a, b;
        if( w.size() != 3 || w[1] != "--" || !number( w[0], a ) || !number( w[2], b ) || a < 0 || b < 0 || a >= double( nodes.size() ) || b >= double( nodes.size() ) )
          wrong( "edge " + s + " in:\n" + out );
        auto u = nodes[ std::size_t( a ) ], v = nodes[ std::size_t( b ) ];
        if( v != link.younger || !link.sources.count( u ) ) wrong( "edge " + s + " where vertex " + std::to_string( link.younger ) + " joins " + std::to_string( link.older ) + ":\n" + out );
        used.insert( u );
        used.insert( v );
      }
      if( std::vector<unsigned>( used.begin(), used.end() ) != nodes ) wrong( "other vertices than those of the edges are listed:\n" + out );
      if( !line().empty() || !line().empty() ) wrong( "there are more edges than merges:\n" + out );
    }
    if( at != l.size() ) wrong( "there is more than one hierarchy per function:\n" + out );

    std::set< std::set<std::size_t> > want, got;
    for( auto&& c : this->classes() ) if( c.second.size() > 1 ) want.insert( c.second );
    for( auto&& s : lines( written.at( "/tmp/classes.txt" ) ) )
    {
      std::set<std::size_t> g;
      for( auto&& w : words( s ) )
      {
        double x;
        if( !number( w, x ) || !g.insert( std::size_t( x ) ).second ) wrong( "classes of diagrams:\n" + written.at( "/tmp/classes.txt" ) );
      }
      if( !got.insert( g ).second ) wrong( "classes of diagrams:\n" + written.at( "/tmp/classes.txt" ) );
    }
    if( want != got ) wrong( "there are " + std::to_string( want.size() ) + " classes of equal diagrams, not:\n" + written.at( "/tmp/classes.txt" ) );
  }

  void judgeMessages( const std::string& text ) const override
  {
    auto want = "Out of " + std::to_string( graphs.size() ) + " persistence diagrams, there are " + std::to_string( this->classes().size() ) + " unique ones";
    if( text.find( want ) == std::string::npos ) wrong( want + ", not:\n" + text );
  }
};

// -- spectra ------------------------------------------------------------------------

struct Spectrum : Tool
{
  std::vector<double> x, y;
  std::string mode = "diagram";
  bool normalise;

  Spectrum()
  {
    name  = "spectral_analysis";
    entry = sim_tool_spectral_analysis;
    normalise = sim::flip( 1, 3 );
    if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( sim::flip( 3, 4 ) )
    {
      mode = sim::pick( { "diagram", "transformation", "identity" } );
      if( sim::flip( 1, 2 ) ) arg( "--mode=" + mode ); else { arg( "-m" ); arg( mode ); }
    }
    auto n = 2 + sim::choose( 14 );
    y = distinctValues( n );
    std::string t;
    for( std::size_t i = 0; i < n; i++ )
    {
      x.push_back( 100.5 + 0.25 * double( i ) );
      if( sim::flip( 1, 10 ) ) t += sim::pick( { "# comment\n", "\n", "-3 4\n", " 7 8\n", "mass 3\n" } );
      t += shown( x[i] ) + sim::pick( { " ", "\t", "   " } ) + shown( y[i] ) + "\n";
    }
    input( "/sim/s.txt", t );
    arg( "/sim/s.txt" );
    if( normalise )
    {
      double sum = 0;
      for( auto&& v : y ) sum += v;
      for( auto&& v : y ) v /= sum;
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    std::vector<Cell> c;
    for( unsigned i = 0; i < y.size(); i++ )
    {
      c.push_back( { { i }, y[i] } );
      if( i ) c.push_back( { { i - 1, i }, std::min( y[i-1], y[i] ) } );
    }
    arrange( c, true );
    ops::Elder e( c );
    std::map<unsigned, double> destruction;
    for( auto&& m : e.merges ) destruction[ m.younger ] = c[m.edge].w;
    Points want, got;
    for( unsigned i = 0; i < y.size(); i++ )
    {
      auto d = destruction.count( i ) ? destruction[i] : 0.0;
      if( mode == "diagram" )             { if( y[i] != d ) want.push_back( { y[i], d } ); }
      else if( mode == "transformation" ) want.push_back( { x[i], y[i] - d } );
      else                                want.push_back( { x[i], y[i] } );
    }
    auto l = lines( out );
    while( mode == "diagram" && !l.empty() && l.back().empty() ) l.pop_back();
    if( !parsePoints( l, got ) ) wrong( "no list of points:\n" + out );
    if( mode == "diagram" ) { std::sort( want.begin(), want.end() ); std::sort( got.begin(), got.end() ); }
    bool good = want.size() == got.size();
    for( std::size_t i = 0; good && i < want.size(); i++ ) good = near( want[i].first, got[i].first, 1e-9 ) && near( want[i].second, got[i].second, 1e-9 );
    if( !good ) wrong( mode + " should be " + text( want ) + "not:\n" + out );
  }
};

// -- dimensionality -------------------------------------------------------------------

Coordinates scattered( unsigned least, unsigned most, unsigned dimension )
{
  Coordinates c( least + sim::choose( most - least + 1 ) );
  for( auto&& p : c )
    for( unsigned i = 0; i < dimension; i++ ) p.push_back( double( sim::choose( 20000 ) ) );
  return c;
}

// Squared lengths of the principal axes, in descending order.
std::vector<double> spectrum( const Coordinates& c )
{
  std::size_t d = c[0].size();
  std::vector<double> mean( d );
  for( auto&& p : c ) for( std::size_t i = 0; i < d; i++ ) mean[i] += p[i] / double( c.size() );
  std::vector< std::vector<double> > A( d, std::vector<double>( d ) );
  for( auto&& p : c )
    for( std::size_t i = 0; i < d; i++ )
      for( std::size_t j = 0; j < d; j++ ) A[i][j] += ( p[i] - mean[i] ) * ( p[j] - mean[j] );
  for( unsigned sweep = 0; sweep < 60; sweep++ )
    for( std::size_t p = 0; p < d; p++ )
      for( std::size_t q = p + 1; q < d; q++ )
      {
        if( std::abs( A[p][q] ) < 1e-14 ) continue;
        double theta = 0.5 * std::atan2( 2 * A[p][q], A[q][q] - A[p][p] ), cs = std::cos( theta ), sn = std::sin( theta );
        for( std::size_t k = 0; k < d; k++ ) { double a = A[k][p], b = A[k][q]; A[k][p] = cs * a - sn * b; A[k][q] = sn * a + cs * b; }
        for( std::size_t k = 0; k < d; k++ ) { double a = A[p][k], b = A[q][k]; A[p][k] = cs * a - sn * b; A[q][k] = sn * a + cs * b; }
      }
  std::vector<double> r;
  for( std::size_t i = 0; i < d; i++ ) r.push_back( std::max( 0.0, A[i][i] ) );
  std::sort( r.rbegin(), r.rend() );
  return r;
}

struct Dimensionality : Tool
{
  Coordinates c;
  std::string method = "pca";
  unsigned k = 8, K = 0, steps = 1;
  bool smooth = false;
  std::vector<double> want;

  struct Neighbour { double distance; std::size_t index; };
  std::vector< std::vector<Neighbour> > neighbours;

  void option( const std::string& letter, unsigned v )
  {
    if( sim::flip( 1, 2 ) ) arg( "--" + letter + "=" + std::to_string( v ) ); else { arg( "-" + letter ); arg( std::to_string( v ) ); }
  }

  double estimate( std::size_t i ) const
  {
    auto& d = neighbours[i];
    auto mean = [&] ( unsigned m ) { double s = 0; for( unsigned j = 0; j < m; j++ ) s += d[j].distance; return s / m; };
    if( method == "nn" && K == 0 ) return mean( k ) / ( ( mean( k + 1 ) - mean( k ) ) * k );
    if( method == "nn" )
    {
      double s = 0, t = 0;
      for( unsigned j = k; j + 1 < K; j++ )
      {
        auto step = mean( j + 1 ) - mean( j );
        s += step * mean( j ) / j;
        t += step * step;
      }
      return s / t;
    }
    double sum = 0;
    for( unsigned j = k - 1; j < K; j++ )
    {
      double logs = 0;
      for( unsigned m = 0; m < j; m++ ) if( d[m].distance > 0 ) logs += std::log( d[j].distance / d[m].distance );
      if( j > 1 && logs > 0 ) sum += ( j - 1 ) / logs;
    }
    return sum / ( K - k + 1 );
  }

  Dimensionality()
  {
    name  = "local_dimensionality";
    entry = sim_tool_local_dimensionality;
    unsigned dimension = 1 + unsigned( sim::choose( 3 ) );
    c = scattered( 6, 14, dimension );
    double unit = sim::pick( { 1.0, 1e-3, 1e-4 } ); // smoothing has no effect on points that are far apart
    for( auto&& p : c ) for( auto&& x : p ) x *= unit;
    auto n = unsigned( c.size() );
    neighbours.resize( n );
    for( unsigned i = 0; i < n; i++ )
    {
      for( unsigned j = 0; j < n; j++ ) neighbours[i].push_back( { distance( c[i], c[j] ), j } );
      std::sort( neighbours[i].begin(), neighbours[i].end(), [] ( const Neighbour& a, const Neighbour& b ) { return a.distance < b.distance; } );
      for( unsigned j = 1; j < n; j++ ) if( neighbours[i][j].distance - neighbours[i][j-1].distance < 1e-3 * unit ) sim::discard();
    }
    if( sim::flip( 4, 5 ) )
    {
      method = sim::pick( { "pca", "nn", "nn", "mle", "mst" } );
      if( sim::flip( 1, 2 ) ) arg( "--method=" + method ); else { arg( "-m" ); arg( method ); }
    }
    if( n <= k || sim::flip( 3, 4 ) ) { k = std::min( n - 1, dimension + 1 + unsigned( sim::choose( n - 2 ) ) ); this->option( "k", k ); }
    if( method == "mle" || ( method == "nn" && sim::flip( 1, 2 ) ) ) { K = k + unsigned( sim::choose( n - k + 1 ) ); if( sim::flip( 1, 6 ) ) K = k - 1; if( K ) this->option( "K", K ); }
    bool none = method == "mst" || ( method == "nn" && K && K < k ) || ( method == "pca" && dimension == 1 );
    prints  = !none;
    refused = method == "mle" && K < k;
    if( !none && k + 1 <= n && sim::flip( 1, 2 ) )
    {
      smooth = true;
      arg( sim::flip( 1, 2 ) ? "--smooth" : "-s" );
      if( sim::flip( 1, 2 ) ) { steps = unsigned( sim::choose( 4 ) ); this->option( "n", steps ); }
    }
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );

    if( none || refused ) return;
    for( unsigned i = 0; i < n; i++ )
    {
      if( method != "pca" ) { want.push_back( this->estimate( i ) ); continue; }
      Coordinates local;
      for( unsigned j = 0; j <= k; j++ ) local.push_back( c[ neighbours[i][j].index ] );
      auto s = spectrum( local );
      for( auto&& v : s ) v = std::sqrt( v );
      std::size_t best = 0;
      for( std::size_t j = 1; j + 1 < s.size(); j++ )
      {
        auto a = s[best] - s[best+1], b = s[j] - s[j+1];
        if( std::abs( a - b ) < 1e-3 * unit ) sim::discard();
        if( b > a ) best = j;
      }
      want.push_back( double( best + 1 ) );
    }
    for( unsigned step = 0; smooth && step < steps; step++ )
    {
      auto next = want;
      for( unsigned i = 0; i < n; i++ )
      {
        double sum = 0, weights = 0;
        for( unsigned j = 0; j <= k; j++ )
        {
          auto d = neighbours[i][j].distance, w = d > 0 ? 1 / ( d * d ) : 1.0;
          sum     += w * want[ neighbours[i][j].index ];
          weights += w;
        }
        next[i] = sum / weights;
      }
      want = next;
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto l = lines( out );
    bool good = l.size() == want.size();
    for( std::size_t i = 0; good && i < l.size(); i++ )
    {
      double x;
      good = number( l[i], x ) && near( x, want[i] );
    }
    std::string s;
    for( auto&& x : want ) s += shown( x ) + " ";
    if( !good ) wrong( "estimates should be " + s + "not:\n" + out );
  }
};

// -- spines -------------------------------------------------------------------------

struct Spines : Tool
{
  Coordinates c;
  double radius = 0;
  bool drawn;
  std::map<Vertices, double> cech;

  Spines()
  {
    name  = "persistent_spines";
    entry = sim_tool_persistent_spines;
    unsigned dimension = sim::flip( 1, 4 ) ? 1 : 2 + unsigned( sim::choose( 2 ) );
    c = Coordinates( 1 + sim::choose( 5 ) );
    for( auto&& p : c ) for( unsigned i = 0; i < dimension; i++ ) p.push_back( double( sim::choose( 1000 ) ) / 50 );
    drawn = sim::flip( 1, 3 );
    if( drawn ) arg( sim::flip( 1, 2 ) ? "--tikz" : "-t" );
    if( sim::flip( 9, 10 ) )
    {
      radius = value( 40 ) + 0.1;
      if( sim::flip( 1, 2 ) ) arg( "--radius=" + shown( radius ) ); else { arg( "-r" ); arg( shown( radius ) ); }
    }
    if( sim::flip( 2, 3 ) )
    {
      std::string method = sim::pick( { "dumb", "fast" } );
      if( sim::flip( 1, 2 ) ) arg( "--spine=" + method ); else { arg( "-s" ); arg( method ); }
    }
    for( unsigned mask = 1; mask < 1u << c.size(); mask++ )
    {
      Vertices v;
      Coordinates s;
      for( unsigned i = 0; i < c.size(); i++ ) if( mask & 1u << i ) { v.push_back( i ); s.push_back( c[i] ); }
      auto r = s.size() == 1 ? 0 : ops::enclosingRadius( s );
      if( s.size() > 1 && std::abs( r - radius ) < 1e-4 ) sim::discard();
      if( r <= radius ) cech[v] = 2 * r;
    }
    refused = drawn && dimension < 2;
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
  }

  void judgeSpine( const std::set<Vertices>& spine, const std::string& out ) const
  {
    std::set<Vertices> all;
    for( auto&& x : cech ) all.insert( x.first );
    for( auto&& v : spine ) if( !all.count( v ) ) wrong( "the spine is not a part of the complex:\n" + out );
    if( !ops::closed( spine ) ) wrong( "a face of the spine is missing:\n" + out );
    if( ops::betti( spine ) != ops::betti( all ) ) wrong( "the homology of the spine differs:\n" + out );
    for( auto&& f : spine )
    {
      std::size_t cofaces = 0;
      for( auto&& g : spine ) cofaces += g.size() > f.size() && std::includes( g.begin(), g.end(), f.begin(), f.end() );
      if( cofaces == 1 ) wrong( "a face of the spine is free:\n" + out );
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    if( drawn ) { this->judgePicture( out ); return; }
    std::vector< std::map<Vertices, double> > complexes;
    bool open = false;
    for( auto&& l : lines( out ) )
    {
      if( l == std::string( 80, '-' ) )
      {
        open = !open;
        if( open ) complexes.emplace_back();
        continue;
      }
      if( l.empty() && !open ) continue;
      Vertices v;
      double w = 0, x = 0;
      bool weighted = false;
      if( !open || l.size() < 3 || l.front() != '{' || l.back() != '}' ) wrong( "line " + l + " in:\n" + out );
      for( auto&& s : words( l.substr( 1, l.size() - 2 ) ) )
      {
        if( s.front() == '(' ) { weighted = number( s.substr( 1, s.size() - 2 ), w ); continue; }
        if( weighted || !number( s, x ) ) wrong( "line " + l + " in:\n" + out );
        v.push_back( unsigned( x ) );
      }
      std::sort( v.begin(), v.end() );
      if( !cech.count( v ) || !near( w, cech.at( v ) ) || !complexes.back().insert( { v, w } ).second ) wrong( "simplex " + l + " in:\n" + out );
    }
    if( open || complexes.size() != 2 ) wrong( "there are not two complexes:\n" + out );
    if( complexes[0].size() != cech.size() ) wrong( "there are " + std::to_string( cech.size() ) + " simplices, not:\n" + out );
    std::set<Vertices> spine;
    for( auto&& x : complexes[1] ) spine.insert( x.first );
    this->judgeSpine( spine, out );
  }

  void judgePicture( const std::string& out ) const
  {
    // Numbers in parentheses are vertices, except for circles and positions.
    std::vector< std::set<Vertices> > pictures;
    std::vector< std::set<unsigned> > balls;
    auto l = lines( out );
    if( l.empty() || l[0] != "\\documentclass{standalone}" || l.back() != "\\end{document}" ) wrong( "no document:\n" + out );
    bool open = false;
    for( auto&& s : l )
    {
      if( s == "\\begin{tikzpicture}" ) { open = true; pictures.emplace_back(); balls.emplace_back(); continue; }
      if( s == "\\end{tikzpicture}" ) { open = false; continue; }
      if( !open || s.empty() || s[0] == '%' ) continue;
      Vertices v;
      std::string rest = s;
      for( auto a = rest.find( '(' ); a != std::string::npos; a = rest.find( '(' ) )
      {
        auto b = rest.find( ')', a );
        double x;
        if( b == std::string::npos ) wrong( "line " + s );
        auto inner = rest.substr( a + 1, b - a - 1 );
        auto before = rest.substr( 0, a );
        rest = rest.substr( b + 1 );
        if( before.find( " at " ) != std::string::npos )
        {
          auto p = split( inner, "," );
          double y = 0;
          if( p.size() != 2 || v.empty() || v[0] >= c.size() || !number( p[0], x ) || !number( p[1], y ) || !near( x, c[ v[0] ][0] ) || !near( y, c[ v[0] ][1] ) ) wrong( "position in " + s );
        }
        else if( before.find( "circle" ) != std::string::npos )
        {
          if( s.compare( 0, 6, "\\fill[" ) == 0 )
          {
            if( inner.size() < 3 || !number( inner.substr( 0, inner.size() - 2 ), x ) || !near( x, radius ) || !balls.back().insert( v[0] ).second ) wrong( "ball in " + s );
          }
        }
        else
        {
          if( !number( inner, x ) ) wrong( "vertex in " + s );
          v.push_back( unsigned( x ) );
        }
      }
      std::sort( v.begin(), v.end() );
      if( s.compare( 0, 11, "\\coordinate" ) == 0 || v.size() > 1 )
        if( !cech.count( v ) || !pictures.back().insert( v ).second ) wrong( "simplex in " + s );
    }
    if( open || pictures.size() != 2 ) wrong( "there are not two pictures:\n" + out );
    std::set<Vertices> want;
    std::size_t top = 0;
    for( auto&& x : cech ) { top = std::max( top, x.first.size() ); if( x.first.size() <= 3 ) want.insert( x.first ); }
    if( pictures[0] != want ) wrong( "the picture of the complex is incomplete:\n" + out );
    if( balls[0].size() != c.size() || !balls[1].empty() ) wrong( "balls are drawn around the points of the first picture:\n" + out );
    if( top <= 3 ) this->judgeSpine( pictures[1], out );
    else if( !ops::closed( pictures[1] ) ) wrong( "a face of the spine is missing:\n" + out );
  }
};

// -- triangulations --------------------------------------------------------------------

struct Triangulations : Tool
{
  static const std::size_t Most = 1024;
  using Chain = std::bitset<Most>;

  std::vector< std::set<Vertices> > complexes;

  Triangulations()
  {
    name  = "wicked_triangulations";
    entry = sim_tool_wicked_triangulations;
    auto n = 1 + sim::choose( 3 );
    std::string t;
    if( sim::flip( 1, 4 ) ) t += "# some triangulations\n\n";
    for( std::uint64_t i = 0; i < n; i++ )
    {
      std::set<Vertices> s;
      std::vector<Vertices> given;
      if( sim::flip( 1, 8 ) )
        given = { { 1, 2, 3 }, { 1, 2, 4 }, { 1, 3, 4 }, { 2, 3, 4 } };
      else if( sim::flip( 1, 8 ) )
        given = { { 1, 2, 5 }, { 1, 2, 6 }, { 1, 3, 4 }, { 1, 3, 6 }, { 1, 4, 5 }, { 2, 3, 4 }, { 2, 3, 5 }, { 2, 4, 6 }, { 3, 5, 6 }, { 4, 5, 6 } };
      else
      {
        auto most = sim::flip( 1, 12 ) ? 4 : 2 + sim::choose( 2 ), count = 1 + sim::choose( most == 4 ? 2 : 5 );
        for( std::uint64_t k = 0; k < count; k++ )
        {
          auto size = sim::flip( 3, 4 ) ? most : 2 + sim::choose( most - 1 );
          std::vector<unsigned> pool = { 1, 2, 3, 4, 5, 6 };
          sim::shuffle( pool );
          Vertices v( pool.begin(), pool.begin() + std::ptrdiff_t( size ) );
          std::sort( v.begin(), v.end() );
          if( std::find( given.begin(), given.end(), v ) == given.end() ) given.push_back( v );
        }
      }
      t += "manifold_" + std::to_string( i ) + "=[";
      for( std::size_t k = 0; k < given.size(); k++ )
      {
        if( k ) t += sim::flip( 1, 6 ) ? ",\n  " : ",";
        t += "[";
        for( std::size_t j = 0; j < given[k].size(); j++ ) t += ( j ? "," : "" ) + std::to_string( given[k][j] );
        t += "]";
        ops::closure( s, given[k] );
      }
      t += "]\n";
      if( sim::flip( 1, 2 ) ) t += "\n";
      complexes.push_back( s );
    }
    input( "/sim/t.txt", t );
    arg( "/sim/t.txt" );
  }

  static std::size_t rank( std::vector<Chain> c )
  {
    std::size_t r = 0;
    for( std::size_t i = 0; i < c.size(); i++ )
    {
      if( c[i].none() ) continue;
      r++;
      auto low = c[i]._Find_first();
      for( std::size_t j = i + 1; j < c.size(); j++ ) if( c[j][low] ) c[j] ^= c[i];
    }
    return r;
  }

  // Chains of the given simplices whose boundary is allowable, by boundary.
  static std::vector<Chain> allowed( std::vector<Chain> boundaries, const Chain& mask )
  {
    std::vector<Chain> r;
    for( std::size_t i = 0; i < boundaries.size(); i++ )
    {
      auto x = boundaries[i] & mask;
      if( x.none() ) { r.push_back( boundaries[i] ); continue; }
      auto low = x._Find_first();
      for( std::size_t j = i + 1; j < boundaries.size(); j++ ) if( boundaries[j][low] ) boundaries[j] ^= boundaries[i];
    }
    return r;
  }

  static std::size_t dimension( const std::set<Vertices>& s )
  {
    std::size_t d = 0;
    for( auto&& v : s ) d = std::max( d, v.size() - 1 );
    return d;
  }

  // The subdivision: flags of simplices. Its vertices stand for simplices of
  // the complex, those of the complex itself being the vertices.
  static std::vector<Vertices> subdivision( const std::set<Vertices>& s, std::vector<Vertices>& all )
  {
    all.assign( s.begin(), s.end() );
    std::sort( all.begin(), all.end(), [] ( const Vertices& a, const Vertices& b ) { return a.size() != b.size() ? a.size() < b.size() : a < b; } );
    std::vector<Vertices> flags;
    std::function<void( Vertices )> extend = [&] ( Vertices f )
    {
      if( !f.empty() ) flags.push_back( f );
      for( unsigned i = f.empty() ? 0 : f.back() + 1; i < all.size(); i++ )
        if( f.empty() || ( all[i].size() > all[ f.back() ].size() && std::includes( all[i].begin(), all[i].end(), all[ f.back() ].begin(), all[ f.back() ].end() ) ) )
        {
          auto g = f;
          g.push_back( i );
          extend( g );
        }
    };
    extend( {} );
    return flags;
  }

  static std::vector<std::size_t> intersectionBetti( const std::set<Vertices>& s, const std::vector<int>& p )
  {
    std::vector<Vertices> all;
    auto flags = subdivision( s, all );
    if( flags.size() > Most ) sim::discard();
    auto top = dimension( s );
    std::map<Vertices, std::size_t> index;
    for( std::size_t i = 0; i < flags.size(); i++ ) index[ flags[i] ] = i;
    Chain bad;
    for( std::size_t i = 0; i < flags.size(); i++ )
    {
      // Apart from its vertices, no simplex of the complex remains after the
      // subdivision. All of them are in every stratum.
      if( all[ flags[i][0] ].size() > 1 ) continue;
      for( std::size_t k = 1; k <= top; k++ )
        if( int( flags[i].size() ) - 1 - int( k ) + p[k-1] < 0 && p[k-1] < int( k ) ) bad[i] = true;
    }
    std::vector<std::size_t> betti;
    for( std::size_t d = 0; d <= top; d++ )
    {
      std::vector<Chain> b[2];
      for( std::size_t i = 0; i < flags.size(); i++ )
        for( std::size_t e = 0; e < 2; e++ )
          if( !bad[i] && flags[i].size() - 1 == d + e )
          {
            Chain x;
            for( auto&& f : ops::boundary( flags[i] ) ) x.flip( index.at( f ) );
            b[e].push_back( x );
          }
      betti.push_back( b[0].size() - rank( b[0] ) - rank( allowed( b[1], bad ) ) );
    }
    return betti;
  }

  template <class T> std::string listed( const std::vector<T>& v ) const
  {
    std::string s;
    for( auto&& x : v ) s += ( s.empty() ? "" : "," ) + std::to_string( x );
    return s;
  }

  std::string listed( const Json& j ) const
  {
    std::string s;
    for( auto&& x : j.items ) s += ( s.empty() ? "" : "," ) + x.text;
    return s;
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto j = parseJson( out );
    if( !j.good ) wrong( "this is no JSON document:\n" + out );
    auto& H = j.at( "homology" );
    auto& I = j.at( "intersection_homology" );
    if( H.members.size() != complexes.size() || I.members.size() != complexes.size() ) wrong( "there are " + std::to_string( complexes.size() ) + " complexes, not:\n" + out );
    for( std::size_t i = 0; i < complexes.size(); i++ )
    {
      auto& s = complexes[i];
      auto top = dimension( s );
      auto b = ops::betti( s );
      b.resize( top + 1 );
      long euler = 0;
      for( auto&& v : s ) euler += v.size() % 2 ? 1 : -1;
      auto& h = H.at( std::to_string( i ) );
      if( this->listed( h.at( "betti" ) ) != this->listed( b ) || h.at( "euler" ).text != std::to_string( euler ) )
        wrong( "complex " + std::to_string( i ) + " has Betti numbers " + this->listed( b ) + " and Euler characteristic " + std::to_string( euler ) + ", not:\n" + out );

      auto& m = I.at( std::to_string( i ) );
      std::vector<int> p( top, -1 );
      std::size_t count = 0;
      for( bool more = true; more; count++ )
      {
        auto& x = m.at( std::to_string( count ) );
        auto want = intersectionBetti( s, p );
        if( this->listed( x.at( "perversity" ) ) != this->listed( p ) || this->listed( x.at( "betti" ) ) != this->listed( want ) )
          wrong( "complex " + std::to_string( i ) + " has Betti numbers " + this->listed( want ) + " for perversity " + std::to_string( count ) + " (" + this->listed( p ) + "), not:\n" + out );
        more = false;
        for( std::size_t k = top; k-- > 0 && !more; )
          if( p[k] < int( k ) ) { p[k]++; more = true; }
          else p[k] = -1;
      }
      if( m.members.size() != count ) wrong( "there are " + std::to_string( count ) + " perversities, not:\n" + out );
    }
  }
};

// -- glyphs ------------------------------------------------------------------------------

struct Glyphs : Tool
{
  std::vector<Points> D;
  unsigned n, most = 0;

  std::string file( const std::string& kind ) const { return "/tmp/Persistence_indicator_function_glyph_" + std::to_string( n ) + "_" + kind + ".txt"; }

  Glyphs()
  {
    name   = "persistence_indicator_function_glyph";
    entry  = sim_tool_persistence_indicator_function_glyph;
    prints = false;
    auto files = 1 + sim::choose( 4 );
    n = 1 + unsigned( sim::choose( sim::pick( { 4, 20 } ) ) );
    if( sim::flip( 1, 2 ) )
    {
      most = unsigned( sim::choose( 7 ) );
      if( sim::flip( 1, 2 ) ) arg( "--max-k=" + std::to_string( most ) ); else { arg( "-K" ); arg( std::to_string( most ) ); }
    }
    arg( std::to_string( n ) );
    bool empty = true;
    for( std::uint64_t i = 0; i < files; i++ )
    {
      Points P;
      std::string t;
      auto points = sim::choose( 7 );
      for( std::uint64_t k = 0; k < points; k++ )
      {
        double b = 0.25 + value( 20 ), d = b + value( 12 );
        t += shown( b ) + " " + ( sim::flip( 1, 8 ) ? d = Infinity, "inf" : shown( d ) ) + "\n";
        if( b < d && !std::isinf( d ) ) P.push_back( { b, d } );
      }
      empty = empty && P.empty();
      D.push_back( P );
      auto path = "/sim/" + std::to_string( i ) + ".txt";
      input( path, t );
      arg( path );
    }
    if( empty ) refused = true;
    else        outputs = { this->file( "lin" ), this->file( "log" ) };
  }

  static double indicator( const Points& P, double x )
  {
    double r = 0;
    for( auto&& p : P ) r += p.first <= x && x <= p.second;
    return r;
  }

  void judge( const std::string&, const Files& written ) const override
  {
    double least = Infinity, greatest = 0;
    for( auto&& P : D ) for( auto&& p : P ) { least = std::min( least, p.first ); greatest = std::max( greatest, p.second ); }
    for( bool logarithmic : { false, true } )
    {
      auto path = this->file( logarithmic ? "log" : "lin" );
      if( !written.count( path ) ) wrong( path + " is missing" );
      auto l = lines( written.at( path ) );
      auto rows = std::max<std::size_t>( D.size(), most );
      if( l.size() != rows * ( n + 1 ) ) wrong( path + " should hold " + std::to_string( rows ) + " rows of " + std::to_string( n ) + " bins, not:\n" + written.at( path ) );
      for( std::size_t r = 0; r < rows; r++ )
      {
        if( !l[ r * ( n + 1 ) + n ].empty() ) wrong( "rows are not separated in " + path + ":\n" + written.at( path ) );
        for( unsigned k = 0; k < n; k++ )
        {
          auto w = words( l[ r * ( n + 1 ) + k ] );
          double v;
          if( w.size() != 3 || w[0] != std::to_string( k ) || w[1] != std::to_string( r ) || !number( w[2], v ) ) wrong( path + " should list column, row and value, not " + l[ r * ( n + 1 ) + k ] );
          if( r >= D.size() ) { if( v != 0 ) wrong( "glyph " + std::to_string( r ) + " should be empty in " + path ); continue; }
          auto edge = [&] ( double i ) { return logarithmic ? least * std::pow( greatest / least, i / n ) : least + ( greatest - least ) * i / n; };
          double a = edge( k ), b = edge( k + 1 ), slack = 1e-7;
          // Bins may gain or lose what lies on their edges.
          double lower = 0, upper = 0;
          std::set<double> ends = { a - slack, b + slack };
          if( !logarithmic ) ends.insert( ( a + b ) / 2 );
          if( !logarithmic && k + 1 == n ) ends.erase( ( a + b ) / 2 );
          for( auto&& p : D[r] ) { ends.insert( p.first ); ends.insert( p.second ); }
          for( auto&& x : ends )
            for( double y : { x - slack / 4, x + slack / 4 } )
            {
              if( y >= a - 2 * slack && y <= b + 2 * slack ) upper = std::max( upper, std::max( indicator( D[r], y ), indicator( D[r], x ) ) );
              if( x > a + slack && x < b - slack ) lower = std::max( lower, indicator( D[r], y ) );
            }
          if( v < lower || v > upper )
            wrong( "bin " + std::to_string( k ) + " of glyph " + std::to_string( r ) + " in " + path + " should be " + shown( lower ) + " to " + shown( upper ) + ":\n" + written.at( path ) );
        }
      }
    }
  }
};

// -- patches ------------------------------------------------------------------------------

struct Patches : Tool
{
  Coordinates c, want;

  Patches()
  {
    name  = "process_image_patches";
    entry = sim_tool_process_image_patches;
    std::size_t dimension = sim::pick( { std::size_t( 9 ), std::size_t( 4 ), std::size_t( 16 ), std::size_t( 5 ) } );
    auto n = 1 + sim::choose( 12 );
    std::vector<double> norms;
    for( std::size_t i = 0; i < n; i++ )
    {
      std::vector<double> p;
      for( std::size_t k = 0; k < dimension; k++ ) p.push_back( sim::flip( 1, 8 ) ? 0 : double( 1 + sim::choose( 255 ) ) );
      c.push_back( p );
      double mean = 0, norm = 0;
      for( auto&& x : p ) { x = x == 0 ? 0 : std::log10( x ); mean += x / double( dimension ); }
      std::size_t side = std::size_t( std::sqrt( double( dimension ) ) );
      for( std::size_t y = 0; y < side; y++ )
        for( std::size_t x = 0; x < side; x++ )
        {
          auto at = [&] ( std::size_t a, std::size_t b ) { return p[ a * side + b ]; };
          if( x + 1 < side ) norm += 2 * std::pow( at( y, x ) - at( y, x + 1 ), 2 );
          if( y + 1 < side ) norm += 2 * std::pow( at( y, x ) - at( y + 1, x ), 2 );
        }
      if( norm < 1e-3 ) sim::discard();
      double length = 0;
      for( auto&& x : p ) { x -= mean; length += x * x; }
      if( length < 1e-3 ) sim::discard();
      for( auto&& x : p ) x /= std::sqrt( length );
      want.push_back( p );
      norms.push_back( norm );
    }
    auto sorted = norms;
    std::sort( sorted.begin(), sorted.end() );
    for( std::size_t i = 1; i < n; i++ ) if( sorted[i] - sorted[i-1] < 1e-3 * sorted[i] ) sim::discard();
    auto threshold = sorted[ std::min<std::size_t>( n - 1, std::size_t( std::ceil( 0.8 * double( n ) ) ) ) ];
    Coordinates kept;
    for( std::size_t i = 0; i < n; i++ ) if( norms[i] >= threshold ) kept.push_back( want[i] );
    want = kept;
    input( "/sim/p.txt", cloudFile( c ) );
    arg( "/sim/p.txt" );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto l = lines( out );
    while( !l.empty() && l.back().empty() ) l.pop_back();
    std::string s;
    for( auto&& p : want ) { for( auto&& x : p ) s += shown( x ) + " "; s += "\n"; }
    bool good = l.size() == want.size();
    for( std::size_t i = 0; good && i < l.size(); i++ )
    {
      auto w = words( l[i] );
      good = w.size() == want[i].size();
      for( std::size_t k = 0; good && k < w.size(); k++ )
      {
        double x;
        good = number( w[k], x ) && near( x, want[i][k], 1e-4 );
      }
    }
    if( !good ) wrong( "patches should be\n" + s + "not:\n" + out );
  }

  void judgeMessages( const std::string& text ) const override
  {
    auto s = "Processed point cloud has " + std::to_string( want.size() ) + " points";
    if( text.find( s ) == std::string::npos ) wrong( s + ", not:\n" + text );
  }
};

// -- connectivity matrices -----------------------------------------------------------------

struct Ephemeral : Tool
{
  std::vector< std::vector< std::vector<double> > > matrices;
  unsigned dimension = 0;
  double infinity = Infinity;
  bool keep, distances;

  static std::string file( std::size_t i, unsigned d ) { return "/tmp/m" + std::to_string( i ) + "_d" + std::to_string( d ) + ".txt"; }
  unsigned number() const { return keep + dimension + 1; }

  Ephemeral()
  {
    name   = "ephemeral";
    entry  = sim_tool_ephemeral;
    prints = false;
    keep      = sim::flip( 1, 2 );
    distances = sim::flip( 1, 3 );
    if( keep )      arg( sim::flip( 1, 2 ) ? "--keep-unpaired" : "-k" );
    if( distances ) arg( sim::flip( 1, 2 ) ? "--distance" : "-D" );
    if( sim::flip( 1, 4 ) ) arg( sim::flip( 1, 2 ) ? "--verbose" : "-v" );
    if( sim::flip( 3, 4 ) )
    {
      dimension = unsigned( sim::choose( 4 ) );
      if( sim::flip( 1, 2 ) ) arg( "--dimension=" + std::to_string( dimension ) ); else { arg( "-d" ); arg( std::to_string( dimension ) ); }
    }
    if( sim::flip( 1, 3 ) )
    {
      infinity = sim::pick( { 2.0, 7.5, 100.0 } );
      if( sim::flip( 1, 2 ) ) arg( "--infinity=" + shown( infinity ) ); else { arg( "-i" ); arg( shown( infinity ) ); }
    }
    auto files = 1 + sim::choose( 3 );
    for( std::uint64_t f = 0; f < files; f++ )
    {
      auto n = 1 + sim::choose( 6 );
      std::vector< std::vector<double> > m( n, std::vector<double>( n ) );
      auto density = 1 + sim::choose( 4 );
      for( std::size_t i = 0; i < n; i++ )
        for( std::size_t j = i + 1; j < n; j++ )
          m[i][j] = m[j][i] = sim::flip( density, 4 ) ? double( sim::choose( 17 ) ) / 8 - 1 : 0;
      if( sim::flip( 1, 3 ) ) for( std::size_t i = 0; i < n; i++ ) m[i][i] = 1;
      std::string t, separator = sim::pick( { " ", "\t" } );
      for( auto&& row : m )
      {
        for( std::size_t j = 0; j < n; j++ ) t += ( j ? separator : "" ) + shown( row[j] );
        t += "\n";
      }
      auto path = "/sim/m" + std::to_string( f ) + ".txt";
      input( path, t );
      arg( path );
      matrices.push_back( m );
      for( unsigned d = 0; d < this->number(); d++ ) outputs.insert( file( f, d ) );
    }
  }

  // Diagrams of one filtration of a matrix.
  Diagrams filtered( const std::vector< std::vector<double> >& m, bool descending ) const
  {
    auto n = unsigned( m.size() );
    double least = m[0][0], greatest = m[0][0];
    for( auto&& row : m ) for( auto&& x : row ) { least = std::min( least, x ); greatest = std::max( greatest, x ); }
    std::vector<Cell> c;
    for( unsigned mask = 1; mask < 1u << n; mask++ )
    {
      Vertices v;
      for( unsigned i = 0; i < n; i++ ) if( mask & 1u << i ) v.push_back( i );
      if( v.size() - 1 > std::max( 1u, dimension ) ) continue;
      bool clique = true, first = true;
      double w = distances ? 0 : descending ? greatest : least;
      for( std::size_t a = 0; a < v.size(); a++ )
        for( std::size_t b = a + 1; b < v.size(); b++ )
        {
          auto x = m[ v[a] ][ v[b] ];
          clique = clique && x != 0;
          if( distances ) x = 1 - x;
          w = first ? x : descending ? std::min( w, x ) : std::max( w, x );
          first = false;
        }
      if( clique ) c.push_back( { v, w } );
    }
    auto D = diagrams( c, descending );
    std::size_t top = 0;
    for( auto&& x : c ) top = std::max( top, x.v.size() - 1 );
    for( auto&& p : D )
    {
      if( !keep && p.first == top )
        p.second.erase( std::remove_if( p.second.begin(), p.second.end(), [] ( const Point& x ) { return std::isinf( x.second ); } ), p.second.end() );
      for( auto&& x : p.second ) if( std::isinf( x.second ) && !std::isinf( infinity ) ) x.second = descending ? -infinity : infinity;
    }
    return D;
  }

  void judge( const std::string&, const Files& written ) const override
  {
    for( std::size_t i = 0; i < matrices.size(); i++ )
    {
      auto D = this->filtered( matrices[i], false );
      if( !distances )
        for( auto&& p : this->filtered( matrices[i], true ) ) D[p.first].insert( D[p.first].end(), p.second.begin(), p.second.end() );
      for( unsigned d = 0; d < this->number(); d++ )
      {
        auto path = file( i, d );
        Points E;
        if( !written.count( path ) ) wrong( path + " is missing" );
        if( !parsePoints( lines( written.at( path ) ), E ) || !same( D[d], E ) ) wrong( path + " should hold " + text( D[d] ) + ", not:\n" + written.at( path ) );
      }
    }
  }
};

sim::Register r1( "P26", "hierarchies", once<Hierarchies>, 2 );
sim::Register r2( "P26", "spectrum", once<Spectrum> );
sim::Register r3( "P26", "dimensionality", once<Dimensionality>, 2 );
sim::Register r4( "P26", "spines", once<Spines>, 2 );
sim::Register r5( "P26", "triangulations", once<Triangulations>, 2 );
sim::Register r6( "P26", "glyphs", once<Glyphs> );
sim::Register r7( "P26", "patches", once<Patches> );
sim::Register r8( "P26", "matrices", once<Ephemeral>, 2 );

} // namespace
