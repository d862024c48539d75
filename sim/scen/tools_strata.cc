// Tools for stratified graphs, intersection homology of point clouds and heat
// diffusion.

#include "intersection.hh"
#include "tools_graphs.hh"

extern "C"
{
int sim_tool_multi_scale_skeleton( int, char** );
int sim_tool_persistent_intersection_homology( int, char** );
int sim_tool_stratified_graph_analysis( int, char** );
}

namespace
{

using namespace tools;

// Points of the diagrams in a text, which are separated by blank lines.
bool parseDiagrams( const std::string& text, std::vector<Points>& D )
{
  bool open = false;
  for( auto&& l : lines( text ) )
  {
    if( words( l ).empty() ) { open = false; continue; }
    if( !open ) D.emplace_back();
    open = true;
    if( !parsePoints( { l }, D.back() ) ) return false;
  }
  return true;
}

void removeClose( Points& D )
{
  D.erase( std::remove_if( D.begin(), D.end(), [] ( const Point& p ) { return near( p.first, p.second ); } ), D.end() );
}

// -- stratified graphs ---------------------------------------------------------------

struct Strata : Tool
{
  struct Edge { unsigned u, v; double w; };
  using Edges = std::vector<Edge>;

  std::vector<Edges> graphs;
  std::string filtration = "standard", weights = "global", normalization;
  bool bipartite = false, normalize = false, reverse = false, diagramsWanted = false;
  bool positive = false;
  unsigned levels = sim::pick( { 3u, 24u } );

  double weight() const
  {
    double w = 0.25 + value( levels );
    return positive || sim::flip( 1, 2 ) ? w : -w;
  }

  void option( char letter, const std::string& name ) { arg( sim::flip( 1, 2 ) ? std::string( "-" ) + letter : "--" + name ); }
  void option( char letter, const std::string& name, const std::string& v )
  {
    if( sim::flip( 1, 2 ) ) arg( "--" + name + "=" + v );
    else { arg( std::string( "-" ) + letter ); arg( v ); }
  }

  void normalise()
  {
    normalize = true;
    if( !sim::flip( 2, 3 ) ) { option( 'n', "normalize" ); return; }
    normalization = sim::pick( { "abs", "minmax", "standardize" } );
    if( sim::flip( 1, 12 ) ) { normalization = "unknown"; refused = true; }
    arg( ( sim::flip( 1, 2 ) ? "-n" : "--normalize=" ) + normalization );
  }

  Strata()
  {
    name  = "stratified_graph_analysis";
    entry = sim_tool_stratified_graph_analysis;
    if( sim::flip( 1, 6 ) )
    {
      option( 'd', "default" );
      filtration    = "absolute";
      normalize     = true;
      normalization = "abs";
      reverse       = true;
    }
    if( sim::flip( 1, 2 ) )
    {
      filtration = sim::pick( { "standard", "absolute", "absolute" } );
      option( 'f', "filtration", filtration );
    }
    else if( sim::flip( 1, 12 ) ) { option( 'f', "filtration", "other" ); filtration = "standard"; }
    if( sim::flip( 1, 2 ) )
    {
      weights = sim::pick( { "global", "local", "local" } );
      option( 'w', "weights", weights );
    }
    else if( sim::flip( 1, 12 ) ) { option( 'w', "weights", "other" ); weights = "global"; }
    if( sim::flip( 1, 3 ) ) { option( 'r', "reverse" ); reverse = true; }
    if( sim::flip( 1, 2 ) ) this->normalise();
    if( sim::flip( 1, 2 ) ) { option( 'p', "persistence-diagrams" ); diagramsWanted = true; }
    if( sim::flip( 1, 2 ) ) { option( 'b', "bipartite" ); bipartite = true; }
    if( sim::flip( 1, 6 ) ) option( 'v', "verbose" );

    // Points need not lie between zero and one if weights differ in sign.
    positive = ( normalize && normalization.empty() ) || sim::flip( 1, 4 );

    auto n = 1 + sim::choose( 3 );
    for( std::uint64_t i = 0; i < n; i++ )
    {
      Edges e;
      std::string t;
      if( bipartite )
      {
        unsigned height = 1 + unsigned( sim::choose( 4 ) ), width = 1 + unsigned( sim::choose( 4 ) );
        if( sim::flip( 1, 4 ) ) t += "# a matrix\n";
        for( unsigned y = 0; y < height; y++ )
        {
          for( unsigned x = 0; x < width; x++ )
          {
            e.push_back( { y, height + x, sim::flip( 1, 10 ) && !positive ? 0.0 : this->weight() } );
            t += ( x ? " " : "" ) + shown( e.back().w );
          }
          t += "\n";
          if( sim::flip( 1, 6 ) ) t += "\n";
        }
      }
      else
      {
        auto g = randomGraph( sim::flip( 1, 8 ) ? 14 : 6, false, false );
        for( std::size_t k = 0; k < g.ids.size(); k++ ) g.ids[k] = unsigned( k + 1 );
        for( auto&& x : g.edges )
        {
          x.second = this->weight();
          e.push_back( { x.first.first, x.first.second, x.second } );
        }
        t = edgeList( g );
      }
      if( !normalization.empty() )
        if( std::all_of( e.begin(), e.end(), [&] ( const Edge& x ) { return x.w == e[0].w; } ) ) sim::discard();
      auto path = "/sim/" + std::to_string( i ) + ".txt";
      input( path, t );
      arg( path );
      graphs.push_back( e );
    }
  }

  void scale( Edges& e ) const
  {
    double least = Infinity, most = -Infinity, sum = 0, squares = 0;
    for( auto&& x : e ) { least = std::min( least, x.w ); most = std::max( most, x.w ); sum += x.w; }
    auto mean = sum / double( e.size() );
    for( auto&& x : e ) squares += ( x.w - mean ) * ( x.w - mean );
    auto deviation = std::sqrt( squares / double( e.size() - 1 ) );
    for( auto&& x : e )
    {
      if( normalization == "abs" ) x.w /= std::max( std::abs( least ), std::abs( most ) );
      else if( normalization == "minmax" ) x.w = 2 * ( x.w - least ) / ( most - least ) - 1;
      else if( normalization == "standardize" ) x.w = ( x.w - mean ) / deviation;
    }
  }

  Points expected( Edges e ) const
  {
    this->scale( e );
    bool absolute = filtration == "absolute";
    auto level = [&] ( double w ) { return absolute ? std::abs( w ) : w; };
    auto first = [&] ( double a, double b ) { return reverse ? std::max( a, b ) : std::min( a, b ); };

    double least = Infinity;
    std::map<unsigned, double> vertex;
    double extreme = level( e[0].w );
    for( auto&& x : e )
    {
      least   = std::min( least, std::abs( x.w ) );
      extreme = first( extreme, level( x.w ) );
      for( auto&& v : { x.u, x.v } )
      {
        auto it = vertex.find( v );
        if( it == vertex.end() ) vertex[v] = level( x.w );
        else it->second = first( it->second, level( x.w ) );
      }
    }
    std::vector<Cell> c;
    for( auto&& v : vertex ) c.push_back( { { v.first }, weights == "global" ? extreme : v.second } );
    for( auto&& x : e ) c.push_back( { { std::min( x.u, x.v ), std::max( x.u, x.v ) }, level( x.w ) } );

    auto D = tools::diagrams( c, reverse )[0];
    removeDiagonal( D );
    for( auto&& p : D ) if( std::isinf( p.second ) ) p.second = least;
    if( normalize && normalization.empty() )
    {
      double low = Infinity, high = -Infinity;
      for( auto&& x : c ) { low = std::min( low, x.w ); high = std::max( high, x.w ); }
      if( low != high ) for( auto&& p : D ) { p.first = ( p.first - low ) / ( high - low ); p.second = ( p.second - low ) / ( high - low ); }
    }
    return D;
  }

  void judge( const std::string& out, const Files& ) const override
  {
    if( diagramsWanted )
    {
      std::vector<Points> got;
      bool good = parseDiagrams( out, got ) && got.size() == graphs.size();
      std::string s;
      for( std::size_t i = 0; i < graphs.size(); i++ )
      {
        auto want = this->expected( graphs[i] );
        s += text( want ) + "; ";
        removeClose( want );
        if( !good ) continue;
        removeClose( got[i] );
        good = same( want, got[i] );
      }
      if( !good ) wrong( "diagrams should be " + s + "not:\n" + out );
    }
    else
    {
      auto l = lines( out );
      bool good = l.size() == graphs.size();
      std::string s;
      for( std::size_t i = 0; i < graphs.size(); i++ )
      {
        double sum = 0, index, x;
        for( auto&& p : this->expected( graphs[i] ) ) sum += ( p.first - p.second ) * ( p.first - p.second );
        s += shown( std::sqrt( sum ) ) + " ";
        if( !good ) continue;
        auto w = words( l[i] );
        good = w.size() == 2 && number( w[0], index ) && index == double( i ) && number( w[1], x ) && near( x, std::sqrt( sum ), 1e-4 );
      }
      if( !good ) wrong( "norms should be " + s + "not:\n" + out );
    }
  }
};

// -- heat diffusion --------------------------------------------------------------------

struct Heat : Tool
{
  using Matrix = std::vector< std::vector<double> >;

  Coordinates c;
  std::vector<double> scales;
  Matrix L;

  Heat()
  {
    name    = "multi_scale_skeleton";
    entry   = sim_tool_multi_scale_skeleton;
    outputs = { "/tmp/HKS.txt" };
    std::size_t n = 2 + sim::choose( 7 ), dimension = 2 + sim::choose( 2 );
    c.resize( n );
    for( auto&& p : c )
      for( std::size_t i = 0; i < dimension; i++ ) p.push_back( double( sim::choose( 400 ) ) / 100 );

    // Two points are connected unless another one is within the ball whose
    // diameter they are.
    auto square = [&] ( std::size_t i, std::size_t j ) { double s = 0; for( std::size_t k = 0; k < dimension; k++ ) s += ( c[i][k] - c[j][k] ) * ( c[i][k] - c[j][k] ); return s; };
    L.assign( n, std::vector<double>( n ) );
    std::vector<double> degree( n );
    scales.resize( n );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t j = i + 1; j < n; j++ )
      {
        if( square( i, j ) < 1e-6 ) sim::discard();
        bool empty = true;
        for( std::size_t k = 0; k < n; k++ )
          if( k != i && k != j )
          {
            auto excess = square( i, k ) + square( j, k ) - square( i, j );
            if( std::abs( excess ) < 1e-6 ) sim::discard();
            empty = empty && excess > 0;
          }
        if( !empty ) continue;
        auto w = std::sqrt( square( i, j ) );
        L[i][i] += w;
        L[j][j] += w;
        L[i][j] = L[j][i] = -w;
        for( auto&& v : { i, j } ) { degree[v]++; scales[v] += w; }
      }
    for( std::size_t i = 0; i < n; i++ ) scales[i] /= degree[i];
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
  }

  static Matrix product( const Matrix& A, const Matrix& B )
  {
    auto n = A.size();
    Matrix C( n, std::vector<double>( n ) );
    for( std::size_t i = 0; i < n; i++ )
      for( std::size_t k = 0; k < n; k++ )
        for( std::size_t j = 0; j < n; j++ ) C[i][j] += A[i][k] * B[k][j];
    return C;
  }

  // The matrix of diffusion after time t, by a series and squaring.
  Matrix diffusion( double t ) const
  {
    auto n = L.size();
    const unsigned squarings = 14;
    Matrix A = L, E( n, std::vector<double>( n ) ), term;
    for( auto&& r : A ) for( auto&& x : r ) x *= -t / double( 1u << squarings );
    for( std::size_t i = 0; i < n; i++ ) E[i][i] = 1;
    term = E;
    for( unsigned k = 1; k <= 8; k++ )
    {
      term = product( term, A );
      for( auto&& r : term ) for( auto&& x : r ) x /= k;
      for( std::size_t i = 0; i < n; i++ ) for( std::size_t j = 0; j < n; j++ ) E[i][j] += term[i][j];
    }
    for( unsigned k = 0; k < squarings; k++ ) E = product( E, E );
    return E;
  }

  void judge( const std::string& out, const Files& written ) const override
  {
    std::vector< std::vector<double> > printed, stored;
    for( auto&& x : { std::make_pair( &out, &printed ), std::make_pair( &written.at( "/tmp/HKS.txt" ), &stored ) } )
      for( auto&& l : lines( *x.first ) )
      {
        auto w = words( l );
        if( w.empty() ) continue;
        x.second->emplace_back();
        for( auto&& y : w )
        {
          double v;
          if( !number( y, v ) ) wrong( "this is no number: " + y );
          x.second->back().push_back( v );
        }
      }
    std::size_t at = 0;
    for( double t : { 0.0, 0.001, 0.01, 0.1, 0.5, 1.0, 9.0 } )
    {
      auto E = this->diffusion( t );
      for( std::size_t i = 0; i < c.size(); i++, at++ )
      {
        auto v = scales[i] * E[i][i];
        if( at >= printed.size() || printed[at].size() != 2 || printed[at][0] != double( i ) || !near( printed[at][1], v ) )
          wrong( "value " + std::to_string( i ) + " at time " + shown( t ) + " should be " + shown( v ) + ", not:\n" + out );
        if( at >= stored.size() || stored[at].size() != 3 || !near( stored[at][0], c[i][0] ) || !near( stored[at][1], c[i][1] ) || !near( stored[at][2], v ) )
          wrong( "stored value " + std::to_string( i ) + " at time " + shown( t ) + " should be " + shown( v ) + ", not:\n" + written.at( "/tmp/HKS.txt" ) );
      }
    }
    if( printed.size() != at || stored.size() != at ) wrong( "there are too many values:\n" + out );
  }
};

// -- intersection homology ---------------------------------------------------------------

struct Allowable : Tool
{
  static const std::size_t Most = 512;

  std::map<std::size_t, Points> ordinary, allowable;

  static std::vector<Cell> rips( const Coordinates& c, double radius, std::size_t most )
  {
    std::vector<Cell> r;
    std::function<void( Vertices, double )> extend = [&] ( Vertices v, double w )
    {
      if( !v.empty() ) r.push_back( { v, w } );
      if( v.size() > most ) return;
      for( unsigned i = v.empty() ? 0 : v.back() + 1; i < c.size(); i++ )
      {
        double x = w;
        for( auto&& j : v ) x = std::max( x, distance( c[i], c[j] ) );
        if( x > radius ) continue;
        auto u = v;
        u.push_back( i );
        extend( u, x );
      }
    };
    extend( {}, 0 );
    return r;
  }

  static std::size_t dimension( const std::vector<Cell>& c )
  {
    std::size_t d = 0;
    for( auto&& x : c ) d = std::max( d, x.v.size() - 1 );
    return d;
  }

  Allowable()
  {
    name   = "persistent_intersection_homology";
    entry  = sim_tool_persistent_intersection_homology;
    prints = false;

    double threshold = 0, radius = tools::radius();
    bool invert = false, standardize = false, values = sim::flip( 2, 3 );
    if( sim::flip( 1, 2 ) )
    {
      threshold = value( 17 ) - 2 + 0.1;
      if( sim::flip( 1, 2 ) ) arg( "--filter=" + shown( threshold ) ); else { arg( "-f" ); arg( shown( threshold ) ); }
    }
    if( sim::flip( 1, 3 ) ) { arg( sim::flip( 1, 2 ) ? "-i" : "--invert" ); invert = true; }
    if( sim::flip( 1, 3 ) ) { arg( sim::flip( 1, 2 ) ? "-s" : "--standardize" ); standardize = true; }

    Coordinates c( 3 + sim::choose( values ? 5 : 3 ) );
    for( auto&& p : c ) for( unsigned i = 0; i < 2; i++ ) p.push_back( value( 17 ) - 1 );
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
    arg( shown( radius ) );

    std::size_t most = 2;
    std::vector<double> singularity;
    if( values )
    {
      Coordinates v( c.size() );
      auto width = 1 + sim::choose( 2 );
      for( auto&& p : v )
      {
        double sum = 0;
        for( std::uint64_t i = 0; i < width; i++ ) { p.push_back( value( 17 ) - 2 ); sum += p.back(); }
        singularity.push_back( sum );
      }
      input( "/sim/v.txt", cloudFile( v ) );
      arg( "/sim/v.txt" );
      if( sim::flip( 1, 2 ) ) { most = 1 + sim::choose( invert ? 2 : 3 ); arg( std::to_string( most ) ); }
      if( standardize )
      {
        double mean = 0, squares = 0, n = double( singularity.size() );
        for( auto&& x : singularity ) mean += x / n;
        for( auto&& x : singularity ) squares += ( x - mean ) * ( x - mean );
        if( squares < 1e-9 ) sim::discard();
        for( auto&& x : singularity ) x = ( x - mean ) / std::sqrt( squares / ( n - 1 ) );
      }
      for( auto&& x : singularity ) if( std::abs( x - threshold ) < 1e-6 && ( standardize || threshold != 0 ) ) sim::discard();
    }

    auto K = rips( c, radius, most );
    auto top = dimension( K );
    ordinary = tools::diagrams( K );
    for( auto&& D : ordinary )
    {
      removeDiagonal( D.second );
      if( D.first == top ) D.second.erase( std::remove_if( D.second.begin(), D.second.end(), [] ( const Point& p ) { return std::isinf( p.second ); } ), D.second.end() );
    }

    // The vertices in each simplex of the complex that count for a stratum.
    auto singular = [&] ( unsigned v ) { return invert ? singularity[v] > threshold : singularity[v] < threshold; };
    std::vector<Cell> L;
    std::bitset<Most> good;
    if( !values )
    {
      // Flags of simplices; only original vertices are singular.
      refused = top == 1;
      std::sort( K.begin(), K.end(), [] ( const Cell& a, const Cell& b ) { return a.v.size() < b.v.size(); } );
      std::function<void( Vertices )> extend = [&] ( Vertices f )
      {
        if( !f.empty() )
        {
          L.push_back( { f, f.size() == 1 ? 0 : K[ f.back() ].w / 2 } );
          if( L.size() > Most ) sim::discard();
          good[ L.size() - 1 ] = top < 2 || K[ f[0] ].v.size() > 1 || f.size() == 3;
        }
        for( unsigned i = f.empty() ? 0 : f.back() + 1; i < K.size(); i++ )
          if( f.empty() || ( K[i].v.size() > K[ f.back() ].v.size() && std::includes( K[i].v.begin(), K[i].v.end(), K[ f.back() ].v.begin(), K[ f.back() ].v.end() ) ) )
          {
            auto g = f;
            g.push_back( i );
            extend( g );
          }
      };
      extend( {} );
    }
    else
    {
      L = K;
      if( L.size() > Most ) sim::discard();
      for( std::size_t i = 0; i < L.size(); i++ )
      {
        int points = -1, lines = -1, d = int( L[i].v.size() ) - 1;
        for( auto&& v : L[i].v ) if( singular( v ) ) points = 0;
        lines = points;
        for( auto&& e : K )
        {
          if( e.v.size() != 2 || !singular( e.v[0] ) || !singular( e.v[1] ) ) continue;
          int common = 0;
          for( auto&& v : e.v ) common += std::count( L[i].v.begin(), L[i].v.end(), v );
          lines = std::max( lines, common - 1 );
        }
        if( top == 2 ) good[i] = points <= d - 2;
        else if( top == 3 ) good[i] = ( lines < 0 || lines <= d - 2 ) && ( points < 0 || points <= d - 2 );
        else good[i] = true;
        if( top == 2 && points < 0 ) good[i] = true;
      }
    }
    if( !refused ) allowable = intersection::points( L, good );
    for( std::size_t d = 0; d < 3; d++ )
      for( auto&& s : { "PH", "IH" } )
      {
        auto path = "/tmp/D_" + std::to_string( d ) + "_" + s + ".txt";
        if( !refused && ( d == 0 || !ordinary[d].empty() || !allowable[d].empty() ) ) outputs.insert( path );
        else optional.insert( path );
      }
  }

  void judge( const std::string&, const Files& written ) const override
  {
    for( std::size_t d = 0; d < 3; d++ )
      for( auto&& s : { "PH", "IH" } )
      {
        auto f = written.find( "/tmp/D_" + std::to_string( d ) + "_" + s + ".txt" );
        auto& D = std::string( s ) == "PH" ? ordinary : allowable;
        auto it = D.find( d );
        auto want = it == D.end() ? Points() : it->second;
        if( f == written.end() )
        {
          if( !want.empty() ) wrong( "there is no file for dimension " + std::to_string( d ) );
          continue;
        }
        std::vector<std::string> l;
        for( auto&& x : lines( f->second ) ) if( !words( x ).empty() ) l.push_back( x );
        Points got;
        if( !parsePoints( l, got ) || !same( want, got ) ) wrong( f->first + " should hold " + text( want ) + "not:\n" + f->second );
      }
  }
};

sim::Register r1( "P27", "strata", once<Strata>, 3 );
sim::Register r2( "P27", "heat", once<Heat> );
sim::Register r3( "P27", "intersection", once<Allowable>, 2 );

} // namespace
