// Tools that calculate diagrams of functions, graphs and matrices.

#include "tools_graphs.hh"

extern "C"
{
int sim_tool_betti_numbers( int, char** );
int sim_tool_clique_persistence_diagram( int, char** );
int sim_tool_connectivity_matrix_analysis( int, char** );
int sim_tool_function_analysis( int, char** );
int sim_tool_graph_analysis( int, char** );
int sim_tool_relevant_edges( int, char** );
}

namespace
{

using namespace tools;
// -- functions ------------------------------------------------------------------

struct Functions : Tool
{
  std::vector< std::vector<double> > functions;
  bool condense, normalise, superlevels;
  std::string path;

  Functions()
  {
    name        = "function_analysis";
    entry       = sim_tool_function_analysis;
    condense    = sim::flip( 1, 3 );
    normalise   = sim::flip( 1, 3 );
    superlevels = sim::flip( 1, 2 );
    if( condense )  arg( sim::flip( 1, 2 ) ? "--condense" : "-c" );
    if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( superlevels ) arg( sim::flip( 1, 2 ) ? "--superlevels" : "-S" );
    else if( sim::flip( 1, 3 ) ) arg( sim::flip( 1, 2 ) ? "--sublevels" : "-s" );
    if( sim::flip( 1, 3 ) )
    {
      path = "/sim/result.txt";
      prints = false;
      outputs.insert( path );
      if( sim::flip( 1, 2 ) ) arg( "--output=" + path ); else { arg( "-o" ); arg( path ); }
    }
    unsigned n = 1 + unsigned( sim::choose( 3 ) );
    for( unsigned i = 0; i < n; i++ )
    {
      std::string t;
      auto separator = sim::pick( { " ", "\t", ",", ";", ":", ", " } );
      for( unsigned k = 1 + unsigned( sim::choose( 3 ) ); k > 0; k-- )
      {
        std::vector<double> f;
        unsigned size = 2 + unsigned( sim::choose( 7 ) );
        for( unsigned j = 0; j < size; j++ ) f.push_back( value( 17 ) - 1 );
        for( unsigned j = 0; j < size; j++ ) t += ( j ? separator : "" ) + shown( f[j] );
        t += "\n";
        functions.push_back( f );
      }
      if( sim::flip( 1, 5 ) ) t.pop_back();
      input( "/sim/f" + std::to_string( i ), t );
      arg( "/sim/f" + std::to_string( i ) );
    }
  }

  void judge( const std::string& out, const Files& written ) const override
  {
    if( !path.empty() && !written.count( path ) ) wrong( path + " is missing" );
    auto& s = path.empty() ? out : written.at( path );
    std::vector< std::vector<std::string> > b;
    if( condense ) for( auto&& l : lines( s ) ) b.push_back( { l } );
    else
    {
      b.emplace_back();
      unsigned empty = 0;
      for( auto&& l : lines( s ) )
      {
        if( !l.empty() && empty ) { b.emplace_back(); empty = 0; }
        if( l.empty() ) empty++;
        else b.back().push_back( l );
      }
    }
    if( b.size() != functions.size() ) wrong( "there are " + std::to_string( b.size() ) + " diagrams:\n" + s );
    for( std::size_t i = 0; i < b.size(); i++ )
    {
      auto& f = functions[i];
      std::vector<Cell> c;
      double lo = Infinity, hi = -Infinity;
      for( unsigned j = 0; j < f.size(); j++ )
      {
        c.push_back( { { j }, f[j] } );
        if( j ) c.push_back( { { j - 1, j }, superlevels ? std::min( f[j-1], f[j] ) : std::max( f[j-1], f[j] ) } );
        lo = std::min( lo, f[j] );
        hi = std::max( hi, f[j] );
      }
      auto D = diagrams( c, superlevels )[0];
      for( auto&& p : D )
      {
        if( std::isinf( p.second ) ) p.second = superlevels ? lo : hi;
        if( normalise && lo != hi ) p = { ( p.first - lo ) / ( hi - lo ), ( p.second - lo ) / ( hi - lo ) };
      }
      if( condense )
      {
        double least = Infinity, most = -Infinity, sum = 0, square = 0;
        for( auto&& p : D )
        {
          double d = p.second - p.first;
          least = std::min( least, d ); most = std::max( most, d );
          sum += d; square += d * d;
        }
        double want[] = { least, most, sum / double( D.size() ), std::sqrt( square ) };
        auto w = words( b[i][0] );
        for( unsigned k = 0; k < 4; k++ )
        {
          double x;
          if( w.size() != 4 || !number( w[k], x ) || !near( x, want[k] ) ) wrong( "value " + std::to_string( k ) + " of " + b[i][0] + " should be " + shown( want[k] ) );
        }
      }
      else
      {
        Points E;
        if( !parsePoints( b[i], E ) || !same( D, E ) ) wrong( "function " + std::to_string( i ) + " has the diagram " + text( D ) + ", not the one in:\n" + s );
      }
    }
  }
};

// -- graphs -----------------------------------------------------------------------

struct GraphAnalysis : Tool
{
  Graph g;
  unsigned dimension = 1, infinity = 2;
  bool loops, zero;
  std::string prefix;

  GraphAnalysis()
  {
    name  = "graph_analysis";
    entry = sim_tool_graph_analysis;
    prints = false;
    loops = sim::flip( 1, 2 );
    zero  = sim::flip( 1, 3 );
    g     = randomGraph( 7, false, true );
    std::string directory = "/tmp/";
    if( sim::flip( 2, 3 ) )
    {
      directory = "/sim/out/";
      auto d = sim::flip( 1, 2 ) ? directory : directory.substr( 0, directory.size() - 1 );
      if( sim::flip( 1, 2 ) ) arg( "--output=" + d ); else { arg( "-o" ); arg( d ); }
    }
    if( sim::flip( 1, 2 ) )
    {
      infinity = 1 + unsigned( sim::choose( 4 ) );
      if( sim::flip( 1, 2 ) ) arg( "--infinity=" + std::to_string( infinity ) ); else { arg( "-f" ); arg( std::to_string( infinity ) ); }
    }
    if( loops ) arg( sim::flip( 1, 2 ) ? "--loops" : "-l" );
    if( zero )  arg( sim::flip( 1, 2 ) ? "--zero" : "-z" );
    std::string stem = sim::pick( { "net", "a_b" } );
    input( "/sim/" + stem + ".edges", edgeList( g ) );
    arg( "/sim/" + stem + ".edges" );
    if( sim::flip( 1, 2 ) )
    {
      dimension = 1 + unsigned( sim::choose( 3 ) );
      arg( std::to_string( dimension ) );
    }
    prefix = directory + stem + "_d";
    outputs.insert( prefix + "0.txt" );
    for( unsigned k = 1; k <= 4; k++ ) optional.insert( prefix + std::to_string( k ) + ".txt" );
  }

  void judge( const std::string&, const Files& written ) const override
  {
    std::set<Vertices> s;
    std::map<unsigned, unsigned> degree;
    std::size_t n = g.ids.size();
    for( std::size_t m = 1; m < std::size_t( 1 ) << n; m++ )
    {
      Vertices v;
      bool clique = true;
      for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) v.push_back( i );
      if( v.size() > dimension + 1 ) continue;
      for( auto&& a : v ) for( auto&& b : v ) if( a < b && !g.edges.count( { a, b } ) ) clique = false;
      if( clique ) s.insert( v );
    }
    unsigned most = 0;
    for( auto&& e : g.edges ) { degree[e.first.first]++; degree[e.first.second]++; }
    for( auto&& d : degree ) most = std::max( most, d.second );
    std::vector<Cell> c;
    std::size_t top = 0;
    for( auto&& v : s )
    {
      double w = 0;
      for( auto&& x : v ) w = std::max( w, double( degree[x] ) );
      c.push_back( { v, v.size() == 1 && zero ? 0 : w } );
      top = std::max( top, v.size() - 1 );
    }
    auto D = diagrams( c );
    for( unsigned k = 0; k <= 4; k++ )
    {
      auto path = prefix + std::to_string( k ) + ".txt";
      auto E = D[k];
      if( k == 0 ) removeDiagonal( E );
      if( k == top && !loops )
        E.erase( std::remove_if( E.begin(), E.end(), [] ( const Point& p ) { return std::isinf( p.second ); } ), E.end() );
      for( auto&& p : E ) if( std::isinf( p.second ) ) p.second = infinity * most;
      if( E.empty() && !written.count( path ) ) continue;
      Points F;
      if( !written.count( path ) ) wrong( path + " is missing, " + text( E ) );
      if( !parsePoints( lines( written.at( path ) ), F ) || !same( E, F ) ) wrong( path + " should hold " + text( E ) + ", not:\n" + written.at( path ) );
    }
  }
};

struct RelevantEdges : Tool
{
  Graph g;

  std::vector<std::string> names;           // of the vertices, if known

  RelevantEdges()
  {
    name  = "relevant_edges";
    entry = sim_tool_relevant_edges;
    std::string t;
    auto path = sim::pick( { std::string( "/sim/r.gml" ), std::string( "/sim/r.txt" ) } );
    bool isGML = path == "/sim/r.gml";
    g = randomGraph( 8, isGML, false, sim::flip( 1, 2 ) );
    if( !isGML ) for( auto&& v : g.ids ) names.push_back( std::to_string( v ) );
    if( isGML && sim::flip( 1, 2 ) )
    {
      std::vector<std::string> labels;
      for( std::size_t i = 0; i < g.ids.size(); i++ )
      {
        g.ids[i] = unsigned( i );
        labels.push_back( std::string( 1, char( 'A' + i ) ) );
      }
      t = gml( g, labels );
      names = labels;
    }
    else
      t = isGML ? gml( g ) : edgeList( g );
    input( path, t );
    arg( path );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto D = diagrams( g.cells() )[0];
    removeDiagonal( D );
    auto l = lines( out );
    while( !l.empty() && l.back().empty() ) l.pop_back();
    Points E;
    if( !parsePoints( l, E ) || !same( D, E ) ) wrong( "should print " + text( D ) + ", not:\n" + out );
  }

  // Edges that connect components, with the ratio of their sizes. Equal weights
  // leave the order open.
  void judgeMessages( const std::string& s ) const override
  {
    std::map< double, std::pair<unsigned, unsigned> > order;
    for( auto&& e : g.edges ) order[e.second] = e.first;
    if( order.size() != g.edges.size() || names.empty() ) return;

    std::multiset<std::string> want, have;
    std::vector<unsigned> component;
    for( unsigned i = 0; i < g.ids.size(); i++ ) component.push_back( i );
    for( auto&& e : order )
    {
      auto u = component[e.second.first], v = component[e.second.second];
      if( u == v ) continue;
      double a = double( std::count( component.begin(), component.end(), u ) );
      double b = double( std::count( component.begin(), component.end(), v ) );
      for( auto&& x : component ) if( x == u ) x = v;
      want.insert( names[e.second.first] + "," + names[e.second.second] + " " + shown( std::min( a, b ) / std::max( a, b ) ) );
    }

    for( auto&& l : lines( s ) )
    {
      auto i = l.find( "Edge (" ), j = l.find( "): ", i );
      if( i == std::string::npos || j == std::string::npos ) continue;
      have.insert( l.substr( i + 6, j - i - 6 ) + " " + shown( std::strtod( l.c_str() + j + 3, nullptr ) ) );
    }
    if( !have.empty() && have != want )
    {
      std::string t;
      for( auto&& x : want ) t += x + "\n";
      wrong( "the relevant edges are\n" + t + "instead of\n" + s );
    }
  }
};

struct Betti : Tool
{
  std::map<unsigned, std::size_t> want;

  Betti()
  {
    name  = "betti_numbers";
    entry = sim_tool_betti_numbers;
    unsigned n = 1 + unsigned( sim::choose( 4 ) );
    std::vector<unsigned> ids = { 0, 1, 7, 12, 123 };
    sim::shuffle( ids );
    for( unsigned i = 0; i < n; i++ )
    {
      auto g = randomGraph( 8, true, false );
      std::set<Vertices> s;
      for( auto&& c : g.cells() ) s.insert( c.v );
      auto b = ops::betti( s );
      want[ ids[i] ] = b.size() > 1 ? b[1] : 0;
      auto path = std::string( "/sim/" ) + sim::pick( { "graph_", "", "x" } ) + std::to_string( ids[i] ) + sim::pick( { ".gml", "_a.gml", "-2.gml" } );
      input( path, gml( g ) );
      arg( path );
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    std::string s;
    for( auto&& p : want ) s += std::to_string( p.first ) + "\t" + std::to_string( p.second ) + "\n";
    if( out != s + "\n\n" ) wrong( "should print\n" + s + "not:\n" + out );
  }
};

// -- matrices -----------------------------------------------------------------------

struct Connectivity : Tool
{
  struct Matrix { std::string name; std::vector<Cell> cells; };
  std::vector<Matrix> matrices;
  bool keep;
  double infinity = Infinity;

  Connectivity()
  {
    name  = "connectivity_matrix_analysis";
    entry = sim_tool_connectivity_matrix_analysis;
    keep  = sim::flip( 1, 2 );
    if( keep ) arg( sim::flip( 1, 2 ) ? "--keep-unpaired" : "-k" );
    if( sim::flip( 1, 2 ) )
    {
      infinity = 20 + value();
      if( sim::flip( 1, 2 ) ) arg( "--infinity=" + shown( infinity ) ); else { arg( "-i" ); arg( shown( infinity ) ); }
    }
    for( unsigned k = 1 + unsigned( sim::choose( 3 ) ); k > 0; k-- )
    {
      Matrix m;
      unsigned n = 2 + unsigned( sim::choose( 5 ) );
      std::vector< std::vector<double> > w( n, std::vector<double>( n ) );
      double most = 0;
      bool negative = sim::flip( 1, 3 );
      for( unsigned i = 0; i < n; i++ )
        for( unsigned j = i + 1; j < n; j++ )
        {
          double x = sim::flip( 1, 3 ) ? 0 : value( 17 ) - ( negative ? 2 : 0 );
          w[i][j] = w[j][i] = x;
          most = std::max( most, x );
        }
      for( unsigned i = 0; i < n; i++ ) m.cells.push_back( { { i }, 0 } );
      std::string t;
      for( unsigned i = 0; i < n; i++ )
      {
        for( unsigned j = 0; j < n; j++ )
        {
          t += ( j ? " " : "" ) + shown( w[i][j] );
          if( i < j && w[i][j] != 0 ) m.cells.push_back( { { i, j }, most - w[i][j] } );
        }
        t += "\n";
      }
      m.name = "m" + std::to_string( k ) + ".txt";
      input( "/sim/" + m.name, t );
      arg( "/sim/" + m.name );
      matrices.push_back( m );
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto j = parseJson( out );
    if( !j.good ) wrong( "this is no JSON document:\n" + out );
    std::map< std::string, Diagrams > got;
    for( auto&& d : j.at( "diagrams" ).items )
    {
      Points P;
      for( auto&& p : d.at( "diagram" ).items )
      {
        double x, y;
        if( p.items.size() != 2 || !number( p.items[0].text, x ) || !number( p.items[1].text, y ) ) wrong( "no point in:\n" + out );
        P.push_back( { x, y } );
      }
      std::size_t unpaired = 0;
      double one = 0, two = 0, total = 0, entropy = 0;
      for( auto&& p : P )
      {
        unpaired += std::isinf( p.second );
        one += std::abs( p.second - p.first );
        two += ( p.second - p.first ) * ( p.second - p.first );
      }
      if( d.at( "betti" ).text != std::to_string( unpaired ) || d.at( "size" ).text != std::to_string( P.size() ) ) wrong( "betti or size do not agree with the points:\n" + out );
      auto& D = got[ d.at( "name" ).text ];
      auto dimension = std::size_t( std::strtoul( d.at( "dimension" ).text.c_str(), nullptr, 10 ) );
      if( D.count( dimension ) ) wrong( "a second diagram of the same dimension:\n" + out );
      D[dimension] = P;
      total = one;
      for( auto&& p : P )
        if( p.second != p.first ) entropy -= ( p.second - p.first ) / total * std::log2( ( p.second - p.first ) / total );
      double x;
      if( !number( d.at( "total_persistence_1" ).text, x ) || ( !std::isinf( one ) && !near( x, one ) ) ) wrong( "total persistence:\n" + out );
      if( !number( d.at( "total_persistence_2" ).text, x ) || ( !std::isinf( two ) && !near( x, two ) ) ) wrong( "total persistence:\n" + out );
      if( !std::isinf( total ) && total > 0 && ( !number( d.at( "persistent_entropy" ).text, x ) || !near( x, entropy ) ) ) wrong( "entropy:\n" + out );
    }
    for( auto&& m : matrices )
    {
      auto want = diagrams( m.cells );
      std::size_t top = m.cells.back().v.size() - 1;
      for( std::size_t k = 0; k < 3; k++ )
      {
        auto E = want[k];
        if( k == top && !keep ) E.erase( std::remove_if( E.begin(), E.end(), [] ( const Point& p ) { return std::isinf( p.second ); } ), E.end() );
        for( auto&& p : E ) if( std::isinf( p.second ) ) p.second = infinity;
        if( !same( E, got[m.name][k] ) ) wrong( m.name + " has the diagram " + text( E ) + " in dimension " + std::to_string( k ) + ", not the one in:\n" + out );
      }
    }
  }
};

// -- clique communities ---------------------------------------------------------

struct Cliques : Tool
{
  Graph g;
  unsigned most;
  bool ignoreEmpty, invert, normalise;
  std::vector<std::string> labels;
  std::string prefix, path;

  std::string file( unsigned k ) const
  {
    auto s = std::to_string( k );
    return prefix + std::string( std::to_string( most ).size() - s.size(), '0' ) + s + ".txt";
  }

  Cliques()
  {
    name   = "clique_persistence_diagram";
    entry  = sim_tool_clique_persistence_diagram;
    prints = false;
    ignoreEmpty = sim::flip( 1, 2 );
    invert      = sim::flip( 1, 3 );
    normalise   = sim::flip( 1, 3 );
    most        = 1 + unsigned( sim::choose( sim::pick( { 3, 4, 11 } ) ) );
    if( ignoreEmpty ) arg( sim::flip( 1, 2 ) ? "--ignore-empty" : "-e" );
    if( invert )      arg( sim::flip( 1, 2 ) ? "--invert-weights" : "-i" );
    if( normalise )   arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( sim::flip( 1, 3 ) ) arg( sim::flip( 1, 2 ) ? "--reverse" : "-r" );
    std::string extension = sim::pick( { ".gml", ".txt", ".net" } ), t;
    g = randomGraph( 7, extension == ".gml", false, true );
    if( extension != ".txt" && ( extension == ".net" || sim::flip( 1, 2 ) ) )
      for( std::size_t i = 0; i < g.ids.size(); i++ )
        labels.push_back( std::string( 1, char( 'A' + i ) ) + ( sim::flip( 1, 3 ) ? " b" : "" ) );
    if( extension == ".gml" ) t = gml( g, labels );
    else if( extension == ".net" ) t = pajek( g, labels );
    else t = edgeList( g );
    input( "/sim/n" + extension, t );
    arg( "/sim/n" + extension );
    arg( std::to_string( most ) );
    prefix = "/tmp/n_k";
    path   = "/tmp/n.txt";
    outputs.insert( path );
    for( unsigned k = 1; k <= most; k++ ) optional.insert( file( k ) );
  }

  void judge( const std::string&, const Files& written ) const override
  {
    // Weights as they enter the calculation.
    double lo = 0, hi = 0;
    auto w = g.edges;
    for( auto&& e : w ) hi = std::max( hi, e.second );
    if( normalise && lo != hi )
    {
      for( auto&& e : w ) e.second = ( e.second - lo ) / ( hi - lo );
      hi = 1;
    }
    if( invert ) for( auto&& e : w ) e.second = hi - e.second;
    std::size_t n = g.ids.size();
    std::map< unsigned, std::pair<double, double> > accumulated;
    std::map< unsigned, std::pair<unsigned, unsigned> > communities;
    bool ambiguous = false;
    for( unsigned k = most; k >= 1; k-- )
    {
      std::vector<Cell> simplices;
      for( std::size_t m = 1; m < std::size_t( 1 ) << n; m++ )
      {
        Vertices v;
        for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) v.push_back( i );
        if( v.size() != k + 1 ) continue;
        bool clique = true;
        double x = -Infinity;
        for( auto&& a : v ) for( auto&& b : v )
          if( a < b )
          {
            auto it = w.find( { a, b } );
            if( it == w.end() ) clique = false;
            else x = std::max( x, it->second );
          }
        if( clique ) simplices.push_back( { v, x } );
      }
      if( simplices.empty() )
      {
        if( written.count( file( k ) ) ) wrong( file( k ) + " is there although there are no cliques" );
        if( ignoreEmpty ) continue;
        for( ; k >= 1; k-- ) if( written.count( file( k ) ) ) wrong( file( k ) + " is there although larger cliques are missing" );
        break;
      }
      // Components of cliques that share all but one vertex.
      struct Edge { double w; std::size_t a, b; };
      std::vector<Edge> edges;
      for( std::size_t a = 0; a < simplices.size(); a++ )
        for( std::size_t b = a + 1; b < simplices.size(); b++ )
        {
          Vertices common;
          std::set_intersection( simplices[a].v.begin(), simplices[a].v.end(), simplices[b].v.begin(), simplices[b].v.end(), std::back_inserter( common ) );
          if( common.size() == k ) edges.push_back( { std::max( simplices[a].w, simplices[b].w ), a, b } );
        }
      // Components that meet at the same weight may be joined in any order, so
      // that the one that ends may contain more than it had before.
      using Part = std::set<std::size_t>;
      std::vector<Part> parts;
      std::set<double> levels;
      for( std::size_t a = 0; a < simplices.size(); a++ ) { parts.push_back( { a } ); levels.insert( simplices[a].w ); }
      auto birth = [&] ( const Part& p ) { double r = Infinity; for( auto&& a : p ) r = std::min( r, simplices[a].w ); return r; };
      auto touched = [&] ( const Part& p ) { std::set<unsigned> v; for( auto&& a : p ) v.insert( simplices[a].v.begin(), simplices[a].v.end() ); return v; };
      struct Row { double birth, death; std::size_t least, most; };
      std::vector<Row> rows;
      auto end = [&] ( const Part& p, double death, const Part& whole )
      {
        auto b = birth( p );
        if( b == death ) return;
        rows.push_back( { b, death, p.size(), whole.size() } );
        for( auto&& x : touched( p ) )     { accumulated[x].first  += ( death - b ) * ( death - b ); communities[x].first++;  }
        for( auto&& x : touched( whole ) ) { accumulated[x].second += ( death - b ) * ( death - b ); communities[x].second++; }
      };
      for( auto&& level : levels )
      {
        auto next = parts;
        for( auto&& e : edges )
        {
          if( e.w != level ) continue;
          std::size_t a = 0, b = 0;
          for( std::size_t i = 0; i < next.size(); i++ ) { if( next[i].count( e.a ) ) a = i; if( next[i].count( e.b ) ) b = i; }
          if( a == b ) continue;
          next[a].insert( next[b].begin(), next[b].end() );
          next.erase( next.begin() + std::ptrdiff_t( b ) );
        }
        for( auto&& whole : next )
        {
          unsigned oldest = 0;
          for( auto&& p : parts )
          {
            if( !whole.count( *p.begin() ) ) continue;
            if( birth( p ) != birth( whole ) ) end( p, level, whole );
            else if( ++oldest > 1 && birth( p ) != level ) { ambiguous = true; end( p, level, whole ); }
          }
        }
        parts = next;
      }
      for( auto&& p : parts ) end( p, 2 * hi, p );
      if( !written.count( file( k ) ) ) wrong( file( k ) + " is missing" );
      auto& s = written.at( file( k ) );
      std::vector< std::vector<double> > got;
      for( auto&& l : lines( s ) )
      {
        if( l[0] == '#' ) continue;
        std::vector<double> r;
        for( auto&& x : words( l ) ) { double y; if( number( x, y ) ) r.push_back( y ); }
        if( r.size() != 3 ) wrong( "row " + l + " in:\n" + s );
        got.push_back( r );
      }
      std::sort( rows.begin(), rows.end(), [] ( const Row& a, const Row& b ) { return std::make_pair( a.birth, a.death ) < std::make_pair( b.birth, b.death ); } );
      std::sort( got.begin(), got.end() );
      bool good = rows.size() == got.size();
      for( std::size_t i = 0; good && i < rows.size(); i++ )
      {
        auto& r = rows[i];
        if( !near( r.birth, got[i][0], 1e-4 ) || !near( r.death, got[i][1], 1e-4 ) ) good = false;
        if( !ambiguous && ( got[i][2] < double( r.least ) || got[i][2] > double( r.most ) ) ) good = false;
      }
      if( !good )
      {
        std::string t;
        for( auto&& r : rows ) t += shown( r.birth ) + " " + shown( r.death ) + " " + std::to_string( r.least ) + " to " + std::to_string( r.most ) + "\n";
        wrong( "communities of " + std::to_string( k ) + "-cliques:\n" + t + "but the file holds:\n" + s );
      }
    }
    auto l = lines( written.count( path ) ? written.at( path ) : "" );
    if( l.size() != g.ids.size() ) wrong( "there are " + std::to_string( l.size() ) + " lines of vertices" );
    std::map<std::string, std::size_t> position;
    for( std::size_t i = 0; i < g.ids.size(); i++ ) position[ std::to_string( g.ids[i] ) ] = i;
    for( auto&& x : l )
    {
      auto c = split( x, "\t" );
      if( c.size() != ( labels.empty() ? 3u : 4u ) || !position.count( c[0] ) ) wrong( "vertex " + x );
      auto i = position[c[0]];
      position.erase( c[0] );
      double a, b;
      if( !number( c[1], a ) || !number( c[2], b ) ) wrong( "vertex " + x );
      auto x1 = accumulated[unsigned( i )];
      auto x2 = communities[unsigned( i )];
      if( !ambiguous && ( a < x1.first - 1e-4 * ( 1 + x1.first ) || a > x1.second + 1e-4 * ( 1 + x1.second ) || b < x2.first || b > x2.second ) )
        wrong( "vertex " + x + " should have " + shown( x1.first ) + " to " + shown( x1.second ) + " and " + std::to_string( x2.first ) + " to " + std::to_string( x2.second ) );
      if( !labels.empty() && c[3] != ( labels[i].find( ' ' ) == std::string::npos ? labels[i] : "\"" + labels[i] + "\"" ) ) wrong( "label of vertex " + x );
    }
  }
};

sim::Register r1( "P23", "functions", once<Functions> );
sim::Register r2( "P23", "graphs", once<GraphAnalysis> );
sim::Register r3( "P23", "edges", once<RelevantEdges> );
sim::Register r4( "P23", "loops", once<Betti> );
sim::Register r5( "P23", "matrices", once<Connectivity> );
sim::Register r6( "P23", "cliques", once<Cliques> );

} // namespace
