// Example programs.

#include "tools_graphs.hh"

#include <functional>

extern "C"
{
int sim_tool_create_persistence_diagrams( int, char** );
int sim_tool_create_random_graph( int, char** );
int sim_tool_image_analysis( int, char** );
int sim_tool_network_analysis( int, char** );
int sim_tool_ply( int, char** );
int sim_tool_vietoris_rips( int, char** );
int sim_tool_vietoris_rips_eccentricity( int, char** );
int sim_tool_vtk( int, char** );
int sim_tool_witness_complex( int, char** );
}

namespace
{

using namespace tools;

// All cliques, with at most that many vertices.
std::vector<Cell> cliques( std::size_t n, std::size_t most, const std::function<bool( unsigned, unsigned )>& adjacent,
                           const std::function<double( const Vertices& )>& weight )
{
  std::vector<Cell> cells;
  for( std::size_t m = 1; m < std::size_t( 1 ) << n; m++ )
  {
    Vertices v;
    for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) v.push_back( i );
    if( v.size() > most ) continue;
    bool clique = true;
    for( auto&& a : v ) for( auto&& b : v ) if( a < b && !adjacent( a, b ) ) clique = false;
    if( clique ) cells.push_back( { v, weight( v ) } );
  }
  return cells;
}

// Diagrams as they are usually shown: no cycles of the highest dimension that
// never vanish.
Diagrams usual( const std::vector<Cell>& cells, bool descending = false, bool diagonal = false )
{
  auto D = diagrams( cells, descending );
  std::size_t top = 0;
  for( auto&& c : cells ) top = std::max( top, c.v.size() - 1 );
  D[top].erase( std::remove_if( D[top].begin(), D[top].end(), [] ( const Point& p ) { return std::isinf( p.second ); } ), D[top].end() );
  if( !diagonal ) for( auto&& d : D ) removeDiagonal( d.second );
  return D;
}

struct Block
{
  std::map<std::string, std::string> header;
  std::size_t dimension = 0;
  Points points;
};

// Diagrams with a header.
bool parseBlocks( const std::string& out, const std::string& title, std::vector<Block>& blocks )
{
  for( auto&& l : lines( out ) )
  {
    if( l == title )
    {
      blocks.emplace_back();
      continue;
    }
    if( l.empty() || l == "#" ) continue;
    if( blocks.empty() ) return false;
    if( l[0] == '#' )
    {
      auto colon = l.find( ':' );
      auto key   = words( l.substr( 1, colon - 1 ) );
      if( colon == std::string::npos || key.empty() ) return false;
      blocks.back().header[ key[0] ] = words( l.substr( colon + 1 ) ).at( 0 );
    }
    else if( !parsePoints( { l }, blocks.back().points ) ) return false;
  }
  for( auto&& b : blocks )
  {
    if( b.header["Entries"] != std::to_string( b.points.size() ) || !b.header.count( "Dimension" ) ) return false;
    b.dimension = std::strtoul( b.header["Dimension"].c_str(), nullptr, 10 );
  }
  return true;
}

std::string text( const Diagrams& D )
{
  std::string s;
  for( auto&& d : D ) s += std::to_string( d.first ) + ": " + tools::text( d.second ) + "\n";
  return s;
}

// Whether the blocks hold these diagrams; empty diagrams may be left out.
bool holds( Diagrams D, const std::vector<Block>& blocks )
{
  for( auto&& b : blocks )
  {
    if( !D.count( b.dimension ) ) D[b.dimension];
    if( !same( D[b.dimension], b.points ) ) return false;
    D[b.dimension].clear();
  }
  for( auto&& d : D ) if( !d.second.empty() ) return false;
  for( std::size_t i = 1; i < blocks.size(); i++ ) if( blocks[i-1].dimension >= blocks[i].dimension ) return false;
  return true;
}

// Diagrams without a header are told apart by empty lines.
void judgePlain( const Tool& t, const std::string& out, const Diagrams& D )
{
  std::vector<Points> got( 1 );
  for( auto&& l : lines( out ) )
    if( l.empty() ) got.emplace_back();
    else if( !parsePoints( { l }, got.back() ) ) t.wrong( "no point in:\n" + out );
  got.erase( std::remove_if( got.begin(), got.end(), [] ( const Points& p ) { return p.empty(); } ), got.end() );
  std::vector<Points> want;
  for( auto&& d : D ) if( !d.second.empty() ) want.push_back( d.second );
  bool equal = want.size() == got.size();
  for( std::size_t i = 0; equal && i < want.size(); i++ ) equal = same( want[i], got[i] );
  if( !equal ) t.wrong( "should print\n" + text( D ) + "not:\n" + out );
}

// -- point clouds -------------------------------------------------------------------

struct Rips : Tool
{
  Coordinates c;
  double epsilon;
  std::size_t dimension;
  bool normalise, tail, keep;
  std::string path;

  Rips()
  {
    name      = "vietoris_rips";
    entry     = sim_tool_vietoris_rips;
    c         = randomCloud( 2, 8 );
    epsilon   = radius();
    dimension = c[0].size() + 1;
    normalise = sim::flip( 1, 12 );
    tail      = sim::flip( 1, 4 );
    keep      = sim::flip( 1, 4 );
    // Somewhere, there has to be a distance to normalise by.
    if( normalise ) c.push_back( std::vector<double>( c[0].size(), 7.5 ) );
    if( normalise ) defect = "normalisation";
    if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( tail )      arg( sim::flip( 1, 2 ) ? "--tail" : "-t" );
    if( keep )      arg( sim::flip( 1, 2 ) ? "--keep" : "-k" );
    path = "/sim/c.txt";
    if( sim::flip( 1, 8 ) )
    {
      path = "-";
      standardInput = cloudFile( c );
    }
    else
      input( path, cloudFile( c ) );
    arg( path );
    arg( shown( epsilon ) );
    if( sim::flip( 1, 2 ) )
    {
      dimension = 1 + sim::choose( 4 );
      arg( std::to_string( dimension ) );
    }
  }

  void judge( const std::string& out, const Files& ) const override
  {
    double longest = 0;
    for( auto&& p : c ) for( auto&& q : c ) longest = std::max( longest, distance( p, q ) );
    auto D = usual( cliques( c.size(), dimension + 1, [&] ( unsigned a, unsigned b ) { return distance( c[a], c[b] ) < epsilon; },
                             [&] ( const Vertices& v )
                             {
                               double w = 0;
                               for( auto&& a : v ) for( auto&& b : v ) w = std::max( w, distance( c[a], c[b] ) );
                               return w;
                             } ), false, keep );
    if( normalise )
      for( auto&& d : D )
        for( auto&& p : d.second ) p = { p.first / longest, std::isinf( p.second ) ? 1 : p.second / longest };
    std::vector<Block> blocks;
    if( !parseBlocks( out, "# Persistence diagram <" + path + ">", blocks ) ) wrong( "no diagrams:\n" + out );
    if( tail )
    {
      if( blocks.size() > 1 ) wrong( "there should be one diagram:\n" + out );
      if( !blocks.empty() ) D.erase( D.begin(), D.lower_bound( blocks[0].dimension ) );
    }
    if( !holds( D, blocks ) ) wrong( "should print\n" + text( D ) + "not:\n" + out );
  }
};

struct Eccentricity : Tool
{
  Coordinates c;
  double epsilon;
  std::size_t dimension;
  unsigned order = 1;
  bool upper = false;
  std::vector<double> e;

  Eccentricity()
  {
    name      = "vietoris_rips_eccentricity";
    entry     = sim_tool_vietoris_rips_eccentricity;
    c         = randomCloud( 2, 8 );
    epsilon   = radius();
    dimension = c[0].size() + 1;
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
    arg( shown( epsilon ) );
    auto more = sim::choose( 4 );
    if( more > 0 )
    {
      dimension = 1 + sim::choose( 4 );
      arg( std::to_string( dimension ) );
    }
    if( more > 1 )
    {
      order = unsigned( sim::choose( 4 ) );
      arg( std::to_string( order ) );
    }
    if( more > 2 )
    {
      upper = sim::flip( 1, 2 );
      arg( upper ? sim::pick( { "U", "u", " U" } ) : sim::pick( { "L", "l", "L " } ) );
    }
    for( auto&& p : c )
    {
      double most = 0, sum = 0;
      for( auto&& q : c ) { most = std::max( most, distance( p, q ) ); sum += std::pow( distance( p, q ), order ); }
      e.push_back( order == 0 ? most : std::pow( sum / double( c.size() ), 1.0 / order ) );
    }
    if( *std::max_element( e.begin(), e.end() ) == *std::min_element( e.begin(), e.end() ) ) defect = "equal";
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto e = this->e;
    double hi = *std::max_element( e.begin(), e.end() ), lo = *std::min_element( e.begin(), e.end() );
    bool constant = hi == lo;
    for( auto&& x : e ) x = constant ? 0 : ( hi - x ) / ( hi - lo );
    if( !constant && near( hi, lo, 1e-5 ) ) return;
    for( auto&& x : e ) for( auto&& y : e ) if( x != y && near( x, y, 1e-5 ) ) return;
    auto D = usual( cliques( c.size(), dimension + 1, [&] ( unsigned a, unsigned b ) { return distance( c[a], c[b] ) < epsilon; },
                             [&] ( const Vertices& v )
                             {
                               double w = e[ v[0] ];
                               for( auto&& a : v ) w = upper ? std::min( w, e[a] ) : std::max( w, e[a] );
                               return w;
                             } ), upper );
    std::vector<Block> blocks;
    if( !parseBlocks( out, "# Persistence diagram </sim/c.txt>", blocks ) ) wrong( "no diagrams:\n" + out );
    // Equal eccentricities may differ by rounding.
    for( auto&& b : blocks )
      b.points.erase( std::remove_if( b.points.begin(), b.points.end(), [] ( const Point& p ) { return near( p.first, p.second, 1e-5 ); } ), b.points.end() );
    if( !holds( D, blocks ) ) wrong( "should print\n" + text( D ) + "not:\n" + out );
  }
};

struct Witness : Tool
{
  Coordinates c;
  std::size_t dimension, n;
  unsigned nu = 2;
  double R = 0;
  bool random;

  Witness()
  {
    name      = "witness_complex";
    entry     = sim_tool_witness_complex;
    c         = randomCloud( 4, 8 );
    dimension = c[0].size() + 1;
    double fraction = sim::pick( { 0.5, 0.75, 1.0 } );
    n         = std::size_t( double( c.size() ) * fraction );
    if( sim::flip( 1, 2 ) ) arg( "--landmarks=" + shown( fraction ) ); else { arg( "-l" ); arg( shown( fraction ) ); }
    if( sim::flip( 1, 2 ) )
    {
      nu = unsigned( sim::choose( n + 1 ) );
      if( sim::flip( 1, 2 ) ) arg( "--nu=" + std::to_string( nu ) ); else { arg( "-n" ); arg( std::to_string( nu ) ); }
    }
    if( sim::flip( 1, 2 ) )
    {
      R = 0.3173 * double( 1 + sim::choose( 6 ) );
      if( sim::flip( 1, 2 ) ) arg( "--radius=" + shown( R ) ); else { arg( "-r" ); arg( shown( R ) ); }
    }
    random = sim::flip( 1, 2 );
    if( random ) arg( sim::flip( 1, 2 ) ? "--random" : "-R" );
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
    if( sim::flip( 1, 8 ) ) defect = "dimension";
    if( defect.empty() || sim::flip( 1, 2 ) )
    {
      if( !defect.empty() ) dimension = 1 + sim::choose( 3 );
      arg( std::to_string( dimension ) );
    }
  }

  using Landmarks = std::set< std::vector<std::size_t> >;

  // All choices of landmarks that are in order.
  void choices( std::vector<std::size_t> l, std::vector< std::vector<std::size_t> >& seen, Landmarks& result ) const
  {
    auto key = l;
    std::sort( key.begin(), key.end() );
    if( std::find( seen.begin(), seen.end(), key ) != seen.end() ) return;
    seen.push_back( key );
    if( l.size() == n ) { result.insert( key ); return; }
    std::vector<double> d( c.size(), Infinity );
    for( std::size_t i = 0; i < c.size(); i++ ) for( auto&& j : l ) d[i] = std::min( d[i], distance( c[i], c[j] ) );
    double most = *std::max_element( d.begin(), d.end() );
    for( std::size_t i = 0; i < c.size(); i++ )
    {
      if( random ? std::find( l.begin(), l.end(), i ) != l.end() : d[i] != most ) continue;
      auto m = l;
      m.push_back( i );
      choices( m, seen, result );
    }
  }

  Diagrams expected( const std::vector<std::size_t>& l ) const
  {
    std::vector<double> m( c.size() );
    for( std::size_t i = 0; i < c.size() && nu > 0; i++ )
    {
      std::vector<double> d;
      for( auto&& j : l ) d.push_back( distance( c[j], c[i] ) );
      std::sort( d.begin(), d.end() );
      m[i] = d[ nu - 1 ];
    }
    std::map< std::pair<unsigned, unsigned>, double > edges;
    for( unsigned a = 0; a < n; a++ )
      for( unsigned b = a + 1; b < n; b++ )
        for( std::size_t i = 0; i < c.size(); i++ )
        {
          auto x = std::max( distance( c[ l[a] ], c[i] ), distance( c[ l[b] ], c[i] ) );
          if( x > R + m[i] ) continue;
          auto e = edges.find( { a, b } );
          if( e == edges.end() ) edges[ { a, b } ] = x;
          else e->second = std::min( e->second, x );
        }
    return usual( cliques( n, dimension + 1, [&] ( unsigned a, unsigned b ) { return edges.count( { a, b } ) > 0; },
                           [&] ( const Vertices& v )
                           {
                             double w = 0;
                             for( auto&& a : v ) for( auto&& b : v ) if( a < b ) w = std::max( w, edges.at( { a, b } ) );
                             return w;
                           } ) );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    std::vector<Block> blocks;
    if( !parseBlocks( out, "# Persistence diagram </sim/c.txt>", blocks ) ) wrong( "no diagrams:\n" + out );
    std::vector< std::vector<std::size_t> > seen;
    Landmarks l;
    for( std::size_t i = 0; i < c.size(); i++ ) choices( { i }, seen, l );
    std::string all;
    for( auto&& x : l )
    {
      auto D = expected( x );
      if( holds( D, blocks ) ) return;
      all += text( D ) + "or\n";
    }
    wrong( "should print\n" + all + "not:\n" + out );
  }
};

// -- networks ---------------------------------------------------------------------------

struct Network : Tool
{
  Graph g;
  std::vector<double> nodes;
  std::size_t dimension = 1;
  double factor = 0;
  bool normalise = false, invert = false;
  std::string path, prefix;

  Network()
  {
    name  = "network_analysis";
    entry = sim_tool_network_analysis;
    std::string extension = sim::pick( { ".gml", ".txt", ".net" } );
    g = randomGraph( 7, extension == ".gml" || extension == ".net", false );
    bool weights = sim::flip( 1, 3 );
    if( !weights )
    {
      normalise = sim::flip( 1, 3 );
      invert    = sim::flip( 1, 3 );
      if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
      if( invert )    arg( sim::flip( 1, 2 ) ? "--invert-weights" : "-i" );
    }
    else
    {
      std::string w;
      for( std::size_t i = 0; i < g.ids.size(); i++ )
      {
        nodes.push_back( value() );
        w += shown( nodes.back() ) + sim::pick( { "\n", " ", "\n\n" } );
      }
      input( "/sim/w.txt", w );
      spared.insert( "/sim/w.txt" );
      if( sim::flip( 1, 2 ) ) arg( "--node-weights=/sim/w.txt" ); else { arg( "-w" ); arg( "/sim/w.txt" ); }
    }
    if( sim::flip( 1, 3 ) )
    {
      factor = double( 1 + sim::choose( 4 ) ) / 2.0;
      if( sim::flip( 1, 2 ) ) arg( "--infinity=" + shown( factor ) ); else { arg( "-f" ); arg( shown( factor ) ); }
    }
    std::string stem = sim::pick( { "net", "a_b" } );
    path = "/sim/" + stem + extension;
    if( sim::flip( 1, 3 ) )
    {
      prints = false;
      // There is no diagram of isolated points.
      if( g.edges.empty() ) g.edges[ { 0, 1 } ] = 2;
      if( sim::flip( 1, 2 ) ) arg( "--output=/sim/out" ); else { arg( "-o" ); arg( "/sim/out" ); }
      prefix = "/sim/out/" + stem + "_d";
      outputs.insert( prefix + "0.txt" );
      for( unsigned k = 1; k <= 4; k++ ) optional.insert( prefix + std::to_string( k ) + ".txt" );
    }
    std::vector<std::string> labels;
    for( std::size_t i = 0; i < g.ids.size(); i++ ) labels.push_back( std::string( 1, char( 'a' + i ) ) );
    // Vertices are numbered consecutively there.
    if( extension == ".net" ) for( std::size_t i = 0; i < g.ids.size(); i++ ) g.ids[i] = unsigned( i + 1 );
    input( path, extension == ".gml" ? gml( g ) : extension == ".net" ? pajek( g, labels ) : edgeList( g ) );
    arg( path );
    if( sim::flip( 1, 2 ) )
    {
      dimension = 1 + sim::choose( 4 );
      arg( std::to_string( dimension ) );
    }
  }

  void judge( const std::string& out, const Files& written ) const override
  {
    // Weights of nodes come in the order of the nodes.
    auto ids = g.ids;
    std::sort( ids.begin(), ids.end() );
    auto node = [&] ( unsigned v ) { return nodes[ std::size_t( std::find( ids.begin(), ids.end(), g.ids[v] ) - ids.begin() ) ]; };
    auto edge = [&] ( unsigned a, unsigned b ) { return nodes.empty() ? g.edges.at( { a, b } ) : std::max( node( a ), node( b ) ); };
    double hi = 0;
    if( nodes.empty() ) for( auto&& e : g.edges ) hi = std::max( hi, e.second );
    else hi = *std::max_element( nodes.begin(), nodes.end() );
    double scale = normalise && hi > 0 ? hi : 1;
    auto cells = cliques( g.ids.size(), dimension + 1, [&] ( unsigned a, unsigned b ) { return g.edges.count( { a, b } ) > 0; },
                          [&] ( const Vertices& v )
                          {
                            if( v.size() == 1 ) return nodes.empty() ? 0.0 : node( v[0] );
                            double w = 0;
                            for( auto&& a : v )
                              for( auto&& b : v )
                                if( a < b ) w = std::max( w, ( invert ? hi - edge( a, b ) : edge( a, b ) ) / scale );
                            return w;
                          } );
    hi /= scale;
    auto D = usual( cells );
    std::map<std::size_t, std::size_t> betti;
    for( auto&& d : D )
      for( auto&& p : d.second )
        if( std::isinf( p.second ) )
        {
          betti[d.first]++;
          if( factor > 0 ) p.second = factor * hi;
        }
    std::vector<Block> blocks;
    std::string printed = out;
    if( !prefix.empty() )
    {
      printed.clear();
      for( auto&& f : written )
      {
        printed += f.second;
        std::vector<Block> b;
        if( !parseBlocks( f.second, "# Persistence diagram <" + path + ">", b ) || b.size() != 1 || f.first != prefix + std::to_string( b[0].dimension ) + ".txt" )
          wrong( f.first + " should hold one diagram:\n" + f.second );
      }
      if( !out.empty() ) wrong( "printed although files were asked for:\n" + out );
    }
    if( !parseBlocks( printed, "# Persistence diagram <" + path + ">", blocks ) || !holds( D, blocks ) ) wrong( "should print\n" + text( D ) + "not:\n" + printed );
    if( factor > 0 ) return;
    for( auto&& b : blocks )
      if( b.header["Betti"] != std::to_string( betti[b.dimension] ) ) wrong( "not the Betti numbers of\n" + text( D ) + "in:\n" + printed );
  }
};

// -- meshes and images -------------------------------------------------------------------

struct Mesh : Tool
{
  std::vector<double> weights;
  std::set<Vertices> simplices;
  bool descending;

  Mesh()
  {
    name  = "ply";
    entry = sim_tool_ply;
    descending = sim::flip( 1, 8 );
    if( descending ) defect = "superlevels";
    if( descending || sim::flip( 1, 3 ) )
    {
      if( !descending && sim::flip( 1, 4 ) ) arg( "-S" );
      arg( descending ? sim::pick( { "--superlevel", "-S" } ) : sim::pick( { "--sublevel", "-s" } ) );
    }
    std::string property = sim::pick( { "z", "quality", "x" } );
    std::size_t n = 3 + sim::choose( 5 ), m = 1 + sim::choose( 8 );
    std::set<Vertices> faces;
    std::string f;
    for( std::size_t i = 0; i < m; i++ )
    {
      std::vector<unsigned> v;
      for( unsigned k = 0; k < n; k++ ) v.push_back( k );
      sim::shuffle( v );
      v.resize( 3 );
      Vertices s( v.begin(), v.end() );
      std::sort( s.begin(), s.end() );
      if( !faces.insert( s ).second ) continue;
      f += "3 " + std::to_string( v[0] ) + " " + std::to_string( v[1] ) + " " + std::to_string( v[2] ) + "\n";
      simplices.insert( { s, { s[0], s[1] }, { s[0], s[2] }, { s[1], s[2] } } );
    }
    std::vector<std::string> properties = { "x", "y", "z", "quality" };
    sim::shuffle( properties );
    std::string t = "ply\nformat ascii 1.0\nelement vertex " + std::to_string( n ) + "\n";
    for( auto&& p : properties ) t += "property float " + p + "\n";
    t += "element face " + std::to_string( faces.size() ) + "\nproperty list uchar int vertex_indices\nend_header\n";
    for( unsigned i = 0; i < n; i++ )
    {
      simplices.insert( { i } );
      std::string l;
      for( auto&& p : properties )
      {
        double x = value( 17 ) - 1;
        if( p == property ) weights.push_back( x );
        l += ( l.empty() ? "" : " " ) + shown( x );
      }
      t += l + "\n";
    }
    input( "/sim/m.ply", t + f );
    arg( "/sim/m.ply" );
    if( property != "z" || sim::flip( 1, 3 ) ) arg( property );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    std::vector<Cell> cells;
    for( auto&& s : simplices )
    {
      double w = weights[ s[0] ];
      for( auto&& v : s ) w = descending ? std::min( w, weights[v] ) : std::max( w, weights[v] );
      cells.push_back( { s, w } );
    }
    judgePlain( *this, out, usual( cells, descending ) );
  }
};

// Grids: VTK files consist of edges along the axes, images have triangles.
struct Grid : Tool
{
  std::size_t nx, ny, nz = 1;
  std::vector<double> values;
  bool image, descending;

  Grid( bool i ) : image( i )
  {
    name  = image ? "image_analysis" : "vtk";
    entry = image ? sim_tool_image_analysis : sim_tool_vtk;
    descending = sim::flip( 1, 2 );
    if( descending || sim::flip( 1, 3 ) )
    {
      std::string plural = image ? "" : "s";
      if( !descending && sim::flip( 1, 4 ) ) arg( "-S" );
      arg( sim::flip( 1, 2 ) ? ( descending ? "--superlevel" : "--sublevel" ) + plural : descending ? "-S" : "-s" );
    }
    nx = 1 + sim::choose( 5 );
    ny = 1 + sim::choose( 5 );
    if( !image ) nz = 1 + sim::choose( 3 );
    for( std::size_t k = 0; k < nx * ny * nz; k++ ) values.push_back( value( 17 ) - 1 );
    std::string t;
    if( !image )
    {
      t = "# vtk DataFile Version 2.0\nwritten by someone\nASCII\nDATASET STRUCTURED_GRID\n";
      t += "DIMENSIONS " + std::to_string( nx ) + " " + std::to_string( ny ) + " " + std::to_string( nz ) + "\n";
      t += "POINTS " + std::to_string( values.size() ) + " float\n";
      for( std::size_t k = 0; k < values.size(); k++ )
        t += std::to_string( k % nx ) + " " + std::to_string( k / nx % ny ) + " " + std::to_string( k / nx / ny ) + "\n";
      t += "POINT_DATA " + std::to_string( values.size() ) + "\nSCALARS values float 1\nLOOKUP_TABLE default\n";
    }
    for( std::size_t k = 0; k < values.size(); k++ ) t += shown( values[k] ) + ( ( k + 1 ) % nx ? " " : "\n" );
    std::string path = image ? "/sim/i.txt" : "/sim/g.vtk";
    input( path, t );
    arg( path );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    std::vector<Cell> cells;
    auto add = [&] ( Vertices v )
    {
      double w = values[ v[0] ];
      for( auto&& x : v ) w = descending ? std::min( w, values[x] ) : std::max( w, values[x] );
      cells.push_back( { v, w } );
    };
    for( std::size_t z = 0; z < nz; z++ )
      for( std::size_t y = 0; y < ny; y++ )
        for( std::size_t x = 0; x < nx; x++ )
        {
          auto i = unsigned( ( z * ny + y ) * nx + x ), r = i + 1, d = unsigned( i + nx );
          add( { i } );
          if( x + 1 < nx ) add( { i, r } );
          if( y + 1 < ny ) add( { i, d } );
          if( z + 1 < nz ) add( { i, unsigned( i + nx * ny ) } );
          if( !image || x + 1 == nx || y + 1 == ny ) continue;
          add( { i, d + 1 } );
          add( { i, r, d + 1 } );
          add( { i, d, d + 1 } );
        }
    judgePlain( *this, out, usual( cells, descending ) );
  }
};

struct VTK : Grid   { VTK() : Grid( false ) {} };
struct Image : Grid { Image() : Grid( true ) {} };

// -- generators ----------------------------------------------------------------------------

struct RandomGraph : Tool
{
  unsigned n;
  double p;
  bool weighted;

  RandomGraph()
  {
    name  = "create_random_graph";
    entry = sim_tool_create_random_graph;
    n = unsigned( sim::choose( 12 ) );
    weighted = sim::flip( 1, 2 );
    p = weighted ? sim::pick( { 0.0, 0.25, 0.5 } ) : sim::pick( { 0.0, 0.25, 0.5, 1.0 } );
    if( sim::flip( 1, 2 ) ) arg( "--cardinality=" + std::to_string( n ) ); else { arg( "-n" ); arg( std::to_string( n ) ); }
    if( p != 0.25 || sim::flip( 1, 2 ) ) { if( sim::flip( 1, 2 ) ) arg( "--probability=" + shown( p ) ); else { arg( "-p" ); arg( shown( p ) ); } }
    if( weighted ) arg( sim::flip( 1, 2 ) ? "--weighted" : "-w" );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    std::set<unsigned> nodes;
    std::set< std::pair<unsigned, unsigned> > edges;
    std::vector<std::string> w = words( out );
    if( w.size() < 3 || w[0] != "graph" || w[1] != "[" || w.back() != "]" ) wrong( "no graph:\n" + out );
    std::size_t i = 2;
    auto number = [&] ( const std::string& s, const std::string& key, unsigned& x )
    {
      double y;
      if( s != key || !tools::number( w[i+1], y ) || y < 0 || y != std::floor( y ) ) return false;
      x = unsigned( y );
      return true;
    };
    while( i + 1 < w.size() )
    {
      bool node = w[i] == "node";
      if( !node && w[i] != "edge" )
      {
        // Attributes of the graph.
        i += 2;
        continue;
      }
      std::map<std::string, unsigned> a;
      for( i += 2; i + 1 < w.size() && w[i] != "]"; i += 2 )
      {
        unsigned x;
        if( number( w[i], w[i], x ) ) a[ w[i] ] = x;
      }
      i++;
      if( node && ( !a.count( "id" ) || a["id"] >= n || !nodes.insert( a["id"] ).second ) ) wrong( "no node, or a second one:\n" + out );
      if( node ) continue;
      if( !a.count( "source" ) || !a.count( "target" ) || a["source"] == a["target"] || a["source"] >= n || a["target"] >= n
          || !edges.insert( std::minmax( a["source"], a["target"] ) ).second ) wrong( "no edge, or a second one:\n" + out );
      if( weighted && ( !a.count( "weight" ) || a["weight"] == 0 ) ) wrong( "an edge without weight:\n" + out );
    }
    if( nodes.size() != n ) wrong( "there should be " + std::to_string( n ) + " nodes:\n" + out );
    if( ( p == 0 && !edges.empty() ) || ( p == 1 && edges.size() != std::size_t( n ) * ( n > 0 ? n - 1 : 0 ) / 2 ) ) wrong( "not the edges for that probability:\n" + out );
  }
};

struct RandomDiagrams : Tool
{
  unsigned n, m, d = 3;
  double r = 0.25;
  bool box;

  std::string path( unsigned i, const std::string& suffix = "" ) const
  {
    auto s = std::to_string( i );
    if( n > 9 && s.size() < 2 ) s = "0" + s;
    return "/tmp/" + s + suffix + ".txt";
  }

  RandomDiagrams()
  {
    name   = "create_persistence_diagrams";
    entry  = sim_tool_create_persistence_diagrams;
    prints = false;
    box    = sim::flip( 1, 2 );
    n      = 1 + unsigned( sim::choose( sim::pick( { 3, 12 } ) ) );
    m      = 1 + unsigned( sim::choose( 7 ) );
    if( box )
    {
      arg( sim::flip( 1, 2 ) ? "--box" : "-b" );
      if( sim::flip( 1, 2 ) ) { r = 0.5 * double( 1 + sim::choose( 4 ) ); arg( "-r" ); arg( shown( r ) ); }
      if( sim::flip( 1, 2 ) ) { d = 1 + unsigned( sim::choose( 3 ) ); arg( "-d" ); arg( std::to_string( d ) ); }
    }
    arg( "-m" );
    arg( std::to_string( m ) );
    arg( "-n" );
    arg( std::to_string( n ) );
    arg( sim::flip( 1, 2 ) ? "--output" : "-o" );
    for( unsigned i = 0; i < n; i++ )
    {
      // There are no diagrams of isolated points.
      if( box ) optional.insert( path( i ) );
      else      outputs.insert( path( i ) );
      for( unsigned k = 0; box && k <= 3; k++ ) optional.insert( path( i, "_d" + std::to_string( k ) ) );
    }
  }

  void judge( const std::string&, const Files& written ) const override
  {
    for( unsigned i = 0; i < n; i++ )
      if( written.count( path( i ) ) + written.count( path( i, "_d0" ) ) != 1 ) wrong( path( i ) + " is missing" );
    for( auto&& f : written )
    {
      Points D;
      auto l = lines( f.second );
      while( !l.empty() && l.back().empty() ) l.pop_back();
      if( !parsePoints( l, D ) ) wrong( f.first + " holds no diagram:\n" + f.second );
      unsigned infinite = 0;
      for( auto&& p : D )
      {
        if( !( p.first >= 0 ) || !( p.first <= p.second ) ) wrong( f.first + " holds a point below the diagonal:\n" + f.second );
        if( std::isinf( p.second ) && box ) { infinite++; continue; }
        if( p.second > ( box ? 0.7 * r : 1.0 ) + 1e-4 ) wrong( f.first + " holds a point that is too large:\n" + f.second );
      }
      bool components = f.first.find( "_d0" ) != std::string::npos;
      if( components )
        for( auto&& p : D ) if( p.first != 0 ) wrong( f.first + " holds a component that is born late:\n" + f.second );
      if( ( components && ( infinite == 0 || D.size() > m ) ) || ( !box && D.size() != m ) ) wrong( f.first + " should hold " + std::to_string( m ) + " points:\n" + f.second );
    }
  }
};

sim::Register r1( "P25", "vietoris-rips", once<Rips>, 3 );
sim::Register r2( "P25", "eccentricity", once<Eccentricity>, 3 );
sim::Register r3( "P25", "witness", once<Witness>, 3 );
sim::Register r4( "P25", "network", once<Network>, 4 );
sim::Register r5( "P25", "ply", once<Mesh>, 2 );
sim::Register r6( "P25", "vtk", once<VTK>, 2 );
sim::Register r7( "P25", "image", once<Image>, 2 );
sim::Register r8( "P25", "random-graph", once<RandomGraph>, 1 );
sim::Register r9( "P25", "random-diagrams", once<RandomDiagrams>, 1 );

} // namespace
