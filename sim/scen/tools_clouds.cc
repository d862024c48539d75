// Tools for point clouds, collections of graphs and communities.

#include "tools_graphs.hh"

#include <aleph/containers/DataDescriptors.hh>
#include <aleph/containers/PointCloud.hh>

#include <aleph/geometry/FLANN.hh>

#include <aleph/geometry/distances/Euclidean.hh>

extern "C"
{
int sim_tool_clique_communities_to_json( int, char** );
int sim_tool_point_cloud_data_descriptors( int, char** );
int sim_tool_rips_distributions( int, char** );
int sim_tool_sparse_adjacency_matrices( int, char** );
}

namespace
{

using namespace tools;

// -- distributions ------------------------------------------------------------------

struct Distributions : Tool
{
  Coordinates c;
  double epsilon = 0;
  bool manhattan;

  Distributions()
  {
    name  = "rips_distributions";
    entry = sim_tool_rips_distributions;
    c     = randomCloud( 2, 9 );
    manhattan = sim::flip( 1, 2 );
    if( manhattan || sim::flip( 1, 3 ) )
    {
      std::string d = manhattan ? "manhattan" : "euclidean";
      if( sim::flip( 1, 2 ) ) arg( "--distance=" + d ); else { arg( "-d" ); arg( d ); }
    }
    if( sim::flip( 2, 3 ) )
    {
      epsilon = radius();
      if( sim::flip( 1, 2 ) ) arg( "--epsilon=" + shown( epsilon ) ); else { arg( "-e" ); arg( shown( epsilon ) ); }
    }
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto j = parseJson( out );
    if( !j.good ) wrong( "this is no JSON document:\n" + out );
    std::map< std::string, std::vector<double> > want;
    for( std::size_t a = 0; a < c.size(); a++ )
    {
      double n = 0, sum = 0;
      for( std::size_t b = 0; b < c.size(); b++ )
      {
        double d = distance( c[a], c[b], manhattan );
        if( a < b ) want["distances"].push_back( d * d );
        if( d < epsilon ) { n++; sum += d; }
      }
      if( epsilon == 0 ) continue;
      want["unweighted_degrees"].push_back( n );
      want["weighted_degrees"].push_back( sum );
    }
    if( j.members.size() != want.size() ) wrong( "there are " + std::to_string( j.members.size() ) + " members:\n" + out );
    for( auto&& w : want )
    {
      auto& items = j.at( w.first ).items;
      if( items.size() != w.second.size() ) wrong( w.first + " has " + std::to_string( items.size() ) + " values:\n" + out );
      double x;
      for( std::size_t i = 0; i < items.size(); i++ )
        if( !number( items[i].text, x ) || !near( x, w.second[i] ) ) wrong( w.first + " holds " + items[i].text + " instead of " + shown( w.second[i] ) + ":\n" + out );
    }
  }
};

// -- descriptors ----------------------------------------------------------------------

struct Descriptors : Tool
{
  Coordinates c;
  std::string descriptor = "density";
  unsigned k = 10, power = 2;
  double epsilon, bandwidth = 0.01;
  std::size_t dimension;
  bool invert, normalise, paired;

  Descriptors()
  {
    name  = "point_cloud_data_descriptors";
    entry = sim_tool_point_cloud_data_descriptors;
    c     = randomCloud( 3, 8 );
    dimension  = c[0].size() + 1;
    descriptor = sim::pick( { "density", "eccentricity", "gaussian" } );
    epsilon    = radius();
    invert     = sim::flip( 1, 3 );
    normalise  = sim::flip( 1, 3 );
    paired     = sim::flip( 1, 3 );
    if( sim::flip( 1, 2 ) ) arg( "--descriptor=" + descriptor ); else { arg( "-d" ); arg( descriptor ); }
    if( sim::flip( 1, 2 ) ) arg( "--epsilon=" + shown( epsilon ) ); else { arg( "-e" ); arg( shown( epsilon ) ); }
    if( descriptor == "density" )
    {
      k = 1 + unsigned( sim::choose( c.size() - 1 ) );
      if( sim::flip( 1, 2 ) ) arg( "--k=" + std::to_string( k ) ); else { arg( "-k" ); arg( std::to_string( k ) ); }
    }
    if( descriptor == "eccentricity" && sim::flip( 2, 3 ) )
    {
      power = unsigned( sim::choose( 4 ) );
      if( sim::flip( 1, 2 ) ) arg( "--power=" + std::to_string( power ) ); else { arg( "-p" ); arg( std::to_string( power ) ); }
    }
    if( descriptor == "gaussian" && sim::flip( 2, 3 ) )
    {
      bandwidth = 0.25 + value( 9 );
      if( sim::flip( 1, 2 ) ) arg( "--bandwidth=" + shown( bandwidth ) ); else { arg( "-b" ); arg( shown( bandwidth ) ); }
    }
    if( sim::flip( 1, 2 ) )
    {
      dimension = 1 + sim::choose( 3 );
      if( sim::flip( 1, 2 ) ) arg( "--dimension=" + std::to_string( dimension ) ); else { arg( "-D" ); arg( std::to_string( dimension ) ); }
    }
    if( invert )    arg( sim::flip( 1, 2 ) ? "--invert" : "-i" );
    if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( paired )    arg( sim::flip( 1, 2 ) ? "--remove-unpaired" : "-r" );
    input( "/sim/c.txt", cloudFile( c ) );
    arg( "/sim/c.txt" );
  }

  std::vector<double> values() const
  {
    std::vector<double> r;
    if( descriptor == "eccentricity" )
    {
      for( auto&& p : c )
      {
        double most = 0, sum = 0;
        for( auto&& q : c ) { most = std::max( most, distance( p, q ) ); sum += std::pow( distance( p, q ), power ); }
        r.push_back( power == 0 ? most : std::pow( sum / double( c.size() ), 1.0 / power ) );
      }
      return r;
    }
    using Cloud     = aleph::containers::PointCloud<double>;
    using Euclidean = aleph::geometry::distances::Euclidean<double>;
    using Flann     = aleph::geometry::FLANN<Cloud, Euclidean>;
    Cloud pc( c.size(), c[0].size() );
    for( std::size_t i = 0; i < c.size(); i++ ) pc.set( i, c[i].begin(), c[i].end() );
    if( descriptor == "density" ) return aleph::containers::estimateDensityDistanceToMeasure<Euclidean, Cloud, Flann>( pc, k );
    return aleph::containers::estimateDensityTruncatedGaussian( pc, bandwidth );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    auto v = values();
    double hi = *std::max_element( v.begin(), v.end() );
    if( invert ) for( auto&& x : v ) x = hi - x;
    hi = *std::max_element( v.begin(), v.end() );
    double lo = *std::min_element( v.begin(), v.end() );
    if( normalise && hi != lo ) for( auto&& x : v ) x = ( x - lo ) / ( hi - lo );
    // Values that differ by rounding only would have to be paired exactly as
    // in the tool.
    for( auto&& x : v ) for( auto&& y : v ) if( x != y && near( x, y, 1e-5 ) ) return;
    std::vector<Cell> cells;
    std::size_t n = c.size(), top = 0;
    for( std::size_t m = 1; m < std::size_t( 1 ) << n; m++ )
    {
      Cell s{ {}, -Infinity };
      for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) { s.v.push_back( i ); s.w = std::max( s.w, v[i] ); }
      if( s.v.size() > dimension + 1 ) continue;
      bool clique = true;
      for( auto&& a : s.v ) for( auto&& b : s.v ) if( a < b && !( distance( c[a], c[b] ) < epsilon ) ) clique = false;
      if( !clique ) continue;
      cells.push_back( s );
      top = std::max( top, s.v.size() - 1 );
    }
    auto want = diagrams( cells );
    auto j = parseJson( out );
    if( !j.good ) wrong( "this is no JSON document:\n" + out );
    Diagrams got;
    for( auto&& d : j.at( "diagrams" ).items )
    {
      Points P;
      double x, y;
      for( auto&& p : d.at( "diagram" ).items )
      {
        if( p.items.size() != 2 || !number( p.items[0].text, x ) || !number( p.items[1].text, y ) ) wrong( "no point in:\n" + out );
        P.push_back( { x, y } );
      }
      auto k = std::size_t( std::strtoul( d.at( "dimension" ).text.c_str(), nullptr, 10 ) );
      if( got.count( k ) || d.at( "name" ).text != "/sim/c.txt" ) wrong( "a second diagram or a wrong name in:\n" + out );
      got[k] = P;
    }
    for( std::size_t d = 0; d < 5; d++ )
    {
      auto E = want[d];
      removeDiagonal( E );
      if( paired || d == top ) E.erase( std::remove_if( E.begin(), E.end(), [] ( const Point& p ) { return std::isinf( p.second ); } ), E.end() );
      if( !same( E, got[d] ) ) wrong( "the diagram of dimension " + std::to_string( d ) + " is " + text( E ) + ", not the one in:\n" + out );
    }
  }
};

// -- communities ------------------------------------------------------------------

struct Communities : Tool
{
  Graph g;
  double threshold;
  unsigned most;
  bool useLabels = false, invert, normalise;
  std::vector<std::string> labels;

  Communities()
  {
    name      = "clique_communities_to_json";
    entry     = sim_tool_clique_communities_to_json;
    invert    = sim::flip( 1, 3 );
    normalise = sim::flip( 1, 3 );
    most      = 1 + unsigned( sim::choose( 4 ) );
    threshold = normalise ? double( sim::choose( 5 ) ) * 0.25 + 0.0137 : radius();
    std::string extension = sim::pick( { ".gml", ".txt" } );
    g = randomGraph( 7, extension == ".gml", false );
    if( extension == ".gml" && sim::flip( 1, 2 ) )
      for( std::size_t i = 0; i < g.ids.size(); i++ )
        labels.push_back( std::string( 1, char( 'A' + i ) ) + ( sim::flip( 1, 3 ) ? " b" : "" ) );
    useLabels = !labels.empty() && sim::flip( 1, 2 );
    if( invert )    arg( sim::flip( 1, 2 ) ? "--invert-weights" : "-i" );
    if( normalise ) arg( sim::flip( 1, 2 ) ? "--normalize" : "-n" );
    if( useLabels ) arg( sim::flip( 1, 2 ) ? "--labels" : "-l" );
    input( "/sim/g" + extension, extension == ".gml" ? gml( g, labels ) : edgeList( g ) );
    arg( "/sim/g" + extension );
    arg( shown( threshold ) );
    arg( std::to_string( most ) );
  }

  void judge( const std::string& out, const Files& ) const override
  {
    double hi = 0;
    auto w = g.edges;
    for( auto&& e : w ) hi = std::max( hi, e.second );
    if( normalise && hi != 0 )
    {
      for( auto&& e : w ) e.second /= hi;
      hi = 1;
    }
    if( invert ) for( auto&& e : w ) e.second = hi - e.second;
    auto j = parseJson( out );
    if( !j.good || j.members.size() != 1 || !j.members.count( shown( threshold ) ) ) wrong( "this is not the document:\n" + out );
    auto& all = j.members.begin()->second;
    if( all.members.size() != most ) wrong( "there are " + std::to_string( all.members.size() ) + " sizes of cliques:\n" + out );
    std::size_t n = g.ids.size();
    for( unsigned k = 1; k <= most; k++ )
    {
      std::vector<Vertices> cliques;
      for( std::size_t m = 1; m < std::size_t( 1 ) << n; m++ )
      {
        Vertices v;
        for( unsigned i = 0; i < n; i++ ) if( m >> i & 1 ) v.push_back( i );
        bool clique = v.size() == k + 1;
        for( auto&& a : v ) for( auto&& b : v ) if( a < b && ( !w.count( { a, b } ) || w.at( { a, b } ) > threshold ) ) clique = false;
        if( clique ) cliques.push_back( v );
      }
      std::vector< std::set<Vertices> > parts;
      for( auto&& v : cliques )
      {
        std::set<Vertices> joined = { v };
        std::vector< std::set<Vertices> > rest;
        for( auto&& p : parts )
        {
          bool adjacent = false;
          for( auto&& u : p )
          {
            Vertices common;
            std::set_intersection( u.begin(), u.end(), v.begin(), v.end(), std::back_inserter( common ) );
            adjacent |= common.size() == k;
          }
          if( adjacent ) joined.insert( p.begin(), p.end() );
          else rest.push_back( p );
        }
        rest.push_back( joined );
        parts = rest;
      }
      using Names = std::multiset< std::multiset< std::multiset<std::string> > >;
      Names want, got;
      for( auto&& p : parts )
      {
        std::multiset< std::multiset<std::string> > community;
        for( auto&& v : p )
        {
          std::multiset<std::string> names;
          for( auto&& x : v ) names.insert( useLabels ? labels[x] : std::to_string( g.ids[x] ) );
          community.insert( names );
        }
        want.insert( community );
      }
      for( auto&& p : all.at( std::to_string( k + 1 ) ).items )
      {
        std::multiset< std::multiset<std::string> > community;
        for( auto&& v : p.items )
        {
          std::multiset<std::string> names;
          for( auto&& x : v.items ) names.insert( x.text );
          community.insert( names );
        }
        got.insert( community );
      }
      if( want != got ) wrong( "there are " + std::to_string( want.size() ) + " communities of cliques of " + std::to_string( k + 1 ) + " vertices, not:\n" + out );
    }
  }
};

// -- collections ---------------------------------------------------------------------

struct Collection : Tool
{
  struct Part { std::set<unsigned> vertices; std::set< std::pair<unsigned, unsigned> > edges; std::string label; };
  std::vector<Part> parts;
  std::string directory = "/tmp/";
  unsigned dimension = 1;
  double infinity = 2;
  bool closeness, graphs, sum, superlevels, normalise, attributes, named;
  std::vector<std::string> names;   // of the nodes of all graphs

  std::string file( std::size_t i, const std::string& suffix ) const
  {
    auto s = std::to_string( i );
    return directory + std::string( std::to_string( parts.size() ).size() - s.size(), '0' ) + s + suffix;
  }

  Collection()
  {
    name   = "sparse_adjacency_matrices";
    entry  = sim_tool_sparse_adjacency_matrices;
    prints = false;
    closeness   = sim::flip( 1, 3 );
    graphs      = sim::flip( 1, 3 );
    sum         = sim::flip( 1, 3 );
    superlevels = !sum && sim::flip( 1, 3 );
    normalise   = sim::flip( 1, 3 );
    attributes  = sim::flip( 1, 3 );
    named       = sim::flip( 1, 3 );
    if( sim::flip( 2, 3 ) )
    {
      directory = "/sim/out/";
      auto d = sim::flip( 1, 2 ) ? directory : directory.substr( 0, directory.size() - 1 );
      if( sim::flip( 1, 2 ) ) arg( "--output=" + d ); else { arg( "-o" ); arg( d ); }
    }
    if( sim::flip( 1, 3 ) )
    {
      dimension = 1 + unsigned( sim::choose( 3 ) );
      if( sim::flip( 1, 2 ) ) arg( "--dimension=" + std::to_string( dimension ) ); else { arg( "-d" ); arg( std::to_string( dimension ) ); }
    }
    if( sim::flip( 1, 3 ) )
    {
      infinity = sim::pick( { 1.0, 3.0, 0.5 } );
      if( sim::flip( 1, 2 ) ) arg( "--infinity=" + shown( infinity ) ); else { arg( "-f" ); arg( shown( infinity ) ); }
    }
    if( closeness )   arg( sim::flip( 1, 2 ) ? "--closeness-centrality" : "-c" );
    if( graphs )      arg( sim::flip( 1, 2 ) ? "--graphs" : "-g" );
    if( sum )         arg( sim::flip( 1, 2 ) ? "--sum" : "-s" );
    if( superlevels ) arg( sim::flip( 1, 2 ) ? "--superlevel" : "-S" );
    if( normalise )   arg( sim::flip( 1, 2 ) ? "--normalise" : "-N" );
    if( attributes )  arg( sim::flip( 1, 2 ) ? "--attributes" : "-a" );
    if( named )       arg( sim::flip( 1, 2 ) ? "--node-labels" : "-n" );

    unsigned n = 1 + unsigned( sim::choose( sim::pick( { 3, 11 } ) ) );
    std::string indicator, labels, nodes, values;
    std::vector<std::string> l;
    unsigned next = 1;
    for( unsigned i = 0; i < n; i++ )
    {
      auto g = randomGraph( n > 4 ? 4 : 6, false, true );
      Part p;
      for( std::size_t k = 0; k < g.ids.size(); k++ ) { p.vertices.insert( next + unsigned( k ) ); indicator += std::to_string( i + 1 ) + "\n"; names.push_back( sim::pick( { "C", "N1", "0" } ) ); nodes += names.back() + "\n"; values += shown( double( sim::choose( 9 ) ) ) + ", 1\n"; }
      for( auto&& e : g.edges )
      {
        auto u = next + e.first.first, v = next + e.first.second;
        p.edges.insert( { u, v } );
        auto separator = sim::pick( { ",", ", " } );
        l.push_back( std::to_string( u ) + separator + std::to_string( v ) + "\n" );
        if( sim::flip( 1, 2 ) ) l.push_back( std::to_string( v ) + separator + std::to_string( u ) + "\n" );
      }
      next += unsigned( g.ids.size() );
      p.label = sim::pick( { "1", "-1", "2", "x" } );
      labels += p.label + "\n";
      parts.push_back( p );
    }
    sim::shuffle( l );
    std::string edges;
    for( auto&& x : l ) edges += x;
    input( "/sim/set_A.txt", edges );
    input( "/sim/set_graph_indicator.txt", indicator );
    input( "/sim/set_graph_labels.txt", labels );
    if( named )      input( "/sim/set_node_labels.txt", nodes );
    spared.insert( "/sim/set_node_labels.txt" );   // may be missing
    if( attributes ) input( "/sim/set_node_attributes.txt", values );
    arg( "/sim/set_A.txt" );
    outputs.insert( directory + "Labels.txt" );
    for( unsigned i = 0; i < n; i++ )
    {
      outputs.insert( file( i, "_d0.txt" ) );
      for( unsigned k = 1; k < 5; k++ ) optional.insert( file( i, "_d" + std::to_string( k ) + ".txt" ) );
      if( closeness ) outputs.insert( file( i, "_closeness_centrality.txt" ) );
      if( graphs )    outputs.insert( file( i, ".gml" ) );
    }
  }

  void judge( const std::string&, const Files& written ) const override
  {
    for( auto&& p : outputs ) if( !written.count( p ) ) wrong( p + " is missing" );
    std::string labels;
    for( auto&& p : parts ) labels += p.label + "\n";
    if( written.at( directory + "Labels.txt" ) != labels ) wrong( "Labels.txt should hold\n" + labels + "not:\n" + written.at( directory + "Labels.txt" ) );
    double most = 0;
    std::vector<Diagrams> want;
    std::vector<std::size_t> tops;
    for( std::size_t i = 0; i < parts.size(); i++ )
    {
      auto& p = parts[i];
      std::vector<unsigned> ids( p.vertices.begin(), p.vertices.end() );
      auto adjacent = [&] ( unsigned a, unsigned b ) { return p.edges.count( { std::min( a, b ), std::max( a, b ) } ) != 0; };
      std::size_t top = 0, n = ids.size();
      std::vector<Cell> cells;
      std::map<unsigned, double> degree;
      for( std::size_t m = 1; m < std::size_t( 1 ) << n; m++ )
      {
        Vertices v;
        bool clique = true;
        for( unsigned k = 0; k < n; k++ ) if( m >> k & 1 ) v.push_back( ids[k] );
        if( v.size() > dimension + 1 ) continue;
        for( auto&& a : v ) for( auto&& b : v ) if( a < b && !adjacent( a, b ) ) clique = false;
        if( !clique ) continue;
        cells.push_back( { v, 0 } );
        top = std::max( top, v.size() - 1 );
        if( v.size() > 1 ) for( auto&& x : v ) degree[x]++;
      }
      double own = 0;
      for( auto&& d : degree ) own = std::max( own, d.second );
      if( normalise ) for( auto&& d : degree ) d.second /= own;
      most = normalise ? 1 : std::max( most, own );
      for( auto&& s : cells )
      {
        s.w = sum ? 0 : degree[ s.v[0] ];
        for( auto&& x : s.v ) s.w = sum ? s.w + degree[x] : superlevels ? std::min( s.w, degree[x] ) : std::max( s.w, degree[x] );
        s.w = double( float( s.w ) );
      }
      want.push_back( diagrams( cells, superlevels ) );
      tops.push_back( top );

      if( closeness )
      {
        std::vector<double> c;
        for( auto&& a : ids )
        {
          std::map<unsigned, unsigned> d = { { a, 0 } };
          std::vector<unsigned> queue = { a };
          double total = 0;
          for( std::size_t k = 0; k < queue.size(); k++ )
            for( auto&& b : ids )
              if( adjacent( queue[k], b ) && !d.count( b ) ) { d[b] = d[ queue[k] ] + 1; total += d[b]; queue.push_back( b ); }
          c.push_back( double( n ) / total );
        }
        auto& s = written.at( file( i, "_closeness_centrality.txt" ) );
        auto l = lines( s );
        bool good = l.size() == c.size();
        double x;
        for( std::size_t k = 0; good && k < c.size(); k++ ) good = number( l[k], x ) && near( x, c[k] );
        if( !good ) wrong( "closeness of graph " + std::to_string( i ) + " is " + ops::join( c ) + ", not:\n" + s );
      }
      if( graphs )
      {
        auto& s = written.at( file( i, ".gml" ) );
        std::map<unsigned, std::map<std::string, std::string>> nodes;
        std::map<std::pair<unsigned, unsigned>, double> edges;
        std::map<std::string, std::string> current;
        std::string kind;
        for( auto&& l : lines( s ) )
        {
          auto x = words( l );
          if( x.size() == 2 && x[1] == "[" ) { kind = x[0]; current.clear(); }
          else if( x.size() == 2 ) current[ x[0] ] = x[1];
          else if( x.size() == 1 && kind == "node" ) nodes[ unsigned( std::stoul( "0" + current["id"] ) ) ] = current;
          else if( x.size() == 1 && kind == "edge" )
          {
            auto u = unsigned( std::stoul( "0" + current["source"] ) ), v = unsigned( std::stoul( "0" + current["target"] ) );
            double w = -1;
            number( current["weight"], w );
            edges[ { std::min( u, v ), std::max( u, v ) } ] = w;
          }
          if( x.size() == 1 ) kind = "";
        }
        bool good = nodes.size() == n && edges.size() == p.edges.size();
        for( auto&& c : cells )
        {
          double w;
          if( c.v.size() == 1 )
          {
            auto& node = nodes[ c.v[0] ];
            good = good && node.count( "label" ) == named && node.count( "data" ) == attributes;
            if( good && named )      good = node["label"] == "\"" + names[ c.v[0] - 1 ] + "\"";
            if( good && attributes ) good = number( node["data"], w ) && near( w, c.w );
          }
          else if( c.v.size() == 2 )
            good = good && edges.count( { c.v[0], c.v[1] } ) && near( edges[ { c.v[0], c.v[1] } ], c.w );
        }
        if( !good ) wrong( "graph " + std::to_string( i ) + " of " + std::to_string( n ) + " vertices and " + std::to_string( p.edges.size() ) + " edges is not stored as:\n" + s );
      }
    }
    for( std::size_t i = 0; i < parts.size(); i++ )
      for( unsigned k = 0; k < 5; k++ )
      {
        auto E = want[i][k];
        removeDiagonal( E );
        for( auto&& p : E ) if( std::isinf( p.second ) ) p.second = infinity * most;
        auto path = file( i, "_d" + std::to_string( k ) + ".txt" );
        if( E.empty() && !written.count( path ) ) continue;
        if( !written.count( path ) ) wrong( path + " is missing, " + text( E ) );
        Points F;
        if( !parsePoints( lines( written.at( path ) ), F ) || !same( E, F ) ) wrong( path + " should hold " + text( E ) + ", not:\n" + written.at( path ) );
      }
  }
};

sim::Register r1( "P24", "distributions", once<Distributions> );
sim::Register r2( "P24", "descriptors", once<Descriptors> );
sim::Register r3( "P24", "communities", once<Communities> );
sim::Register r4( "P24", "collections", once<Collection> );

} // namespace
