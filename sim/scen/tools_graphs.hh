// What tools for graphs, functions and point clouds have in common.

#ifndef TOOLS_GRAPHS_HH__
#define TOOLS_GRAPHS_HH__

#include "tools.hh"

#include <limits>

namespace tools
{

using ops::Cell;
using ops::Vertices;

const double Infinity = std::numeric_limits<double>::infinity();

using Diagrams = std::map<std::size_t, Points>;

// Diagrams of all dimensions, by column reduction. Weights may be used in
// descending order.
inline Diagrams diagrams( std::vector<Cell> c, bool descending = false )
{
  std::stable_sort( c.begin(), c.end(), [&] ( const Cell& a, const Cell& b )
  {
    if( a.w != b.w ) return descending ? a.w > b.w : a.w < b.w;
    return a.v.size() < b.v.size();
  } );
  auto r = ops::reduce( c );
  Diagrams D;
  for( auto&& p : r.pairs ) D[ c[p.first].v.size() - 1 ].push_back( { c[p.first].w, c[p.second].w } );
  for( auto&& i : r.unpaired ) D[ c[i].v.size() - 1 ].push_back( { c[i].w, Infinity } );
  return D;
}

inline bool same( const Points& a, Points b )
{
  if( a.size() != b.size() ) return false;
  for( auto&& p : a )
  {
    auto it = std::find_if( b.begin(), b.end(), [&] ( const Point& q ) { return near( p.first, q.first ) && near( p.second, q.second ); } );
    if( it == b.end() ) return false;
    b.erase( it );
  }
  return true;
}

inline std::string text( Points D )
{
  std::sort( D.begin(), D.end() );
  std::string r;
  for( auto&& p : D ) r += "(" + shown( p.first ) + " " + shown( p.second ) + ") ";
  return r;
}

inline bool parsePoints( const std::vector<std::string>& l, Points& D )
{
  for( auto&& x : l )
  {
    auto w = words( x );
    double a, b;
    if( w.size() != 2 || !number( w[0], a ) || !number( w[1], b ) ) return false;
    D.push_back( { a, b } );
  }
  return true;
}

inline void removeDiagonal( Points& D )
{
  D.erase( std::remove_if( D.begin(), D.end(), [] ( const Point& p ) { return p.first == p.second; } ), D.end() );
}

struct Graph
{
  std::vector<unsigned> ids;
  std::map< std::pair<unsigned, unsigned>, double > edges;   // by position of the vertices

  std::vector<Cell> cells() const
  {
    std::vector<Cell> c;
    for( auto&& v : ids ) c.push_back( { { v }, 0 } );
    for( auto&& e : edges ) c.push_back( { { ids[e.first.first], ids[e.first.second] }, e.second } );
    return c;
  }
};

// Weights are distinct integers or quarters, so that few digits suffice.
inline Graph randomGraph( unsigned most, bool isolated, bool integral, bool distinct = false )
{
  Graph g;
  unsigned n = 2 + unsigned( sim::choose( most - 1 ) );
  auto l = ops::labels();
  for( unsigned i = 0; i < n; i++ ) g.ids.push_back( l( i ) );
  std::vector<double> w;
  for( unsigned i = 1; i < 60; i++ ) w.push_back( integral ? i : i / 4.0 );
  unsigned density = 1 + unsigned( sim::choose( 5 ) );
  for( unsigned i = 0; i < n; i++ )
    for( unsigned j = i + 1; j < n; j++ )
      if( sim::flip( density, 6 ) )
      {
        auto k = distinct ? sim::choose( w.size() ) : sim::choose( 12 );
        g.edges[ { i, j } ] = w[k];
        if( distinct ) w.erase( w.begin() + std::ptrdiff_t( k ) );
      }
  if( !isolated )
  {
    if( g.edges.empty() ) g.edges[ { 0, 1 } ] = w[0];
    std::set<unsigned> used;
    for( auto&& e : g.edges ) { used.insert( e.first.first ); used.insert( e.first.second ); }
    std::vector<unsigned> ids;
    std::map<unsigned, unsigned> position;
    for( auto&& v : used ) { position[v] = unsigned( ids.size() ); ids.push_back( g.ids[v] ); }
    decltype( g.edges ) edges;
    for( auto&& e : g.edges ) edges[ { position[e.first.first], position[e.first.second] } ] = e.second;
    g.ids = ids;
    g.edges = edges;
  }
  return g;
}

inline std::string edgeList( const Graph& g )
{
  std::vector<std::string> l;
  for( auto&& e : g.edges )
  {
    auto u = g.ids[e.first.first], v = g.ids[e.first.second];
    if( sim::flip( 1, 2 ) ) std::swap( u, v );
    l.push_back( std::to_string( u ) + " " + std::to_string( v ) + " " + shown( e.second ) + "\n" );
  }
  sim::shuffle( l );
  std::string t;
  if( sim::flip( 1, 4 ) ) t += "# edges\n";
  for( auto&& x : l ) t += x;
  return t;
}

inline std::string gml( const Graph& g, const std::vector<std::string>& labels = {} )
{
  std::string t = "graph [\n  directed 0\n";
  for( std::size_t i = 0; i < g.ids.size(); i++ )
  {
    t += "  node [\n    id " + std::to_string( g.ids[i] ) + "\n";
    if( !labels.empty() ) t += "    label \"" + labels[i] + "\"\n";
    t += "  ]\n";
  }
  for( auto&& e : g.edges )
    t += "  edge [\n    source " + std::to_string( g.ids[e.first.first] ) + "\n    target " + std::to_string( g.ids[e.first.second] )
         + "\n    " + sim::pick( { "weight", "value" } ) + " " + shown( e.second ) + "\n  ]\n";
  return t + "]\n";
}

inline std::string pajek( const Graph& g, const std::vector<std::string>& labels )
{
  std::string t = "*Vertices " + std::to_string( g.ids.size() ) + "\n";
  for( std::size_t i = 0; i < g.ids.size(); i++ ) t += std::to_string( g.ids[i] ) + " \"" + labels[i] + "\"\n";
  t += "*Edges\n";
  for( auto&& e : g.edges ) t += std::to_string( g.ids[e.first.first] ) + " " + std::to_string( g.ids[e.first.second] ) + " " + shown( e.second ) + "\n";
  return t;
}

// -- point clouds -----------------------------------------------------------

using Coordinates = std::vector< std::vector<double> >;

inline Coordinates randomCloud( unsigned least, unsigned most )
{
  Coordinates c( least + sim::choose( most - least + 1 ) );
  std::size_t dimension = 1 + sim::choose( 3 );
  for( auto&& p : c )
    for( std::size_t i = 0; i < dimension; i++ ) p.push_back( value( 17 ) - 1 );
  return c;
}

inline std::string cloudFile( const Coordinates& c )
{
  std::string t;
  if( sim::flip( 1, 4 ) ) t += "# a cloud\n";
  std::string separator = sim::pick( { " ", "\t", "," } );
  for( auto&& p : c )
  {
    for( std::size_t i = 0; i < p.size(); i++ ) t += ( i ? separator : "" ) + shown( p[i] );
    t += "\n";
  }
  return t;
}

inline double distance( const std::vector<double>& p, const std::vector<double>& q, bool manhattan = false )
{
  double r = 0;
  for( std::size_t i = 0; i < p.size(); i++ ) r += manhattan ? std::abs( p[i] - q[i] ) : ( p[i] - q[i] ) * ( p[i] - q[i] );
  return manhattan ? r : std::sqrt( r );
}

// Never the distance of two points.
inline double radius() { return value( 17 ) + 0.1; }

} // namespace tools

#endif
