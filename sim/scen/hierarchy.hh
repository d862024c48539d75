// Connected components of a filtered graph, and the hierarchy of their merges.

#ifndef HIERARCHY_HH__
#define HIERARCHY_HH__

#include "ops.hh"

#include <functional>
#include <map>
#include <set>
#include <vector>

namespace ops
{

// Elder rule on the graph: which vertex is destroyed by which edge.
struct Elder
{
  struct Merge { std::size_t creator, edge; unsigned younger, older; };
  std::vector<Merge> merges;
  std::vector<std::size_t> roots;         // indices of essential creators
  std::map<unsigned, unsigned> component; // vertex -> oldest vertex

  explicit Elder( const std::vector<Cell>& c )
  {
    std::map<unsigned, std::size_t> birth;
    for( std::size_t i = 0; i < c.size(); i++ )
      if( c[i].v.size() == 1 ) { birth[ c[i].v[0] ] = i; component[ c[i].v[0] ] = c[i].v[0]; }
    for( std::size_t i = 0; i < c.size(); i++ )
    {
      if( c[i].v.size() != 2 ) continue;
      unsigned a = component[ c[i].v[0] ], b = component[ c[i].v[1] ];
      if( a == b ) continue;
      if( birth[a] < birth[b] ) std::swap( a, b );
      merges.push_back( { birth[a], i, a, b } );
      for( auto&& p : component )
        if( p.second == a ) p.second = b;
    }
    std::set<std::size_t> r;
    for( auto&& p : component ) r.insert( birth[ p.second ] );
    roots.assign( r.begin(), r.end() );
  }
};

// Calls a function with the regions that each shortest way between two vertices meets.
template <class F> bool shortest( const std::vector<Cell>& graph, std::map<unsigned, std::size_t>& birth, std::map<std::vector<unsigned>, unsigned>& tags,
                                  double lower, double upper, unsigned from, unsigned to, F f )
{
  auto inside = [&] ( double w ) { return w >= lower && w <= upper; };
  if( !inside( graph[ birth[from] ].w ) || !inside( graph[ birth[to] ].w ) ) return false;
  std::map<unsigned, unsigned> distance{ { from, 0 } };
  std::vector<unsigned> queue{ from };
  auto neighbours = [&] ( unsigned u )
  {
    std::vector< std::pair<unsigned, unsigned> > r;
    for( auto&& c : graph )
      if( c.v.size() == 2 && inside( c.w ) && ( c.v[0] == u || c.v[1] == u ) )
      {
        auto x = c.v[0] == u ? c.v[1] : c.v[0];
        if( inside( graph[ birth[x] ].w ) ) r.push_back( { x, tags[ c.v ] } );
      }
    return r;
  };
  for( std::size_t i = 0; i < queue.size(); i++ )
    for( auto&& n : neighbours( queue[i] ) )
      if( distance.count( n.first ) == 0 ) { distance[ n.first ] = distance[ queue[i] ] + 1; queue.push_back( n.first ); }
  if( distance.count( to ) == 0 ) return false;
  std::function<void ( unsigned, std::set<unsigned> )> walk = [&] ( unsigned u, std::set<unsigned> met )
  {
    if( u == from ) return f( met );
    for( auto&& n : neighbours( u ) )
      if( distance.count( n.first ) && distance[ n.first ] + 1 == distance[u] )
      {
        auto next = met;
        next.insert( n.second );
        walk( n.first, next );
      }
  };
  walk( to, {} );
  return true;
}

// One edge of the hierarchy: the vertex it leads to, and the vertices it may
// leave from.
struct Link
{
  unsigned younger, older;
  std::set<unsigned> sources;
};

// One edge per merge of positive persistence, in order of the merges. It
// leaves from the last critical vertex of the older component if a shortest
// way between the critical vertices, within the levels they span, meets
// the regions of two critical vertices, and from the oldest vertex of the
// component otherwise.
inline std::vector<Link> links( const std::vector<Cell>& graph )
{
  Elder e( graph );
  std::map<unsigned, std::size_t> birth;
  for( std::size_t i = 0; i < graph.size(); i++ ) if( graph[i].v.size() == 1 ) birth[ graph[i].v[0] ] = i;
  std::map<unsigned, unsigned> region, critical;
  std::map<std::vector<unsigned>, unsigned> tags;
  for( auto&& b : birth ) region[ b.first ] = critical[ b.first ] = b.first;
  for( auto&& c : graph )
    if( c.v.size() == 2 )
    {
      auto y = c.v[0], o = c.v[1];
      if( birth[y] < birth[o] ) std::swap( y, o );
      if( graph[ birth[y] ].w == c.w ) region[y] = region[o];
      tags[ c.v ] = region[o];
    }
  std::vector<Link> result;
  for( auto&& m : e.merges )
  {
    auto w = graph[ m.edge ].w;
    if( graph[ m.creator ].w == w ) { critical[ m.younger ] = m.older; continue; }
    auto from = critical[ m.older ], to = critical[ m.younger ];
    if( birth[to] < birth[from] ) std::swap( from, to );
    auto lower = std::min( graph[ birth[from] ].w, w ), upper = std::max( graph[ birth[from] ].w, w );
    Link l{ m.younger, m.older, {} };
    bool known = shortest( graph, birth, tags, lower, upper, from, to, [&] ( const std::set<unsigned>& met )
      { l.sources.insert( met.size() == 2 ? critical[ m.older ] : m.older ); } );
    if( !known ) l.sources.insert( m.older );
    result.push_back( l );
    critical[ m.older ] = m.younger;
  }
  return result;
}

} // namespace ops

#endif
