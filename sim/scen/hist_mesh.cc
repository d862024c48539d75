// Histories of vertex and face additions to half-edge meshes, with failing
// allocations and edits that are refused.

#include "../core/sim.hh"

#include <aleph/topology/Mesh.hh>

#include <algorithm>
#include <map>
#include <memory>
#include <set>

namespace
{

using Mesh  = aleph::topology::Mesh<double, double>;
using Index = Mesh::Index;
using Face  = std::vector<Index>;

// -- surfaces -------------------------------------------------------------

std::vector<Face> surface()
{
  switch( sim::choose( 9 ) )
  {
  case 0: // tetrahedron
    return { {0,1,2}, {0,2,3}, {0,3,1}, {1,3,2} };
  case 1: // octahedron
    return { {0,1,2}, {0,2,3}, {0,3,4}, {0,4,1}, {5,2,1}, {5,3,2}, {5,4,3}, {5,1,4} };
  case 2: // cube
    return { {0,1,2,3}, {7,6,5,4}, {0,4,5,1}, {1,5,6,2}, {2,6,7,3}, {3,7,4,0} };
  case 3: // torus with seven vertices
  {
    std::vector<Face> f;
    for( Index i = 0; i < 7; i++ )
    {
      f.push_back( { i, ( i + 1 ) % 7, ( i + 3 ) % 7 } );
      f.push_back( { i, ( i + 3 ) % 7, ( i + 2 ) % 7 } );
    }
    return f;
  }
  case 4: // torus made of squares
  {
    std::vector<Face> f;
    for( Index i = 0; i < 3; i++ )
      for( Index j = 0; j < 4; j++ )
      {
        Index a = ( i + 1 ) % 3, b = ( j + 1 ) % 4;
        f.push_back( { 4*i+j, 4*a+j, 4*a+b, 4*i+b } );
      }
    return f;
  }
  case 5: // grid of triangles and squares
  {
    std::vector<Face> f;
    Index w = 2 + sim::choose( 3 ), h = 2 + sim::choose( 2 );
    bool squares = sim::flip( 1, 3 );
    for( Index i = 0; i + 1 < h; i++ )
      for( Index j = 0; j + 1 < w; j++ )
      {
        Index a = i*w+j, b = a+1, c = b+w, d = a+w;
        if( squares ) f.push_back( { a, b, c, d } );
        else if( sim::flip( 1, 2 ) ) { f.push_back( { a, b, c } ); f.push_back( { a, c, d } ); }
        else                         { f.push_back( { a, b, d } ); f.push_back( { b, c, d } ); }
      }
    return f;
  }
  case 6: // a fan, possibly closed, around a vertex
  {
    std::vector<Face> f;
    Index n = 3 + sim::choose( 5 );
    bool closed = sim::flip( 1, 2 );
    for( Index i = 0; i + ( closed ? 0 : 1 ) < n; i++ ) f.push_back( { 0, 1 + i, 1 + ( i + 1 ) % n } );
    return f;
  }
  case 7: // a strip, possibly closed to a ring
  {
    std::vector<Face> f;
    Index n = 3 + sim::choose( 3 );
    bool closed = sim::flip( 1, 2 );
    for( Index i = 0; i + ( closed ? 0 : 1 ) < n; i++ )
    {
      Index j = ( i + 1 ) % n;
      f.push_back( { 2*i, 2*j, 2*i+1 } );
      f.push_back( { 2*j, 2*j+1, 2*i+1 } );
    }
    return f;
  }
  default: // two pieces
    return { {0,1,2}, {2,1,3}, {4,5,6}, {4,6,7}, {4,7,5}, {5,7,6} };
  }
}

// -- model ------------------------------------------------------------------

struct Model
{
  std::map<Index, double> data;
  std::vector<Face> faces;

  // Neighbours of a vertex in the order that the faces imply.
  std::map<Index, Index> successors( Index v ) const
  {
    std::map<Index, Index> s;
    for( auto&& f : faces )
      for( std::size_t i = 0; i < f.size(); i++ )
        if( f[i] == v ) s[ f[ ( i + 1 ) % f.size() ] ] = f[ ( i + f.size() - 1 ) % f.size() ];
    return s;
  }

  std::set<Index> neighbours( Index v ) const
  {
    std::set<Index> n;
    for( auto&& s : successors( v ) ) { n.insert( s.first ); n.insert( s.second ); }
    return n;
  }

  // The faces around the vertex make up one fan.
  bool regular( Index v ) const
  {
    auto s = successors( v );
    if( s.empty() ) return true;
    std::set<Index> targets;
    for( auto&& x : s ) targets.insert( x.second );
    Index start = s.begin()->first;
    for( auto&& x : s ) if( !targets.count( x.first ) ) start = x.first;
    std::size_t n = 0;
    for( Index x = start; s.count( x ); )
    {
      n++;
      x = s[x];
      if( x == start ) break;
    }
    return n == s.size();
  }

  std::size_t components() const
  {
    std::map<Index, Index> p;
    for( auto&& d : data ) p[ d.first ] = d.first;
    for( bool again = true; again; )
    {
      again = false;
      for( auto&& f : faces )
        for( auto&& a : f )
          for( auto&& b : f )
            if( p[a] < p[b] ) { p[b] = p[a]; again = true; }
    }
    std::set<Index> r;
    for( auto&& x : p ) r.insert( x.second );
    return r.size();
  }
};

std::string text( const Face& f )
{
  std::string s = "(";
  for( auto&& v : f ) s += ( s.size() > 1 ? " " : "" ) + std::to_string( v );
  return s + ")";
}

std::string text( std::vector<Face> f )
{
  std::sort( f.begin(), f.end() );
  std::string s;
  for( auto&& x : f ) s += text( x );
  return s;
}

// Faces without a first vertex.
std::vector<Face> rotated( std::vector<Face> f )
{
  for( auto&& x : f ) std::rotate( x.begin(), std::min_element( x.begin(), x.end() ), x.end() );
  return f;
}

Face sorted( Face f ) { std::sort( f.begin(), f.end() ); return f; }

struct History
{
  std::unique_ptr<Mesh> M { new Mesh };
  Model model;
  bool faulty = false;
  bool triangles = true;

  void checkVertex( const Mesh& m, Index v )
  {
    SIM_REQUIRE( m.data( v ) == model.data[v], "wrong/data", "data of " << v << " is " << m.data( v ) );
    if( !model.regular( v ) ) return;
    auto n = model.neighbours( v );
    Face lower, higher;
    for( auto&& x : n )
    {
      if( model.data[x] < model.data[v] ) lower.push_back( x );
      if( model.data[x] > model.data[v] ) higher.push_back( x );
    }
    SIM_REQUIRE( sorted( m.getLowerNeighbours( v ) ) == lower, "wrong/lower", "lower neighbours of " << v << " are " << text( m.getLowerNeighbours( v ) ) << " instead of " << text( lower ) );
    SIM_REQUIRE( sorted( m.getHigherNeighbours( v ) ) == higher, "wrong/higher", "higher neighbours of " << v << " are " << text( m.getHigherNeighbours( v ) ) << " instead of " << text( higher ) );
    for( auto&& d : model.data )
      SIM_REQUIRE( m.hasEdge( v, d.first ) == ( n.count( d.first ) != 0 ), "wrong/edge", "edge from " << v << " to " << d.first );
    if( triangles )
    {
      auto l = m.link( v );
      SIM_REQUIRE( sorted( l ) == Face( n.begin(), n.end() ), "wrong/link", "link of " << v << " is " << text( l ) << " for " << text( model.faces ) );
      auto s = model.successors( v );
      std::size_t gaps = 0;
      for( std::size_t i = 0; i < l.size(); i++ )
      {
        auto it = s.find( l[i] );
        if( it == s.end() ) gaps++;
        else SIM_REQUIRE( it->second == l[ ( i + 1 ) % l.size() ], "wrong/link", "link of " << v << " is not in order: " << text( l ) );
      }
      SIM_REQUIRE( l.empty() || gaps == l.size() - s.size(), "wrong/link", "link of " << v << " is " << text( l ) );
    }
  }

  void checkStar( const Mesh& m, Index v )
  {
    if( !model.regular( v ) || model.neighbours( v ).empty() ) return;
    auto S = m.star( v );
    std::vector<Face> faces;
    std::set<Index> vertices;
    for( auto&& f : model.faces )
      if( std::find( f.begin(), f.end(), v ) != f.end() )
      {
        faces.push_back( f );
        vertices.insert( f.begin(), f.end() );
      }
    SIM_REQUIRE( text( rotated( S.faces() ) ) == text( rotated( faces ) ), "wrong/star", "star of " << v << " consists of " << text( S.faces() ) << " instead of " << text( faces ) );
    SIM_REQUIRE( sorted( S.vertices() ) == Face( vertices.begin(), vertices.end() ), "wrong/star", "star of " << v << " has the vertices " << text( S.vertices() ) );
    Model whole = model;
    model.faces = faces;
    for( auto it = model.data.begin(); it != model.data.end(); )
      if( vertices.count( it->first ) ) ++it;
      else it = model.data.erase( it );
    for( auto&& x : vertices ) checkVertex( S, x );
    SIM_REQUIRE( S.numConnectedComponents() == 1, "wrong/star", "star of " << v << " is not connected" );
    model = whole;
  }

  void check( const Mesh& m, bool thorough )
  {
    sim::Quiet q;
    Face v;
    for( auto&& d : model.data ) v.push_back( d.first );
    SIM_REQUIRE( sorted( m.vertices() ) == v && m.numVertices() == v.size(), "wrong/vertices", "vertices are " << text( m.vertices() ) << " instead of " << text( v ) );
    SIM_REQUIRE( text( m.faces() ) == text( model.faces ), "wrong/faces", "faces are " << text( m.faces() ) << " instead of " << text( model.faces ) );
    SIM_REQUIRE( m.numFaces() == model.faces.size(), "wrong/faces", "there are " << m.numFaces() << " faces instead of " << model.faces.size() );
    bool regular = true;
    for( auto&& x : v )
    {
      checkVertex( m, x );
      regular = regular && model.regular( x );
      if( thorough ) checkStar( m, x );
    }
    if( regular )
      SIM_REQUIRE( m.numConnectedComponents() == model.components(), "wrong/components", "there are " << m.numConnectedComponents() << " components instead of " << model.components() << " of " << text( model.faces ) );
  }

  enum End { Done, Memory, Refused };

  template <class F> End attempt( F f, bool mayFail )
  {
    End e = Done;
    bool fault = mayFail && faulty && sim::flip( 1, 2 );
    if( fault )
    {
      auto k = sim::choose( sim::flip( 1, 2 ) ? 24 : 6 );
      bool sticky = sim::flip( 1, 4 );
      sim::heap::failAt( k, sticky );
      sim::story( "allocation %llu fails", (unsigned long long) k );
    }
    try { f(); }
    catch( const std::bad_alloc& ) { e = Memory; }
    catch( const std::exception& ) { e = Refused; }
    if( fault && sim::heap::disarm() ) { sim::count( "allocation failures" ); }
    else SIM_REQUIRE( e != Memory, "report/memory", "bad_alloc although no allocation failed" );
    sim::event( "end", e );
    return e;
  }

  Index largest() const { return model.data.empty() ? 0 : model.data.rbegin()->first; }

  // Returns the ID of the new vertex.
  Index addVertex( bool automatic, Index id )
  {
    double x = double( sim::choose( 8 ) ), y = double( sim::choose( 8 ) ), z = double( sim::choose( 8 ) ), d = double( sim::choose( 4 ) );
    for( ;; )
    {
      auto e = attempt( [&]
      {
        if( automatic ) M->addVertex( x, y, z, d );
        else            M->addVertex( x, y, z, d, id );
      }, true );
      SIM_REQUIRE( e != Refused, "report/vertex", "a new vertex was refused" );
      if( e == Done ) break;
      sim::Quiet q;
      check( *M, false );
    }
    sim::Quiet q;
    if( automatic )
    {
      // Any ID is fine as long as it is a new one.
      for( auto&& v : M->vertices() )
        if( !model.data.count( v ) ) id = v;
      SIM_REQUIRE( !model.data.count( id ), "wrong/vertices", "no vertex has been added" );
    }
    model.data[id] = d;
    return id;
  }

  void refusedVertex()
  {
    if( model.data.empty() ) return;
    auto it = model.data.begin();
    std::advance( it, long( sim::choose( model.data.size() ) ) );
    sim::story( "add vertex %zu again", std::size_t( it->first ) );
    auto e = attempt( [&] { M->addVertex( 9, 9, 9, 9, it->first ); }, true );
    SIM_REQUIRE( e != Done, "report/vertex", "the same vertex was added twice" );
    sim::count( "refused edits" );
    check( *M, false );
  }

  void refusedFace( const Face& f )
  {
    Face g = f;
    g[ sim::choose( g.size() ) ] = largest() + 1 + sim::choose( 3 );
    sim::story( "add face %s with an unknown vertex", text( g ).c_str() );
    auto e = attempt( [&] { M->addFace( g.begin(), g.end() ); }, true );
    SIM_REQUIRE( e != Done, "report/face", "a face with an unknown vertex was added" );
    sim::count( "refused edits" );
    check( *M, false );
  }

  void addFace( Face f )
  {
    std::rotate( f.begin(), f.begin() + long( sim::choose( f.size() ) ), f.end() );
    sim::story( "add face %s", text( f ).c_str() );
    bool list = sim::flip( 1, 2 );
    std::vector<unsigned> u( f.begin(), f.end() );
    for( ;; )
    {
      auto e = attempt( [&]
      {
        if( list ) M->addFace( u.begin(), u.end() );
        else       M->addFace( f.begin(), f.end() );
      }, true );
      SIM_REQUIRE( e != Refused, "report/face", "face " << text( f ) << " was refused" );
      if( e == Done ) break;
      check( *M, false );
    }
    model.faces.push_back( f );
  }

  void query()
  {
    if( model.data.empty() ) return;
    auto it = model.data.begin();
    std::advance( it, long( sim::choose( model.data.size() ) ) );
    Index v = it->first;
    if( !model.regular( v ) ) return;
    unsigned how = unsigned( sim::choose( 6 ) );
    sim::story( "query %u of vertex %zu", how, std::size_t( v ) );
    auto live = sim::heap::liveBlocks();
    attempt( [&]
    {
      if( how == 0 )      M->link( v );
      else if( how == 1 ) M->star( v );
      else if( how == 2 ) M->faces();
      else if( how == 3 ) M->getHigherNeighbours( v );
      else if( how == 4 ) M->numConnectedComponents();
      else                M->hasEdge( v, v );
    }, how != 4 );   // the union-find structure is declared non-throwing
    SIM_REQUIRE( sim::heap::liveBlocks() == live, "leak/query", "a query left " << sim::heap::liveBlocks() - live << " blocks behind" );
    check( *M, false );
  }

  void unknown()
  {
    Index v = largest() + 1 + sim::choose( 4 );
    unsigned how = unsigned( sim::choose( 5 ) );
    sim::story( "query %u of an unknown vertex", how );
    auto e = attempt( [&]
    {
      if( how == 0 )      M->link( v );
      else if( how == 1 ) M->star( v );
      else if( how == 2 ) M->getLowerNeighbours( v );
      else if( how == 3 ) M->data( v );
      else                M->hasEdge( v, v );
    }, false );
    SIM_REQUIRE( e == Refused, "report/query", "there is an answer for a vertex that does not exist" );
  }

  void run()
  {
    faulty = sim::flip( 2, 3 ) || sim::property() == "A17";
    auto faces = surface();
    for( auto&& f : faces ) triangles = triangles && f.size() == 3;
    if( sim::flip( 1, 2 ) ) for( auto&& f : faces ) std::reverse( f.begin(), f.end() );
    if( !sim::flip( 1, 4 ) ) sim::shuffle( faces );
    if( sim::flip( 1, 3 ) ) faces.resize( 1 + sim::choose( faces.size() ) );
    unsigned naming = unsigned( sim::choose( 3 ) );   // automatic, given, mixed
    bool early = sim::flip( 1, 2 );                   // all vertices first
    std::map<Index, Index> ids;
    Index next = sim::choose( 4 );
    auto need = [&]( Index v )
    {
      if( ids.count( v ) ) return;
      bool automatic = naming == 0 || ( naming == 2 && sim::flip( 1, 2 ) );
      if( !automatic )
      {
        next += 1 + sim::choose( 3 );
        while( model.data.count( next ) ) next++;
      }
      ids[v] = addVertex( automatic, next );
    };
    if( early )
    {
      std::vector<Index> order;
      std::set<Index> all;
      for( auto&& f : faces ) all.insert( f.begin(), f.end() );
      order.assign( all.begin(), all.end() );
      sim::shuffle( order );
      for( auto&& v : order ) need( v );
    }
    check( *M, true );
    for( auto&& f : faces )
    {
      if( sim::flip( 1, 10 ) ) need( 1000 + sim::choose( 4 ) );    // isolated
      if( sim::flip( 1, 10 ) ) refusedVertex();
      if( sim::flip( 1, 10 ) ) refusedFace( Face( f.size(), 0 ) );
      Face g;
      for( auto&& v : f ) { need( v ); }
      for( auto&& v : f ) g.push_back( ids[v] );
      addFace( g );
      check( *M, sim::flip( 1, 3 ) );
      if( sim::flip( 1, 4 ) ) query();
      if( sim::flip( 1, 10 ) ) unknown();
      if( sim::flip( 1, 10 ) )
      {
        // another mesh takes over
        std::unique_ptr<Mesh> N( sim::flip( 1, 2 ) ? new Mesh( *M ) : new Mesh( std::move( *M ) ) );
        M.swap( N );
        N.reset();
        sim::story( "continue with a copy" );
        check( *M, false );
      }
      sim::signature( sim::hashString( text( g ) ) );
    }
    check( *M, true );
    sim::nontrivial();
    sim::Quiet q;
    sim::observe( text( M->faces() ) );
  }
};

void history()
{
  auto live = sim::heap::liveBlocks();
  {
    History h;
    h.run();
  }
  SIM_REQUIRE( sim::heap::liveBlocks() == live, "leak/mesh", sim::heap::liveBlocks() - live << " blocks are left after the mesh is gone" );
}

sim::Register r1( "X18", "histories", &history );
sim::Register r2( "A17", "histories of meshes", &history );

} // namespace
