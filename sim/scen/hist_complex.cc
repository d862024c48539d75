// Histories of operations on simplicial complexes, with allocations that fail
// and caller-supplied functions that throw.

#include "../core/sim.hh"

#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

#include <algorithm>
#include <memory>
#include <set>
#include <sstream>

namespace
{

struct Thrown : std::exception {};

// Throws when it is asked for the k-th time.
struct Fuse
{
  long left = -1;
  bool blown = false;

  void tick()
  {
    if( left < 0 ) return;
    if( left-- == 0 ) { blown = true; throw Thrown(); }
  }
};

enum class End { Done, Memory, Callback, Other };

struct Fault
{
  Fuse fuse;
  bool memory = false;
  bool sticky = false;
  bool fired = false;
  std::uint64_t k = 0;
  std::string message;
};

template <class Simplex> struct History
{
  using Complex = aleph::topology::SimplicialComplex<Simplex>;
  using Data    = typename Simplex::DataType;
  using Vertex  = typename Simplex::VertexType;

  using Vertices = std::vector<Vertex>;  // descending
  struct Cell
  {
    Vertices v;
    Data w;
    bool operator==( const Cell& o ) const { return v == o.v && w == o.w; }
  };
  using Model = std::vector<Cell>;

  std::vector<Complex> pool;
  std::vector<Model> models;
  unsigned n = 5;           // number of vertices
  bool faulty = false;
  unsigned failures = 0;

  // -- rendering --------------------------------------------------------

  static std::string text( const Vertices& v )
  {
    std::ostringstream s;
    s << "{";
    for( std::size_t i = 0; i < v.size(); i++ ) s << ( i ? " " : "" ) << v[i];
    s << "}";
    return s.str();
  }

  static std::string text( const Model& m )
  {
    std::ostringstream s;
    for( auto&& c : m ) s << text( c.v ) << ":" << c.w << " ";
    return s.str();
  }

  static Cell cell( const Simplex& s ) { return { Vertices( s.begin(), s.end() ), s.data() }; }
  static Simplex simplex( const Cell& c ) { return Simplex( c.v.begin(), c.v.end(), c.w ); }

  static Model state( const Complex& K )
  {
    Model m;
    for( auto&& s : K ) m.push_back( cell( s ) );
    return m;
  }

  static long find( const Model& m, const Vertices& v )
  {
    for( std::size_t i = 0; i < m.size(); i++ ) if( m[i].v == v ) return long( i );
    return -1;
  }

  static bool includes( const Vertices& big, const Vertices& small )
  {
    for( auto&& x : small ) if( std::find( big.begin(), big.end(), x ) == big.end() ) return false;
    return true;
  }

  static std::vector<Vertices> faces( const Vertices& v )
  {
    std::vector<Vertices> f;
    if( v.size() > 1 )
      for( std::size_t i = 0; i < v.size(); i++ )
      {
        Vertices w = v;
        w.erase( w.begin() + long( i ) );
        f.push_back( w );
      }
    return f;
  }

  // -- drawing ----------------------------------------------------------

  Data weight() { return Data( sim::choose( 6 ) ); }

  Cell drawCell()
  {
    unsigned d = 1 + unsigned( sim::choose( 4 ) );
    std::set<Vertex, std::greater<Vertex> > v;
    for( unsigned i = 0; i < d; i++ ) v.insert( Vertex( sim::choose( n ) ) );
    return { Vertices( v.begin(), v.end() ), weight() };
  }

  // An element of the complex, if possible and wanted, else any simplex.
  Cell drawNear( const Model& m )
  {
    if( !m.empty() && !sim::flip( 1, 3 ) ) return m[ sim::choose( m.size() ) ];
    return drawCell();
  }

  // Vertices are handed over in any order and possibly repeatedly.
  Simplex scrambled( const Cell& c )
  {
    Vertices v = c.v;
    if( !v.empty() && sim::flip( 1, 4 ) ) v.push_back( v[ sim::choose( v.size() ) ] );
    sim::shuffle( v );
    return Simplex( v.begin(), v.end(), c.w );
  }

  Fault drawFault( bool callback )
  {
    Fault f;
    if( !faulty || !sim::flip( 1, 2 ) ) return f;
    f.k = sim::choose( sim::flip( 1, 3 ) ? 60 : 8 );
    if( callback && sim::flip( 1, 2 ) )
      f.fuse.left = long( f.k );
    else
    {
      f.memory = true;
      f.sticky = sim::flip( 1, 4 );
    }
    return f;
  }

  template <class F> End act( Fault& f, F body )
  {
    End e = End::Done;
    if( f.memory ) sim::heap::failAt( f.k, f.sticky );
    try { body(); }
    catch( const std::bad_alloc& ) { e = End::Memory; }
    catch( const Thrown& ) { e = End::Callback; }
    catch( const std::exception& x )
    {
      e = End::Other;
      sim::Quiet q;
      f.message = x.what();
    }
    bool fired = f.memory ? sim::heap::disarm() : false;
    sim::Quiet q;
    if( fired )
    {
      sim::count( f.sticky ? "allocation failures (persistent)" : "allocation failures (single)" );
      sim::nontrivial();
    }
    if( f.fuse.blown )
    {
      sim::count( "throwing callbacks" );
      sim::nontrivial();
    }
    f.fuse.left = -1;
    f.fired = fired || f.fuse.blown;
    if( e == End::Memory ) SIM_REQUIRE( fired, "report/memory", "bad_alloc although no allocation failed" );
    if( e == End::Callback || e == End::Memory ) failures++;
    if( f.fuse.blown ) SIM_REQUIRE( e == End::Callback, "report/callback", "the exception of a callback was not passed on" );
    sim::event( "end", std::uint64_t( e ), f.fired );
    return e;
  }

  // -- checks -----------------------------------------------------------

  void agree( const Complex& K, const Model& m, const char* what )
  {
    sim::Quiet q;
    auto have = state( K );
    SIM_REQUIRE( have == m, std::string( "wrong/" ) + what, "the complex holds " << text( have ) << "instead of " << text( m ) );
    views( K, m, what );
  }

  void queries( const Simplex& s, const Cell& x, const std::string& c )
  {
    SIM_REQUIRE( bool( s ) && !s.empty() && s.size() == x.v.size(), c, "size of " << text( x.v ) );
    for( Vertex v = 0; v < Vertex( n + 2 ); v++ )
      SIM_REQUIRE( s.contains( v ) == ( std::find( x.v.begin(), x.v.end(), v ) != x.v.end() ), c, "whether " << v << " is in " << text( x.v ) );
    std::set<Vertices> have, want;
    for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
      SIM_REQUIRE( have.insert( cell( *it ).v ).second, c, "a face of " << text( x.v ) << " occurs twice" );
    for( std::size_t i = 0; x.v.size() > 1 && i < x.v.size(); i++ )
    {
      auto f = x.v;
      f.erase( f.begin() + std::ptrdiff_t( i ) );
      want.insert( f );
    }
    SIM_REQUIRE( have == want, c, "boundary of " << text( x.v ) );
    std::ostringstream shown, expected;
    shown << s;
    auto t = text( x.v );
    expected << t.substr( 0, t.size() - 1 );
    if( x.w != Data() ) expected << " (" << x.w << ")";
    expected << "}";
    SIM_REQUIRE( shown.str() == expected.str(), c, text( x.v ) << " is shown as " << shown.str() );
  }

  void views( const Complex& K, const Model& m, const char* what )
  {
    sim::Quiet q;
    std::string c = std::string( "views/" ) + what;
    SIM_REQUIRE( K.size() == m.size() && K.empty() == m.empty(), c, "size is " << K.size() << " instead of " << m.size() );
    std::set<Vertices> all;
    for( std::size_t i = 0; i < m.size(); i++ )
    {
      all.insert( m[i].v );
      SIM_REQUIRE( cell( K[i] ) == m[i] && cell( K.at(i) ) == m[i], c, "element " << i << " differs" );
      Simplex s( m[i].v.begin(), m[i].v.end() );
      SIM_REQUIRE( K.contains( s ), c, text( m[i].v ) << " is not contained" );
      auto it = K.find( s );
      SIM_REQUIRE( it != K.end() && cell( *it ) == m[i], c, text( m[i].v ) << " is not found" );
      SIM_REQUIRE( K.index( s ) == i, c, "index of " << text( m[i].v ) << " is " << K.index( s ) << " instead of " << i );
      SIM_REQUIRE( K[i].dimension() + 1 == m[i].v.size(), c, "dimension of " << text( m[i].v ) );
      queries( K[i], m[i], c );
    }
    SIM_REQUIRE( all.size() == m.size(), c, "a simplex occurs twice: " << text( m ) );
    bool thrown = false;
    try { K.at( m.size() ); } catch( const std::exception& ) { thrown = true; }
    SIM_REQUIRE( thrown, c, "no exception for an index that is too large" );

    // lexicographical view
    Model lex;
    for( auto it = K.begin_lexicographical(); it != K.end_lexicographical(); ++it )
    {
      lex.push_back( cell( *it ) );
      SIM_REQUIRE( lex.size() <= m.size(), c, "lexicographical view is longer than the complex" );
    }
    Model sorted = m;
    std::sort( sorted.begin(), sorted.end(), []( const Cell& a, const Cell& b ) { return a.v < b.v; } );
    SIM_REQUIRE( lex == sorted, c, "lexicographical view is " << text( lex ) << "instead of " << text( sorted ) );

    // dimension view
    Model dim;
    std::size_t last = 0;
    for( auto it = K.begin_dimension(); it != K.end_dimension(); ++it )
    {
      dim.push_back( cell( *it ) );
      SIM_REQUIRE( dim.size() <= m.size(), c, "dimension view is longer than the complex" );
      SIM_REQUIRE( it->dimension() >= last, c, "dimension view is not sorted: " << text( dim ) );
      last = it->dimension();
    }
    std::sort( dim.begin(), dim.end(), []( const Cell& a, const Cell& b ) { return a.v < b.v; } );
    SIM_REQUIRE( dim == sorted, c, "dimension view holds " << text( dim ) << "instead of " << text( sorted ) );
    if( m.empty() )
    {
      thrown = false;
      try { K.dimension(); } catch( const std::exception& ) { thrown = true; }
      SIM_REQUIRE( thrown, c, "the empty complex has a dimension" );
    }
    else
      SIM_REQUIRE( K.dimension() == last, c, "dimension is " << K.dimension() );
    for( std::size_t d = 0; d < 6; d++ )
    {
      auto r = K.range( d );
      std::size_t have = 0, want = 0;
      for( auto it = r.first; it != r.second; ++it )
      {
        SIM_REQUIRE( it->dimension() == d, c, "range of dimension " << d << " holds " << text( cell( *it ).v ) );
        have++;
      }
      for( auto&& x : m ) want += x.v.size() == d + 1;
      SIM_REQUIRE( have == want, c, "range of dimension " << d << " holds " << have << " simplices instead of " << want );
    }
    std::vector<Vertex> have, want;
    K.vertices( std::back_inserter( have ) );
    for( Vertex x = 0; x < Vertex( 64 ); x++ ) if( all.count( { x } ) ) want.push_back( x );
    SIM_REQUIRE( have == want, c, "vertices are " << text( have ) << " instead of " << text( want ) );

    for( unsigned i = 0; i < 3; i++ )
    {
      Vertices v;
      for( unsigned x = n; x-- > 0; ) if( ( i * 37 + m.size() * 11 + 5 ) >> x & 1 ) v.push_back( Vertex( x ) );
      Simplex s( v.begin(), v.end() );
      bool in = all.count( v ) != 0;
      SIM_REQUIRE( K.contains( s ) == in && ( K.find( s ) != K.end() ) == in, c, "membership of " << text( v ) );
      thrown = false;
      try { K.index( s ); } catch( const std::runtime_error& ) { thrown = true; }
      SIM_REQUIRE( thrown == !in, c, "index of " << text( v ) );
    }
  }

  // The complex after an operation that was cut short: the same simplices and
  // weights in any order.
  void permuted( const Complex& K, const Model& m, const char* what )
  {
    sim::Quiet q;
    auto have = state( K ), want = m;
    auto less = []( const Cell& a, const Cell& b ) { return a.v < b.v; };
    std::sort( have.begin(), have.end(), less );
    std::sort( want.begin(), want.end(), less );
    SIM_REQUIRE( have == want, std::string( "torn/" ) + what, "after a failure the complex holds " << text( have ) << "instead of " << text( want ) );
  }

  void resync( unsigned i, const char* what )
  {
    sim::Quiet q;
    models[i] = state( pool[i] );
    views( pool[i], models[i], what );
  }

  // -- models -----------------------------------------------------------

  static void push( Model& m, const Cell& c ) { if( find( m, c.v ) < 0 ) m.push_back( c ); }

  static Model closed( Model m )
  {
    for( std::size_t i = 0; i < m.size(); i++ )
      for( auto&& f : faces( m[i].v ) ) push( m, { f, m[i].w } );
    return m;
  }

  static Model reduced( Model m )
  {
    for( bool again = true; again; )
    {
      again = false;
      Model r;
      for( auto&& c : m )
      {
        bool ok = true;
        for( auto&& f : faces( c.v ) ) ok = ok && find( m, f ) >= 0;
        if( ok ) r.push_back( c );
        else again = true;
      }
      m = r;
    }
    return m;
  }

  static Model reweighted( Model m, bool maximum, bool skip )
  {
    std::size_t top = 0;
    for( auto&& c : m ) top = std::max( top, c.v.size() );
    for( std::size_t k = 2; k <= top; k++ )
    {
      if( skip && k == 2 ) continue;
      for( auto&& c : m )
        if( c.v.size() == k )
        {
          Data w = maximum ? std::numeric_limits<Data>::lowest() : std::numeric_limits<Data>::max();
          for( auto&& f : faces( c.v ) )
          {
            long i = find( m, f );
            if( i >= 0 ) w = maximum ? std::max( w, m[i].w ) : std::min( w, m[i].w );
          }
          c.w = w;
        }
    }
    return m;
  }

  // -- operations -------------------------------------------------------

  // Input iterator over simplices that throws when its fuse blows.
  struct Source
  {
    using iterator_category = std::input_iterator_tag;
    using value_type        = Simplex;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const Simplex*;
    using reference         = const Simplex&;

    const Simplex* p;
    Fuse* fuse;

    const Simplex& operator*() const { fuse->tick(); return *p; }
    Source& operator++() { ++p; return *this; }
    Source operator++(int) { Source s = *this; ++p; return s; }
    bool operator==( const Source& o ) const { return p == o.p; }
    bool operator!=( const Source& o ) const { return p != o.p; }
  };

  std::vector<Simplex> drawRange( const Model& m, Model& result, long& empty )
  {
    unsigned k = unsigned( sim::choose( 7 ) );
    std::vector<Simplex> s;
    empty = -1;
    for( unsigned i = 0; i < k; i++ )
    {
      Cell c = drawNear( m );
      if( faulty && sim::flip( 1, 24 ) ) c.v.clear();
      if( c.v.empty() && empty < 0 ) empty = i;
      if( empty < 0 ) push( result, c );
      s.push_back( scrambled( c ) );
    }
    return s;
  }

  void insertRange( unsigned i )
  {
    Model next = models[i];
    long empty;
    auto s = drawRange( models[i], next, empty );
    sim::story( "insert %zu simplices%s", s.size(), empty >= 0 ? " (one is empty)" : "" );
    auto f = drawFault( true );
    bool source = f.fuse.left >= 0 || sim::flip( 1, 2 );
    auto e = act( f, [&]
    {
      if( source ) pool[i].insert( Source{ s.data(), &f.fuse }, Source{ s.data() + s.size(), &f.fuse } );
      else         pool[i].insert( s.begin(), s.end() );
    } );
    if( e == End::Done )
    {
      SIM_REQUIRE( empty < 0, "report/insert", "the empty simplex was taken without complaint" );
      models[i] = next;
    }
    else
    {
      SIM_REQUIRE( e != End::Other || empty >= 0, "report/insert", "unexpected exception: " << f.message );
      sim::Quiet q;
      auto have = state( pool[i] );
      SIM_REQUIRE( have.size() >= models[i].size() && have.size() <= next.size()
                   && std::equal( have.begin(), have.end(), next.begin() ), "torn/insert",
                   "after a failure the complex holds " << text( have ) << "which is not a beginning of " << text( next ) );
      if( e == End::Other )
        SIM_REQUIRE( have == next, "torn/insert", "simplices in front of the empty simplex are missing: " << text( have ) << "instead of " << text( next ) );
      models[i] = have;
    }
    agree( pool[i], models[i], "insert" );
  }

  void construct( unsigned i )
  {
    Model next;
    long empty;
    auto s = drawRange( models[i], next, empty );
    unsigned how = unsigned( sim::choose( 3 ) );
    sim::story( "construct from %zu simplices, way %u", s.size(), how );
    if( how == 1 )
    {
      // lists have a fixed length
      while( s.size() < 2 ) { Cell c = drawCell(); push( next, c ); s.push_back( simplex( c ) ); }
      s.resize( 2 );
      next.clear();
      empty = -1;
      for( unsigned k = 0; k < 2; k++ )
      {
        if( s[k].empty() ) { empty = k; break; }
        push( next, cell( s[k] ) );
      }
    }
    auto f = drawFault( how == 2 );
    auto live = sim::heap::liveBlocks();
    auto e = act( f, [&]
    {
      if( how == 0 )      { Complex K( s.begin(), s.end() ); pool[i] = std::move( K ); }
      else if( how == 1 ) { Complex K( { s[0], s[1] } );     pool[i] = K; }
      else                { Complex K( Source{ s.data(), &f.fuse }, Source{ s.data() + s.size(), &f.fuse } ); pool[i] = std::move( K ); }
    } );
    if( e == End::Done )
    {
      SIM_REQUIRE( empty < 0, "report/construct", "the empty simplex was taken without complaint" );
      models[i] = next;
    }
    else
    {
      SIM_REQUIRE( e != End::Other || empty >= 0, "report/construct", "unexpected exception: " << f.message );
      sim::Quiet q;
      f.message = std::string();
      f.message.shrink_to_fit();
      SIM_REQUIRE( sim::heap::liveBlocks() == live, "leak/construct", sim::heap::liveBlocks() - live << " blocks are left after a failed construction" );
    }
    agree( pool[i], models[i], "construct" );
  }

  void pushBack( unsigned i )
  {
    Cell c = drawNear( models[i] );
    if( faulty && sim::flip( 1, 16 ) ) c.v.clear();
    bool own = !models[i].empty() && sim::flip( 1, 8 );
    std::size_t k = own ? sim::choose( models[i].size() ) : 0;
    Simplex s = scrambled( c );
    sim::story( "push_back %s", own ? "an element of the complex" : text( c.v ).c_str() );
    auto f = drawFault( false );
    auto e = act( f, [&] { pool[i].push_back( own ? pool[i][k] : s ); } );
    if( e == End::Done )
    {
      SIM_REQUIRE( own || !c.v.empty(), "report/push", "the empty simplex was taken without complaint" );
      if( !own ) push( models[i], c );
    }
    else
      SIM_REQUIRE( e != End::Other || ( !own && c.v.empty() ), "report/push", "unexpected exception: " << f.message );
    agree( pool[i], models[i], "push" );
  }

  void remove( unsigned i )
  {
    auto&& m = models[i];
    Cell c = drawNear( m );
    bool own = !m.empty() && sim::flip( 1, 3 );
    if( own ) c = m[ sim::choose( m.size() ) ];
    c.w = own ? c.w : weight();
    Simplex s = simplex( c );
    sim::story( "remove %s%s", text( c.v ).c_str(), own ? " by its own reference" : "" );
    Model most, least;          // bounds for what may be left
    for( auto&& x : m ) if( !includes( x.v, c.v ) ) most.push_back( x );
    bool present = find( m, c.v ) >= 0;
    {
      Model r;
      for( auto&& x : m ) if( x.v != c.v ) r.push_back( x );
      least = reduced( r );
    }
    if( !present ) most = m;
    bool wasClosed = reduced( m ).size() == m.size();
    auto f = drawFault( false );
    auto e = act( f, [&] { pool[i].remove( own ? *pool[i].find( s ) : s ); } );
    SIM_REQUIRE( e == End::Done || e == End::Memory, "report/remove", "unexpected exception: " << f.message );
    {
      sim::Quiet q;
      auto have = state( pool[i] );
      auto within = [&]( const Model& small, const Model& big )
      {
        std::size_t k = 0;
        for( auto&& x : big ) if( k < small.size() && small[k] == x ) k++;
        return k == small.size();
      };
      if( e == End::Done )
      {
        if( wasClosed )
          SIM_REQUIRE( have == least, "wrong/remove", "removing " << text( c.v ) << " from " << text( m ) << "left " << text( have ) << "instead of " << text( least ) );
        SIM_REQUIRE( within( have, most ) && within( least, have ), "wrong/remove",
                     "removing " << text( c.v ) << " from " << text( m ) << "left " << text( have ) );
      }
      else
      {
        SIM_REQUIRE( within( have, m ) && within( least, have ), "torn/remove",
                     "after a failed removal of " << text( c.v ) << " from " << text( m ) << "there is " << text( have ) );
        views( pool[i], have, "remove" );
      }
    }
    if( e == End::Memory )
    {
      // trying again completes the removal
      pool[i].remove( s );
      sim::Quiet q;
      if( wasClosed )
        SIM_REQUIRE( state( pool[i] ) == least, "retry/remove", "repeating the removal of " << text( c.v ) << " left " << text( state( pool[i] ) ) << "instead of " << text( least ) );
    }
    resync( i, "remove" );
  }

  void removeOnly( unsigned i )
  {
    auto&& m = models[i];
    Cell c = drawNear( m );
    Simplex s = simplex( c );
    sim::story( "remove_without_validation %s", text( c.v ).c_str() );
    auto f = drawFault( false );
    auto e = act( f, [&] { pool[i].remove_without_validation( s ); } );
    SIM_REQUIRE( e == End::Done || e == End::Memory, "report/remove", "unexpected exception: " << f.message );
    if( e == End::Done )
    {
      long k = find( m, c.v );
      if( k >= 0 ) m.erase( m.begin() + k );
    }
    agree( pool[i], m, "remove-only" );
  }

  void close( unsigned i )
  {
    sim::story( "createMissingFaces" );
    auto next = closed( models[i] );
    auto f = drawFault( false );
    auto e = act( f, [&] { pool[i].createMissingFaces(); } );
    SIM_REQUIRE( e == End::Done || e == End::Memory, "report/close", "unexpected exception: " << f.message );
    if( e == End::Done ) models[i] = next;
    else
    {
      sim::Quiet q;
      auto have = state( pool[i] );
      SIM_REQUIRE( have.size() >= models[i].size() && have.size() <= next.size() && std::equal( have.begin(), have.end(), next.begin() ),
                   "torn/close", "after a failure the complex holds " << text( have ) << "which is not a beginning of " << text( next ) );
      models[i] = have;
    }
    agree( pool[i], models[i], "close" );
  }

  template <class Compare> struct Fused
  {
    Compare c;
    Fuse* fuse;
    bool operator()( const Simplex& a, const Simplex& b ) { fuse->tick(); return c( a, b ); }
  };

  template <class Compare, class Less> void sortBy( unsigned i, Compare c, Less less )
  {
    Model next = models[i];
    std::stable_sort( next.begin(), next.end(), less );
    auto f = drawFault( true );
    bool wrapped = f.fuse.left >= 0;
    auto e = act( f, [&]
    {
      if( wrapped ) pool[i].sort( Fused<Compare>{ c, &f.fuse } );
      else          pool[i].sort( c );
    } );
    SIM_REQUIRE( e != End::Other, "report/sort", "unexpected exception: " << f.message );
    if( e == End::Done )
    {
      models[i] = next;
      agree( pool[i], next, "sort" );
    }
    else
    {
      permuted( pool[i], models[i], "sort" );
      resync( i, "sort" );
    }
  }

  void sort( unsigned i )
  {
    using namespace aleph::topology::filtrations;
    unsigned how = unsigned( sim::choose( 6 ) );
    sim::story( "sort, order %u", how );
    std::vector<Data> values;
    if( how == 3 || how == 4 ) for( unsigned k = 0; k < n; k++ ) values.push_back( weight() );
    auto by = []( const Cell& a, const Cell& b, bool first, bool equal )
    {
      return first || ( equal && ( a.v.size() != b.v.size() ? a.v.size() < b.v.size() : a.v < b.v ) );
    };
    if( how == 0 )
    {
      Model next = models[i];
      std::sort( next.begin(), next.end(), []( const Cell& a, const Cell& b ) { return a.v < b.v; } );
      auto f = drawFault( false );
      auto e = act( f, [&] { pool[i].sort(); } );
      if( e == End::Done ) { models[i] = next; agree( pool[i], next, "sort" ); }
      else                 { permuted( pool[i], models[i], "sort" ); resync( i, "sort" ); }
    }
    else if( how == 1 )
      sortBy( i, aleph::topology::filtrations::Data<Simplex>(), [&]( const Cell& a, const Cell& b ) { return by( a, b, a.w < b.w, a.w == b.w ); } );
    else if( how == 2 )
      sortBy( i, aleph::topology::filtrations::Data<Simplex, std::greater<Data> >(), [&]( const Cell& a, const Cell& b ) { return by( a, b, a.w > b.w, a.w == b.w ); } );
    else if( how == 5 )
      // equal elements keep their order
      sortBy( i, []( const Simplex& a, const Simplex& b ) { return a.data() < b.data(); }, []( const Cell& a, const Cell& b ) { return a.w < b.w; } );
    else
    {
      auto extreme = [&]( const Cell& c )
      {
        Data x = values[ c.v[0] ];
        for( auto&& v : c.v ) x = how == 3 ? std::max( x, values[v] ) : std::min( x, values[v] );
        return x;
      };
      auto less = [&]( const Cell& a, const Cell& b )
      {
        auto x = extreme( a ), y = extreme( b );
        if( x == y ) return a.v < b.v;
        return how == 3 ? x < y : x > y;
      };
      if( how == 3 ) sortBy( i, LowerStar<Simplex>( values.begin(), values.end() ), less );
      else           sortBy( i, UpperStar<Simplex>( values.begin(), values.end() ), less );
    }
  }

  void rearrange( unsigned i )
  {
    std::vector<std::size_t> order( models[i].size() );
    for( std::size_t k = 0; k < order.size(); k++ ) order[k] = k;
    sim::shuffle( order );
    sim::story( "rearrange" );
    std::vector< std::reference_wrapper<const Simplex> > view;
    Model next;
    for( auto&& k : order )
    {
      view.push_back( std::cref( pool[i][k] ) );
      next.push_back( models[i][k] );
    }
    auto f = drawFault( false );
    auto e = act( f, [&] { pool[i].rearrange( view.begin() ); } );
    SIM_REQUIRE( e == End::Done || e == End::Memory, "report/rearrange", "unexpected exception: " << f.message );
    if( e == End::Done ) { models[i] = next; agree( pool[i], next, "rearrange" ); }
    else                 { permuted( pool[i], models[i], "rearrange" ); resync( i, "rearrange" ); }
  }

  void replace( unsigned i )
  {
    auto&& m = models[i];
    if( m.empty() ) return;
    auto k = sim::choose( m.size() );
    Cell c = sim::flip( 1, 2 ) ? drawCell() : Cell{ m[k].v, weight() };
    // A lone element has no neighbours to compare with, so that nothing asks for
    // the dimension of its replacement.
    if( faulty && m.size() > 1 && sim::flip( 1, 16 ) ) c.v.clear();
    Simplex s = scrambled( c );
    sim::story( "replace element %zu %s by %s", std::size_t( k ), text( m[k].v ).c_str(), text( c.v ).c_str() );
    long at = find( m, c.v );
    bool possible = at < 0 || at == long( k );
    bool result = false;
    auto f = drawFault( false );
    auto it = pool[i].begin() + long( k );
    auto e = act( f, [&] { result = pool[i].replace( it, s ); } );
    if( e == End::Done )
    {
      SIM_REQUIRE( !c.v.empty(), "report/replace", "the empty simplex was taken without complaint" );
      SIM_REQUIRE( result == possible, "wrong/replace", "replacing reports " << result );
      if( possible ) m[k] = c;
    }
    else
      SIM_REQUIRE( e != End::Other || c.v.empty(), "report/replace", "unexpected exception: " << f.message );
    agree( pool[i], m, "replace" );
  }

  void reweigh( unsigned i )
  {
    auto&& m = models[i];
    bool range = sim::flip( 1, 2 );
    bool maximum = !sim::flip( 1, 3 ), skip = sim::flip( 1, 3 );
    std::vector<Data> values;
    bool complete = true;
    Model next = m;
    if( range )
    {
      unsigned k = sim::flip( 1, 8 ) ? unsigned( sim::choose( n ) ) : n;
      for( unsigned x = 0; x < k; x++ ) values.push_back( weight() );
      for( auto&& c : next )
        if( c.v.size() == 1 )
        {
          if( c.v[0] < values.size() ) c.w = values[ c.v[0] ];
          else complete = false;
        }
      maximum = true;
      skip = false;
    }
    if( complete ) next = reweighted( next, maximum, skip );
    sim::story( "recalculateWeights %s", range ? complete ? "with vertex weights" : "with too few vertex weights" : "" );
    auto f = drawFault( false );
    auto e = act( f, [&]
    {
      if( range ) pool[i].recalculateWeights( values.begin(), values.end() );
      else        pool[i].recalculateWeights( maximum, skip );
    } );
    if( e == End::Done )
    {
      SIM_REQUIRE( complete, "report/weights", "missing vertex weights were not reported" );
      m = next;
      agree( pool[i], m, "weights" );
    }
    else
    {
      SIM_REQUIRE( e != End::Other || !complete, "report/weights", "unexpected exception: " << f.message );
      {
        sim::Quiet q;
        auto have = state( pool[i] );
        bool same = have.size() == m.size();
        for( std::size_t k = 0; same && k < m.size(); k++ ) same = have[k].v == m[k].v;
        SIM_REQUIRE( same, "torn/weights", "after a failure the complex holds " << text( have ) << "instead of " << text( m ) );
      }
      resync( i, "weights" );
      if( e == End::Memory && complete )
      {
        // trying again completes the calculation
        if( range ) pool[i].recalculateWeights( values.begin(), values.end() );
        else        pool[i].recalculateWeights( maximum, skip );
        if( range ) m = next;
        else        m = reweighted( m, maximum, skip );
        agree( pool[i], m, "weights" );
      }
    }
  }

  void transfer( unsigned i )
  {
    unsigned j = unsigned( sim::choose( pool.size() ) );
    unsigned how = unsigned( sim::choose( 6 ) );
    static const char* const names[] = { "clear", "copy construct", "copy assign", "move assign", "swap", "copy and drop" };
    sim::story( "%s complex %u from %u", names[how], i, j );
    auto f = drawFault( false );
    auto e = act( f, [&]
    {
      if( how == 0 ) pool[i].clear();
      else if( how == 1 ) { Complex K( pool[j] ); std::swap( pool[i], K ); }
      else if( how == 2 ) pool[i] = pool[j];
      else if( how == 3 ) { Complex K( pool[j] ); pool[i] = std::move( K ); }
      else if( how == 4 ) std::swap( pool[i], pool[j] );
      else { Complex K( pool[j] ); K.clear(); K = pool[i]; }
    } );
    SIM_REQUIRE( e == End::Done || e == End::Memory, "report/transfer", "unexpected exception: " << f.message );
    if( e == End::Done )
    {
      if( how == 0 ) models[i].clear();
      else if( how == 1 || how == 2 || how == 3 ) models[i] = Model( models[j] );
      else if( how == 4 ) std::swap( models[i], models[j] );
    }
    else if( how == 4 )
    {
      // a swap that is made of several steps
      resync( i, "transfer" );
      resync( j, "transfer" );
    }
    agree( pool[i], models[i], "transfer" );
    agree( pool[j], models[j], "transfer" );
  }

  void query( unsigned i )
  {
    auto&& m = models[i];
    unsigned how = unsigned( sim::choose( 6 ) );
    unsigned j = unsigned( sim::choose( pool.size() ) );
    sim::story( "query %u", how );
    Cell c = drawNear( m );
    Simplex s = simplex( c );
    std::size_t lo = sim::choose( 3 ), hi = lo + sim::choose( 3 );
    auto f = drawFault( how == 3 );
    std::vector<Vertex> vertices;
    std::size_t number = 0;
    bool yes = false;
    std::string written;
    const Complex& K = pool[i];
    auto e = act( f, [&]
    {
      if( how == 0 )      yes = K.contains( s );
      else if( how == 1 ) number = K.index( s );
      else if( how == 2 ) K.vertices( std::back_inserter( vertices ) );
      else if( how == 3 )
      {
        auto r = K.range( [&]( std::size_t d ) { f.fuse.tick(); return d >= lo; }, [&]( std::size_t d ) { f.fuse.tick(); return d <= hi; } );
        for( auto it = r.first; it != r.second; ++it ) number++;
      }
      else if( how == 4 ) yes = K == pool[j];
      else
      {
        std::ostringstream o;
        o << K;
        written = o.str();
      }
    } );
    if( e == End::Done )
    {
      sim::Quiet q;
      long at = find( m, c.v );
      if( how == 0 ) SIM_REQUIRE( yes == ( at >= 0 ), "wrong/contains", text( c.v ) << " in " << text( m ) );
      if( how == 1 ) SIM_REQUIRE( at >= 0 && number == std::size_t( at ), "wrong/index", "index of " << text( c.v ) << " is " << number );
      if( how == 2 )
      {
        std::set<Vertex> v;
        for( auto&& x : m ) if( x.v.size() == 1 ) v.insert( x.v[0] );
        SIM_REQUIRE( vertices == std::vector<Vertex>( v.begin(), v.end() ), "wrong/vertices", text( vertices ) << " for " << text( m ) );
      }
      if( how == 3 )
      {
        std::size_t want = 0;
        for( auto&& x : m ) want += x.v.size() >= lo + 1 && x.v.size() <= hi + 1;
        SIM_REQUIRE( number == want, "wrong/range", "dimensions " << lo << " to " << hi << ": " << number << " instead of " << want );
      }
      if( how == 4 )
      {
        bool same = m.size() == models[j].size();
        for( std::size_t k = 0; same && k < m.size(); k++ ) same = m[k].v == models[j][k].v;
        SIM_REQUIRE( yes == same && ( K != pool[j] ) == !same, "wrong/equality", text( m ) << "and " << text( models[j] ) << "are " << ( yes ? "equal" : "different" ) );
      }
      if( how == 5 && !f.fired )
      {
        std::size_t lines = std::size_t( std::count( written.begin(), written.end(), '\n' ) );
        SIM_REQUIRE( lines == ( m.empty() ? 0 : m.size() + 2 ), "wrong/output", written );
      }
    }
    else if( e == End::Other )
      SIM_REQUIRE( how == 1 && find( m, c.v ) < 0, "report/query", "unexpected exception: " << f.message );
    agree( pool[i], m, "query" );
  }

  void run()
  {
    faulty = sim::flip( 2, 3 ) || sim::property() == "A17";
    n = 3 + unsigned( sim::choose( 5 ) );
    unsigned size = 1 + unsigned( sim::choose( 3 ) );
    pool.resize( size );
    models.resize( size );
    unsigned steps = 4 + unsigned( sim::choose( 24 ) );
    sim::nontrivial();
    std::uint64_t shape = 0;
    for( unsigned step = 0; step < steps; step++ )
    {
      unsigned i = unsigned( sim::choose( size ) );
      unsigned op = unsigned( sim::choose( 18 ) );
      shape = sim::mix( shape, op * 4 + i );
      switch( op )
      {
      case 0: case 1: pushBack( i ); break;
      case 2: case 3: insertRange( i ); break;
      case 4: case 5: close( i ); break;
      case 6: case 7: remove( i ); break;
      case 8: removeOnly( i ); break;
      case 9: case 10: sort( i ); break;
      case 11: rearrange( i ); break;
      case 12: replace( i ); break;
      case 13: case 14: reweigh( i ); break;
      case 15: construct( i ); break;
      case 16: transfer( i ); break;
      default: query( i ); break;
      }
      sim::Quiet q;
      for( unsigned k = 0; k < size; k++ )
        SIM_REQUIRE( state( pool[k] ) == models[k], "history/other", "complex " << k << " changed although it was not touched" );
    }
    sim::signature( shape );
    sim::Quiet q;
    for( auto&& m : models ) sim::observe( text( m ) );
  }
};

template <class Simplex> void history()
{
  auto live = sim::heap::liveBlocks();
  {
    History<Simplex> h;
    h.run();
  }
  SIM_REQUIRE( sim::heap::liveBlocks() == live, "leak/history", sim::heap::liveBlocks() - live << " blocks are left after the complexes are gone" );
}

sim::Register r1( "C06", "histories, real weights", &history< aleph::topology::Simplex<double, unsigned> >, 2 );
sim::Register r2( "C06", "histories, integer weights", &history< aleph::topology::Simplex<short, unsigned short> >, 1 );
sim::Register r3( "A17", "histories of complexes", &history< aleph::topology::Simplex<double, unsigned> >, 2 );

} // namespace
