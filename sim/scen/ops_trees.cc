// Cover trees, shortest paths, matrices, functions given by values.

#include "ops.hh"

#include <aleph/geometry/CoverTree.hh>

#include <aleph/math/SparseMatrix.hh>
#include <aleph/math/SymmetricMatrix.hh>

#include <aleph/topology/FloydWarshall.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

#include <aleph/topology/io/Function.hh>

#include <iostream>
#include <limits>
#include <sstream>
#include <streambuf>

namespace
{

using namespace ops;

// The tree reports every step.
struct Nowhere : std::streambuf
{
  int overflow( int c ) override { return traits_type::not_eof( c ); }
  std::streamsize xsputn( const char*, std::streamsize n ) override { return n; }
};

Nowhere nowhere;

// Distances of the tree are scaled after it was built: all other code uses 1.
double factor = 1;

struct Scaled
{
  Scaled( double f ) { factor = f; }
  ~Scaled() { factor = 1; }
};

// Coordinates are multiples of 1/2, so that distances are exact.
struct Flat
{
  double x = 0, y = 0;
  Flat( double x_ = 0, double y_ = 0 ) : x( x_ ), y( y_ ) {}
  double first() const { return x; }
  double second() const { return y; }
};

// A point that needs memory of its own.
struct Heavy
{
  std::vector<double> c;
  Heavy( double x = 0, double y = 0 ) : c{ x, y } {}
  double first() const { return c[0]; }
  double second() const { return c[1]; }
};

template <class P> std::string name( const P& p ) { return number( p.first() ) + "," + number( p.second() ); }

template <class P> auto operator<<( std::ostream& o, const P& p ) -> decltype( p.first(), p.second(), o )
{
  char b[96];
  std::snprintf( b, sizeof( b ), "%.17g,%.17g", p.first(), p.second() );
  return o << b;
}

bool operator<( const Flat& a, const Flat& b )    { return std::make_pair( a.x, a.y ) < std::make_pair( b.x, b.y ); }
bool operator<( const Heavy& a, const Heavy& b )  { return a.c < b.c; }
bool operator==( const Flat& a, const Flat& b )   { return a.x == b.x && a.y == b.y; }
bool operator==( const Heavy& a, const Heavy& b ) { return a.c == b.c; }

struct Taxi
{
  template <class P> double operator()( const P& a, const P& b ) const
  {
    return factor * ( std::abs( a.first() - b.first() ) + std::abs( a.second() - b.second() ) );
  }
};

struct Largest
{
  template <class P> double operator()( const P& a, const P& b ) const
  {
    return factor * std::max( std::abs( a.first() - b.first() ), std::abs( a.second() - b.second() ) );
  }
};

template <class P, class M> struct CoverTree : Op
{
  using Tree = aleph::geometry::CoverTree<P, M>;

  std::vector<P> points;
  std::map<std::string, P> known;
  bool shared;
  Tree tree;

  CoverTree()
  {
    std::cerr.rdbuf( &nowhere );
    unsigned n = sim::flip( 1, 12 ) ? 0 : 1 + unsigned( sim::choose( sim::flip( 1, 6 ) ? 30 : 10 ) );
    unsigned spread = sim::pick<unsigned>( { 2, 5, 12, 64 } );
    unsigned scales = 1 + unsigned( sim::choose( 6 ) );
    bool line = sim::flip( 1, 3 );
    for( unsigned i = 0; i < n; i++ )
    {
      double s = 0.5 * double( 1u << sim::choose( scales ) );
      double x = s * double( sim::choose( spread ) ), y = line ? 0 : s * double( sim::choose( spread ) );
      points.push_back( P( x, y ) );
      known[ name( points.back() ) ] = points.back();
    }
    shared = sim::flip( 1, 3 );
    if( shared ) for( auto&& p : points ) tree.insert( p );
    sim::story( "shared %d points %s", shared, input().c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( auto&& p : points ) s += name( p ) + " ";
    return s;
  }

  // Level by level, in the order of the tree.
  static std::string rows( const Tree& t )
  {
    std::ostringstream o;
    o.exceptions( std::ios::badbit );
    const_cast<Tree&>( t ).print( o );   // not declared as a query
    return o.str();
  }

  static std::string flags( const Tree& t )
  {
    std::string s;
    s += t.checkLevelInvariant()      ? "1" : "0";
    s += t.checkCoveringInvariant()   ? "1" : "0";
    s += t.checkSeparatingInvariant() ? "1" : "0";
    s += t.isValid()                  ? "1" : "0";
    return s;
  }

  static std::string query( const Tree& t, bool reverse )
  {
    std::string r, valid;
    if( reverse ) valid = flags( t );
    auto a = t.points();
    auto b = t.getNodesByLevel();
    auto c = t.nodesToLevel();
    if( !reverse ) valid = flags( t );
    auto level = t.level();
    r = rows( t );
    Calm q;
    r += "|" + std::to_string( level ) + "|";
    for( auto&& x : a ) r += name( x ) + " ";
    r += "|";
    std::multiset<std::string> byLevel;
    for( auto&& x : b ) byLevel.insert( std::to_string( x.first ) + "@" + name( x.second ) );
    for( auto&& x : byLevel ) r += x + " ";
    r += "|";
    for( auto&& x : c ) r += std::to_string( x.second ) + "@" + name( x.first ) + " ";
    return r + "|" + valid;
  }

  std::string run( unsigned variant ) const override
  {
    if( shared ) return query( tree, variant & 1 );
    Tree t;
    try
    {
      if( variant & 1 ) t.insert( points.begin(), points.end() );
      else for( auto&& p : points ) t.insert( p );
    }
    catch( ... )
    {
      // What had been inserted before is still there.
      Calm q;
      auto have = t.points();
      bool found = false;
      for( std::size_t k = 0; k <= points.size() && !found; k++ )
        found = have.size() == k && std::is_permutation( have.begin(), have.end(), points.begin() );
      SIM_REQUIRE( found, cls( "lost" ), "after an insertion that failed, the tree holds " << have.size() << " points that are not those inserted before: " << rows( t ) );
      valid( query( t, false ), points.begin(), points.begin() + std::ptrdiff_t( have.size() ) );
      throw;
    }
    auto r = query( t, variant & 1 );
    #ifndef SIM_THREADS
      if( variant & 2 )
      {
        { Scaled s( std::ldexp( 1, 40 ) );  r += "|" + flags( t ); }
        { Scaled s( std::ldexp( 1, -90 ) ); r += "|" + flags( t ); }
      }
    #endif
    return r;
  }

  static std::vector<std::string> split( const std::string& s, char by )
  {
    std::vector<std::string> r( 1 );
    for( auto&& c : s )
      if( c == by ) r.push_back( "" );
      else r.back() += c;
    return r;
  }
  static std::multiset<std::string> bag( const std::string& s )
  {
    std::istringstream in( s );
    std::multiset<std::string> r;
    std::string w;
    while( in >> w ) r.insert( w );
    return r;
  }
  void need( bool ok, const char* what, const std::string& r ) const
  {
    if( !ok ) sim::violate( cls( "wrong" ), std::string( what ) + ": " + r.substr( 0, 1500 ) );
  }

  // Can the nodes of one level be divided, in their order, among those of the
  // level above such that the invariants hold?
  bool divisible( const std::vector<P>& above, const std::vector<P>& below, long level ) const
  {
    M metric;
    std::vector<bool> reach( below.size() + 1 );
    reach[0] = true;
    for( auto&& p : above )
    {
      auto next = reach;   // no children
      for( std::size_t i = 0; i < below.size(); i++ )
      {
        if( !reach[i] ) continue;
        for( std::size_t j = i; j < below.size(); j++ )
        {
          bool ok = metric( p, below[j] ) <= std::ldexp( 1, int( level ) );
          for( std::size_t k = i; k < j; k++ ) ok = ok && metric( below[k], below[j] ) > std::ldexp( 1, int( level - 1 ) );
          if( !ok ) break;
          next[ j + 1 ] = true;
        }
      }
      reach = next;
    }
    return reach[ below.size() ];
  }

  // Returns whether some node must have several children, and whether none can.
  template <class I> std::pair<bool, bool> valid( const std::string& r, I first, I last ) const
  {
    auto part = split( r, '|' );
    need( part.size() >= 6, "incomplete", r );
    std::multiset<std::string> want, found, levels;
    for( auto it = first; it != last; ++it ) want.insert( name( *it ) );
    std::vector<P> above;
    long level = 0;
    bool several = false, single = true;
    auto lines = split( part[0], '\n' );
    need( lines.back().empty(), "incomplete line", r );
    lines.pop_back();
    need( lines.empty() == want.empty(), "rows of the tree", r );
    std::string order = part[2];
    auto sequence = split( order, ' ' );
    std::size_t at = 0;
    for( std::size_t i = 0; i < lines.size(); i++ )
    {
      auto colon = lines[i].find( ':' );
      need( colon != std::string::npos, "row without a level", r );
      long l = std::stol( lines[i] );
      need( i == 0 || l == level - 1, "levels do not follow each other", r );
      std::vector<P> below;
      auto tokens = bag( lines[i].substr( colon + 1 ) );
      std::istringstream in( lines[i].substr( colon + 1 ) );
      std::string w;
      while( in >> w )
      {
        need( known.count( w ), "unknown point", r );
        below.push_back( known.at( w ) );
        found.insert( w );
        levels.insert( std::to_string( l ) + "@" + w );
      }
      std::multiset<std::string> listed;
      for( std::size_t k = 0; k < below.size() && at < sequence.size(); k++ ) listed.insert( sequence[ at++ ] );
      need( listed == tokens, "points are not listed level by level", r );
      if( i == 0 ) need( below.size() == 1 && part[1] == std::to_string( l ), "the root", r );
      else
      {
        need( divisible( above, below, level ), "not a cover tree", r );
        several = several || below.size() > above.size();
      }
      single = single && below.size() == 1;
      above = below;
      level = l;
    }
    if( lines.empty() ) need( part[1] == "0", "level of the empty tree", r );
    need( found == want, "points of the tree", r );
    need( bag( part[2] ) == want, "list of points", r );
    need( bag( part[3] ) == levels, "points by level", r );
    auto to = bag( part[4] );
    std::set<std::string> names;
    for( auto&& x : to )
    {
      need( levels.count( x ), "level of a point", r );
      names.insert( x.substr( x.find( '@' ) + 1 ) );
    }
    need( names.size() == to.size() && names == std::set<std::string>( want.begin(), want.end() ), "levels of points", r );
    need( part[5].substr( 0, 4 ) == "1111", "a valid tree is said to be invalid", r );
    return { several, single };
  }

  void judge( const std::string& r, unsigned ) const override
  {
    auto shape = valid( r, points.begin(), points.end() );
    auto part = split( r, '|' );
    if( part.size() != 8 ) return;
    // With larger distances, children are too far away; with smaller ones,
    // siblings are too close.
    need( part[6] == ( known.size() > 1 ? "1010" : "1111" ), "validity with larger distances", r );
    if( shape.first )  need( part[7] == "1100", "validity with smaller distances", r );
    if( shape.second ) need( part[7] == "1111", "validity with smaller distances", r );
  }
};

// All paths of a graph; types without an infinity use their largest value.
template <class T> struct Paths : Op
{
  using Simplex = aleph::topology::Simplex<T, unsigned>;
  using Complex = aleph::topology::SimplicialComplex<Simplex>;

  std::vector<Cell> list;
  std::vector<unsigned> vertices;
  double w;
  Complex K;

  Paths()
  {
    auto l = labels();
    unsigned n = unsigned( sim::choose( 10 ) ), density = 1 + unsigned( sim::choose( 10 ) );
    for( unsigned i = 0; i < n; i++ ) vertices.push_back( l( i ) );
    sim::shuffle( vertices );
    for( auto&& v : vertices ) list.push_back( { { v }, double( sim::choose( 3 ) ) } );
    std::vector<Cell> edges;
    for( unsigned i = 0; i < n; i++ )
      for( unsigned j = i + 1; j < n; j++ )
        if( sim::choose( 12 ) < density ) edges.push_back( { { l( i ), l( j ) }, double( sim::choose( 20 ) ) } );
    sim::shuffle( edges );
    list.insert( list.end(), edges.begin(), edges.end() );
    if( n > 2 && edges.size() == n * ( n - 1 ) / 2 ) list.push_back( { { l( 0 ), l( 1 ), l( 2 ) }, 1 } );
    w = double( sim::choose( 3 ) );
    K = build<Complex>( list );
    sim::story( "default %g graph %s", w, input().c_str() );
  }
  std::string input() const override { return ops::text( cells( K ) ); }
  std::string run( unsigned variant ) const override
  {
    auto M = w == 0 && ( variant & 1 ) ? aleph::topology::floydWarshall( K ) : aleph::topology::floydWarshall( K, T( w ) );
    Calm q;
    std::string r;
    for( unsigned i = 0; i < vertices.size(); i++ )
    {
      for( unsigned j = 0; j < vertices.size(); j++ ) r += number( double( M( i, j ) ) ) + " ";
      r += ";";
    }
    return r;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    double infinity = std::numeric_limits<T>::has_infinity ? double( std::numeric_limits<T>::infinity() ) : double( std::numeric_limits<T>::max() );
    std::string s;
    for( auto&& from : vertices )
    {
      std::map<unsigned, double> d;
      d[from] = 0;
      for( bool changed = true; changed; )
      {
        changed = false;
        for( auto&& c : list )
        {
          if( c.v.size() != 2 ) continue;
          for( unsigned k = 0; k < 2; k++ )
          {
            auto a = c.v[k], b = c.v[ 1 - k ];
            if( !d.count( a ) ) continue;
            auto x = d[a] + ( c.w != 0 ? c.w : w );
            if( !d.count( b ) || x < d[b] ) { d[b] = x; changed = true; }
          }
        }
      }
      for( auto&& to : vertices ) s += number( d.count( to ) ? d[to] : infinity ) + " ";
      s += ";";
    }
    require( r, s );
  }
};

// A history of two matrices.
template <class I> struct Matrices : Op
{
  using Matrix = aleph::math::SymmetricMatrix<double, I>;

  struct Step { unsigned what, target, i, j; double x; };
  std::vector<Step> steps;

  Matrices()
  {
    for( unsigned n = 1 + unsigned( sim::choose( 14 ) ); n > 0; n-- )
      steps.push_back( { unsigned( sim::choose( 8 ) ), unsigned( sim::choose( 2 ) ), unsigned( sim::choose( 7 ) ), unsigned( sim::choose( 7 ) ), 0.5 * double( sim::choose( 50 ) ) } );
    sim::story( "steps %s", input().c_str() );
  }
  std::string input() const override
  {
    std::string s;
    for( auto&& x : steps ) s += std::to_string( x.what ) + " " + std::to_string( x.target ) + " " + std::to_string( x.i ) + " " + std::to_string( x.j ) + " " + number( x.x ) + ";";
    return s;
  }

  struct Model
  {
    unsigned n = 0;
    std::map< std::pair<unsigned, unsigned>, double > m;
    double& at( unsigned i, unsigned j ) { return m[ { std::min( i, j ), std::max( i, j ) } ]; }
    std::string text()
    {
      std::string s = std::to_string( n ) + "/" + std::to_string( n * ( n + 1 ) / 2 ) + ( n == 0 ? "e" : "" );
      for( unsigned i = 0; i < n; i++ )
        for( unsigned j = 0; j < n; j++ ) s += " " + number( at( i, j ) );
      return s + "\n";
    }
  };

  static std::string text( const Matrix& M )
  {
    std::string s = std::to_string( M.numRows() ) + "/" + std::to_string( M.size() ) + ( M.empty() ? "e" : "" );
    for( I i = 0; i < M.numRows(); i++ )
      for( I j = 0; j < M.numRows(); j++ ) s += " " + number( M( i, j ) );
    return s + "\n";
  }

  std::string run( unsigned ) const override
  {
    std::string r;
    Matrix M[2];
    for( auto&& s : steps )
    {
      auto& a = M[ s.target ];
      auto& b = M[ 1 - s.target ];
      std::string before[2];
      { Calm q; before[0] = text( a ); before[1] = text( b ); }
      try
      {
        bool inside = s.i < a.numRows() && s.j < a.numRows();
        if( s.what == 0 ) a = Matrix( I( s.i ) );
        else if( s.what == 1 ) a = b;
        else if( s.what == 2 ) { Matrix c( a ); c.swap( b ); }
        else if( s.what == 3 ) a.swap( b );
        else if( s.what == 4 ) a = a;
        else if( inside ) a( I( s.i ), I( s.j ) ) = s.x;
        else
        {
          bool refused = false;
          try { a( I( s.i ), I( s.j ) ) = s.x; } catch( const std::out_of_range& ) { refused = true; }
          Calm q;
          if( !refused ) r += "accepted ";
        }
      }
      catch( const std::bad_alloc& )
      {
        Calm q;
        SIM_REQUIRE( text( a ) == before[0] && text( b ) == before[1], cls( "changed" ), "a step that failed changed a matrix" );
        std::string().swap( before[0] );
        std::string().swap( before[1] );
        throw;
      }
      Calm q;
      r += text( M[0] ) + text( M[1] );
    }
    return r;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::string want;
    Model M[2];
    for( auto&& s : steps )
    {
      auto& a = M[ s.target ];
      auto& b = M[ 1 - s.target ];
      bool inside = s.i < a.n && s.j < a.n;
      if( s.what == 0 ) { a = Model(); a.n = s.i; }
      else if( s.what == 1 ) a = b;
      else if( s.what == 2 ) b = a;
      else if( s.what == 3 ) std::swap( a, b );
      else if( s.what > 4 && inside ) a.at( s.i, s.j ) = s.x;
      want += M[0].text() + M[1].text();
    }
    require( r, want );
  }
};

// A history of a sparse matrix; calls with wrong arguments change nothing.
struct SparseHistory : Op
{
  using Matrix = aleph::math::SparseBinaryMatrix<unsigned>;

  struct Step { bool indices; unsigned row, column; std::vector<unsigned> list; };
  unsigned n;
  std::vector<Step> steps;

  SparseHistory()
  {
    n = unsigned( sim::choose( 6 ) );
    for( unsigned k = 1 + unsigned( sim::choose( 12 ) ); k > 0; k-- )
    {
      Step s{ sim::flip( 1, 4 ), unsigned( sim::choose( 9 ) ), unsigned( sim::choose( n + 1 ) ), {} };
      unsigned length = sim::flip( 2, 3 ) ? n : unsigned( sim::choose( 7 ) );
      for( unsigned i = 0; i < length; i++ ) s.list.push_back( unsigned( sim::choose( 40 ) ) );
      steps.push_back( s );
    }
    sim::story( "columns %u steps %s", n, input().c_str() );
  }
  std::string input() const override
  {
    std::string r;
    for( auto&& s : steps ) r += s.indices ? "indices " + join( s.list ) + ";" : std::to_string( s.row ) + "," + std::to_string( s.column ) + ";";
    return r;
  }
  std::string text( const Matrix& M ) const
  {
    std::string r;
    for( unsigned i = 0; i < n; i++ )
    {
      std::vector<unsigned> c;
      M.get( i, std::back_inserter( c ) );
      r += std::to_string( M.getIndex( i ) ) + ":" + join( c ) + "/" + std::to_string( M.numEntries( i ) );
      for( unsigned k = 0; k < 10; k++ ) r += M.get( k, i ) ? "+" : "-";
      r += " ";
    }
    return r + std::to_string( M.numColumns() ) + "\n";
  }
  std::string run( unsigned ) const override
  {
    Matrix M( n );
    std::string r, before;
    for( auto&& s : steps )
    {
      bool refused = false;
      { Calm q; before = text( M ); }
      try
      {
        if( s.indices ) M.setIndices( s.list.begin(), s.list.end() );
        else            M.set( s.row, s.column );
      }
      catch( const std::bad_alloc& )
      {
        Calm q;
        SIM_REQUIRE( text( M ) == before, cls( "changed" ), "a step that failed changed the matrix" );
        std::string().swap( before );
        throw;
      }
      catch( const std::logic_error& ) { refused = true; }
      Calm q;
      r += ( refused ? "refused " : "" ) + text( M );
    }
    return r;
  }
  void judge( const std::string& r, unsigned ) const override
  {
    std::vector< std::set<unsigned> > c( n );
    std::vector<unsigned> index;
    for( unsigned i = 0; i < n; i++ ) index.push_back( i );
    std::string want;
    for( auto&& s : steps )
    {
      bool refused = s.indices ? s.list.size() != n : s.column >= n;
      if( !refused && s.indices ) index = s.list;
      if( !refused && !s.indices ) c[ s.column ].insert( s.row );
      if( refused ) want += "refused ";
      for( unsigned i = 0; i < n; i++ )
      {
        want += std::to_string( index[i] ) + ":" + join( c[i] ) + "/" + std::to_string( c[i].size() );
        for( unsigned k = 0; k < 10; k++ ) want += c[i].count( k ) ? "+" : "-";
        want += " ";
      }
      want += std::to_string( n ) + "\n";
    }
    require( r, want );
  }
};

// The path that a sequence of values describes.
struct Values : Op
{
  using Simplex = aleph::topology::Simplex<double, unsigned>;
  using Complex = aleph::topology::SimplicialComplex<Simplex>;
  std::vector<double> v;

  Values()
  {
    for( unsigned n = unsigned( sim::choose( 9 ) ); n > 0; n-- ) v.push_back( 0.5 * double( sim::choose( 20 ) ) - 3 );
    sim::story( "values %s", join( v ).c_str() );
  }
  std::string input() const override { return join( v ); }
  std::string run( unsigned variant ) const override
  {
    auto lower = [] ( double a, double b ) { return std::max( a, b ); };
    auto upper = [] ( double a, double b ) { return std::min( a, b ); };
    auto K = variant & 1 ? aleph::topology::io::loadFunction<Complex>( v.begin(), v.end(), upper )
                         : aleph::topology::io::loadFunction<Complex>( v.begin(), v.end(), lower );
    Calm q;
    return ops::text( cells( K ) );
  }
  void judge( const std::string& r, unsigned variant ) const override
  {
    std::vector<Cell> want;
    for( unsigned i = 0; i < v.size(); i++ ) want.push_back( { { i }, v[i] } );
    for( unsigned i = 0; i + 1 < v.size(); i++ ) want.push_back( { { i, i + 1 }, variant & 1 ? std::min( v[i], v[i+1] ) : std::max( v[i], v[i+1] ) } );
    require( r, ops::text( want ) );
  }
};

Add< CoverTree<Flat, Taxi> >     a0( "V28", "cover tree", 3 );
Add< CoverTree<Flat, Largest> >  a1( "V28", "cover tree (maximum)", 2 );
Add< CoverTree<Heavy, Taxi> >    a2( "V28", "cover tree (allocating points)", 2 );

Add< Paths<double> >             b0( "V28", "shortest paths", 2 );
Add< Paths<float> >              b1( "V28", "shortest paths (float)", 1 );
Add< Paths<int> >                b2( "V28", "shortest paths (int)", 2 );
Add< Matrices<std::size_t> >     c0( "V28", "symmetric matrices", 1 );
Add< Matrices<unsigned char> >   c1( "V28", "symmetric matrices (small)", 1 );
Add< SparseHistory >             c2( "V28", "sparse matrices", 2 );
Add< Values >                    c3( "", "function values", 2 );

} // namespace
