// Operations: one library computation on drawn inputs together with a
// reference model.  The same operations are used for changing environments,
// failing allocations and concurrent callers.

#ifndef OPS_HH__
#define OPS_HH__

#include "../core/sim.hh"
#include "seam.hh"

#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace ops
{

struct Op
{
  const char* kind = "";

  virtual ~Op() {}

  // The computation; may be called by several threads at once.  Everything it
  // needs has been drawn before.  Variants are ways of asking for the same
  // thing, e.g. different orders of queries.
  virtual std::string run( unsigned variant ) const = 0;

  // Violates if the result is not what the inputs imply.
  virtual void judge( const std::string& result, unsigned variant ) const = 0;

  // Canonical text of the inputs handed over as read-only.
  virtual std::string input() const { return std::string(); }

  std::string cls( const char* what ) const { return std::string( what ) + "/" + kind; }

  void require( const std::string& have, const std::string& want ) const
  {
    if( have != want )
      sim::violate( cls( "wrong" ), "got " + have.substr( 0, 1500 ) + " instead of " + want.substr( 0, 1500 ) );
  }
};

enum : unsigned
{
  NoFaults  = 1,   // declared non-throwing (or third-party code that is not safe): no failing allocations
  NoThreads = 2,
  AnyReport = 4    // streams turn failing allocations into errors of their own
};

struct Kind
{
  const char* property;
  const char* name;
  Op* ( *make )();
  unsigned weight;
  unsigned flags;
};

std::vector<Kind>& kinds();

template <class T> struct Add
{
  Add( const char* property, const char* name, unsigned weight = 2, unsigned flags = 0 )
  {
    kinds().push_back( { property, name, []() -> Op* { return new T; }, weight, flags } );
  }
};

// Harness code inside run(): its allocations must not fail.  Threads never
// see failing allocations.
#ifdef SIM_THREADS
struct Calm { Calm() {} ~Calm() {} };
#else
using Calm = sim::Quiet;
#endif

// -- rendering ----------------------------------------------------------

inline std::string number( double x )
{
  char b[64];
  std::snprintf( b, sizeof( b ), "%.17g", x == 0 ? 0.0 : x );
  return b;
}

template <class T> std::string join( const T& v, const char* sep = " " )
{
  std::string s;
  for( auto&& x : v )
  {
    if( !s.empty() ) s += sep;
    s += number( double( x ) );
  }
  return s;
}

// -- small complexes ------------------------------------------------------

using Vertices = std::vector<unsigned>;   // ascending

struct Cell
{
  Vertices v;
  double w;
};

inline std::string text( const Vertices& v )
{
  std::string s = "{";
  for( std::size_t i = 0; i < v.size(); i++ )
    s += ( i ? " " : "" ) + std::to_string( v[i] );
  return s + "}";
}

inline std::string text( const Cell& c ) { return text( c.v ) + ":" + number( c.w ); }

// Cells in filtration order.
inline std::string text( const std::vector<Cell>& cells )
{
  std::string s;
  for( auto&& c : cells ) s += text( c ) + ";";
  return s;
}

// The inverse of text() for lists of cells; stops at anything else.
inline std::vector<Cell> parseCells( const std::string& s )
{
  std::vector<Cell> r;
  const char* p = s.c_str();
  while( *p == '{' )
  {
    Cell c;
    char* end;
    for( p++; *p && *p != '}'; p = end )
    {
      c.v.push_back( unsigned( std::strtoul( p, &end, 10 ) ) );
      if( end == p ) return r;
    }
    if( p[0] != '}' || p[1] != ':' ) return r;
    c.w = std::strtod( p + 2, &end );
    p = end;
    if( *p++ != ';' ) return r;
    r.push_back( c );
  }
  return r;
}

template <class Simplex> Cell cell( const Simplex& s )
{
  Cell c{ Vertices( s.begin(), s.end() ), double( s.data() ) };
  std::sort( c.v.begin(), c.v.end() );
  return c;
}

// A complex in its own order, or as a set.
template <class Complex> std::vector<Cell> cells( const Complex& K )
{
  std::vector<Cell> r;
  for( auto&& s : K ) r.push_back( cell( s ) );
  return r;
}

inline std::vector<Cell> sorted( std::vector<Cell> c )
{
  std::sort( c.begin(), c.end(), []( const Cell& a, const Cell& b )
  {
    return a.v.size() != b.v.size() ? a.v.size() < b.v.size() : a.v != b.v ? a.v < b.v : a.w < b.w;
  } );
  return c;
}

template <class Complex> Complex build( const std::vector<Cell>& cells )
{
  using Simplex = typename Complex::ValueType;
  std::vector<Simplex> s;
  for( auto&& c : cells )
    s.push_back( Simplex( c.v.begin(), c.v.end(), typename Simplex::DataType( c.w ) ) );
  return Complex( s.begin(), s.end() );
}

// Proper faces of codimension one.
inline std::vector<Vertices> boundary( const Vertices& v )
{
  std::vector<Vertices> r;
  if( v.size() < 2 ) return r;
  for( std::size_t i = 0; i < v.size(); i++ )
  {
    Vertices f = v;
    f.erase( f.begin() + std::ptrdiff_t( i ) );
    r.push_back( f );
  }
  return r;
}

inline void closure( std::set<Vertices>& s, const Vertices& v )
{
  if( v.empty() || !s.insert( v ).second ) return;
  for( auto&& f : boundary( v ) ) closure( s, f );
}

struct Labels { unsigned first = 0, gap = 1; unsigned operator()( unsigned i ) const { return first + gap * i; } };

inline Labels labels( bool contiguous = false )
{
  Labels l;
  if( contiguous ) return l;
  l.first = unsigned( sim::choose( 4 ) );
  l.gap   = 1 + unsigned( sim::choose( 3 ) );
  return l;
}

// Random closed set of simplices on at most n vertices.
inline std::set<Vertices> randomSet( unsigned n, unsigned dimension, unsigned simplices, const Labels& l )
{
  std::set<Vertices> s;
  unsigned m = 1 + unsigned( sim::choose( n ) );
  for( unsigned i = 0; i < m; i++ )
    if( !sim::flip( 1, 8 ) || i == 0 ) s.insert( Vertices( 1, l( i ) ) );
  unsigned k = unsigned( sim::choose( simplices + 1 ) );
  for( unsigned i = 0; i < k; i++ )
  {
    unsigned size = 2 + unsigned( sim::choose( dimension ) );
    std::set<unsigned> v;
    for( unsigned j = 0; j < size; j++ ) v.insert( l( unsigned( sim::choose( m ) ) ) );
    closure( s, Vertices( v.begin(), v.end() ) );
  }
  return s;
}

// Random filtration of a closed set: a random order in which faces come
// first, with weights that do not decrease (ties are frequent).
inline std::vector<Cell> filtration( const std::set<Vertices>& s, bool integral = false, bool canonical = false )
{
  std::map<Vertices, double> w;
  std::vector<Vertices> bySize( s.begin(), s.end() );
  std::stable_sort( bySize.begin(), bySize.end(), []( const Vertices& a, const Vertices& b ) { return a.size() < b.size(); } );
  unsigned levels = 1 + unsigned( sim::choose( 12 ) );
  double scale    = integral ? 1 : 1.0 / double( 1u << sim::choose( 3 ) );
  double shift    = integral ? 0 : double( sim::choose( 3 ) ) * -2.0;
  for( auto&& v : bySize )
  {
    double x = 0;
    bool first = true;
    for( auto&& f : boundary( v ) ) { x = first ? w[f] : std::max( x, w[f] ); first = false; }
    if( first ) x = shift + scale * double( sim::choose( levels ) );
    else if( sim::flip( 1, 2 ) ) x += scale * double( sim::choose( levels ) );
    w[v] = x;
  }
  std::vector<Cell> r;
  for( auto&& v : bySize ) r.push_back( { v, w[v] } );
  if( !canonical ) sim::shuffle( r );
  std::stable_sort( r.begin(), r.end(), []( const Cell& a, const Cell& b )
                    { return a.w != b.w ? a.w < b.w : a.v.size() < b.v.size(); } );
  if( canonical )
    return r;
  // Among equal weights any order with faces first will do.
  for( unsigned i = unsigned( sim::choose( 8 ) ); i > 0 && r.size() > 1; i-- )
  {
    std::size_t j = sim::choose( r.size() - 1 );
    if( r[j].w == r[j+1].w && !std::includes( r[j+1].v.begin(), r[j+1].v.end(), r[j].v.begin(), r[j].v.end() ) )
      std::swap( r[j], r[j+1] );
  }
  return r;
}

// -- textbook column reduction over Z/2 ------------------------------------

struct Reduction
{
  std::map<std::size_t, std::size_t> pairs;      // creator -> destroyer
  std::set<std::size_t> unpaired;
};

inline Reduction reduce( const std::vector<Cell>& cells )
{
  std::map<Vertices, std::size_t> index;
  for( std::size_t i = 0; i < cells.size(); i++ ) index[ cells[i].v ] = i;
  std::vector< std::set<std::size_t> > columns( cells.size() );
  std::map<std::size_t, std::size_t> low;
  Reduction r;
  for( std::size_t j = 0; j < cells.size(); j++ )
  {
    auto& c = columns[j];
    for( auto&& f : boundary( cells[j].v ) )
      if( index.count( f ) ) c.insert( index[f] );
    while( !c.empty() && low.count( *c.rbegin() ) )
      for( auto&& i : columns[ low[ *c.rbegin() ] ] )
        if( !c.insert( i ).second ) c.erase( i );
    if( c.empty() ) r.unpaired.insert( j );
    else
    {
      low[ *c.rbegin() ] = j;
      r.pairs[ *c.rbegin() ] = j;
      r.unpaired.erase( *c.rbegin() );
    }
  }
  return r;
}

inline std::vector<Cell> unweighted( const std::set<Vertices>& s )
{
  std::vector<Cell> c;
  for( auto&& v : s ) c.push_back( { v, 0 } );
  return sorted( c );
}

// Betti numbers of a closed set.
inline std::vector<std::size_t> betti( const std::set<Vertices>& s )
{
  auto c = unweighted( s );
  auto r = reduce( c );
  std::vector<std::size_t> b;
  for( auto&& i : r.unpaired )
  {
    auto d = c[i].v.size() - 1;
    if( b.size() <= d ) b.resize( d + 1 );
    b[d]++;
  }
  return b;
}

template <class Complex> std::set<Vertices> asSet( const Complex& K )
{
  std::set<Vertices> s;
  for( auto&& x : K ) s.insert( cell( x ).v );
  return s;
}

inline bool closed( const std::set<Vertices>& s )
{
  for( auto&& v : s )
    for( auto&& f : boundary( v ) )
      if( !s.count( f ) ) return false;
  return true;
}

// -- answers recorded before ---------------------------------------------

// The object is drawn once; the expected answers come from a copy that was
// taken before anything was asked.
template <class Data> struct Shared : Op
{
  Data data;
  std::string expected[4];

  Shared()
  {
    Data copy( data );
    for( unsigned i = 0; i < 4; i++ ) expected[i] = copy.run( i );
    sim::story( "answers %s", expected[0].substr( 0, 600 ).c_str() );
  }
  std::string input() const override { return data.input(); }
  std::string run( unsigned variant ) const override { return data.run( variant ); }
  void judge( const std::string& r, unsigned variant ) const override { require( r, expected[variant] ); }
};

// Asks n questions in an order that depends on the variant.
template <class F> std::string ask( unsigned variant, unsigned n, F f )
{
  std::string answers[24];
  for( unsigned i = 0; i < n; i++ )
  {
    unsigned k = ( ( variant & 1 ? n - 1 - i : i ) + ( variant & 2 ? n / 2 : 0 ) ) % n;
    answers[k] = f( k );
  }
  Calm q;
  std::string r;
  for( unsigned i = 0; i < n; i++ ) r += std::to_string( i ) + ": " + answers[i] + "\n";
  for( unsigned i = 0; i < n; i++ ) std::string().swap( answers[i] );
  return r;
}

} // namespace ops

#endif
