// File formats: generator, reference model and loader for each of them.

#ifndef IO_FORMATS_HH__
#define IO_FORMATS_HH__

#include "../core/sim.hh"

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace formats
{

using Settings = std::vector<unsigned>;

struct File { std::string path, content; };

struct Document
{
  std::vector<File> files;      // files[0] is handed to the reader
  std::string truth;            // what the complete document describes
  std::size_t completeAt = 0;   // a prefix of files[0] of this length holds everything
  std::size_t startsAt   = 0;   // shorter prefixes cannot be told from a file of another kind
};

struct Outcome
{
  bool mayThrow = false;
  bool mayReturn = true;
  bool anyValue = false;
  std::string value;

  static Outcome Value( const std::string& v ) { Outcome o; o.value = v; return o; }
  static Outcome ValueOrThrow( const std::string& v ) { Outcome o; o.value = v; o.mayThrow = true; return o; }
  static Outcome Throw() { Outcome o; o.mayThrow = true; o.mayReturn = false; return o; }
  static Outcome Any() { Outcome o; o.mayThrow = true; o.anyValue = true; return o; }
};

// Reader object together with the object it fills.
struct Loader
{
  virtual ~Loader() {}
  virtual void load( const std::string& path ) = 0;
  virtual std::string target() const = 0;   // the object filled by the reader
  virtual std::string meta() const { return std::string(); }
  std::string all() const { return target() + meta(); }
};

struct Format
{
  virtual ~Format() {}
  virtual const char* name() const = 0;
  virtual Settings settings() const { return Settings(); }
  virtual Document generate( const Settings&, const std::string& stem ) const = 0;
  virtual std::unique_ptr<Loader> make( const Settings& ) const = 0;

  // Meaning of a document that may have been cut.
  virtual Outcome model( const Document& d, const Settings& s ) const = 0;

  virtual bool damageable() const { return true; }   // third-party binary parsers are not
  virtual unsigned frequency() const { return 2; }
};

std::vector<const Format*>& all();

struct Add { Add( const Format* f ) { all().push_back( f ); } };

// -- helpers ------------------------------------------------------------

inline std::string number( double x )
{
  char b[64];
  std::snprintf( b, sizeof( b ), "%.17g", x );
  return b;
}

// A weight that is exact in binary and short in decimal.
inline double weight( bool negative = true )
{
  double w = double( sim::choose( 64 ) ) / double( 1u << sim::choose( 4 ) );
  if( negative && sim::flip( 1, 4 ) ) w = -w;
  return w == 0 ? 0.0 : w;
}

inline std::string text( double w )
{
  char b[64];
  std::snprintf( b, sizeof( b ), "%.10g", w );
  return b;
}

using Cell = std::pair< std::vector<unsigned long>, double >;   // vertices ascending, weight

inline std::string render( std::vector<unsigned long> v, double w )
{
  std::sort( v.begin(), v.end() );
  std::string s = "{";
  for( std::size_t i = 0; i < v.size(); i++ )
    s += ( i ? " " : "" ) + std::to_string( v[i] );
  return s + "}:" + number( w == 0 ? 0.0 : w ) + ";";
}

// Canonical text of a set of cells (later duplicates are ignored, as in a set).
struct Cells
{
  std::map< std::vector<unsigned long>, double > cells;

  void add( std::vector<unsigned long> v, double w )
  {
    std::sort( v.begin(), v.end() );
    v.erase( std::unique( v.begin(), v.end() ), v.end() );
    cells.insert( std::make_pair( v, w ) );
  }

  std::string str() const
  {
    std::vector<std::string> lines;
    for( auto&& c : cells ) lines.push_back( render( c.first, c.second ) );
    std::sort( lines.begin(), lines.end() );
    std::string s;
    for( auto&& l : lines ) s += l;
    return "K<" + s + ">";
  }
};

template <class K> std::string canonical( const K& k )
{
  std::vector<std::string> lines;
  for( auto&& s : k )
    lines.push_back( render( std::vector<unsigned long>( s.begin(), s.end() ), double( s.data() ) ) );
  std::sort( lines.begin(), lines.end() );
  std::string s;
  for( auto&& l : lines ) s += l;
  return "K<" + s + ">";
}

// "ordered" if every prefix is closed under faces and weights are monotone.
template <class K> std::string orderOf( const K& k, bool descending )
{
  std::set< std::vector<unsigned long> > seen;
  bool first = true;
  double last = 0;
  for( auto&& s : k )
  {
    std::vector<unsigned long> v( s.begin(), s.end() );
    std::sort( v.begin(), v.end() );
    if( v.size() > 1 )
      for( std::size_t i = 0; i < v.size(); i++ )
      {
        auto f = v;
        f.erase( f.begin() + long( i ) );
        if( !seen.count( f ) ) return "face-missing";
      }
    seen.insert( v );
    double w = double( s.data() );
    if( !first && ( descending ? w > last : w < last ) ) return "weights-unordered";
    last = w;
    first = false;
  }
  return "ordered";
}

inline std::vector<std::string> lines( const std::string& s )
{
  std::vector<std::string> r;
  std::string cur;
  for( char c : s )
  {
    if( c == '\n' ) { r.push_back( cur ); cur.clear(); }
    else cur += c;
  }
  if( !cur.empty() ) r.push_back( cur );
  return r;
}

inline std::vector<std::string> words( const std::string& s, const std::string& separators = " \t\r\v\f\n" )
{
  std::vector<std::string> r;
  std::string cur;
  for( char c : s )
  {
    if( separators.find( c ) != std::string::npos ) { if( !cur.empty() ) r.push_back( cur ); cur.clear(); }
    else cur += c;
  }
  if( !cur.empty() ) r.push_back( cur );
  return r;
}

inline std::string strip( const std::string& s )
{
  auto w = s.find_first_not_of( " \t\r\v\f\n" );
  if( w == std::string::npos ) return std::string();
  return s.substr( w, s.find_last_not_of( " \t\r\v\f\n" ) - w + 1 );
}

inline bool isNumber( const std::string& s )
{
  if( s.empty() ) return false;
  char* end = nullptr;
  std::strtod( s.c_str(), &end );
  return end && *end == 0 && ( std::isdigit( static_cast<unsigned char>( s[ s.size() - 1 ] ) ) || s[ s.size() - 1 ] == '.' );
}

inline bool isIndex( const std::string& s )
{
  if( s.empty() || s.size() > 9 ) return false;
  for( char c : s ) if( !std::isdigit( static_cast<unsigned char>( c ) ) ) return false;
  return true;
}

// Distinct random edges on n vertices.
inline std::vector< std::pair<unsigned long, unsigned long> > edges( unsigned long n, std::size_t m )
{
  std::set< std::pair<unsigned long, unsigned long> > s;
  std::vector< std::pair<unsigned long, unsigned long> > r;
  for( std::size_t i = 0; n >= 2 && i < m; i++ )
  {
    unsigned long u = sim::choose( n ), v = sim::choose( n );
    if( u == v ) continue;
    if( !s.insert( std::make_pair( std::min( u, v ), std::max( u, v ) ) ).second ) continue;
    r.push_back( std::make_pair( u, v ) );
  }
  return r;
}

// Usually small; sometimes larger than the buffers of the standard library.
inline std::size_t amount( std::size_t small, std::size_t large )
{
  return sim::flip( 1, 12 ) ? sim::choose( large ) : sim::choose( small + 1 );
}

} // namespace formats

#endif
