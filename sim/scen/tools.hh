// Command-line tools: a drawn call on the simulated disk, together with what
// it is supposed to print and to write.

#ifndef TOOLS_HH__
#define TOOLS_HH__

#include "ops.hh"

#include <map>
#include <set>
#include <string>
#include <vector>

namespace tools
{

using Entry = int ( * )( int, char** );
using Files = std::map<std::string, std::string>;

struct Tool
{
  std::string name;
  Entry entry = nullptr;
  std::vector<std::string> args;
  Files inputs;
  std::set<std::string> outputs;    // files it is to write
  std::set<std::string> optional;   // files it may write
  bool prints = true;               // something on the standard output
  bool refused = false;             // the input is to be rejected
  std::set<std::string> spared;     // inputs that are always there and readable
  std::string defect;               // of the program, which the call meets
  std::string standardInput;

  virtual ~Tool() {}

  // Violates if the standard output or the files are not what the inputs imply.
  virtual void judge( const std::string& out, const Files& written ) const = 0;

  // The same for messages, if results are among them.
  virtual void judgeMessages( const std::string& ) const {}

  std::string kind = "wrong";
  [[noreturn]] void fail( const std::string& how, const std::string& text ) const { sim::violate( ( defect.empty() ? how : defect ) + "/" + name, text.substr( 0, 3000 ) ); }
  [[noreturn]] void wrong( const std::string& text ) const { this->fail( kind, text ); }

  void input( const std::string& path, const std::string& content ) { inputs[path] = content; }
  void arg( const std::string& a ) { args.push_back( a ); }
};

// Calls the tool once, under a drawn fault.
void exercise( Tool& t );

template <class T> void once()
{
  T t;
  exercise( t );
}

// -- text -----------------------------------------------------------------

// As an input file of a user may hold it: exact in few digits.
inline double value( unsigned n = 33 ) { return double( sim::choose( n ) ) / 4.0; }

inline std::string shown( double x )
{
  char b[64];
  std::snprintf( b, sizeof( b ), "%g", x );
  return b;
}

inline bool near( double a, double b, double tolerance = 2e-5 )
{
  if( std::isnan( a ) || std::isnan( b ) ) return std::isnan( a ) && std::isnan( b );
  if( std::isinf( a ) || std::isinf( b ) ) return a == b;
  return std::abs( a - b ) <= tolerance * std::max( 1.0, std::max( std::abs( a ), std::abs( b ) ) );
}

inline bool number( const std::string& s, double& x )
{
  char* end;
  x = std::strtod( s.c_str(), &end );
  return !s.empty() && *end == 0;
}

inline std::vector<std::string> split( const std::string& s, const std::string& separators )
{
  std::vector<std::string> r( 1 );
  for( char c : s )
    if( separators.find( c ) != std::string::npos ) r.emplace_back();
    else r.back() += c;
  return r;
}

inline std::vector<std::string> lines( const std::string& s )
{
  auto r = split( s, "\n" );
  if( r.back().empty() ) r.pop_back();
  return r;
}

inline std::vector<std::string> words( const std::string& s )
{
  std::vector<std::string> r;
  for( auto&& w : split( s, " \t\n" ) )
    if( !w.empty() ) r.push_back( w );
  return r;
}

// -- JSON documents --------------------------------------------------------

struct Json
{
  bool good = true;
  std::string text;                    // of a string or a number
  std::vector<Json> items;
  std::map<std::string, Json> members;

  const Json& at( const std::string& key ) const
  {
    static const Json none;
    auto it = members.find( key );
    return it == members.end() ? none : it->second;
  }
};

struct JsonParser
{
  const std::string& s;
  std::size_t i = 0;
  bool good = true;

  char next()
  {
    while( i < s.size() && std::isspace( static_cast<unsigned char>( s[i] ) ) ) i++;
    return i < s.size() ? s[i] : 0;
  }

  bool take( char c ) { if( next() != c ) return false; i++; return true; }

  Json value()
  {
    Json j;
    if( take( '{' ) )
    {
      if( take( '}' ) ) return j;
      do
      {
        auto key = value();
        if( !take( ':' ) ) good = false;
        if( good ) j.members[key.text] = value();
      }
      while( good && take( ',' ) );
      if( !take( '}' ) ) good = false;
    }
    else if( take( '[' ) )
    {
      if( take( ']' ) ) return j;
      do j.items.push_back( value() );
      while( good && take( ',' ) );
      if( !take( ']' ) ) good = false;
    }
    else if( take( '"' ) )
    {
      while( i < s.size() && s[i] != '"' ) j.text += s[i++];
      if( i++ >= s.size() ) good = false;
    }
    else
    {
      while( i < s.size() && ( std::isalnum( static_cast<unsigned char>( s[i] ) ) || std::string( "+-." ).find( s[i] ) != std::string::npos ) ) j.text += s[i++];
      double x;
      if( !number( j.text, x ) || std::isnan( x ) || std::isinf( x ) ) good = false;
    }
    return j;
  }
};

inline Json parseJson( const std::string& s )
{
  JsonParser p{ s };
  auto j = p.value();
  j.good = p.good && p.next() == 0;
  return j;
}

// -- diagrams -------------------------------------------------------------

using Point  = std::pair<double, double>;
using Points = std::vector<Point>;

inline std::string diagramFile( const Points& D )
{
  std::string t;
  if( sim::flip( 1, 3 ) ) t += "# points of a diagram\n";
  bool tabs = sim::flip( 1, 2 );
  for( auto&& p : D )
  {
    if( sim::flip( 1, 8 ) ) t += "\n";
    t += shown( p.first ) + ( tabs ? "\t" : " " ) + shown( p.second ) + "\n";
  }
  if( !D.empty() && sim::flip( 1, 6 ) ) t.pop_back();
  return t;
}

// Points above the diagonal; a few lie on it.
inline Points diagram( unsigned most, bool diagonal = true )
{
  Points D;
  unsigned n = unsigned( sim::choose( most + 1 ) );
  for( unsigned i = 0; i < n; i++ )
  {
    double x = value();
    double y = x + value() + 0.25;
    if( diagonal && sim::flip( 1, 10 ) ) y = x;
    if( !D.empty() && sim::flip( 1, 10 ) ) D.push_back( D[ sim::choose( D.size() ) ] );
    else D.push_back( { x, y } );
  }
  return D;
}

} // namespace tools

#endif
