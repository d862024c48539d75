// Questions about files on a disk that refuses answers and that other programs
// change, about names of files, and about the time that has passed.

#include "../core/sim.hh"

#include <aleph/utilities/Filesystem.hh>
#include <aleph/utilities/Timer.hh>

#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>

#include <sys/stat.h>

namespace
{

namespace u = aleph::utilities;

const unsigned Gone = 15;

unsigned typeOf( u::FileType t )
{
  switch( t )
  {
  case u::FileType::BlockDevice:     return S_IFBLK >> 12;
  case u::FileType::CharacterDevice: return S_IFCHR >> 12;
  case u::FileType::Directory:       return S_IFDIR >> 12;
  case u::FileType::NamedPipe:       return S_IFIFO >> 12;
  case u::FileType::RegularFile:     return S_IFREG >> 12;
  case u::FileType::Socket:          return S_IFSOCK >> 12;
  case u::FileType::SymbolicLink:    return S_IFLNK >> 12;
  default:                           return Gone;
  }
}

const char* nameOf( unsigned type )
{
  switch( type << 12 )
  {
  case S_IFBLK:  return "a block device";
  case S_IFCHR:  return "a character device";
  case S_IFDIR:  return "a directory";
  case S_IFIFO:  return "a named pipe";
  case S_IFREG:  return "a regular file";
  case S_IFSOCK: return "a socket";
  case S_IFLNK:  return "a symbolic link";
  default:       return "nothing";
  }
}

// -- queries ------------------------------------------------------------------

struct Entry
{
  std::string path;
  unsigned type   = Gone;
  int target      = -1;    // of a symbolic link
  int statError   = 0;
  int openError   = 0;
  bool changing   = false;
};

const unsigned types[] = { S_IFBLK, S_IFCHR, S_IFDIR, S_IFIFO, S_IFREG, S_IFSOCK };

std::vector<Entry> makeDisk( bool flux )
{
  static const char* names[] = { "/sim/data", "/sim/data.txt", "/sim/dir", "/sim/dir/data.txt", "/sim/.hidden", "/sim/a b", "/sim/data.tar.gz", "/sim/x" };
  static const int errors[] = { EACCES, EIO, ENOENT, ELOOP, ENAMETOOLONG, ENOMEM, ENOTDIR, EOVERFLOW };
  std::vector<Entry> entries;
  unsigned n = 2 + static_cast<unsigned>( sim::choose( 6 ) );
  for( unsigned i = 0; i < n; i++ )
  {
    Entry e;
    e.path = names[i];
    if( sim::flip( 1, 6 ) )
    {
      sim::story( "%s does not exist", e.path.c_str() );
      entries.push_back( e );
      continue;
    }
    if( i && sim::flip( 1, 4 ) )
    {
      // Links may lead to other links, into the void, and in circles.
      e.type   = S_IFLNK >> 12;
      e.target = static_cast<int>( sim::choose( n ) );
      sim::disk::makeSpecial( e.path, S_IFLNK, names[ e.target ] );
      sim::story( "%s is a symbolic link to %s", e.path.c_str(), names[ e.target ] );
    }
    else
    {
      auto m = sim::flip( 1, 3 ) ? unsigned( S_IFREG ) : types[ sim::choose( 6 ) ];
      e.type = m >> 12;
      if( m == S_IFREG )      sim::disk::put( e.path, "content" );
      else if( m == S_IFDIR ) sim::disk::makeDirectory( e.path );
      else                    sim::disk::makeSpecial( e.path, m );
      sim::story( "%s is %s", e.path.c_str(), nameOf( e.type ) );
      if( flux && sim::flip( 2, 3 ) )
      {
        std::vector<unsigned> to;
        unsigned k = 1 + static_cast<unsigned>( sim::choose( 4 ) );
        bool mayVanish = sim::flip( 1, 2 );
        for( unsigned j = 0; j < k; j++ )
          to.push_back( mayVanish && sim::flip( 1, 3 ) ? 0 : types[ sim::choose( 6 ) ] );
        e.changing = true;
        sim::disk::setFlux( e.path, 1 + static_cast<unsigned>( sim::choose( 12 ) ), to );
        sim::story( "…and other programs keep replacing it" );
      }
    }
    if( sim::flip( 1, 3 ) )
    {
      e.statError = errors[ sim::choose( 8 ) ];
      sim::disk::setStatError( e.path, e.statError );
      sim::story( "queries about %s fail with error %d", e.path.c_str(), e.statError );
    }
    if( sim::flip( 1, 3 ) )
    {
      e.openError = errors[ sim::choose( 8 ) ];
      sim::disk::Plan p;
      p.openError = e.openError;
      p.openErrorAlways = true;
      sim::disk::setPlan( e.path, p );
      sim::story( "opening %s fails with error %d", e.path.c_str(), e.openError );
    }
    entries.push_back( e );
  }
  return entries;
}

// The entry that a path leads to, -1 if there is none.
int resolve( const std::vector<Entry>& entries, int i )
{
  for( unsigned k = 0; k < 10; k++ )
  {
    if( entries[ std::size_t( i ) ].type == Gone ) return -1;
    if( entries[ std::size_t( i ) ].target < 0 ) return i;
    i = entries[ std::size_t( i ) ].target;
  }
  return -1;
}

void ask( const std::vector<Entry>& entries, std::size_t i )
{
  auto& e = entries[i];
  sim::disk::forgetTypes( e.path );
  auto question = sim::choose( 5 );
  sim::count( "queries" );

  auto possible = [&] ( unsigned type )
  {
    if( e.statError || e.type == Gone ) return type == Gone;
    auto seen = sim::disk::seenTypes( e.path );
    return e.changing ? ( seen >> type & 1 ) != 0 : type == e.type;
  };

  switch( question )
  {
  case 0:
  {
    auto t = typeOf( u::fileType( e.path ) );
    sim::observe( std::to_string( t ) );
    SIM_REQUIRE( possible( t ), "wrong/type", e.path << " is said to be " << nameOf( t ) << " but is " << nameOf( e.type ) );
    break;
  }
  case 1: case 2: case 3:
  {
    auto type = ( question == 1 ? S_IFDIR : question == 2 ? S_IFREG : S_IFSOCK ) >> 12;
    bool b = question == 1 ? u::isDirectory( e.path ) : question == 2 ? u::isRegularFile( e.path ) : u::isSocket( e.path );
    sim::observe( std::to_string( b ) );
    bool mayBe = possible( type ), mayNotBe = false;
    for( unsigned t = 1; t < 16; t++ ) if( t != type && possible( t ) ) mayNotBe = true;
    SIM_REQUIRE( b ? mayBe : mayNotBe, "wrong/is", e.path << " is said " << ( b ? "to be " : "not to be " ) << nameOf( type ) << " but is " << nameOf( e.type ) );
    break;
  }
  default:
  {
    int to = resolve( entries, int( i ) );
    if( to >= 0 ) sim::disk::forgetTypes( entries[ std::size_t( to ) ].path );
    bool b = u::exists( e.path );
    sim::observe( std::to_string( b ) );
    if( to < 0 )
    {
      SIM_REQUIRE( !b, "wrong/exists", e.path << " is said to exist but leads nowhere" );
      break;
    }
    auto& f = entries[ std::size_t( to ) ];
    bool vanished = f.changing && ( sim::disk::seenTypes( f.path ) >> Gone & 1 );
    if( b )
    {
      // Someone must have said so: the query or the attempt to open it.
      SIM_REQUIRE( !f.statError || !f.openError, "wrong/exists", e.path << " is said to exist although all queries were refused" );
    }
    else
      SIM_REQUIRE( f.statError || vanished, "wrong/exists", e.path << " is said not to exist but is " << nameOf( f.type ) );
  }
  }
}

void queries()
{
  bool flux    = sim::flip( 1, 2 );
  auto entries = makeDisk( flux );
  unsigned n   = 1 + static_cast<unsigned>( sim::choose( 12 ) );
  if( sim::threads::available() && !flux )
  {
    std::vector<std::size_t> asked;
    unsigned threads = 2 + static_cast<unsigned>( sim::choose( 3 ) );
    for( unsigned i = 0; i < threads * n; i++ ) asked.push_back( sim::choose( entries.size() ) );
    sim::threads::parallel( threads, [&] ( unsigned t )
    {
      for( unsigned i = 0; i < n; i++ ) ask( entries, asked[ t * n + i ] );
    } );
  }
  else
    for( unsigned i = 0; i < n; i++ ) ask( entries, sim::choose( entries.size() ) );
  SIM_REQUIRE( sim::disk::openHandles() == 0, "descriptor/query", "a query has left a file open" );
  for( auto&& e : entries )
    if( e.type == ( S_IFREG >> 12 ) )
      SIM_REQUIRE( sim::disk::get( e.path ) == "content", "input-changed/query", "a query has changed " << e.path );
  sim::signature( sim::mix( n, entries.size() ) );
}

// -- names ----------------------------------------------------------------------

struct Name
{
  std::string path, base, stem, extension;
};

Name drawName()
{
  static const char* pieces[] = { "a", "data", ".", "..", ".hidden", "x.txt", "archive.tar.gz", "name.", "..x", "...", "with space.csv", "directory.d", "a-rather-long-name-of-a-file.graphml", "another-rather-long-name-of-a-directory" };
  Name n;
  unsigned k = static_cast<unsigned>( sim::choose( 4 ) );
  bool absolute = sim::flip( 1, 2 );
  if( absolute ) n.path = sim::flip( 1, 6 ) ? "//" : "/";
  for( unsigned i = 0; i < k; i++ )
  {
    n.base  = pieces[ sim::choose( 14 ) ];
    n.path += n.base;
    if( i + 1 < k )                n.path += sim::flip( 1, 8 ) ? "//" : "/";
    else if( sim::flip( 1, 6 ) )   n.path += sim::flip( 1, 3 ) ? "//" : "/";
  }
  if( n.base.empty() && !n.path.empty() ) n.base = "/";
  auto dot = n.base.rfind( '.' );
  if( dot == std::string::npos || n.base == "." || n.base == ".." ) n.stem = n.base;
  else { n.stem = n.base.substr( 0, dot ); n.extension = n.base.substr( dot ); }
  return n;
}

// Asks for one part of the name with an allocation that may fail.
void take( const Name& n, unsigned part, bool fault, std::uint64_t k )
{
  const std::string expected = part == 0 ? n.base : part == 1 ? n.stem : n.extension;
  for( unsigned attempt = 0; attempt < 2; attempt++ )
  {
    bool failed = false;
    auto before = sim::heap::liveBlocks();
    {
      std::string r;
      bool armed = fault && attempt == 0;
      if( armed ) sim::heap::failAt( k );
      try { r = part == 0 ? u::basename( n.path ) : part == 1 ? u::stem( n.path ) : u::extension( n.path ); }
      catch( const std::bad_alloc& ) { failed = true; }
      bool fired = armed && sim::heap::disarm();
      if( fired ) sim::count( "allocation failures" );
      SIM_REQUIRE( !failed || fired, "report/memory", "bad_alloc although no allocation failed" );
      if( !failed )
        SIM_REQUIRE( r == expected, "wrong/name", ( part == 0 ? "base name" : part == 1 ? "stem" : "extension" ) << " of '" << n.path << "' is '" << r << "' instead of '" << expected << "'" );
    }
    if( fault )
      SIM_REQUIRE( sim::heap::liveBlocks() == before, "leak/name", "memory is lost while taking apart '" << n.path << "'" );
    if( !failed ) break;
  }
}

void names()
{
  std::vector<Name> names;
  std::vector<unsigned> parts;
  unsigned n = 2 + static_cast<unsigned>( sim::choose( 6 ) );
  for( unsigned i = 0; i < n; i++ )
  {
    names.push_back( drawName() );
    parts.push_back( static_cast<unsigned>( sim::choose( 3 ) ) );
    sim::story( "part %u of '%s'", parts.back(), names.back().path.c_str() );
    sim::signature( sim::hashString( names.back().path ) );
  }
  if( sim::threads::available() )
  {
    sim::threads::parallel( 2 + static_cast<unsigned>( sim::choose( 2 ) ), [&] ( unsigned t )
    {
      for( unsigned i = 0; i < n; i++ )
      {
        unsigned j = ( i + t ) % n;
        take( names[j], parts[j], false, 0 );
      }
    } );
    return;
  }
  for( unsigned i = 0; i < n; i++ )
  {
    bool fault = sim::flip( 1, 2 );
    take( names[i], parts[i], fault, sim::choose( 4 ) );
  }
}

// -- environment ----------------------------------------------------------------

void environment()
{
  static const char* variables[] = { "TMPDIR", "TMP", "TEMP", "TEMPDIR" };
  unsigned n = 1 + static_cast<unsigned>( sim::choose( 4 ) );
  for( unsigned i = 0; i < n; i++ )
  {
    std::string expected;
    bool known = false;
    for( auto&& v : variables )
    {
      if( sim::flip( 1, 2 ) ) { unsetenv( v ); continue; }
      std::string value = std::string( "/sim/" ) + v + ( sim::flip( 1, 3 ) ? "-with-a-rather-long-name-for-a-directory" : "" );
      setenv( v, value.c_str(), 1 );
      if( !known ) { expected = value; known = true; }
      sim::story( "%s=%s", v, value.c_str() );
    }
    auto r = u::tempDirectory();
    sim::observe( r );
    if( known ) SIM_REQUIRE( r == expected, "wrong/temporary", "temporary directory is '" << r << "' instead of '" << expected << "'" );
    else        SIM_REQUIRE( r == P_tmpdir, "wrong/temporary", "temporary directory is '" << r << "' without any variable" );
    sim::nontrivial();
    sim::signature( sim::hashString( r ) );
  }
}

// -- time -------------------------------------------------------------------------

void time()
{
  std::vector<u::Timer> timers;
  std::vector<std::uint64_t> starts;
  unsigned n = 4 + static_cast<unsigned>( sim::choose( 20 ) );
  for( unsigned i = 0; i < n; i++ )
  {
    switch( sim::choose( 6 ) )
    {
    case 0:
      if( timers.size() < 4 )
      {
        timers.emplace_back();
        starts.push_back( sim::clock::now() );
        sim::story( "start timer %zu", timers.size() - 1 );
      }
      break;
    case 1:
      if( !timers.empty() )
      {
        auto k = sim::choose( timers.size() );
        timers[k].restart();
        starts[k] = sim::clock::now();
        sim::story( "restart timer %llu", (unsigned long long) k );
      }
      break;
    case 2:
    {
      static const std::uint64_t scales[] = { 1, 1000, 1000000, 1000000000ull, 3600000000000ull, 86400000000000ull };
      auto d = sim::choose( 1000 ) * scales[ sim::choose( 6 ) ] + sim::choose( 2 );
      sim::clock::advance( d );
      sim::nontrivial();
      sim::count( "clock advances" );
      sim::story( "%llu ns pass", (unsigned long long) d );
      break;
    }
    case 3:
    {
      auto d = static_cast<std::int64_t>( sim::choose( 1000000000ull ) ) * ( sim::flip( 1, 2 ) ? 3600 : -3600 );
      sim::clock::jump( d );
      sim::story( "the wall clock is moved by %lld ns", (long long) d );
      break;
    }
    default:
      if( !timers.empty() )
      {
        auto k = sim::choose( timers.size() );
        auto t = timers[k];
        double e = double( sim::clock::now() - starts[k] );
        auto unit = sim::choose( 4 );
        double r = unit == 0 ? t.elapsed_ns() : unit == 1 ? t.elapsed_mu() * 1e3 : unit == 2 ? t.elapsed_ms() * 1e6 : t.elapsed_s() * 1e9;
        SIM_REQUIRE( std::abs( r - e ) <= 1e-9 * e, "wrong/time", "timer reports " << r << " ns instead of " << e << " in unit " << unit );
        sim::observe( std::to_string( r ) );
      }
    }
  }
  sim::signature( sim::mix( timers.size(), sim::clock::now() ) );
}

sim::Register a( "F19", "queries", queries, 4 );
sim::Register b( "F19", "names", names, 3 );
sim::Register c( "F19", "environment", environment, 1 );
sim::Register d( "F19", "time", time, 2 );

} // namespace
