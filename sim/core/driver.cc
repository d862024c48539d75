// Runs, workers, minimisation, replay.

#include "internal.hh"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <map>
#include <set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef SIM_FLAVOUR
  #define SIM_FLAVOUR "asan"
#endif

namespace
{

using namespace sim;

struct Options
{
  std::string mode, property, out, replayFile, replayDir = ".", scenario, self;
  std::uint64_t seed = 1, runs = 1000, first = 0;
  unsigned workers = 8;
  double seconds = 60;
  unsigned cpuLimit = 10;
  std::vector<std::string> known;
  bool verbose = false;
};

Options opt;

double wall()
{
  timespec t;
  syscall( SYS_clock_gettime, 1, &t );
  return double( t.tv_sec ) + 1e-9 * double( t.tv_nsec );
}

template <class T> T* sharedMemory( std::size_t n = 1 )
{
  void* p = mmap( nullptr, sizeof( T ) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
  if( p == MAP_FAILED ) { std::perror( "mmap" ); std::exit( 3 ); }
  return static_cast<T*>( p );
}

void resetShared()
{
  std::memset( static_cast<void*>( shared ), 0, offsetof( Shared, tape ) );
  shared->hash = 0x51A1ull;
}

[[noreturn]] void body()
{
  // Runs in the forked child.
  rlimit r;
  r.rlim_cur = opt.cpuLimit;
  r.rlim_max = opt.cpuLimit + 2;
  setrlimit( RLIMIT_CPU, &r );
  r.rlim_cur = r.rlim_max = 0;
  setrlimit( RLIMIT_CORE, &r );

  int null = static_cast<int>( syscall( SYS_openat, AT_FDCWD, "/dev/null", O_RDWR ) );
  if( null >= 0 )
  {
    if( !opt.verbose )
      dup2( null, 2 );
    dup2( null, 1 );
  }

  std::vector<Scenario> mine;
  unsigned total = 0;
  for( auto&& s : scenarios() )
    if( s.property == current.property && ( opt.scenario.empty() || opt.scenario == s.name ) )
    {
      mine.push_back( s );
      total += s.weight;
    }
  if( mine.empty() )
  {
    std::strcpy( shared->cls, "no scenario" );
    finish( Violation );
  }

  std::uint64_t c = choose( total );
  std::size_t index = 0;
  while( c >= mine[index].weight )
    c -= mine[index++].weight;

  std::strncpy( shared->scenario, mine[index].name, sizeof( shared->scenario ) - 1 );
  event( mine[index].name );

  void ( *f )() = mine[index].run;
  hashing::begin();
  randomness::begin();
  heap::begin();
  heap::paintStack();
  f();
  finish( Held );
}

// Executes one run in a child; returns false if the run crashed in a way that
// left no status.
void execute()
{
  resetShared();
  current.position = 0;

  pid_t pid = fork();
  if( pid < 0 ) { std::perror( "fork" ); std::exit( 3 ); }
  if( pid == 0 )
    body();

  // The CPU limit ends runs that compute forever; the wall-clock limit ends
  // runs that block.
  int status = 0;
  double start = wall();
  for(;;)
  {
    pid_t r = waitpid( pid, &status, 0 );
    if( r == pid ) break;
    if( r < 0 && errno == EINTR )
    {
      if( wall() - start > opt.cpuLimit * 6 )
        kill( pid, SIGKILL );
      continue;
    }
  }

  if( shared->status == Running )
  {
    if( WIFSIGNALED( status ) && ( WTERMSIG( status ) == SIGXCPU || WTERMSIG( status ) == SIGKILL ) )
    {
      std::strcpy( shared->cls, "hang/cpu-budget" );
      std::snprintf( shared->message, sizeof( shared->message ), "the run did not end within its budget of %u CPU seconds", opt.cpuLimit );
      shared->hash = 0;   // stopped at an arbitrary point
    }
    else if( WIFSIGNALED( status ) )
      std::snprintf( shared->cls, sizeof( shared->cls ), "crash/signal-%d", WTERMSIG( status ) );
    else
      std::snprintf( shared->cls, sizeof( shared->cls ), "crash/exit-%d", WEXITSTATUS( status ) );
    shared->status = Violation;
  }
}

void onAlarm( int ) {}

std::uint64_t runSeed( std::uint64_t i )
{
  return mix( mix( opt.seed, hashString( opt.property ) ), i );
}

void executeSeed( std::uint64_t i )
{
  current.replay = false;
  seedRun( runSeed( i ) );
  execute();
}

void executeTape( const std::vector<std::uint64_t>& tape )
{
  current.replay = true;
  current.input = tape.data();
  current.inputSize = tape.size();
  execute();
}

std::vector<std::uint64_t> tapeOf() { return { shared->tape, shared->tape + shared->tapeSize }; }

bool isKnown( const std::string& cls )
{
  for( auto&& k : opt.known )
    if( cls == k ) return true;
  return false;
}

// -- aggregation ----------------------------------------------------------

const std::size_t SetSize = 1u << 19;
const std::size_t ClassCapacity = 32;

struct Found { char cls[160]; char scenario[64]; char message[512]; std::uint64_t index, hash, n; };

struct Aggregate
{
  std::uint64_t runs, nontrivialRuns, discarded, events, simulatedNanoseconds, decisions;
  std::uint64_t distinctNontrivial, distinctShapes;
  Counter counters[ CounterCapacity ];
  Counter scenarios[ CounterCapacity ];
  Found   found[ ClassCapacity ];
  Found   knownFound[ ClassCapacity ];
  char    sample[3][6000];
  unsigned samples;
  std::uint64_t set[ SetSize ];      // trace hashes of nontrivial runs
  std::uint64_t shapes[ SetSize ];   // their signatures
};

void add( Counter* table, const char* name, std::uint64_t n )
{
  for( std::size_t i = 0; i < CounterCapacity; i++ )
  {
    if( table[i].name[0] == 0 )
      std::strncpy( table[i].name, name, sizeof( table[i].name ) - 1 );
    if( std::strncmp( table[i].name, name, sizeof( table[i].name ) - 1 ) == 0 )
    {
      table[i].n += n;
      return;
    }
  }
}

bool insert( std::uint64_t* set, std::uint64_t v )
{
  if( v == 0 ) v = 1;
  std::size_t i = mix( v, 3 ) % SetSize;
  for( std::size_t k = 0; k < 64; k++, i = ( i + 1 ) % SetSize )
  {
    if( set[i] == v ) return false;
    if( set[i] == 0 ) { set[i] = v; return true; }
  }
  return false;
}

void record( Found* table, std::uint64_t i )
{
  for( std::size_t k = 0; k < ClassCapacity; k++ )
  {
    auto& f = table[k];
    if( f.n == 0 )
    {
      std::strcpy( f.cls, shared->cls );
      std::strcpy( f.scenario, shared->scenario );
      std::snprintf( f.message, sizeof( f.message ), "%s", shared->message );
      f.index = i;
      f.hash  = shared->hash;
      f.n     = 1;
      return;
    }
    if( std::strcmp( f.cls, shared->cls ) == 0 ) { f.n++; return; }
  }
}

std::string jsonEscape( const std::string& s )
{
  std::string r;
  for( unsigned char c : s )
  {
    if( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
    else if( c == '\n' ) r += "\\n";
    else if( c < 32 || c >= 127 ) { char b[8]; std::snprintf( b, sizeof( b ), "\\u%04x", c ); r += b; }
    else r += char( c );
  }
  return r;
}

// -- minimisation -----------------------------------------------------------

std::vector<std::uint64_t> minimise( std::vector<std::uint64_t> tape, const std::string& cls, double budget )
{
  double end = wall() + budget;
  std::uint64_t tries = 0;

  auto attempt = [&] ( const std::vector<std::uint64_t>& t )
  {
    if( wall() > end ) return false;
    tries++;
    executeTape( t );
    return shared->status == Violation && cls == shared->cls;
  };

  auto trim = [] ( std::vector<std::uint64_t>& t ) { while( !t.empty() && t.back() == 0 ) t.pop_back(); };
  trim( tape );

  bool progress = true;
  while( progress && wall() < end )
  {
    progress = false;

    for( std::size_t chunk = std::max<std::size_t>( tape.size() / 2, 1 ); chunk >= 1; chunk /= 2 )
    {
      for( std::size_t i = 0; i < tape.size() && wall() < end; )
      {
        std::size_t n = std::min( chunk, tape.size() - i );

        auto removed = tape;
        removed.erase( removed.begin() + i, removed.begin() + i + n );
        trim( removed );
        if( removed.size() < tape.size() && attempt( removed ) )
        {
          tape = removed;
          progress = true;
          continue;
        }

        auto zeroed = tape;
        bool any = false;
        for( std::size_t k = i; k < i + n; k++ ) { any = any || zeroed[k]; zeroed[k] = 0; }
        if( any )
        {
          trim( zeroed );
          if( attempt( zeroed ) )
          {
            tape = zeroed;
            progress = true;
          }
        }
        i += n;
      }
      if( chunk == 1 ) break;
    }

    for( std::size_t i = 0; i < tape.size() && wall() < end; i++ )
    {
      std::uint64_t low = 0;
      while( i < tape.size() && tape[i] > low && wall() < end )
      {
        auto smaller = tape;
        smaller[i] = low + ( tape[i] - low ) / 2;
        if( smaller[i] == tape[i] ) break;
        if( attempt( smaller ) ) { tape = smaller; progress = true; }
        else low = smaller[i] + 1;
      }
    }
  }

  std::cerr << "minimised to " << tape.size() << " decisions in " << tries << " tries\n";
  return tape;
}

void writeReplay( const std::string& file, const std::vector<std::uint64_t>& tape, std::uint64_t index )
{
  std::ofstream o( file );
  o << "aleph-sim-replay 1\n"
    << "property " << opt.property << "\n"
    << "flavour " << SIM_FLAVOUR << "\n"
    << "seed " << opt.seed << "\n"
    << "run " << index << "\n"
    << "scenario " << shared->scenario << "\n"
    << "class " << shared->cls << "\n"
    << "hash " << shared->hash << "\n"
    << "message " << jsonEscape( shared->message ) << "\n"
    << "story " << jsonEscape( shared->story ) << "\n"
    << "tape " << tape.size() << "\n";
  for( auto v : tape ) o << v << "\n";
}

struct Replay { std::string property, cls, flavour; std::uint64_t hash = 0; std::vector<std::uint64_t> tape; };

Replay readReplay( const std::string& file )
{
  Replay r;
  std::ifstream in( file );
  std::string line;
  while( std::getline( in, line ) )
  {
    auto space = line.find( ' ' );
    auto key = line.substr( 0, space );
    auto value = space == std::string::npos ? std::string() : line.substr( space + 1 );
    if( key == "property" ) r.property = value;
    else if( key == "flavour" ) r.flavour = value;
    else if( key == "class" ) r.cls = value;
    else if( key == "hash" ) r.hash = std::stoull( value );
    else if( key == "tape" )
    {
      std::uint64_t n = std::stoull( value ), v;
      while( n-- && in >> v ) r.tape.push_back( v );
      break;
    }
  }
  return r;
}

int replayMode()
{
  auto r = readReplay( opt.replayFile );
  opt.property = current.property = r.property;
  if( r.flavour != SIM_FLAVOUR ) { std::cerr << "wrong flavour\n"; return 3; }
  executeTape( r.tape );
  std::cout << "status " << shared->status << "\nclass " << shared->cls << "\nhash " << shared->hash
            << "\nscenario " << shared->scenario << "\nmessage " << shared->message << "\nstory\n" << shared->story << "\n";
  if( shared->status == Violation && r.cls == shared->cls && r.hash == shared->hash ) return 1;
  if( shared->status == Violation ) { std::cout << "DIFFERENT (expected " << r.cls << " " << r.hash << ")\n"; return 4; }
  return 0;
}

// Replays in a newly started process; true if violation and hash are the same.
bool freshReplay( const std::string& file )
{
  pid_t pid = fork();
  if( pid == 0 )
  {
    int null = static_cast<int>( syscall( SYS_openat, AT_FDCWD, "/dev/null", O_RDWR ) );
    dup2( null, 1 );
    dup2( null, 2 );
    std::string limit = std::to_string( opt.cpuLimit );
    execl( opt.self.c_str(), opt.self.c_str(), "replay", "--file", file.c_str(), "--cpu", limit.c_str(), static_cast<char*>( nullptr ) );
    _exit( 9 );
  }
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  return WIFEXITED( status ) && WEXITSTATUS( status ) == 1;
}

int runMode()
{
  auto* stop = sharedMemory<volatile int>();
  std::vector<Aggregate*> aggregates;
  std::vector<pid_t> pids;
  double start = wall();

  for( unsigned w = 0; w < opt.workers; w++ )
  {
    auto* a = sharedMemory<Aggregate>();
    aggregates.push_back( a );
    pid_t pid = fork();
    if( pid == 0 )
    {
      shared = sharedMemory<Shared>();
      struct sigaction sa;
      std::memset( &sa, 0, sizeof( sa ) );
      sa.sa_handler = onAlarm;
      sigaction( SIGALRM, &sa, nullptr );

      for( std::uint64_t i = opt.first + w; i < opt.first + opt.runs; i += opt.workers )
      {
        if( *stop || wall() - start > opt.seconds ) break;
        alarm( opt.cpuLimit * 6 + 5 );
        executeSeed( i );
        alarm( 0 );
        a->runs++;
        a->events += shared->events;
        a->decisions += shared->tapeSize;
        a->simulatedNanoseconds += shared->simulatedNanoseconds;
        add( a->scenarios, shared->scenario, 1 );
        for( auto&& c : shared->counters )
        {
          if( !c.name[0] ) break;
          add( a->counters, c.name, c.n );
        }
        if( shared->status == Discarded ) { a->discarded++; continue; }
        if( shared->nontrivial )
        {
          a->nontrivialRuns++;
          insert( a->set, shared->hash );
          insert( a->shapes, mix( hashString( shared->scenario ), shared->signature ) );
          if( a->samples < 3 && shared->story[0] && a->nontrivialRuns >= a->samples * 5 )
            std::snprintf( a->sample[ a->samples++ ], sizeof( a->sample[0] ), "run %llu, scenario %s: %.5800s",
                           (unsigned long long) i, shared->scenario, shared->story );
        }
        if( shared->status == Violation )
        {
          if( isKnown( shared->cls ) )
            record( a->knownFound, i );
          else
          {
            record( a->found, i );
            if( opt.mode == "run" ) *stop = 1;
          }
        }
      }
      _exit( 0 );
    }
    pids.push_back( pid );
  }

  for( auto p : pids )
  {
    int status = 0;
    while( waitpid( p, &status, 0 ) < 0 && errno == EINTR ) {}
    if( !WIFEXITED( status ) || WEXITSTATUS( status ) != 0 ) { std::cerr << "worker failed\n"; return 3; }
  }

  double simSeconds = wall() - start;

  auto* total = sharedMemory<Aggregate>();
  std::map<std::string, Found> found, known;
  for( auto* a : aggregates )
  {
    total->runs += a->runs; total->nontrivialRuns += a->nontrivialRuns; total->discarded += a->discarded;
    total->events += a->events; total->decisions += a->decisions; total->simulatedNanoseconds += a->simulatedNanoseconds;
    for( auto&& c : a->counters )  if( c.name[0] ) add( total->counters, c.name, c.n );
    for( auto&& c : a->scenarios ) if( c.name[0] ) add( total->scenarios, c.name, c.n );
    for( std::size_t i = 0; i < SetSize; i++ )
    {
      if( a->set[i] && insert( total->set, a->set[i] ) ) total->distinctNontrivial++;
      if( a->shapes[i] && insert( total->shapes, a->shapes[i] ) ) total->distinctShapes++;
    }
    auto merge = [] ( std::map<std::string, Found>& m, Found* table )
    {
      for( std::size_t k = 0; k < ClassCapacity && table[k].n; k++ )
      {
        auto& f = m[ table[k].cls ];
        if( f.n == 0 || table[k].index < f.index ) { auto n = f.n; f = table[k]; f.n += n; }
        else f.n += table[k].n;
      }
    };
    merge( found, a->found );
    merge( known, a->knownFound );
  }

  shared = sharedMemory<Shared>();

  std::string violationJson = "null";
  int code = 0;

  if( opt.mode == "survey" )
  {
    for( auto&& f : found )
      std::cout << f.second.n << "x " << f.first << " [" << f.second.scenario << ", run " << f.second.index << "]: " << f.second.message << "\n";
    std::cout << total->runs << " runs, " << total->discarded << " discarded, " << total->nontrivialRuns << " nontrivial, " << total->distinctNontrivial << " distinct, " << total->distinctShapes << " shapes, " << double( total->runs ) / simSeconds << " runs/s, " << total->events << " events, " << total->decisions << " decisions\n";
    for( auto&& c : total->counters ) if( c.name[0] ) std::cout << "  " << c.name << " " << c.n << "\n";
    for( auto&& c : total->scenarios ) if( c.name[0] ) std::cout << "  scenario " << c.name << " " << c.n << "\n";
  }
  else if( !found.empty() )
  {
    // Gate: the violation must reproduce from its seed, as a tape, minimised,
    // and in a newly started process.
    code = 2;
    for( auto&& f : found )
    {
      auto index = f.second.index;
      executeSeed( index );
      std::string cls = shared->cls;
      auto hash = shared->hash;
      // Whether a long run ends in time depends on the machine: what it did
      // this time counts, and has to be the same from now on.
      const std::string hang = "hang/cpu-budget";
      if( shared->status == Violation && cls != f.first && ( cls == hang || f.first == hang ) )
        std::cout << "run " << index << ": " << f.first << " became " << cls << "\n";
      else if( shared->status != Violation || cls != f.first || hash != f.second.hash )
      {
        std::cout << "NOT-REPRODUCED property=" << opt.property << " run=" << index << " class=" << f.first << "\n";
        continue;
      }
      auto tape = tapeOf();
      std::string message = shared->message;

      std::string file = opt.replayDir + "/" + opt.property + "-" + SIM_FLAVOUR + ".replay";
      auto tryTape = [&] ( const std::vector<std::uint64_t>& t )
      {
        executeTape( t );
        if( shared->status != Violation || cls != shared->cls ) return false;
        auto h = shared->hash;
        executeTape( t );
        if( shared->status != Violation || cls != shared->cls || shared->hash != h ) return false;
        writeReplay( file, t, index );
        return freshReplay( file );
      };

      bool ok = false;
      if( tryTape( tape ) )
      {
        ok = true;
        auto small = minimise( tape, cls, cls == hang ? 0 : 40 );
        if( !tryTape( small ) && !tryTape( tape ) )
          ok = false;
      }
      if( !ok )
      {
        std::cout << "NOT-REPRODUCED property=" << opt.property << " run=" << index << " class=" << cls << " (replay)\n";
        continue;
      }
      code = 1;
      violationJson = "{\"class\": \"" + jsonEscape( cls ) + "\", \"message\": \"" + jsonEscape( shared->message ) + "\", \"scenario\": \"" + jsonEscape( shared->scenario ) +
        "\", \"run\": " + std::to_string( index ) + ", \"replay\": \"" + jsonEscape( file ) + "\", \"story\": \"" + jsonEscape( shared->story ) + "\"}";
      std::cout << "class " << cls << "\nmessage " << shared->message << "\nscenario " << shared->scenario << "\nstory " << shared->story << "\n";
      break;
    }
  }

  if( !opt.out.empty() )
  {
    std::ofstream o( opt.out );
    o << "{\n\"flavour\": \"" << SIM_FLAVOUR << "\",\n\"runs\": " << total->runs << ",\n\"nontrivial\": " << total->nontrivialRuns
      << ",\n\"discarded\": " << total->discarded << ",\n\"distinct\": " << total->distinctNontrivial << ",\n\"shapes\": " << total->distinctShapes
      << ",\n\"events\": " << total->events << ",\n\"decisions\": " << total->decisions
      << ",\n\"simulated_ns\": " << total->simulatedNanoseconds << ",\n\"seconds\": " << simSeconds
      << ",\n\"workers\": " << opt.workers << ",\n\"counters\": {";
    bool firstItem = true;
    for( auto&& c : total->counters ) if( c.name[0] ) { o << ( firstItem ? "" : ", " ) << "\"" << jsonEscape( c.name ) << "\": " << c.n; firstItem = false; }
    o << "},\n\"scenarios\": {";
    firstItem = true;
    for( auto&& c : total->scenarios ) if( c.name[0] ) { o << ( firstItem ? "" : ", " ) << "\"" << jsonEscape( c.name ) << "\": " << c.n; firstItem = false; }
    o << "},\n\"known\": {";
    firstItem = true;
    for( auto&& k : known ) { o << ( firstItem ? "" : ", " ) << "\"" << jsonEscape( k.first ) << "\": " << k.second.n; firstItem = false; }
    o << "},\n\"samples\": [";
    firstItem = true;
    for( auto* a : aggregates )
      for( unsigned k = 0; k < a->samples && k < 1; k++ ) { o << ( firstItem ? "" : ",\n" ) << "\"" << jsonEscape( a->sample[ a->samples - 1 ] ) << "\""; firstItem = false; }
    o << "],\n\"violation\": " << violationJson << "\n}\n";
  }

  return code;
}

// Prints status and hash of every run: for comparing repetitions.
int hashMode()
{
  shared = sharedMemory<Shared>();
  for( std::uint64_t i = opt.first; i < opt.first + opt.runs; i++ )
  {
    executeSeed( i );
    std::cout << i << " " << shared->status << " " << shared->hash << " " << shared->tapeSize << " " << shared->cls << "\n";
  }
  return 0;
}

int oneMode()
{
  executeSeed( opt.first );
  std::cout << "status " << shared->status << "\nclass " << shared->cls << "\nhash " << shared->hash << "\ndecisions " << shared->tapeSize
            << "\nscenario " << shared->scenario << "\nmessage " << shared->message << "\nstory\n" << shared->story << "\n";
  return shared->status == Violation ? 1 : 0;
}

} // namespace

int main( int argc, char** argv )
{
  // Addresses of stacks and libraries are part of the environment as well.
  int p = personality( 0xffffffff );
  if( p != -1 && !( p & ADDR_NO_RANDOMIZE ) && !std::getenv( "SIM_REEXEC" ) )
  {
    setenv( "SIM_REEXEC", "1", 1 );
    if( personality( static_cast<unsigned long>( p ) | ADDR_NO_RANDOMIZE ) != -1 )
      execv( "/proc/self/exe", argv );
  }

  // The standard library fills these tables upon first use (with the same bytes
  // always, but unsynchronised); no run shall depend on who came first.
  auto&& facet = std::use_facet<std::ctype<char> >( std::locale() );
  for( int c = 1; c < 256; c++ )
  {
    facet.narrow( char( c ), '\0' );
    facet.widen( char( c ) );
  }

  char self[4096];
  ssize_t n = readlink( "/proc/self/exe", self, sizeof( self ) - 1 );
  opt.self = n > 0 ? std::string( self, static_cast<std::size_t>( n ) ) : argv[0];

  opt.mode = argc > 1 ? argv[1] : "";
  for( int i = 2; i < argc; i++ )
  {
    std::string a = argv[i];
    auto value = [&] { return std::string( i + 1 < argc ? argv[++i] : "" ); };
    if( a == "--property" ) opt.property = value();
    else if( a == "--scenario" ) opt.scenario = value();
    else if( a == "--seed" ) opt.seed = std::stoull( value() );
    else if( a == "--runs" ) opt.runs = std::stoull( value() );
    else if( a == "--first" ) opt.first = std::stoull( value() );
    else if( a == "--seconds" ) opt.seconds = std::stod( value() );
    else if( a == "--workers" ) opt.workers = static_cast<unsigned>( std::stoul( value() ) );
    else if( a == "--out" ) opt.out = value();
    else if( a == "--file" ) opt.replayFile = value();
    else if( a == "--replays" ) opt.replayDir = value();
    else if( a == "--cpu" ) opt.cpuLimit = static_cast<unsigned>( std::stoul( value() ) );
    else if( a == "--known" ) opt.known.push_back( value() );
    else if( a == "--verbose" ) opt.verbose = true;
    else { std::cerr << "unknown option " << a << "\n"; return 3; }
  }

  heap::map();
  installHandlers();
  current.property = opt.property;
  shared = sharedMemory<Shared>();
  for( auto f : startFunctions() ) f();

  if( opt.mode == "run" || opt.mode == "survey" ) return runMode();
  if( opt.mode == "replay" ) return replayMode();
  if( opt.mode == "hashes" ) return hashMode();
  if( opt.mode == "one" ) return oneMode();
  if( opt.mode == "list" )
  {
    for( auto&& s : scenarios() ) std::cout << s.property << " " << s.name << "\n";
    return 0;
  }
  std::cerr << "usage: run|survey|replay|hashes|one|list [options]\n";
  return 3;
}
