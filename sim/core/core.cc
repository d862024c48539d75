// Tape, trace, heap, hash-table layout, random source and clock.

#include "internal.hh"

#include <cerrno>
#include <cstdlib>
#include <cstring>

#include <chrono>
#include <exception>
#include <new>
#include <random>
#include <unordered_map>
#include <typeinfo>

#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cxxabi.h>

#if defined(__SANITIZE_ADDRESS__)
  #include <sanitizer/asan_interface.h>
  #define POISON(p,n)   __asan_poison_memory_region( (p), (n) )
  #define UNPOISON(p,n) __asan_unpoison_memory_region( (p), (n) )
#else
  #define POISON(p,n)
  #define UNPOISON(p,n)
#endif

namespace sim
{

Shared* shared = nullptr;
Run     current;

// -- PRNG ---------------------------------------------------------------

static std::uint64_t rotl( std::uint64_t x, int k ) { return ( x << k ) | ( x >> ( 64 - k ) ); }

std::uint64_t mix( std::uint64_t a, std::uint64_t b )
{
  std::uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
  z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
  return z ^ ( z >> 31 );
}

std::uint64_t hashString( const std::string& s )
{
  std::uint64_t h = 0xcbf29ce484222325ull;
  for( unsigned char c : s ) h = ( h ^ c ) * 0x100000001b3ull;
  return h;
}

static std::uint64_t next()
{
  auto& s = current.prng;
  std::uint64_t result = rotl( s[1] * 5, 7 ) * 9;
  std::uint64_t t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
  s[2] ^= t;
  s[3]  = rotl( s[3], 45 );
  return result;
}

void seedRun( std::uint64_t seed )
{
  for( int i = 0; i < 4; i++ )
    current.prng[i] = mix( seed, 0x1234567u + i );
}

// -- tape -----------------------------------------------------------------

std::uint64_t choose( std::uint64_t n )
{
  std::uint64_t v = 0;

  if( current.replay )
  {
    if( current.position < current.inputSize )
      v = current.input[ current.position++ ];
    if( n )
      v %= n;
  }
  else
  {
    v = next();
    if( n )
      v = static_cast<std::uint64_t>( ( static_cast<unsigned __int128>( v ) * n ) >> 64 );
  }

  if( shared->tapeSize >= TapeCapacity )
    violate( "budget/decisions", "the run needed more decisions than a tape holds" );

  shared->tape[ shared->tapeSize++ ] = v;
  shared->hash = mix( shared->hash, v ^ ( n << 1 ) );
  return v;
}

// -- trace ------------------------------------------------------------------

void event( const char* tag, std::uint64_t a, std::uint64_t b )
{
  std::uint64_t h = shared->hash;
  for( const char* c = tag; *c; c++ )
    h = ( h ^ static_cast<unsigned char>( *c ) ) * 0x100000001b3ull;
  shared->hash = mix( mix( h, a ), b );
  shared->events++;
}

void observe( const std::string& s )
{
  shared->hash = mix( shared->hash, hashString( s ) );
}

void count( const char* kind, std::uint64_t n )
{
  for( auto&& c : shared->counters )
  {
    if( c.name[0] == 0 )
      std::strncpy( c.name, kind, sizeof( c.name ) - 1 );
    if( std::strncmp( c.name, kind, sizeof( c.name ) - 1 ) == 0 )
    {
      c.n += n;
      return;
    }
  }
}

void nontrivial() { shared->nontrivial = 1; }
void signature( std::uint64_t s ) { shared->signature = mix( shared->signature, s ); }

void story( const char* format, ... )
{
  va_list ap;
  va_start( ap, format );
  std::size_t used = std::strlen( shared->story );
  if( used + 2 < sizeof( shared->story ) )
  {
    std::vsnprintf( shared->story + used, sizeof( shared->story ) - used - 1, format, ap );
    std::strcat( shared->story, "\n" );
  }
  va_end( ap );
}

void finish( Status status )
{
  shared->status = status;
  _exit( 0 );
}

void violate( const std::string& cls, const std::string& message )
{
  if( shared->status == Running )
  {
    std::strncpy( shared->cls, cls.c_str(), sizeof( shared->cls ) - 1 );
    std::strncpy( shared->message, message.c_str(), sizeof( shared->message ) - 1 );
    observe( cls );
  }
  finish( Violation );
}

void discard() { finish( Discarded ); }

const std::string& property() { return current.property; }

std::vector<Scenario>& scenarios()
{
  static std::vector<Scenario> s;
  return s;
}

Register::Register( const char* p, const char* n, void ( *r )(), unsigned w )
{
  scenarios().push_back( { p, n, r, w } );
}

std::vector<void(*)()>& startFunctions()
{
  static std::vector<void(*)()> s;
  return s;
}

AtStart::AtStart( void ( *f )() ) { startFunctions().push_back( f ); }

// -- heap -------------------------------------------------------------------

namespace heap
{

// Blocks: [ header | user memory | red zone ], everything 16-byte aligned.

struct Header
{
  std::uint64_t size;      // user bytes
  std::uint64_t total;     // bytes from header to end of red zone
  std::uint64_t serial;
  std::uint32_t state;     // Live or Free
  std::uint32_t padding;
  Header* next;
  Header* nextAll;         // unused, keeps the size a multiple of 16
};

static const std::uint32_t Live = 0xA11C0DEDu;
static const std::uint32_t Free = 0xF4EEF4EEu;

static const std::size_t   ArenaSize = std::size_t( 512 ) << 20;
static const std::uint64_t AllocationLimit = 8000000;
static unsigned char* const ArenaBase = reinterpret_cast<unsigned char*>( 0x200000000000ull );
static const std::size_t   Classes  = 512;

static bool          mapped   = false;
static bool          active   = false;
static unsigned char* up      = nullptr;
static unsigned char* down    = nullptr;
static Header*       freeHead[ Classes + 1 ];
static Header*       freeTail[ Classes + 1 ];
static std::uint64_t nLive, nBytes, nAllocations, nSerial, nFreed;

static unsigned fillKind, reuseKind, growKind;
static std::uint64_t fillSeed;

static bool          armed    = false;
static bool          sticky   = false;
static bool          hasFired = false;
static std::uint64_t countdown = 0;
static int           paused   = 0;

bool isArena( const void* p )
{
  auto q = static_cast<const unsigned char*>( p );
  return q >= ArenaBase && q < ArenaBase + ArenaSize;
}

void map()
{
  void* p = mmap( ArenaBase, ArenaSize, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0 );
  if( p != ArenaBase )
  {
    std::fprintf( stderr, "sim: cannot map the arena\n" );
    std::exit( 3 );
  }
  mapped = true;
}

void begin()
{
  up   = ArenaBase;
  down = ArenaBase + ArenaSize;
  std::memset( freeHead, 0, sizeof( freeHead ) );
  std::memset( freeTail, 0, sizeof( freeTail ) );
  nLive = nBytes = nAllocations = nSerial = nFreed = 0;
  armed = sticky = hasFired = false;

  fillKind  = static_cast<unsigned>( choose( 8 ) );
  reuseKind = static_cast<unsigned>( choose( 4 ) );
  growKind  = static_cast<unsigned>( choose( 3 ) );
  fillSeed  = fillKind >= 5 ? choose( 1u << 20 ) : 0;

  if( fillKind )  count( "heap.fill-pattern" );
  if( reuseKind ) count( "heap.reuse-order" );
  if( growKind )  count( "heap.placement" );
  active = true;
}

static void fill( unsigned char* p, std::size_t n, std::uint64_t s )
{
  switch( fillKind )
  {
  case 0: std::memset( p, 0x00, n ); break;
  case 1: std::memset( p, 0xFF, n ); break;
  case 2: std::memset( p, 0xA5, n ); break;
  case 3: break;                                  // keep old contents
  case 4:                                         // looks like doubles
    for( std::size_t i = 0; i + 8 <= n; i += 8 )
    {
      double d = 1.0 + double( ( i / 8 + s ) % 7 );
      std::memcpy( p + i, &d, 8 );
    }
    break;
  case 5:                                         // looks like small indices
    for( std::size_t i = 0; i + 4 <= n; i += 4 )
    {
      std::uint32_t d = static_cast<std::uint32_t>( ( s + i / 4 + fillSeed ) % 5 );
      std::memcpy( p + i, &d, 4 );
    }
    break;
  default:
    {
      std::uint64_t x = mix( fillSeed, s );
      for( std::size_t i = 0; i < n; i++ )
      {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        p[i] = static_cast<unsigned char>( x >> 56 );
      }
    }
  }
}

static std::size_t classOf( std::size_t rounded ) { return rounded / 16; }

void* allocate( std::size_t n )
{
  if( n > ( std::size_t( 128 ) << 20 ) )
  {
    count( "heap.refused-huge" );
    return nullptr;
  }

  std::size_t rounded = ( n + 15 ) / 16 * 16;
  if( rounded == 0 ) rounded = 16;
  if( rounded > Classes * 16 )
  {
    std::size_t p = Classes * 16;
    while( p < rounded ) p *= 2;
    rounded = p;
  }

  const std::size_t redzone = 32;
  std::size_t total = sizeof( Header ) + rounded + redzone;
  Header* h = nullptr;

  if( rounded <= Classes * 16 && reuseKind != 3 )
  {
    std::size_t c = classOf( rounded );
    if( freeHead[c] && ( reuseKind != 1 || nFreed % 3 != 0 ) )
    {
      h = freeHead[c];
      UNPOISON( h, sizeof( Header ) );
      freeHead[c] = h->next;
      if( !freeHead[c] ) freeTail[c] = nullptr;
    }
  }

  if( !h )
  {
    if( up + total + 4096 > down )
      violate( "budget/memory", "the run used more memory than the simulated machine has" );

    bool fromTop = growKind == 1 || ( growKind == 2 && ( mix( nSerial, 77 ) & 1 ) );
    if( fromTop ) { down -= total; h = reinterpret_cast<Header*>( down ); }
    else          { h = reinterpret_cast<Header*>( up ); up += total; }
    UNPOISON( h, sizeof( Header ) );
    h->total = total;
  }

  // Ends computations without end at the same point each time, long before
  // they use up their CPU time.
  if( nSerial > AllocationLimit )
  {
    nSerial = 0;   // the report allocates as well
    violate( "budget/allocations", "the run needed more allocations than any computation of its size does" );
  }

  h->size   = n;
  h->serial = ++nSerial;
  h->state  = Live;
  h->next   = nullptr;

  unsigned char* p = reinterpret_cast<unsigned char*>( h + 1 );
  UNPOISON( p, rounded );
  fill( p, rounded, h->serial );
  unsigned char* end = reinterpret_cast<unsigned char*>( h ) + h->total;
  UNPOISON( p + rounded, end - ( p + rounded ) );
  std::memset( p + n, 0xFD, end - ( p + n ) );     // canary
  POISON( p + n, end - ( p + n ) );
  POISON( h, sizeof( Header ) );

  nLive++;
  nBytes += n;

  if( memoryHook )
    memoryHook( p, n, true );

  return p;
}

void release( void* q )
{
  unsigned char* p = static_cast<unsigned char*>( q );
  Header* h = reinterpret_cast<Header*>( p ) - 1;
  if( !isArena( h ) || ( reinterpret_cast<std::uintptr_t>( p ) & 15 ) )
    violate( "memory/bad-free", "released memory that was never allocated" );

  UNPOISON( h, sizeof( Header ) );

  if( h->state == Free )
    violate( "memory/double-free", "memory released twice" );
  if( h->state != Live )
    violate( "memory/bad-free", "released a pointer into the middle of a block" );

  unsigned char* end = reinterpret_cast<unsigned char*>( h ) + h->total;
  UNPOISON( p + h->size, end - ( p + h->size ) );
  for( unsigned char* c = p + h->size; c != end; c++ )
    if( *c != 0xFD )
      violate( "memory/overflow", "memory written past the end of a block" );

  if( memoryHook )
    memoryHook( p, h->size, false );

  nLive--;
  nBytes -= h->size;
  nFreed++;
  h->state = Free;

  std::size_t rounded = h->total - sizeof( Header ) - 32;
  UNPOISON( p, rounded );
  if( fillKind != 3 )
    std::memset( p, 0xDD, rounded );

  if( rounded <= Classes * 16 && reuseKind != 3 )
  {
    std::size_t c = classOf( rounded );
    if( reuseKind == 0 || reuseKind == 1 )
    {
      h->next = freeHead[c];
      freeHead[c] = h;
      if( !freeTail[c] ) freeTail[c] = h;
    }
    else
    {
      h->next = nullptr;
      if( freeTail[c] )
      {
        Header* t = freeTail[c];
        UNPOISON( t, sizeof( Header ) );
        t->next = h;
        POISON( t, sizeof( Header ) );
      }
      else
        freeHead[c] = h;
      freeTail[c] = h;
    }
  }

  POISON( h, h->total );
}

std::uint64_t liveBlocks()  { return nLive; }
std::uint64_t liveBytes()   { return nBytes; }
std::uint64_t allocations() { return nAllocations; }
std::uint64_t serial()      { return nSerial; }
bool fired()                { return hasFired; }

void failAt( std::uint64_t k, bool s )
{
  armed = true; countdown = k; sticky = s; hasFired = false;
}

bool disarm()
{
  armed = false;
  return hasFired;
}

void pause( bool p ) { paused += p ? 1 : -1; }

// True if this allocation must fail.
static bool tick()
{
  if( paused ) return false;
  nAllocations++;
  if( !armed ) return false;
  if( countdown == 0 )
  {
    if( !hasFired || sticky )
    {
      hasFired = true;
      count( "heap.allocation-failure" );
      event( "alloc-fail", nAllocations );
      nontrivial();
      if( !sticky ) armed = false;
      return true;
    }
    return false;
  }
  countdown--;
  return false;
}

__attribute__((noinline)) void paintStack()
{
  volatile unsigned char area[ 64 * 1024 ];
  unsigned kind = static_cast<unsigned>( choose( 4 ) );
  if( kind )
    count( "stack.fill-pattern" );
  for( std::size_t i = 0; i < sizeof( area ); i++ )
    area[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? ( ( i & 7 ) == 7 ? 0x3F : ( i & 7 ) == 6 ? 0xF0 : 0 ) : static_cast<unsigned char>( mix( i, 99 ) );
}

} // namespace heap

// -- hash tables --------------------------------------------------------------

namespace hashing
{
static unsigned policy = 0;

void set( unsigned p ) { policy = p; }

void begin()
{
  policy = static_cast<unsigned>( choose( 24 ) );
  if( policy )
    count( "hash.layout" );
}

static std::size_t buckets( std::size_t n )
{
  if( n < 1 ) n = 1;
  switch( policy % 8 )
  {
  case 1:  return n + policy / 8;
  case 2:  return 2 * n + 1 + policy / 8;
  case 3:  { std::size_t p = 1; while( p < n ) p *= 2; return p << ( policy / 8 ); }
  case 4:  return n + mix( policy, n ) % ( n + 3 );
  case 5:  return 7 * n + 3 + policy / 8;
  case 6:  return n / 3 + 1 + policy / 8;
  case 7:  return 97 + 13 * n + policy / 8;
  default: break;
  }
  static const std::size_t primes[] = { 1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153, 2938679, 5967347, 12117689 };
  std::size_t skip = policy / 8;
  for( std::size_t i = 0; i < sizeof( primes ) / sizeof( primes[0] ); i++ )
    if( primes[i] >= n && skip-- == 0 )
      return primes[i];
  return 2 * n + 1;
}
} // namespace hashing

// -- random source --------------------------------------------------------------

namespace randomness
{
static unsigned kind = 0;
static std::uint64_t n = 0;

void style( unsigned s ) { kind = s; }
std::uint64_t draws() { return n; }

void begin()
{
  kind = static_cast<unsigned>( choose( 6 ) );
  n    = 0;
}

std::uint64_t draw( std::uint64_t max )
{
  n++;
  if( n > 200000 )
    violate( "budget/random", "more than 200000 random draws" );

  std::uint64_t v = 0;
  switch( kind )
  {
  case 1:  // mixture of extremes and ordinary values
    switch( choose( 4 ) )
    {
    case 0: v = 0; break;
    case 1: v = max; break;
    default: v = choose( max + 1 );
    }
    break;
  case 2:  // few distinct values
    v = max / 4 * choose( 5 );
    break;
  case 3:  // long runs of small values
    v = flip( 1, 4 ) ? choose( max + 1 ) : choose( 2 );
    break;
  case 4:  // long runs of large values
    v = max - ( flip( 1, 4 ) ? choose( max + 1 ) : choose( 2 ) );
    break;
  default:
    v = choose( max + 1 );
  }
  count( "random.draw" );
  return v;
}
} // namespace randomness

namespace clock
{
static std::uint64_t t = 1000000000ull;
void advance( std::uint64_t ns ) { t += ns; shared->simulatedNanoseconds += ns; }
std::uint64_t now() { return t; }
static std::int64_t wall = 0;
void jump( std::int64_t ns ) { wall += ns; count( "clock.jump" ); event( "clock.jump", static_cast<std::uint64_t>( ns ) ); }
std::int64_t offset() { return wall; }
}

// -- failure handlers -------------------------------------------------------------

static void onTerminate()
{
  std::string what = "std::terminate";
  if( auto* t = abi::__cxa_current_exception_type() )
  {
    what += " with ";
    int status = 0;
    char* name = abi::__cxa_demangle( t->name(), nullptr, nullptr, &status );
    what += name ? name : t->name();
    try { throw; }
    catch( const std::exception& e ) { what += std::string( ": " ) + e.what(); }
    catch( ... ) {}
  }
  violate( "crash/terminate", what );
}

#if defined(__SANITIZE_ADDRESS__)
static void onAsan( const char* report )
{
  std::strncpy( shared->message, report, sizeof( shared->message ) - 1 );
  const char* at = std::strstr( report, "AddressSanitizer: " );
  char kind[64] = "error";
  if( at )
    std::sscanf( at + 18, "%63[a-z-A-Z]", kind );
  std::snprintf( shared->cls, sizeof( shared->cls ), "memory/%s", kind );
  observe( shared->cls );
  shared->status = Violation;
}
#endif

void installHandlers()
{
  std::set_terminate( onTerminate );
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_error_report_callback( onAsan );
#endif
}

void ( *memoryHook )( void*, std::size_t, bool ) = nullptr;

#ifndef SIM_THREADS
namespace threads
{
bool available() { return false; }
std::uint64_t switches() { return 0; }
void runIndexed( unsigned n, void ( *f )( unsigned, void* ), void* arg ) { for( unsigned i = 0; i < n; i++ ) f( i, arg ); }
}
#endif

} // namespace sim

// -- definitions that take the place of library functions ----------------------------

extern "C" void __assert_fail( const char* expression, const char* file, unsigned line, const char* function ) noexcept
{
  (void) function;
  if( sim::shared && sim::heap::active )
  {
    const char* base = std::strrchr( file, '/' );
    sim::violate( "crash/assert", std::string( base ? base + 1 : file ) + ":" + std::to_string( line ) + ": " + expression );
  }
  std::fprintf( stderr, "assertion failed: %s:%u: %s\n", file, line, expression );
  std::abort();
}

static void* simNew( std::size_t n, bool nothrow )
{
  using namespace sim::heap;
  if( !active )
  {
    void* p = std::malloc( n ? n : 1 );
    if( !p && !nothrow ) throw std::bad_alloc();
    return p;
  }
  if( tick() )
  {
    if( nothrow ) return nullptr;
    throw std::bad_alloc();
  }
  void* p = allocate( n );
  if( !p && !nothrow ) throw std::bad_alloc();
  return p;
}

static void simDelete( void* p ) noexcept
{
  if( !p ) return;
  if( sim::heap::isArena( p ) ) sim::heap::release( p );
  else if( !sim::heap::active ) std::free( p );
  // memory from before the run started: the parent's, left alone
}

void* operator new( std::size_t n )                                        { return simNew( n, false ); }
void* operator new[]( std::size_t n )                                      { return simNew( n, false ); }
void* operator new( std::size_t n, const std::nothrow_t& ) noexcept         { return simNew( n, true ); }
void* operator new[]( std::size_t n, const std::nothrow_t& ) noexcept       { return simNew( n, true ); }
void operator delete( void* p ) noexcept                                   { simDelete( p ); }
void operator delete[]( void* p ) noexcept                                 { simDelete( p ); }
void operator delete( void* p, std::size_t ) noexcept                      { simDelete( p ); }
void operator delete[]( void* p, std::size_t ) noexcept                    { simDelete( p ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept             { simDelete( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept           { simDelete( p ); }

namespace std
{
namespace __detail
{

std::size_t _Prime_rehash_policy::_M_next_bkt( std::size_t n ) const
{
  std::size_t b = sim::hashing::buckets( n );
  if( b < 1 ) b = 1;
  double limit = double( b ) * double( _M_max_load_factor );
  if( sim::hashing::policy % 8 == 6 )
    limit *= 4;
  _M_next_resize = limit < 1 ? 1 : static_cast<std::size_t>( limit );
  return b;
}

std::pair<bool, std::size_t>
_Prime_rehash_policy::_M_need_rehash( std::size_t nBkt, std::size_t nElt, std::size_t nIns ) const
{
  if( nElt + nIns > _M_next_resize )
  {
    std::size_t want = nElt + nIns;
    std::size_t grow = nBkt + nBkt / 2 + 1;
    std::size_t need = static_cast<std::size_t>( double( want ) / double( _M_max_load_factor ) ) + 1;
    std::size_t b = _M_next_bkt( grow > need ? grow : need );
    while( _M_next_resize < want )
      b = _M_next_bkt( b + need );
    return { true, b };
  }
  return { false, 0 };
}

} // namespace __detail

void random_device::_M_init( const std::string& )              {}
void random_device::_M_init( const char*, std::size_t )        {}
void random_device::_M_init_pretr1( const std::string& )       {}
void random_device::_M_fini()                                  {}
random_device::result_type random_device::_M_getval()          { sim::count( "random.device" ); return static_cast<result_type>( sim::choose( 1ull << 32 ) ); }
random_device::result_type random_device::_M_getval_pretr1()   { return _M_getval(); }
double random_device::_M_getentropy() const noexcept           { return 0.0; }

namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
  if( !sim::heap::active )
  {
    timespec t;
    syscall( SYS_clock_gettime, 1, &t );
    return time_point( duration( std::int64_t( t.tv_sec ) * 1000000000 + t.tv_nsec ) );
  }
  return time_point( duration( sim::clock::now() ) );
}

system_clock::time_point system_clock::now() noexcept
{
  if( !sim::heap::active )
  {
    timespec t;
    syscall( SYS_clock_gettime, 0, &t );
    return time_point( std::chrono::duration_cast<duration>( std::chrono::nanoseconds( std::int64_t( t.tv_sec ) * 1000000000 + t.tv_nsec ) ) );
  }
  return time_point( std::chrono::duration_cast<duration>( std::chrono::nanoseconds( static_cast<std::int64_t>( sim::clock::now() ) + sim::clock::offset() ) ) );
}
} // namespace _V2
} // namespace chrono
} // namespace std
