// Seeded scheduler, happens-before race detector and OpenMP runtime.
//
// Scenario code is compiled with -fsanitize=thread, but linked with the
// functions below instead of the sanitizer's runtime: every memory access of
// the code under test is a point at which the scheduler may switch threads,
// and is checked against a vector-clock shadow.  Threads are real threads
// that pass a baton, so that exactly one of them runs at any time.

#include "internal.hh"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>

#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{

const unsigned MaxThreads = 24;
const std::size_t StackSize = 512 * 1024;

using Clock = std::uint64_t[ MaxThreads ];

struct Team;

struct Thread
{
  std::atomic<int> go;
  bool used, runnable, done;
  const void* waitsFor;
  Clock vc;
  pthread_t handle;
  void ( *f )( void* );
  void* arg;
  Team* team;
  unsigned number;              // within its team
  unsigned depth;
  void* frames[64];
};

// One parallel region of the OpenMP runtime.
struct Team
{
  unsigned size, arrived;
  std::uint64_t generation;
  Team* outer;
  // work-sharing loops
  unsigned loopsStarted[ MaxThreads ];
  struct Loop { bool used; unsigned index, left; long next, end, incr, chunk; bool guided; } loops[4];
  bool singleTaken[64];
  unsigned singles[ MaxThreads ];
};

Thread   threads[ MaxThreads ];
unsigned nThreads  = 0;      // slots used so far
unsigned live      = 0;      // threads that are not done
bool     simulating = false; // more than one thread exists
thread_local unsigned self = 0;

std::uint64_t untilSwitch = ~0ull, steps = 0, nSwitches = 0;
unsigned style = 0;
std::uint64_t meanRun = 0;

void futexWait( std::atomic<int>& a, int v ) { syscall( SYS_futex, &a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0 ); }
void futexWake( std::atomic<int>& a ) { syscall( SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0 ); }

void waitForBaton( unsigned t )
{
  while( threads[t].go.load( std::memory_order_acquire ) == 0 ) futexWait( threads[t].go, 0 );
  threads[t].go.store( 0, std::memory_order_relaxed );
}

void passBaton( unsigned t )
{
  threads[t].go.store( 1, std::memory_order_release );
  futexWake( threads[t].go );
}

// -- schedule -------------------------------------------------------------

void drawRunLength()
{
  untilSwitch = ~0ull;
  if( nSwitches > 1500 ) return;
  switch( style )
  {
  case 0: return;                                        // no preemption
  case 1:                                                // few, far apart
    if( nSwitches > 12 ) return;
    if( auto k = sim::choose( 16 ) ) untilSwitch = ( 1ull << k ) + sim::choose( 1ull << k );
    return;
  default:
    {
      auto k = sim::choose( 32 * meanRun );
      if( k >= meanRun ) untilSwitch = 1 + k % ( 2 * meanRun );
    }
  }
}

// Chooses a runnable thread; the current one is not eligible if it waits.
unsigned chooseThread( bool other )
{
  unsigned eligible[ MaxThreads ], n = 0;
  for( unsigned k = 1; k <= nThreads; k++ )
  {
    unsigned t = ( self + k ) % nThreads;
    if( threads[t].used && threads[t].runnable && !threads[t].done && !( other && t == self ) )
      eligible[ n++ ] = t;
  }
  if( n == 0 ) return MaxThreads;
  return eligible[ n == 1 ? 0 : sim::choose( n ) ];
}

void switchTo( unsigned t )
{
  if( t == self ) { drawRunLength(); return; }
  nSwitches++;
  sim::event( "switch", t, steps );
  sim::count( "sched.switch" );
  sim::nontrivial();
  drawRunLength();
  unsigned me = self;
  passBaton( t );
  if( !threads[me].done )
    waitForBaton( me );
}

void preempt()
{
  unsigned t = chooseThread( true );
  if( t == MaxThreads ) { drawRunLength(); return; }
  sim::count( "sched.preemption" );
  switchTo( t );
}

inline void step()
{
  steps++;
  if( --untilSwitch == 0 )
    preempt();
}

// The current thread cannot go on.
void block( const void* key )
{
  auto& me = threads[ self ];
  me.runnable = false;
  me.waitsFor = key;
  unsigned t = chooseThread( true );
  if( t == MaxThreads )
    sim::violate( "deadlock", "all threads wait for each other" );
  switchTo( t );
  me.waitsFor = nullptr;
}

void wake( const void* key )
{
  for( unsigned t = 0; t < nThreads; t++ )
    if( threads[t].used && !threads[t].runnable && threads[t].waitsFor == key )
      threads[t].runnable = true;
}

// -- vector clocks ----------------------------------------------------------

void join( Clock& a, const Clock& b )
{
  for( unsigned i = 0; i < MaxThreads; i++ ) if( b[i] > a[i] ) a[i] = b[i];
}

struct Sync { const void* address; Clock vc; bool locked; unsigned owner, depth, readers; Sync* next; };

const unsigned SyncBuckets = 4096;
Sync* syncs[ SyncBuckets ];
Sync* freeSyncs = nullptr;

void markSync( std::uintptr_t a );

Sync*& bucket( const void* a )
{
  return syncs[ sim::mix( reinterpret_cast<std::uintptr_t>( a ), 5 ) % SyncBuckets ];
}

Sync& sync( const void* a )
{
  auto& first = bucket( a );
  for( auto* s = first; s; s = s->next ) if( s->address == a ) return *s;
  if( !freeSyncs )
  {
    const std::size_t n = 1024;
    auto* pool = static_cast<Sync*>( mmap( nullptr, n * sizeof( Sync ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
    for( std::size_t i = 0; i < n; i++ ) { pool[i].next = freeSyncs; freeSyncs = pool + i; }
  }
  auto* s = freeSyncs;
  freeSyncs = s->next;
  std::memset( static_cast<void*>( s ), 0, sizeof( Sync ) );
  s->address = a;
  s->next = first;
  first = s;
  markSync( reinterpret_cast<std::uintptr_t>( a ) );
  return *s;
}

// The memory is used for something else now.
void forgetSync( std::uintptr_t word )
{
  for( std::uintptr_t a = word; a < word + 8; a++ )
    for( auto** s = &bucket( reinterpret_cast<void*>( a ) ); *s; s = &( *s )->next )
      if( ( *s )->address == reinterpret_cast<void*>( a ) )
      {
        auto* gone = *s;
        *s = gone->next;
        gone->next = freeSyncs;
        freeSyncs = gone;
        break;
      }
}

void acquire( const void* a ) { join( threads[ self ].vc, sync( a ).vc ); }
void release( const void* a ) { join( sync( a ).vc, threads[ self ].vc ); threads[ self ].vc[ self ]++; }

// -- shadow ---------------------------------------------------------------------

// Four cells per eight bytes: thread, first byte, size, kind, epoch.
struct Cell
{
  std::uint64_t epoch : 42;
  std::uint64_t mask  : 8;
  std::uint64_t tid   : 8;
  std::uint64_t write : 1;
  std::uint64_t atomic: 1;
};

struct Page { Cell cells[512][4]; bool anySync; bool sync[512]; };

const std::size_t PageTable = 1u << 16;
struct Entry { std::uintptr_t number; Page* page; } pages[ PageTable ];
unsigned char* pool = nullptr;
std::size_t poolLeft = 0;

Page* findPage( std::uintptr_t number, bool create )
{
  static std::uintptr_t lastNumber = 0;
  static Page* lastPage = nullptr;
  if( number == lastNumber && lastPage ) return lastPage;
  std::size_t i = sim::mix( number, 9 ) % PageTable;
  for( std::size_t k = 0; k < PageTable; k++, i = ( i + 1 ) % PageTable )
  {
    if( pages[i].number == number ) { lastNumber = number; return lastPage = pages[i].page; }
    if( !pages[i].number )
    {
      if( !create ) return nullptr;
      if( poolLeft < sizeof( Page ) )
      {
        poolLeft = sizeof( Page ) * 1024;
        pool = static_cast<unsigned char*>( mmap( nullptr, poolLeft, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
      }
      pages[i].number = number;
      pages[i].page   = reinterpret_cast<Page*>( pool );
      pool     += sizeof( Page );
      poolLeft -= sizeof( Page );
      lastNumber = number;
      return lastPage = pages[i].page;
    }
  }
  std::abort();
}

void markSync( std::uintptr_t a )
{
  auto* p = findPage( a >> 12, true );
  p->anySync = true;
  p->sync[ ( a >> 3 ) & 511 ] = true;
}

std::string where( const Thread& t )
{
  std::string s;
  char b[32];
  unsigned n = t.depth < 64 ? t.depth : 64;
  for( unsigned k = 0; k < 8 && k < n; k++ )
  {
    std::snprintf( b, sizeof( b ), " %p", t.frames[ n - 1 - k ] );
    s += b;
  }
  return s;
}

[[noreturn]] void report( std::uintptr_t a, unsigned size, const Cell& c, bool write, bool atomic, void* pc )
{
  const char* region = sim::heap::isArena( reinterpret_cast<void*>( a ) ) ? "heap" : a < 0x10000000 ? "global" : "stack";
  char b[256];
  std::snprintf( b, sizeof( b ), "thread %u %s %u bytes in %s memory without synchronisation with an earlier %s by thread %u; at %p, called from",
                 self, write ? ( atomic ? "atomically writes" : "writes" ) : ( atomic ? "atomically reads" : "reads" ), size, region, c.write ? "write" : "read", unsigned( c.tid ), pc );
  sim::violate( std::string( "race/" ) + region, b + where( threads[ self ] ) + "; other thread now in" + where( threads[ c.tid ] ) );
}

void checkWord( std::uintptr_t a, unsigned offset, unsigned n, bool write, bool atomic, void* pc )
{
  auto* page  = findPage( a >> 12, true );
  auto& cells = page->cells[ ( a >> 3 ) & 511 ];
  auto& vc    = threads[ self ].vc;
  unsigned mask = ( ( 1u << n ) - 1 ) << offset;
  Cell mine;
  mine.epoch = vc[ self ]; mine.mask = mask; mine.tid = self; mine.write = write; mine.atomic = atomic;

  int slot = -1;
  for( int i = 0; i < 4; i++ )
  {
    Cell& c = cells[i];
    if( c.epoch == 0 ) { if( slot < 0 ) slot = i; continue; }
    if( c.tid == self )
    {
      // An access of the same thread that is covered by this one.
      if( ( c.mask & ~mask ) == 0 && ( write || !c.write ) && c.atomic == atomic ) slot = i;
      else if( c.epoch == mine.epoch && ( mask & ~c.mask ) == 0 && ( c.write || !write ) && c.atomic == atomic ) return;
      continue;
    }
    if( c.epoch <= vc[ c.tid ] )
    {
      // Ordered before this access: no longer needed if covered.
      if( ( c.mask & ~mask ) == 0 && ( write || !c.write ) && slot < 0 ) slot = i;
      continue;
    }
    if( ( c.mask & mask ) && ( c.write || write ) && !( c.atomic && atomic ) )
      report( a + offset, n, c, write, atomic, pc );
  }
  if( slot < 0 ) slot = int( sim::mix( steps, a ) & 3 );
  cells[ slot ] = mine;
}

void access( std::uintptr_t a, std::size_t n, bool write, bool atomic, void* pc )
{
  while( n )
  {
    unsigned offset = unsigned( a & 7 );
    unsigned k = unsigned( n < 8 - offset ? n : 8 - offset );
    checkWord( a - offset, offset, k, write, atomic, pc );
    a += k;
    n -= k;
  }
}

void forget( std::uintptr_t a, std::size_t n )
{
  std::uintptr_t first = a & ~std::uintptr_t( 7 ), last = ( a + n + 7 ) & ~std::uintptr_t( 7 );
  while( first < last )
  {
    std::uintptr_t pageEnd = ( ( first >> 12 ) + 1 ) << 12;
    std::uintptr_t end = last < pageEnd ? last : pageEnd;
    if( auto* p = findPage( first >> 12, false ) )
    {
      std::memset( static_cast<void*>( p->cells[ ( first >> 3 ) & 511 ] ), 0, ( end - first ) / 8 * sizeof( p->cells[0] ) );
      if( p->anySync )
        for( std::uintptr_t a = first; a < end; a += 8 )
        {
          auto& marked = p->sync[ ( a >> 3 ) & 511 ];
          if( marked ) forgetSync( a );
          marked = false;
        }
    }
    first = end;
  }
}

void onMemory( void* p, std::size_t n, bool allocated )
{
  if( !simulating ) return;
  auto a = reinterpret_cast<std::uintptr_t>( p );
  if( allocated ) forget( a, n );
  else access( a, n, true, false, __builtin_return_address( 0 ) );
}

inline void touch( const void* p, std::size_t n, bool write, bool atomic, void* pc )
{
  if( !simulating ) return;
  step();
  access( reinterpret_cast<std::uintptr_t>( p ), n, write, atomic, pc );
}

// -- threads ------------------------------------------------------------------------

void begin()
{
  sim::memoryHook = onMemory;
  std::memset( static_cast<void*>( threads ), 0, sizeof( threads ) );
  threads[0].used = threads[0].runnable = true;
  threads[0].vc[0] = 1;
  nThreads = live = 1;
  self = 0;
}

void drawStyle()
{
  switch( sim::choose( 6 ) )
  {
  case 0: style = 0; break;
  case 1: style = 1; break;
  case 2: style = 2; meanRun = 2; break;
  case 3: style = 2; meanRun = 12; break;
  case 4: style = 2; meanRun = 100; break;
  case 5: style = 2; meanRun = 1500; break;
  }
  sim::event( "style", style, meanRun );
}

void* entry( void* p )
{
  self = unsigned( reinterpret_cast<std::uintptr_t>( p ) );
  waitForBaton( self );
  auto& me = threads[ self ];
  me.f( me.arg );
  me.vc[ self ]++;
  me.done = true;
  me.runnable = false;
  live--;
  wake( &me );
  unsigned t = chooseThread( true );
  if( t == MaxThreads )
    sim::violate( "deadlock", "all threads wait for each other" );
  switchTo( t );
  return nullptr;
}

unsigned spawn( void ( *f )( void* ), void* arg )
{
  if( nThreads == 0 ) begin();
  unsigned t = 1;
  while( t < MaxThreads && threads[t].used ) t++;
  if( t == MaxThreads ) sim::violate( "budget/threads", "too many threads" );
  auto& n = threads[t];
  std::uint64_t epoch = n.vc[t];
  std::memcpy( n.vc, threads[ self ].vc, sizeof( Clock ) );
  n.vc[t] = epoch + 1;
  threads[ self ].vc[ self ]++;
  n.used = n.runnable = true;
  n.done = false;
  n.f = f; n.arg = arg; n.team = nullptr; n.number = 0; n.depth = 0;
  n.go.store( 0 );
  if( t >= nThreads ) nThreads = t + 1;
  live++;

  auto* base = reinterpret_cast<unsigned char*>( 0x300000000000ull + t * 0x1000000ull );
  if( !epoch )
  {
    void* p = mmap( base, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0 );
    if( p != base ) { std::perror( "mmap" ); std::abort(); }
  }
  else
    forget( reinterpret_cast<std::uintptr_t>( base ), StackSize );
  static const unsigned char pattern[] = { 0x00, 0xFF, 0xA5, 0x3F };
  std::memset( base + StackSize / 2, pattern[ t & 3 ], StackSize / 2 );

  pthread_attr_t attributes;
  pthread_attr_init( &attributes );
  pthread_attr_setstack( &attributes, base, StackSize );
  if( pthread_create( &n.handle, &attributes, entry, reinterpret_cast<void*>( std::uintptr_t( t ) ) ) != 0 ) { std::perror( "pthread_create" ); std::abort(); }
  simulating = true;
  sim::event( "spawn", t );
  return t;
}

void reap( unsigned t )
{
  auto& n = threads[t];
  while( !n.done ) block( &n );
  join( threads[ self ].vc, n.vc );
  pthread_join( n.handle, nullptr );
  n.used = false;
  if( live == 1 ) { simulating = false; untilSwitch = ~0ull; }
}

struct Indexed { void ( *f )( unsigned, void* ); unsigned i; void* arg; };

void runOne( void* p )
{
  auto* x = static_cast<Indexed*>( p );
  x->f( x->i, x->arg );
}

// -- OpenMP ---------------------------------------------------------------------------

struct Member { void ( *f )( void* ); void* data; Team* team; unsigned number; };

void runMember( void* p )
{
  auto* m = static_cast<Member*>( p );
  threads[ self ].team   = m->team;
  threads[ self ].number = m->number;
  m->f( m->data );
}

void barrier( Team& t )
{
  release( &t );
  t.arrived++;
  if( t.arrived == t.size )
  {
    t.arrived = 0;
    t.generation++;
    wake( &t.generation );
  }
  else
  {
    auto g = t.generation;
    while( t.generation == g ) block( &t.generation );
  }
  acquire( &t );
}

void parallelRegion( void ( *f )( void* ), void* data, unsigned n, Team* prepared = nullptr )
{
  if( nThreads == 0 ) begin();
  auto& me = threads[ self ];
  if( n == 0 )
    n = me.team ? 1 : 1 + unsigned( sim::choose( 6 ) );
  if( n > 8 ) n = 8;
  // Threads that are done keep their place until they have been waited for.
  unsigned used = 0;
  for( auto&& t : threads ) used += t.used;
  if( n + used > MaxThreads ) n = 1;
  sim::event( "parallel", n );
  sim::count( "omp.parallel-region" );
  if( n > 1 && !simulating ) { drawStyle(); }

  Team team = prepared ? *prepared : Team();
  team.size = n;
  for( auto&& l : team.loops ) l.left = l.used ? n : 0;
  auto* outer = me.team;
  auto number = me.number;
  team.outer = outer;

  Member members[8];
  unsigned ids[8];
  for( unsigned i = 1; i < n; i++ )
  {
    members[i] = { f, data, &team, i };
    ids[i] = spawn( runMember, &members[i] );
  }
  if( n > 1 )
  {
    drawRunLength();
    unsigned t = chooseThread( false );
    switchTo( t );
  }
  threads[ self ].team   = &team;
  threads[ self ].number = 0;
  f( data );
  for( unsigned i = 1; i < n; i++ ) reap( ids[i] );
  threads[ self ].team   = outer;
  threads[ self ].number = number;
  forget( reinterpret_cast<std::uintptr_t>( &team ), sizeof( team ) );
}

Team& soloTeam()
{
  static Team t;
  t.size = 1;
  return t;
}

Team& currentTeam() { return nThreads && threads[ self ].team ? *threads[ self ].team : soloTeam(); }
unsigned currentNumber() { return nThreads && threads[ self ].team ? threads[ self ].number : 0; }

Team::Loop* findLoop( Team& t, unsigned index )
{
  for( auto&& l : t.loops ) if( l.used && l.index == index ) return &l;
  return nullptr;
}

bool loopNext( Team::Loop& l, long* start, long* end )
{
  if( l.incr > 0 ? l.next >= l.end : l.next <= l.end ) return false;
  long n = l.chunk > 0 ? l.chunk : 1;
  *start = l.next;
  long stop = l.next + n * l.incr;
  if( l.incr > 0 ? stop > l.end : stop < l.end ) stop = l.end;
  *end = stop;
  l.next = stop;
  return true;
}

bool loopStart( long a, long b, long incr, long chunk, long* start, long* end )
{
  auto& t = currentTeam();
  unsigned me = currentNumber();
  unsigned index = ++t.loopsStarted[me];
  auto* l = findLoop( t, index );
  if( !l )
    for( auto&& c : t.loops )
      if( !c.used )
      {
        c.used = true; c.index = index; c.left = t.size; c.next = a; c.end = b; c.incr = incr; c.chunk = chunk;
        l = &c;
        break;
      }
  if( !l ) std::abort();
  if( simulating ) step();
  return loopNext( *l, start, end );
}

bool loopContinue( long* start, long* end )
{
  auto& t = currentTeam();
  if( simulating ) step();
  return loopNext( *findLoop( t, t.loopsStarted[ currentNumber() ] ), start, end );
}

void loopEnd( bool wait )
{
  auto& t = currentTeam();
  auto* l = findLoop( t, t.loopsStarted[ currentNumber() ] );
  if( l && --l->left == 0 ) l->used = false;
  if( wait && t.size > 1 ) barrier( t );
}

void parallelLoop( void ( *f )( void* ), void* data, unsigned n, long a, long b, long incr, long chunk )
{
  Team t = Team();
  for( auto&& x : t.loopsStarted ) x = 1;
  t.loops[0].used = true; t.loops[0].index = 1; t.loops[0].next = a; t.loops[0].end = b; t.loops[0].incr = incr; t.loops[0].chunk = chunk;
  parallelRegion( f, data, n, &t );
}

void lock( const void* a )
{
  auto& s = sync( a );
  step();
  while( s.locked ) block( a );
  s.locked = true;
  s.owner  = self;
  acquire( a );
}

void unlock( const void* a )
{
  auto& s = sync( a );
  release( a );
  s.locked = false;
  wake( a );
  step();
}

int criticalKey = 0, atomicKey = 0;

} // namespace

namespace sim
{
namespace threads
{

bool available() { return true; }
std::uint64_t switches() { return nSwitches; }

void runIndexed( unsigned n, void ( *f )( unsigned, void* ), void* arg )
{
  if( nThreads == 0 ) begin();
  if( !simulating ) drawStyle();
  Indexed calls[ MaxThreads ];
  unsigned ids[ MaxThreads ];
  for( unsigned i = 0; i < n; i++ )
  {
    calls[i] = { f, i, arg };
    ids[i] = spawn( runOne, &calls[i] );
  }
  drawRunLength();
  for( unsigned i = 0; i < n; i++ ) reap( ids[i] );
  forget( reinterpret_cast<std::uintptr_t>( calls ), sizeof( calls ) );
}

} // namespace threads
} // namespace sim

// -- interface of the sanitizer ------------------------------------------------------------

#define PC __builtin_return_address( 0 )

extern "C"
{

void __tsan_init() {}

void __tsan_func_entry( void* pc )
{
  if( !simulating ) return;
  auto& t = threads[ self ];
  if( t.depth < 64 ) t.frames[ t.depth ] = pc;
  t.depth++;
}

void __tsan_func_exit()
{
  if( !simulating ) return;
  auto& t = threads[ self ];
  if( t.depth ) t.depth--;
}

#define ACCESS( n ) \
void __tsan_read##n( void* p )                     { touch( p, n, false, false, PC ); } \
void __tsan_write##n( void* p )                    { touch( p, n, true,  false, PC ); } \
void __tsan_unaligned_read##n( void* p )           { touch( p, n, false, false, PC ); } \
void __tsan_unaligned_write##n( void* p )          { touch( p, n, true,  false, PC ); } \
void __tsan_volatile_read##n( void* p )            { touch( p, n, false, false, PC ); } \
void __tsan_volatile_write##n( void* p )           { touch( p, n, true,  false, PC ); } \
void __tsan_unaligned_volatile_read##n( void* p )  { touch( p, n, false, false, PC ); } \
void __tsan_unaligned_volatile_write##n( void* p ) { touch( p, n, true,  false, PC ); }

ACCESS( 1 ) ACCESS( 2 ) ACCESS( 4 ) ACCESS( 8 ) ACCESS( 16 )

void __tsan_read_range( void* p, unsigned long n )  { touch( p, n, false, false, PC ); }
void __tsan_write_range( void* p, unsigned long n ) { touch( p, n, true,  false, PC ); }
void __tsan_vptr_update( void** p, void* )          { touch( p, 8, true,  false, PC ); }
void __tsan_vptr_read( void** p )                   { touch( p, 8, false, false, PC ); }

} // extern "C"

namespace
{
bool acquires( int order ) { return order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }
bool releases( int order ) { return order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }

inline void atomicAccess( const volatile void* p, std::size_t n, bool write, int order, void* pc )
{
  if( !simulating ) return;
  auto* a = const_cast<const void*>( p );
  touch( a, n, write, true, pc );
  if( acquires( order ) ) acquire( a );
  if( write && releases( order ) ) release( a );
}
}

#define ATOMIC( bits, T ) \
extern "C" T __tsan_atomic##bits##_load( const volatile T* p, int o ) { atomicAccess( p, sizeof( T ), false, o, PC ); return __atomic_load_n( p, __ATOMIC_SEQ_CST ); } \
extern "C" void __tsan_atomic##bits##_store( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_exchange( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_fetch_add( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_fetch_sub( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_fetch_and( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_fetch_or( volatile T* p, T v, int o )  { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_fetch_xor( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_fetch_nand( volatile T* p, T v, int o ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong( volatile T* p, T* c, T v, int o, int ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_compare_exchange_n( p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak( volatile T* p, T* c, T v, int o, int ) { atomicAccess( p, sizeof( T ), true, o, PC ); return __atomic_compare_exchange_n( p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val( volatile T* p, T c, T v, int o, int ) { atomicAccess( p, sizeof( T ), true, o, PC ); __atomic_compare_exchange_n( p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return c; }

ATOMIC( 8,  std::uint8_t )
ATOMIC( 16, std::uint16_t )
ATOMIC( 32, std::uint32_t )
ATOMIC( 64, std::uint64_t )

extern "C" void __tsan_atomic_thread_fence( int ) {}
extern "C" void __tsan_atomic_signal_fence( int ) {}

// -- calls that take the place of library functions ---------------------------------------

extern "C"
{

// The build renames these calls in the objects of the scenarios only.
void* sim_memcpy( void* d, const void* s, size_t n )
{
  if( simulating && n ) { touch( s, n, false, false, PC ); touch( d, n, true, false, PC ); }
  return std::memcpy( d, s, n );
}

void* sim_memmove( void* d, const void* s, size_t n )
{
  if( simulating && n ) { touch( s, n, false, false, PC ); touch( d, n, true, false, PC ); }
  return std::memmove( d, s, n );
}

void* sim_memset( void* d, int c, size_t n )
{
  if( simulating && n ) touch( d, n, true, false, PC );
  return std::memset( d, c, n );
}

int sim_memcmp( const void* a, const void* b, size_t n )
{
  if( simulating && n ) { touch( a, n, false, false, PC ); touch( b, n, false, false, PC ); }
  return std::memcmp( a, b, n );
}

void* sim_malloc( size_t n )
{
  void* p = std::malloc( n );
  if( simulating && p ) forget( reinterpret_cast<std::uintptr_t>( p ), n );
  return p;
}

void* sim_calloc( size_t m, size_t n )
{
  void* p = std::calloc( m, n );
  if( simulating && p ) forget( reinterpret_cast<std::uintptr_t>( p ), m * n );
  return p;
}

void* sim_realloc( void* q, size_t n )
{
  void* p = std::realloc( q, n );
  if( simulating && p ) forget( reinterpret_cast<std::uintptr_t>( p ), n );
  return p;
}

// Initialisation of local static variables.

int __cxa_guard_acquire( std::uint64_t* g )
{
  auto* byte = reinterpret_cast<volatile unsigned char*>( g );
  if( simulating ) step();
  for(;;)
  {
    if( byte[0] ) { if( simulating ) acquire( g ); return 0; }
    if( !byte[1] ) { byte[1] = 1; return 1; }
    if( !simulating ) std::abort();
    block( g );
  }
}

void __cxa_guard_release( std::uint64_t* g )
{
  auto* byte = reinterpret_cast<volatile unsigned char*>( g );
  byte[0] = 1;
  byte[1] = 0;
  if( simulating ) { release( g ); wake( g ); }
}

void __cxa_guard_abort( std::uint64_t* g )
{
  auto* byte = reinterpret_cast<volatile unsigned char*>( g );
  byte[1] = 0;
  if( simulating ) wake( g );
}

// Mutexes and friends.

#define NEXT( name ) reinterpret_cast<decltype( &name )>( dlsym( RTLD_NEXT, #name ) )

// The storage of exceptions does not come from the simulated heap.
void* __cxa_allocate_exception( std::size_t n ) noexcept
{
  static auto next = reinterpret_cast<void* (*)( std::size_t )>( dlsym( RTLD_NEXT, "__cxa_allocate_exception" ) );
  void* p = next( n );
  if( simulating ) forget( reinterpret_cast<std::uintptr_t>( p ), n );
  return p;
}

int pthread_mutex_lock( pthread_mutex_t* m ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_mutex_lock ); return f( m ); }
  auto& s = sync( m );
  if( s.locked && s.owner == self && ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE ) { s.depth++; return 0; }
  lock( m );
  s.depth = 1;
  return 0;
}

int pthread_mutex_trylock( pthread_mutex_t* m ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_mutex_trylock ); return f( m ); }
  auto& s = sync( m );
  step();
  if( s.locked ) return EBUSY;
  lock( m );
  s.depth = 1;
  return 0;
}

int pthread_mutex_unlock( pthread_mutex_t* m ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_mutex_unlock ); return f( m ); }
  auto& s = sync( m );
  if( s.depth > 1 ) { s.depth--; return 0; }
  s.depth = 0;
  unlock( m );
  return 0;
}

int pthread_rwlock_rdlock( pthread_rwlock_t* m ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_rwlock_rdlock ); return f( m ); }
  auto& s = sync( m );
  step();
  while( s.locked ) block( m );
  s.readers++;
  acquire( m );
  return 0;
}

int pthread_rwlock_wrlock( pthread_rwlock_t* m ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_rwlock_wrlock ); return f( m ); }
  auto& s = sync( m );
  step();
  while( s.locked || s.readers ) block( m );
  s.locked = true;
  s.owner  = self;
  acquire( m );
  return 0;
}

int pthread_rwlock_unlock( pthread_rwlock_t* m ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_rwlock_unlock ); return f( m ); }
  auto& s = sync( m );
  release( m );
  if( s.locked ) s.locked = false;
  else if( s.readers ) s.readers--;
  wake( m );
  return 0;
}

int pthread_cond_wait( pthread_cond_t* c, pthread_mutex_t* m )
{
  if( !simulating ) { static auto f = NEXT( pthread_cond_wait ); return f( c, m ); }
  sync( m ).depth = 0;
  release( m );
  sync( m ).locked = false;
  wake( m );
  block( c );
  lock( m );
  sync( m ).depth = 1;
  return 0;
}

int pthread_cond_signal( pthread_cond_t* c ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_cond_signal ); return f( c ); }
  wake( c );       // spurious wake-ups are allowed
  return 0;
}

int pthread_cond_broadcast( pthread_cond_t* c ) noexcept
{
  if( !simulating ) { static auto f = NEXT( pthread_cond_broadcast ); return f( c ); }
  wake( c );
  return 0;
}

int pthread_once( pthread_once_t* o, void ( *f )() )
{
  auto* state = reinterpret_cast<volatile int*>( o );
  if( *state == 2 ) { if( simulating ) acquire( o ); return 0; }
  if( simulating ) while( *state == 1 ) block( o );
  if( *state == 2 ) { if( simulating ) acquire( o ); return 0; }
  *state = 1;
  try { f(); }
  catch( ... ) { *state = 0; if( simulating ) wake( o ); throw; }
  *state = 2;
  if( simulating ) { release( o ); wake( o ); }
  return 0;
}

// OpenMP.

void GOMP_parallel( void ( *f )( void* ), void* data, unsigned n, unsigned ) { parallelRegion( f, data, n ); }

#define PARALLEL_LOOP( kind ) \
void GOMP_parallel_loop_##kind( void ( *f )( void* ), void* data, unsigned n, long a, long b, long incr, long chunk, unsigned ) { parallelLoop( f, data, n, a, b, incr, chunk ); }
PARALLEL_LOOP( static ) PARALLEL_LOOP( dynamic ) PARALLEL_LOOP( guided ) PARALLEL_LOOP( nonmonotonic_dynamic ) PARALLEL_LOOP( nonmonotonic_guided )
void GOMP_parallel_loop_runtime( void ( *f )( void* ), void* data, unsigned n, long a, long b, long incr, unsigned ) { parallelLoop( f, data, n, a, b, incr, 1 ); }
void GOMP_parallel_loop_nonmonotonic_runtime( void ( *f )( void* ), void* data, unsigned n, long a, long b, long incr, unsigned ) { parallelLoop( f, data, n, a, b, incr, 1 ); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime( void ( *f )( void* ), void* data, unsigned n, long a, long b, long incr, unsigned ) { parallelLoop( f, data, n, a, b, incr, 1 ); }

#define LOOP( kind ) \
bool GOMP_loop_##kind##_start( long a, long b, long incr, long chunk, long* s, long* e ) { return loopStart( a, b, incr, chunk, s, e ); } \
bool GOMP_loop_##kind##_next( long* s, long* e ) { return loopContinue( s, e ); }
LOOP( static ) LOOP( dynamic ) LOOP( guided ) LOOP( nonmonotonic_dynamic ) LOOP( nonmonotonic_guided )
bool GOMP_loop_runtime_start( long a, long b, long incr, long* s, long* e ) { return loopStart( a, b, incr, 1, s, e ); }
bool GOMP_loop_runtime_next( long* s, long* e ) { return loopContinue( s, e ); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start( long a, long b, long incr, long* s, long* e ) { return loopStart( a, b, incr, 1, s, e ); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next( long* s, long* e ) { return loopContinue( s, e ); }

#define ULL_LOOP( kind ) \
bool GOMP_loop_ull_##kind##_start( bool, unsigned long long a, unsigned long long b, unsigned long long incr, unsigned long long chunk, unsigned long long* s, unsigned long long* e ) \
{ return loopStart( long( a ), long( b ), long( incr ), long( chunk ), reinterpret_cast<long*>( s ), reinterpret_cast<long*>( e ) ); } \
bool GOMP_loop_ull_##kind##_next( unsigned long long* s, unsigned long long* e ) { return loopContinue( reinterpret_cast<long*>( s ), reinterpret_cast<long*>( e ) ); }
ULL_LOOP( static ) ULL_LOOP( dynamic ) ULL_LOOP( guided ) ULL_LOOP( nonmonotonic_dynamic ) ULL_LOOP( nonmonotonic_guided )

void GOMP_loop_end()        { loopEnd( true ); }
void GOMP_loop_end_nowait() { loopEnd( false ); }
void GOMP_barrier()         { if( simulating && currentTeam().size > 1 ) barrier( currentTeam() ); }

bool GOMP_single_start()
{
  auto& t = currentTeam();
  unsigned i = t.singles[ currentNumber() ]++ % 64;
  if( t.size == 1 ) return true;
  if( t.singleTaken[i] ) return false;
  return t.singleTaken[i] = true;
}

void GOMP_critical_start() { if( simulating ) lock( &criticalKey ); }
void GOMP_critical_end()   { if( simulating ) unlock( &criticalKey ); }
void GOMP_critical_name_start( void** p ) { if( simulating ) lock( p ); }
void GOMP_critical_name_end( void** p )   { if( simulating ) unlock( p ); }
void GOMP_atomic_start()   { if( simulating ) lock( &atomicKey ); }
void GOMP_atomic_end()     { if( simulating ) unlock( &atomicKey ); }

int  omp_get_num_threads()  { return int( currentTeam().size ); }
int  omp_get_thread_num()   { return int( currentNumber() ); }
int  omp_get_max_threads()  { return 4; }
int  omp_get_num_procs()    { return 4; }
int  omp_in_parallel()      { return currentTeam().size > 1; }
void omp_set_num_threads( int ) {}
void omp_set_dynamic( int )     {}
double omp_get_wtime()      { return double( sim::clock::now() ) * 1e-9; }

} // extern "C"
