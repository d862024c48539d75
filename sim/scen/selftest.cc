// Programs with known defects: the simulator must find them (scenarios named
// "bad ...") and must stay quiet on their repaired versions ("good ...").

#include "../core/sim.hh"

#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>

namespace
{

void badCounter()
{
  int n = 0;
  sim::threads::parallel( 2, [&] ( unsigned ) { n++; } );
}

void goodCounter()
{
  int n = 0;
  std::mutex m;
  sim::threads::parallel( 3, [&] ( unsigned ) { for( int i = 0; i < 5; i++ ) { std::lock_guard<std::mutex> g( m ); n++; } } );
  SIM_REQUIRE( n == 15, "wrong", n );
}

void badAtomicity()
{
  std::atomic<int> n( 0 );
  sim::threads::parallel( 2, [&] ( unsigned ) { int k = n.load(); n.store( k + 1 ); } );
  SIM_REQUIRE( n == 2, "wrong", n.load() );
}

void goodAtomicity()
{
  std::atomic<int> n( 0 );
  sim::threads::parallel( 3, [&] ( unsigned ) { n++; } );
  SIM_REQUIRE( n == 3, "wrong", n.load() );
}

void badPublication()
{
  std::unique_ptr<int> p;
  std::atomic<bool> ready( false );
  sim::threads::parallel( 2, [&] ( unsigned i )
  {
    if( i == 0 ) { p.reset( new int( 7 ) ); ready.store( true, std::memory_order_relaxed ); }
    else if( ready.load( std::memory_order_relaxed ) ) SIM_REQUIRE( *p == 7, "wrong", *p );
  } );
}

void goodPublication()
{
  std::unique_ptr<int> p;
  std::atomic<bool> ready( false );
  sim::threads::parallel( 2, [&] ( unsigned i )
  {
    if( i == 0 ) { p.reset( new int( 7 ) ); ready.store( true, std::memory_order_release ); }
    else if( ready.load( std::memory_order_acquire ) ) SIM_REQUIRE( *p == 7, "wrong", *p );
  } );
}

void badLockOrder()
{
  std::mutex a, b;
  sim::threads::parallel( 2, [&] ( unsigned i )
  {
    std::lock_guard<std::mutex> g( i ? a : b );
    std::lock_guard<std::mutex> h( i ? b : a );
  } );
}

int slow( int k ) { std::map<int, std::string> m; for( int i = 0; i < k; i++ ) m[i] = std::to_string( i ); return int( m.size() ); }

void goodStatic()
{
  sim::threads::parallel( 4, [&] ( unsigned )
  {
    static int n = slow( 9 );
    SIM_REQUIRE( n == 9, "wrong", n );
  } );
}

void badCache()
{
  std::map<int, int> cache;
  sim::threads::parallel( 2, [&] ( unsigned i ) { cache[ int( i ) ] = 1; } );
}

void goodHeap()
{
  sim::threads::parallel( 4, [&] ( unsigned i )
  {
    for( unsigned k = 0; k < 6; k++ ) { auto s = std::make_shared<std::string>( 40 + 8 * k, char( 'a' + i ) ); std::string t = *s + *s; SIM_REQUIRE( t.size() == 80 + 16 * k, "wrong", t ); }
  } );
}

void badParallelFor()
{
  std::vector<int> v( 20, 1 );
  int sum = 0;
  #pragma omp parallel for
  for( int i = 0; i < 20; i++ ) sum += v[ std::size_t( i ) ];
  (void) sum;
}

void goodParallelFor()
{
  std::vector<int> v( 20, 1 );
  int sum = 0, total = 0;
  #pragma omp parallel for reduction(+:sum) schedule(dynamic)
  for( int i = 0; i < 20; i++ ) { sum += v[ std::size_t( i ) ]; v[ std::size_t( i ) ] = 2; }
  #pragma omp parallel for
  for( int i = 0; i < 20; i++ )
  {
    #pragma omp critical
    total += v[ std::size_t( i ) ];
  }
  SIM_REQUIRE( sum == 20 && total == 40, "wrong", sum << " " << total );
}

void badUninitialised()
{
  auto* p = new int[4];
  bool odd = p[2] & 1;
  delete[] p;
  SIM_REQUIRE( !odd, "wrong", "value of uninitialised memory was used" );
}

void badLeak()
{
  auto work = [] { auto* p = new std::vector<int>( 8 ); sim::observe( std::to_string( p->size() ) ); std::string s( 100, 'x' ); sim::observe( s ); delete p; };
  work();
  auto live = sim::heap::liveBlocks();
  sim::heap::failAt( sim::choose( 4 ) );
  try { work(); } catch( const std::bad_alloc& ) {}
  sim::heap::disarm();
  SIM_REQUIRE( sim::heap::liveBlocks() <= live, "leak", "blocks left" );
}

sim::Register r[] = {
  { "SELF", "bad counter", badCounter },
  { "SELF", "good counter", goodCounter },
  { "SELF", "bad atomicity", badAtomicity },
  { "SELF", "good atomicity", goodAtomicity },
  { "SELF", "bad publication", badPublication },
  { "SELF", "good publication", goodPublication },
  { "SELF", "bad lock order", badLockOrder },
  { "SELF", "good static", goodStatic },
  { "SELF", "bad cache", badCache },
  { "SELF", "good heap", goodHeap },
  { "SELF", "bad parallel for", badParallelFor },
  { "SELF", "good parallel for", goodParallelFor },
  { "SELF", "bad uninitialised", badUninitialised },
  { "SELF", "bad leak", badLeak },
};

} // namespace
