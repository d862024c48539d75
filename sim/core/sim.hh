// Deterministic simulation core.
//
// Every decision of a run goes through choose() and is recorded on the tape;
// a run is a function of its tape.  Value 0 always means "simplest" (no
// fault, no perturbation, no preemption), so that minimising a tape towards
// zeros minimises the run.

#ifndef SIM_HH__
#define SIM_HH__

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>

#include <initializer_list>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace sim
{

// -- decisions --------------------------------------------------------

// Uniform value in [0,n); n = 0 stands for the full 64-bit range.
std::uint64_t choose( std::uint64_t n );

// Value in [lo,hi]; lo is the simplest one.
inline std::int64_t range( std::int64_t lo, std::int64_t hi )
{
  return lo + static_cast<std::int64_t>( choose( static_cast<std::uint64_t>( hi - lo + 1 ) ) );
}

// True with probability num/den; false is the simplest value.
inline bool flip( unsigned num, unsigned den ) { return choose( den ) >= den - num; }

template <class T> const T& pick( const std::vector<T>& v ) { return v[ choose( v.size() ) ]; }
template <class T> T pick( std::initializer_list<T> v ) { return *( v.begin() + choose( v.size() ) ); }

template <class T> void shuffle( std::vector<T>& v )
{
  for( std::size_t i = v.size(); i > 1; i-- )
  {
    std::size_t j = i - 1 - choose( i );   // 0 keeps the element in place
    std::swap( v[i-1], v[j] );
  }
}

// -- trace ------------------------------------------------------------

void event( const char* tag, std::uint64_t a = 0, std::uint64_t b = 0 );
void observe( const std::string& s );
void count( const char* kind, std::uint64_t n = 1 );   // fault counters
void nontrivial();                                     // the run met a fault or a perturbation
void signature( std::uint64_t s );                     // what distinguishes this run
void story( const char* format, ... ) __attribute__((format(printf,1,2)));

[[noreturn]] void violate( const std::string& cls, const std::string& message );
[[noreturn]] void discard();

#define SIM_REQUIRE( cond, cls, text )                     \
  do { if( !( cond ) ) {                                   \
    std::ostringstream sim_o_; sim_o_.precision(17);       \
    sim_o_ << text;                                        \
    ::sim::violate( cls, sim_o_.str() ); } } while( 0 )

std::uint64_t mix( std::uint64_t a, std::uint64_t b );
std::uint64_t hashString( const std::string& s );

// Name of the property this run decides; scenarios shared by several
// properties may depend on it.
const std::string& property();

struct Scenario
{
  const char* property;
  const char* name;
  void ( *run )();
  unsigned weight;
};

struct Register
{
  Register( const char* property, const char* name, void ( *run )(), unsigned weight = 1 );
};

// Called in the parent before any run is forked.
struct AtStart { AtStart( void ( *f )() ); };

// -- heap -------------------------------------------------------------

namespace heap
{
  void begin();                          // draws a policy from the tape
  std::uint64_t liveBlocks();
  std::uint64_t liveBytes();
  std::uint64_t allocations();           // so far, in this run
  void failAt( std::uint64_t k, bool sticky = false );  // k-th allocation from now on fails (0-based)
  bool disarm();                         // true if a failure was delivered
  bool fired();
  void paintStack();
  bool isArena( const void* p );
  void pause( bool p );                  // do not fail or count allocations (harness code)
  std::string describeLive( std::uint64_t sinceSerial );
  std::uint64_t serial();
}

struct Quiet
{
  Quiet()  { heap::pause( true ); }
  ~Quiet() { heap::pause( false ); }
};

// -- hash tables --------------------------------------------------------

namespace hashing { void begin(); void set( unsigned policy ); }

// -- random source and clock ----------------------------------------------

namespace randomness
{
  void begin();
  std::uint64_t draw( std::uint64_t max );   // one draw of an engine with values in [0,max]
  std::uint64_t draws();
  void style( unsigned s );
}

namespace clock
{
  void advance( std::uint64_t ns );
  std::uint64_t now();
  void jump( std::int64_t ns );          // the wall clock is set; the monotonic clock is not
  std::int64_t offset();                 // of the wall clock
}

// -- simulated disk -------------------------------------------------------

namespace disk
{
  struct Plan
  {
    std::uint64_t chunk   = 0;      // largest piece delivered per call; 0 = unlimited
    bool randomChunks     = false;  // piece sizes drawn in [1,chunk]
    unsigned eintr        = 0;      // probability of EINTR in 1/16
    std::int64_t errorAt  = -1;     // offset from which reads or writes fail
    int errorCode         = 5;      // EIO
    unsigned errorPass    = 0;      // only from this pass (number of rewinds) on
    bool errorOnce        = false;  // transient error
    int openError         = 0;      // errno of failing open
    unsigned openErrorAt  = 0;      // which open fails
    bool openErrorAlways  = false;  // all of them do
    int closeError        = 0;      // errno of failing close after writing
  };

  void put( const std::string& path, const std::string& content );
  std::string get( const std::string& path );
  bool exists( const std::string& path );
  std::vector<std::string> list();      // paths of everything there is
  void adoptTemporary();                // paths below /tmp are simulated as well
  void setPlan( const std::string& path, const Plan& plan );
  void clearPlans();
  std::uint64_t errorsDelivered();      // I/O or open errors handed to the library
  void resetErrors();
  unsigned openHandles();               // currently open simulated descriptors
  Plan perturbedPlan();                 // chunking and EINTR drawn from the tape
  void makeDirectory( const std::string& path );
  void setStatError( const std::string& path, int code );

  // Files of other types (S_IFIFO, …; S_IFLNK with a target).
  void makeSpecial( const std::string& path, unsigned mode, const std::string& target = std::string() );
  // Other programs replace the file: at every system call, with the given
  // probability (in 1/16), its type becomes one of those given (0: gone).
  void setFlux( const std::string& path, unsigned probability, const std::vector<unsigned>& modes );
  unsigned seenTypes( const std::string& path );   // types at the system calls so far, bit ( mode >> 12 ), 15: gone
  void forgetTypes( const std::string& path );
}

// -- threads (thread build only) --------------------------------------------

namespace threads
{
  bool available();
  // Runs f(0), ..., f(n-1) concurrently under the seeded scheduler (one after
  // the other in builds without threads).
  void runIndexed( unsigned n, void ( *f )( unsigned, void* ), void* arg );
  template <class F> void parallel( unsigned n, F f )
  {
    runIndexed( n, []( unsigned i, void* a ) { ( *static_cast<F*>( a ) )( i ); }, &f );
  }
  std::uint64_t switches();
}

} // namespace sim

#endif
