// What the parts of the core share with each other.

#ifndef SIM_INTERNAL_HH__
#define SIM_INTERNAL_HH__

#include "sim.hh"

namespace sim
{

enum Status : std::uint32_t { Running = 0, Held = 1, Violation = 2, Discarded = 3 };

static const std::size_t TapeCapacity = 1u << 20;
static const std::size_t CounterCapacity = 96;

struct Counter { char name[48]; std::uint64_t n; };

// Written by the forked run, read by the parent; survives a crash of the run.
struct Shared
{
  volatile std::uint32_t status;
  std::uint32_t nontrivial;
  std::uint64_t hash, events, signature, simulatedNanoseconds;
  char scenario[64];
  char cls[160];
  char message[4096];
  char story[12288];
  Counter counters[ CounterCapacity ];
  std::uint64_t tapeSize;
  std::uint64_t tape[ TapeCapacity ];
};

struct Run
{
  std::string property;
  std::uint64_t prng[4];
  bool replay = false;
  const std::uint64_t* input = nullptr;
  std::uint64_t inputSize = 0;
  std::uint64_t position = 0;
};

extern Shared* shared;
extern Run     current;

void seedRun( std::uint64_t seed );
[[noreturn]] void finish( Status );
std::vector<Scenario>& scenarios();
std::vector<void(*)()>& startFunctions();
void installHandlers();

namespace heap { void map(); }

// Tells the race detector about memory handed out or taken back.
extern void ( *memoryHook )( void*, std::size_t, bool );

} // namespace sim

#endif
