// Random engines whose draws are decisions of the simulation.  To be included
// before anything that uses an engine.

#ifndef SEAM_HH__
#define SEAM_HH__

#include "../core/sim.hh"

#include <random>

namespace std
{

#define SIM_ENGINE( engine )                                              \
  template <> inline engine::result_type engine::operator()()             \
  {                                                                       \
    return min() + engine::result_type( sim::randomness::draw( std::uint64_t( max() - min() ) ) ); \
  }

SIM_ENGINE( mt19937 )
SIM_ENGINE( mt19937_64 )
SIM_ENGINE( minstd_rand )
SIM_ENGINE( minstd_rand0 )

#undef SIM_ENGINE

} // namespace std

#endif
