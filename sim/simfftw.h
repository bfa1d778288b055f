// FFTW behind the simulator: planner choices, garbage, refusals, planner races, life cycle of plans.
#ifndef SIMFFTW_H
#define SIMFFTW_H

#include "simrt.h"

namespace sim {

/// Seed of the planner's choices and of the garbage it leaves in the buffers
void fftwSeed(u64 seed);
/// Arms the faults "refuse client op nth" of the scenario for the current thread
void fftwBegin(const Scenario& s, int client, int op);
/// Disarms; returns the number of plans which were refused meanwhile
int fftwEnd();
std::size_t livePlans();

} // namespace sim

#endif
