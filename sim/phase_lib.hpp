#ifndef U5ESIM_PHASE_LIB
#define U5ESIM_PHASE_LIB
#include "phase.hpp"
void phase(int k);
PhaseShared* phase_shared();
#endif
