// Shared memory between the simulator and the process whose life is simulated (C11).
#ifndef U5ESIM_PHASE
#define U5ESIM_PHASE
#include <stdint.h>
enum Phase { PH_CTOR101, PH_STATIC_FIRST, PH_STATIC_LAST, PH_MAIN, PH_THREAD, PH_THREAD_LOCAL_END, PH_ATEXIT_MAIN, PH_MAIN_LOCAL_END,
  PH_DTOR_LAST, PH_DTOR_FIRST, PH_ATEXIT_EARLY, PH_DTOR101, PH_THREAD_EARLY, PH_CHILD, PH_THREAD_CHILD, PH_THREAD_ATEXIT, PH_THREAD_DTOR, PH_N };
static const char* const phase_names[PH_N] = {"constructor function", "initialiser of a static object linked before the library", "initialiser of a static object linked after the library", "main", "thread", "thread_local destructor at thread end", "exit handler",
  "thread_local destructor at exit", "destructor of a static object linked after the library", "destructor of a static object linked before the library", "exit handler registered before main", "destructor function", "thread started before main", "process forked from main", "process forked from a thread", "thread started by an exit handler", "thread started when the static objects have been destroyed"};
enum { PH_CALLS = 48, PH_CPS = 160, PH_OUT = 1600, PH_KINDS = 16 };
struct PhaseCall { int32_t phase, kind, n, state; int32_t cps[PH_CPS]; int32_t nout; uint64_t hash; int32_t out[PH_OUT]; };   // state: 0 not reached, 1 begun, 2 finished, 3 threw
struct PhaseShared { int32_t ncalls, exitmode, reached; int32_t order[64]; int32_t norder; PhaseCall c[PH_CALLS]; };
#endif
