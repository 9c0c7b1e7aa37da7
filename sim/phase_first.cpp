#include "phase_lib.hpp"
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
static void* early(void*) { phase(PH_THREAD_EARLY); return nullptr; }
static void* late(void* a) { phase(*(int*)a); return nullptr; }
static void in_thread(int k) { pthread_t t; if (pthread_create(&t, nullptr, late, &k) == 0) pthread_join(t, nullptr); }
static void early_exit() { phase(PH_ATEXIT_EARLY); }
__attribute__((constructor(101))) static void begin() {
  atexit(early_exit); phase(PH_CTOR101);
  pthread_t t; if (pthread_create(&t, nullptr, early, nullptr) == 0) pthread_join(t, nullptr);
}
__attribute__((destructor(101))) static void finish() { phase(PH_DTOR101); in_thread(PH_THREAD_DTOR); phase_shared()->reached = 1; }
static void exit_thread() { in_thread(PH_THREAD_ATEXIT); }
struct First { First() { phase(PH_STATIC_FIRST); atexit(exit_thread); } ~First() { phase(PH_DTOR_FIRST); } };
static First first;
