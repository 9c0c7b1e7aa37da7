#include "phase_lib.hpp"
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <errno.h>
struct Local { int k; Local(int x) : k(x) {} ~Local() { phase(k); } };
static void child(int k) {
  bool any = false; for (int i = 0; i < phase_shared()->ncalls; i++) any |= phase_shared()->c[i].phase == k;
  if (!any) return;
  pid_t p = fork(); if (p < 0) _exit(93);
  if (p == 0) { alarm(60); phase(k); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (st) _exit(94);
}
static void* body(void* a) {
  thread_local Local l(PH_THREAD_LOCAL_END); (void)l.k;
  phase(PH_THREAD); child(PH_THREAD_CHILD);
  if (a) exit(0);
  return nullptr;
}
static void at_exit() { phase(PH_ATEXIT_MAIN); }
int main() {
  thread_local Local l(PH_MAIN_LOCAL_END); (void)l.k;
  atexit(at_exit);
  phase(PH_MAIN); child(PH_CHILD);
  bool from_thread = phase_shared()->exitmode == 2;
  pthread_t t; if (pthread_create(&t, nullptr, body, from_thread ? &t : nullptr)) _exit(92);
  if (from_thread) { for (;;) pause(); }
  pthread_join(t, nullptr);
  if (phase_shared()->exitmode == 1) exit(0);
  return 0;
}
