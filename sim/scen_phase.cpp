// C11: the same calls in every phase of a process's life, against the same calls in main
#include "plan.hpp"
#include "scen.hpp"
#include "phase.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <signal.h>
#include <algorithm>
namespace sim {
static void live(PhaseShared* s, int fd, int variant, const char** how) {
  s->reached = 0; s->norder = 0; for (int i = 0; i < s->ncalls; i++) { s->c[i].state = 0; s->c[i].nout = 0; s->c[i].hash = 0; }
  char exe[400]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 32); if (n < 0) internal_error("no /proc/self/exe"); exe[n] = 0;
  char* sl = strrchr(exe, '/'); snprintf(sl, 32, "/u5ephase%d", variant & 3);
  char num[32]; snprintf(num, sizeof num, "U5EPHASE_FD=%d", fd);
  pid_t p = fork(); if (p < 0) internal_error("fork");
  if (p == 0) { char* av[] = {exe, nullptr}; char* ev[] = {num, (char*)"GLIBC_TUNABLES=glibc.malloc.perturb=165:glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096", nullptr}; int z = open("/dev/null", 2); (void)z; dup2(z, 1); dup2(z, 2); limit_run(); alarm(90); execve(exe, av, ev); _exit(93); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  *how = nullptr;
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) <= 93) internal_error("u5ephase%d: status %d", variant & 3, WEXITSTATUS(st));
  if (WIFSIGNALED(st)) *how = WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF ? "does not end" : "dies of a signal";
  else if (WEXITSTATUS(st) == 94) *how = "dies in a forked process"; else if (WEXITSTATUS(st) != 0) *how = "ends with an error status";
  else if (!s->reached) *how = "ends before the end";
}
void exec_C11(const Plan& p) {
  if (p.param("threads")) { exec_C11_threads(p); return; }
  int fd = (int)syscall(SYS_memfd_create, "u5ephase", 0u); if (fd < 0 || ftruncate(fd, sizeof(PhaseShared))) internal_error("memfd");
  PhaseShared* s = (PhaseShared*)mmap(nullptr, sizeof(PhaseShared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (s == MAP_FAILED) internal_error("mmap");
  int n = 0;
  for (auto& o : p.ops) { if (n == PH_CALLS) break; PhaseCall& c = s->c[n++]; c.kind = (int)((u64)o.kind % PH_KINDS); const std::vector<int>& t = p.text(o.text); c.n = (int)std::min<size_t>(t.size(), PH_CPS); if (c.n) memcpy(c.cps, t.data(), c.n * 4); }
  s->ncalls = n; s->exitmode = 0; int variant = (int)p.param("variant");
  for (int i = 0; i < n; i++) s->c[i].phase = PH_MAIN;
  const char* how; live(s, fd, variant, &how);
  if (how) { ev("reference-failed"); R->status = ST_SKIP; return; }
  PhaseShared* w = (PhaseShared*)malloc(sizeof(PhaseShared)); memcpy(w, s, sizeof *w);
  s->exitmode = (int)((u64)p.param("exit") % 3);
  for (int i = 0; i < n; i++) { int ph = (int)((u64)p.ops[i].a % PH_N); if (s->exitmode == 2 && ph == PH_MAIN_LOCAL_END) ph = PH_THREAD_LOCAL_END; s->c[i].phase = ph; fired(ph == PH_CHILD || ph == PH_THREAD_CHILD ? F_FORKED : ph < PH_MAIN || ph == PH_THREAD_EARLY ? F_EARLYINIT : ph > PH_THREAD ? F_LATEEXIT : F_THREADEND); ev("call", i, ph, s->c[i].kind); }
  live(s, fd, variant, &how);
  for (int i = 0; i < s->norder && i < 64; i++) { ev("phase", s->order[i]); R->sched_hash = mix(R->sched_hash ^ (u64)s->order[i]); }
  for (int i = 0; i < n; i++) {
    PhaseCall &g = s->c[i], &e = w->c[i]; R->ops++; ev("result", i, (i64)g.hash, g.state); state(g.hash ^ (u64)g.phase);
    if (g.state == 1) violation("call-dies-in-phase", "call %d (kind %d) made in the %s %s", i, g.kind, phase_names[g.phase], how ? how : "does not return");
    if (g.state != e.state || g.nout != e.nout || g.hash != e.hash) {
      if (g.state == 0 && how) continue;
      if (g.state == 0) internal_error("phase %s not reached", phase_names[g.phase]);
      int k = 0; while (k < g.nout && k < e.nout && k < PH_OUT && g.out[k] == e.out[k]) k++;
      violation("wrong-result-in-phase", "call %d (kind %d) made in the %s: element %d of its result is %d instead of %d (%d elements instead of %d)", i, g.kind, phase_names[g.phase], k, k < g.nout && k < PH_OUT ? g.out[k] : -1, k < e.nout && k < PH_OUT ? e.out[k] : -1, g.nout, e.nout);
    }
  }
  if (how) violation("process-dies", "the process %s", how);
}
}
