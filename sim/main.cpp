// u5esim search: many seeded runs, each in a pristine child process.
// u5esim exec:   one plan, with its trace.
#include "plan.hpp"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;

enum { PREFIX = 256 };
struct Agg { u64 runs, skipped, steps, ticks, switches, events, ops, solo, solo_failed, nontrivial, repeated; u64 fault[F_N], fault_runs[F_N], probe[P_N]; };
struct Shared {
  std::atomic<u64> next; std::atomic<u64> best; std::atomic<int> stop; u64 total; double deadline;
  u64 prefix[PREFIX];
};
struct Slot { Agg agg; u64 viol_run; Result viol; Result internal; u64 internal_run; int has_viol, has_internal, nondet; u64 nondet_run; };

static void* shared_mem(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void on_signal(int s) {
  int armed = t_armed; t_armed = 0;
  if (s == SIGALRM) internal_error("wall-clock limit of a run reached");
  if (s == SIGPROF) {                           // a loop that touches no memory escapes the step limit
    R->hash = R->state_hash = 0xC9C9C9; R->steps = 0; R->ticks = 0; violation("no-progress", "a call used %d s of processor time", CPU_LIMIT);
  }
  if (armed) violation("crash", "the library call died of signal %d", s);
  violation("crash", "signal %d in the caller's code, which is sound: the library handed it something that is not", s);
}
static void handlers() {
  static char stk[32768]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_signal; a.sa_flags = SA_ONSTACK | SA_NODEFER;
  int l[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF}; for (int s : l) sigaction(s, &a, nullptr);
}
static char* child_plan;              // text of a plan to execute, or null
struct ChildArg { const char* prop; u64 seed, run; const Plan* plan; };
static void child(Result* res, void* pool, const ChildArg& c, int tfd) {
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    memset(res, 0, sizeof *res); R = res; set_outcome_pool(pool); trace_fd = tfd; handlers(); limit_run();
    int z = open("/dev/null", O_WRONLY); if (z >= 0) { dup2(z, 1); if (tfd < 0) dup2(z, 2); }
    if (c.plan) execute(*c.plan); else { Plan pl = generate(c.prop, c.seed, c.run); execute(pl); }
    R->hash = mix(R->hash ^ mix(R->steps));
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (res->status == ST_OK || res->status == ST_SKIP) {
    if (WIFSIGNALED(st)) { res->status = ST_VIOLATION; snprintf(res->cls, sizeof res->cls, "crash"); snprintf(res->detail, sizeof res->detail, "the run died of signal %d", WTERMSIG(st)); res->hash = mix(res->hash ^ 77); }
    else if (WEXITSTATUS(st) != 0) { res->status = ST_VIOLATION; snprintf(res->cls, sizeof res->cls, "process-exit"); snprintf(res->detail, sizeof res->detail, "a library call ended the process with status %d", WEXITSTATUS(st)); res->hash = mix(res->hash ^ 78); }
  }
}
static std::string js(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static bool nontrivial(const Result& r) { if (r.status == ST_SKIP || !r.ops) return false; for (int i = 0; i < F_N; i++) if (r.fault[i]) return true; return false; }

static void worker(int w, const char* prop, u64 seed, Shared* sh, Slot* slot, const char* dir) {
  Result* res = (Result*)shared_mem(sizeof(Result)); void* pool = shared_mem(outcome_pool_size()); Result* again = (Result*)shared_mem(sizeof(Result));
  char f[400]; snprintf(f, sizeof f, "%s/h%d", dir, w); int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644); std::vector<u64> buf; buf.reserve(8192);
  auto flush = [&] { if (write(fd, buf.data(), buf.size() * 8) < 0) perror("write"); buf.clear(); };
  while (!sh->stop) {
    u64 i = sh->next.fetch_add(1); if (i >= sh->total || i > sh->best || now() > sh->deadline) break;
    ChildArg c{prop, seed, i, nullptr}; child(res, pool, c, -1);
    if (res->status == ST_INTERNAL) { slot->has_internal = 1; slot->internal = *res; slot->internal_run = i; sh->stop = 1; break; }
    Agg& a = slot->agg; a.runs++; a.skipped += res->status == ST_SKIP; a.steps += res->steps; a.ticks += res->ticks; a.switches += res->switches; a.events += res->events; a.ops += res->ops; a.solo += res->solo; a.solo_failed += res->solo_failed;
    for (int k = 0; k < F_N; k++) { a.fault[k] += res->fault[k]; a.fault_runs[k] += res->fault[k] != 0; } for (int k = 0; k < P_N; k++) a.probe[k] += res->probe[k];
    if (i < PREFIX) sh->prefix[i] = res->hash ^ mix(res->status);
    bool nt = nontrivial(*res); a.nontrivial += nt;
    buf.push_back(res->sched_hash); buf.push_back(res->state_hash); buf.push_back(nt ? mix(res->hash ^ res->state_hash) | 1 : 0); if (buf.size() >= 8000) flush();
    if (i % 64 == 7 || res->status == ST_VIOLATION) {           // one seed is one execution
      a.repeated++; child(again, pool, c, -1);
      if (again->hash != res->hash || again->status != res->status || again->steps != res->steps || again->state_hash != res->state_hash) { slot->nondet = 1; slot->nondet_run = i; sh->stop = 1; break; }
    }
    if (res->status == ST_VIOLATION) {
      slot->has_viol = 1; slot->viol_run = i; slot->viol = *res; u64 b = sh->best; while (i < b && !sh->best.compare_exchange_weak(b, i)) {}
      break;
    }
  }
  flush(); close(fd); _exit(0);
}
static const char* arg(int ac, char** av, const char* n, const char* d) { for (int i = 2; i + 1 < ac; i++) if (!strcmp(av[i], n)) return av[i + 1]; return d; }
static bool read_file(const char* f, std::string& s) { FILE* h = fopen(f, "r"); if (!h) return false; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return true; }
static void print_faults(const u64* f, const u64* fr, const u64* p) {
  printf("\"faults\":{"); bool first = true; for (int i = 0; i < F_N; i++) if (f[i]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_names[i], (unsigned long long)f[i], (unsigned long long)(fr ? fr[i] : 1)); first = false; }
  printf("},\"probes\":{"); first = true; for (int i = 0; i < P_N; i++) { if (p[i]) { printf("%s\"%s\":%llu", first ? "" : ",", probe_names[i], (unsigned long long)p[i]); first = false; } } printf("}");
}
int main(int ac, char** av) {
  asm volatile("movq %0, %%fs:0x28" : : "r"(0x5EC0DE5EC0DE5E00ul));     // the stack protector's word, the same in every run (main never returns through a checked frame)
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("U5ESIM_REEXEC")) { setenv("U5ESIM_REEXEC", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", av); }
  if (ac < 2) { fprintf(stderr, "usage: u5esim search|exec|plan ...\n"); return 2; }
  runtime_init();
  std::string cmd = av[1];
  if (cmd == "plan") { fputs(print(generate(arg(ac, av, "--prop", "C01"), strtoull(arg(ac, av, "--seed", "1"), nullptr, 0), strtoull(arg(ac, av, "--run", "0"), nullptr, 0))).c_str(), stdout); return 0; }
  if (cmd == "exec") {                          // any number of plan files; one line of JSON each
    const char* tf = arg(ac, av, "--trace", nullptr);
    Result* res = (Result*)shared_mem(sizeof(Result)); void* pool = shared_mem(outcome_pool_size());
    for (int i = 2; i < ac; i++) {
      if (!strncmp(av[i], "--", 2)) { i++; continue; }
      std::string s, err; Plan p; if (!read_file(av[i], s) || !parse(s, p, err)) { printf("{\"status\":\"error\",\"detail\":%s}\n", js("cannot read plan: " + err).c_str()); continue; }
      int tfd = tf ? open(tf, O_WRONLY | O_CREAT | O_TRUNC, 0644) : -1;
      ChildArg c{p.prop.c_str(), p.seed, p.run, &p}; child(res, pool, c, tfd); if (tfd >= 0) close(tfd);
      static const char* sn[] = {"ok", "violation", "internal", "skip", "died"};
      u64 f[F_N], q[P_N]; for (int k = 0; k < F_N; k++) f[k] = res->fault[k]; for (int k = 0; k < P_N; k++) q[k] = res->probe[k];
      printf("{\"status\":\"%s\",\"class\":%s,\"detail\":%s,\"hash\":\"%016llx\",\"state\":\"%016llx\",\"steps\":%llu,\"ticks\":%llu,\"ops\":%u,", sn[res->status], js(res->cls).c_str(), js(res->detail).c_str(), (unsigned long long)res->hash, (unsigned long long)res->state_hash, (unsigned long long)res->steps, (unsigned long long)res->ticks, res->ops);
      print_faults(f, nullptr, q); printf("}\n"); fflush(stdout);
    }
    return 0;
  }
  if (cmd != "search") return 2;
  const char* prop = arg(ac, av, "--prop", ""); if (!known_prop(prop)) { fprintf(stderr, "unknown property\n"); return 2; }
  u64 seed = strtoull(arg(ac, av, "--seed", "1"), nullptr, 0), runs = strtoull(arg(ac, av, "--runs", "1000000000"), nullptr, 0); int jobs = atoi(arg(ac, av, "--jobs", "8")); double limit = atof(arg(ac, av, "--seconds", "40"));
  const char* dir = arg(ac, av, "--dir", "/tmp"); if (jobs < 1) jobs = 1; if (jobs > 64) jobs = 64;
  Shared* sh = (Shared*)shared_mem(sizeof(Shared)); Slot* slots = (Slot*)shared_mem(sizeof(Slot) * jobs);
  double t0 = now(); sh->next = 0; sh->best = ~0ull; sh->total = runs; sh->deadline = t0 + limit;
  std::vector<pid_t> pids; for (int w = 0; w < jobs; w++) { pid_t p = fork(); if (p < 0) { perror("fork"); return 2; } if (p == 0) worker(w, prop, seed, sh, &slots[w], dir); pids.push_back(p); }
  int bad = 0; for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  double el = now() - t0;
  Agg t; memset(&t, 0, sizeof t); Slot* v = nullptr; Slot* in = nullptr; Slot* nd = nullptr;
  for (int w = 0; w < jobs; w++) { u64* a = (u64*)&t; u64* b = (u64*)&slots[w].agg; for (size_t i = 0; i < sizeof(Agg) / 8; i++) a[i] += b[i]; if (slots[w].has_viol && (!v || slots[w].viol_run < v->viol_run)) v = &slots[w]; if (slots[w].has_internal) in = &slots[w]; if (slots[w].nondet) nd = &slots[w]; }
  std::vector<u64> h[3];
  for (int w = 0; w < jobs; w++) { char f[400]; snprintf(f, sizeof f, "%s/h%d", dir, w); std::string s; read_file(f, s); unlink(f); const u64* p = (const u64*)s.data(); for (size_t i = 0; i + 2 < s.size() / 8; i += 3) { h[0].push_back(p[i]); h[1].push_back(p[i + 1]); if (p[i + 2]) h[2].push_back(p[i + 2]); } }
  for (auto& x : h) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); }
  u64 pre = 0; u64 np = std::min<u64>(PREFIX, v ? v->viol_run : PREFIX); u64 done = std::min<u64>(np, t.runs); for (u64 i = 0; i < done; i++) pre = mix(pre ^ sh->prefix[i]);
  printf("{\"prop\":\"%s\",\"seed\":%llu,\"jobs\":%d,\"seconds\":%.2f,\"runs\":%llu,\"skipped\":%llu,\"calls\":%llu,\"steps\":%llu,\"ticks\":%llu,\"switches\":%llu,\"events\":%llu,\"solo\":%llu,\"solo_failed\":%llu,\"nontrivial\":%llu,\"repeated\":%llu,\"distinct_schedules\":%zu,\"distinct_states\":%zu,\"distinct_nontrivial\":%zu,\"prefix_runs\":%llu,\"prefix_hash\":\"%016llx\",",
    prop, (unsigned long long)seed, jobs, el, (unsigned long long)t.runs, (unsigned long long)t.skipped, (unsigned long long)t.ops, (unsigned long long)t.steps, (unsigned long long)t.ticks, (unsigned long long)t.switches, (unsigned long long)t.events, (unsigned long long)t.solo, (unsigned long long)t.solo_failed, (unsigned long long)t.nontrivial, (unsigned long long)t.repeated, h[0].size(), h[1].size(), h[2].size(), (unsigned long long)done, (unsigned long long)pre);
  print_faults(t.fault, t.fault_runs, t.probe);
  if (v) printf(",\"violation\":{\"run\":%llu,\"class\":%s,\"detail\":%s,\"hash\":\"%016llx\",\"plan\":%s}", (unsigned long long)v->viol_run, js(v->viol.cls).c_str(), js(v->viol.detail).c_str(), (unsigned long long)v->viol.hash, js(print(generate(prop, seed, v->viol_run))).c_str());
  if (in) printf(",\"internal\":{\"run\":%llu,\"detail\":%s}", (unsigned long long)in->internal_run, js(in->internal.detail).c_str());
  if (nd) printf(",\"nondeterministic\":{\"run\":%llu}", (unsigned long long)nd->nondet_run);
  if (bad) printf(",\"workers_lost\":%d", bad);
  printf("}\n"); return 0;
}
