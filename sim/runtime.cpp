#include <ucontext.h>
#include "runtime.hpp"
#include <sys/time.h>
#include <atomic>
#include <new>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace sim {
const char* const fault_names[F_N] = {
  "alloc-fail-once","alloc-fail-sticky","callback-throws","source-read-error","sink-write-error","sink-torn-write","crash-restart",
  "bit-flip","overwrite","drop","duplicate","reorder","zeroed-sector","cut","insert","stale-neighbour-octets",
  "short-read","empty-read","reconnect-resend","preemption","thread-stalled","blocked-on-lock","nested-call","memory-reused-for-other-text","thread-ended-between-calls",
  "call-before-main","call-during-exit","call-in-forked-process","call-suspended","store-seen-late" };
const char* const probe_names[P_N] = {
  "grapheme-with-more-than-16-codepoints","encoded-1-octet","encoded-2-octets","encoded-3-octets","encoded-4-octets","stray-continuation-octet-walked",
  "check-rejected","check-accepted-damaged","enforce-changed-text","reopened-inside-grapheme","reopened-inside-codepoint","codepoint-torn",
  "octets-held-back","composition-happened","retry-after-failure-ok","cursor-move-failed","calls-overlapped","library-wrote-static-storage",
  "grapheme-split-across-pieces","nesting-depth-2","partial-output-after-failure","lead-octet-of-5-or-more","first-octet-bad","resumed-after-crash","appended-after-ragged-octets","text-of-more-than-128-codepoints","octets-not-watched-for-races","source-failed-at-known-element","kept-grapheme-read-later","text-of-more-than-2000-codepoints","same-call-more-than-256-times","overwritten-between-reaching-and-assigning","forked-while-others-inside-calls","call-cut-short-in-every-round","three-calls-suspended-at-once","resumed-before-one-suspended-later" };

static Result dummy_result;
Result* R = &dummy_result;
int trace_fd = -1;
thread_local int t_armed = 0;
static thread_local int t_arena = 0;

// ------------------------------------------------------------------ log
u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
u64 hash_bytes(const void* p, size_t n, u64 h) { const u8* b = (const u8*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL; return h; }

static void emit(const char* s, int n) { if (trace_fd >= 0) { ssize_t r = write(trace_fd, s, n); (void)r; } }
void violation(const char* cls, const char* fmt, ...) {
  t_armed = 0;
  if (R->status == ST_OK) {
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list ap; va_start(ap, fmt); vsnprintf(R->detail, sizeof R->detail, fmt, ap); va_end(ap);
    R->hash = mix(R->hash ^ hash_bytes(R->detail, strlen(R->detail)) ^ R->steps);
    R->status = ST_VIOLATION;
    char b[700]; int n = snprintf(b, sizeof b, "VIOLATION %s: %s\n", R->cls, R->detail); emit(b, n);
  }
  _exit(41);
}
void internal_error(const char* fmt, ...) {
  t_armed = 0;
  snprintf(R->cls, sizeof R->cls, "internal");
  va_list ap; va_start(ap, fmt); vsnprintf(R->detail, sizeof R->detail, fmt, ap); va_end(ap);
  R->status = ST_INTERNAL;
  _exit(42);
}
void ev(const char* kind, i64 a, i64 b, i64 c) {
  R->events++;
  u64 h = R->hash; for (const char* p = kind; *p; p++) h = (h ^ (u8)*p) * 1099511628211ULL;
  R->hash = mix(h ^ mix(a) ^ (mix(b) << 1) ^ (mix(c) << 2));
  if (trace_fd >= 0) { char s[160]; int n = snprintf(s, sizeof s, "%llu t%d %s %lld %lld %lld\n", (unsigned long long)R->steps, task_id(), kind, (long long)a, (long long)b, (long long)c); emit(s, n); }
}
void state(u64 h) { R->state_hash = mix(R->state_hash ^ h); }

// ------------------------------------------------------------------ arena
static char* const ABASE = (char*)0x200000000000ULL;
static u8* const SBASE = (u8*)0x210000000000ULL;
static const size_t ASIZE = 384u << 20;
static size_t a_cur, a_live, a_live_bytes; static int a_fill = 0xA5;
static u64 tick_cap = 4000000;
struct Hdr { u32 magic, size; u32 id, pad; };
struct Region { const char* name; int id; const char* lo; const char* hi; };
static Region regions[64]; static int nregions;

static char* const STKBASE = (char*)0x220000000000ULL;
static const size_t STKSIZE = 1u << 20;
enum { MAXT = 8 };

void runtime_init() {
  static bool done; if (done) return; done = true;
  int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
  if (mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE, fl, -1, 0) != ABASE ||
      mmap(SBASE, ASIZE, PROT_READ | PROT_WRITE, fl, -1, 0) != (void*)SBASE ||
      mmap(STKBASE, STKSIZE * (MAXT + 1) * 2, PROT_READ | PROT_WRITE, fl, -1, 0) != STKBASE) {
    fprintf(stderr, "u5esim: cannot map simulator memory\n"); _exit(42);
  }
}
bool in_arena(const void* p) { return (const char*)p >= ABASE && (const char*)p < ABASE + ASIZE; }
void* arena_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  size_t off = a_cur + sizeof(Hdr) + 16;
  off = (off + align - 1) / align * align;
  if (off + n + 64 > ASIZE) internal_error("arena exhausted");
  char* p = ABASE + off; a_cur = off + n + 16;
  static u32 ids; Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->magic = 0x55E5AAAA; h->size = n; h->id = ids++;
  memset(SBASE + off, 1, n); memset(p, a_fill, n);
  a_live++; a_live_bytes += n;
  return p;
}
void arena_free(void* p) {
  Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
  if (((uintptr_t)p & 15) || h->magic != 0x55E5AAAA) violation("bad-free", "free of a pointer that is not a live allocation");
  h->magic = 0x55E5FFFF;
  memset(SBASE + ((char*)p - ABASE), 2, h->size);
  a_live--; a_live_bytes -= h->size;
}
void set_valid(const void* lo, const void* hi, bool v) { if (in_arena(lo) && hi > lo) memset(SBASE + ((const char*)lo - ABASE), v ? 1 : 0, (const char*)hi - (const char*)lo); }
void name_region(const char* name, int id, const void* lo, const void* hi) { if (nregions < 64) regions[nregions++] = Region{name, id, (const char*)lo, (const char*)hi}; }
u64 live_blocks() { return a_live; } u64 live_bytes() { return a_live_bytes; } u64 arena_used() { return a_cur; }
void set_fill(int f) { a_fill = f; } void set_tick_cap(u64 c) { tick_cap = c; } void raise_tick_cap(u64 c) { if (c > tick_cap) tick_cap = c; } void move_tick_cap(i64 d) { tick_cap += d; }
void limit_run() { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = CPU_LIMIT; setitimer(ITIMER_PROF, &t, nullptr); alarm(400); }
ArenaScope::ArenaScope() : s(t_arena) { t_arena = 1; }
ArenaScope::~ArenaScope() { t_arena = s; }

// ------------------------------------------------------------------ tasks
typedef u32 VC[MAXT];
struct Task {
  int id; std::atomic<int> go; pthread_t th; char* lo; char* hi;
  enum { READY, BLOCKED, DONE } st; const void* wait_on;
  VC vc; i64 allocs, fault_after; bool fault_sticky, fault_hit;
  void (*fn)(int, void*); void* arg; u32 spins; bool inside; u64 syncs, wake_at; VC frel, facq; u64 sc;
};
static Task tasks[MAXT]; static int ntasks;
static thread_local Task* t_task = nullptr;
static Task main_task;
static std::atomic<int> all_done;
static const Switch* sws; static int nsws, swpos; static u64 until_switch; static int gwp; static u64 gw_count;
static bool race_on;

static inline Task* me() { return t_task ? t_task : &main_task; }
int task_id() { return t_task ? t_task->id : -1; }

void alloc_fault(i64 after, bool sticky) { Task* t = me(); t->allocs = 0; t->fault_after = after; t->fault_sticky = sticky; t->fault_hit = false; }
i64 alloc_count() { return me()->allocs; }
bool alloc_fault_fired() { return me()->fault_hit; }

static void fwait(std::atomic<int>* a) { while (!a->load(std::memory_order_acquire)) syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0, std::memory_order_relaxed); }
static void fwake(std::atomic<int>* a) { a->store(1, std::memory_order_release); syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void next_plan() { until_switch = swpos < nsws ? (sws[swpos].delta ? sws[swpos].delta : 1) : 0; }
// Threads that the plan stalls at one of their synchronising operations (atomic access, taking a lock), for
// a number of steps, or until no other can go on
static const Stall* stalls; static int nstalls, nstalled; static u64 next_wake; static char stall_mark;
void set_stalls(const Stall* s, int n) { stalls = s; nstalls = n; }
static void unstall(Task* t) { t->st = Task::READY; nstalled--; next_wake = ~0ull; for (int i = 0; i < ntasks; i++) if (tasks[i].st == Task::BLOCKED && tasks[i].wait_on == &stall_mark && tasks[i].wake_at < next_wake) next_wake = tasks[i].wake_at; }
static void unstall_all() { for (int i = 0; i < ntasks && nstalled; i++) if (tasks[i].st == Task::BLOCKED && tasks[i].wait_on == &stall_mark) unstall(&tasks[i]); }
static Task* pick(int want, Task* self, bool allow_self) {
  if (ntasks == 0) return nullptr;
  for (int i = 0; i < ntasks; i++) { Task* t = &tasks[(want + i) % ntasks]; if (t->st == Task::READY && (allow_self || t != self)) return t; }
  for (int i = 0; i < ntasks && nstalled; i++) { Task* t = &tasks[(want + i) % ntasks]; if (t->st == Task::BLOCKED && t->wait_on == &stall_mark && t != self) { unstall(t); return t; } }
  return nullptr;
}
static void transfer(Task* self, Task* to, const char* why, bool wait, bool armed = false) {
  R->switches++;
  R->sched_hash = mix(R->sched_hash ^ mix(R->steps * 64 + self->id * 8 + to->id));
  ev(why, self->id, to->id, (i64)R->steps);
  self->inside = armed;
  fwake(&to->go);
  if (wait) { fwait(&self->go); self->spins = 0; }
}
static void do_switch(int want) {
  Task* s = t_task; if (!s || ntasks < 2) return;
  Task* t = pick(want, s, false); if (!t) return;
  R->fault[F_PREEMPT]++; if (t_armed) R->probe[P_OVERLAP_CALLS]++;
  int a = t_armed; t_armed = 0; transfer(s, t, "switch", true, a); t_armed = a;
}
// A fair scheduler: a thread that has waited in a loop (many atomic operations or
// failed lock attempts since it was last given the processor, or an explicit yield)
// lets the next one run.  Without this a correct spin lock would never be released
// once the planned switches are used up.
enum { SPIN_LIMIT = 200 };
static void give_way() {
  Task* s = t_task; s->spins = 0; if (ntasks < 2) return;
  unstall_all();
  Task* t = pick(s->id + 1, s, false); if (!t) return;
  R->fault[F_PREEMPT]++; int a = t_armed; t_armed = 0; transfer(s, t, "gives-way", true, a); t_armed = a; s->spins = 0;
}
static inline void spun() { if (++t_task->spins >= SPIN_LIMIT) give_way(); }
static inline void point() {
  R->steps++;
  if (until_switch && --until_switch == 0) { int w = sws[swpos].target; swpos++; next_plan(); do_switch(w); }
  else if (nstalled && R->steps >= next_wake) for (int i = 0; i < ntasks; i++) if (tasks[i].st == Task::BLOCKED && tasks[i].wait_on == &stall_mark && tasks[i].wake_at <= R->steps) { unstall(&tasks[i]); do_switch(i); break; }
}
static void sync_point() {
  Task* s = t_task; if (ntasks < 2 || !nstalls) return;
  u64 k = s->syncs++;
  for (int i = 0; i < nstalls; i++) if (stalls[i].task == s->id && stalls[i].at == k) {
    Task* t = nullptr; for (int j = 1; j < ntasks && !t; j++) { Task* q = &tasks[(s->id + j) % ntasks]; if (q->st == Task::READY) t = q; }
    if (!t) return;
    s->st = Task::BLOCKED; s->wait_on = &stall_mark; s->wake_at = R->steps + stalls[i].len; if (!nstalled++ || s->wake_at < next_wake) next_wake = s->wake_at;
    fired(F_STALL); int a = t_armed; t_armed = 0; transfer(s, t, "stalls", true, a); t_armed = a; return;
  }
}
void yield_point() { if (t_task) point(); }
static void block_on(const void* what) {
  Task* s = t_task; s->st = Task::BLOCKED; s->wait_on = what; R->fault[F_BLOCK]++;
  Task* t = pick(s->id + 1, s, false);
  if (!t) violation("deadlock", "every thread is blocked");
  int a = t_armed; t_armed = 0; transfer(s, t, "block", true, a); t_armed = a;
}
static void alone_after_fork() { Task* s = t_task; for (int i = 0; i < ntasks; i++) if (&tasks[i] != s) tasks[i].st = Task::DONE; nstalls = nstalled = 0; until_switch = 0; swpos = nsws; gwp = 0; race_on = false; set_weak(0); }
int tasks_inside_calls() { int n = 0; for (int i = 0; i < ntasks; i++) n += &tasks[i] != t_task && tasks[i].inside; return n; }
static void wake_all(const void* what) { for (int i = 0; i < ntasks; i++) if (tasks[i].st == Task::BLOCKED && tasks[i].wait_on == what) tasks[i].st = Task::READY; }

static void task_ends(Task* t) {
  t_armed = 0;
  t->st = Task::DONE;
  Task* n = pick(t->id + 1, t, false);
  if (n) transfer(t, n, "end", false);
  else {
    for (int i = 0; i < ntasks; i++) if (tasks[i].st == Task::BLOCKED) violation("deadlock", "thread %d is blocked for ever", i);
    all_done.store(1, std::memory_order_release); syscall(SYS_futex, (int*)&all_done, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
}
// Made before anything else that a thread has of its own, so destroyed after it: what the library does at the end
// of a thread (the destructors of its thread_local objects) is scheduled, and watched, like its calls are
struct AtEnd { Task* t = nullptr; ~AtEnd() { if (t) task_ends(t); } };
static thread_local AtEnd at_end;
static void* tmain(void* p) {
  Task* t = (Task*)p; t_task = t; at_end.t = t; fwait(&t->go);
  t->fn(t->id, t->arg);
  alloc_fault(-1, false); raise_tick_cap(R->ticks + 4000000); t_armed = 1;
  return nullptr;
}
static void shadow_reset(); static void sync_reset(); static void weak_reset();
static u64 stk_salt; static int stk_id;
void set_stack_salt(u64 x) { stk_salt = x; }
void run_tasks(int n, void (*fn)(int, void*), void* arg, const Switch* sw, int nsw, int gw_period, bool races) {
  if (n > MAXT) n = MAXT;
  sws = sw; nsws = nsw; swpos = 0; gwp = gw_period; gw_count = 0; race_on = races && n > 1; next_plan(); all_done = 0; sync_reset(); weak_reset();
  if (race_on) shadow_reset();
  ntasks = n;
  for (int i = 0; i < n; i++) {
    Task& t = tasks[i]; t.id = i; t.go = 0; t.fn = fn; t.arg = arg; t.st = Task::READY; t.wait_on = nullptr; t.fault_after = -1; t.allocs = 0; t.fault_hit = false; t.spins = 0; t.inside = false; t.syncs = t.wake_at = 0;
    memset(t.vc, 0, sizeof t.vc); memset(t.frel, 0, sizeof t.frel); memset(t.facq, 0, sizeof t.facq); t.sc = 0; t.vc[i] = 1;
    t.lo = STKBASE + STKSIZE * 2 * i + STKSIZE; t.hi = t.lo + STKSIZE;
    pthread_attr_t at; pthread_attr_init(&at); if (stk_salt) t.hi -= 4096 * (mix(stk_salt * 64 + (u64)(stk_id + i)) % 64);      // thread identities differ from run to run
    pthread_attr_setstack(&at, t.lo, t.hi - t.lo);
    if (pthread_create(&t.th, &at, tmain, &t)) internal_error("pthread_create");
    pthread_attr_destroy(&at);
  }
  fwake(&tasks[0].go);
  while (!all_done.load(std::memory_order_acquire)) syscall(SYS_futex, (int*)&all_done, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  for (int i = 0; i < n; i++) pthread_join(tasks[i].th, nullptr);
  // stacks start out zeroed for every task, so that no run sees another's frames
  for (int i = 0; i < n; i++) madvise(tasks[i].lo, STKSIZE, MADV_DONTNEED);
  ntasks = 0; race_on = false; nstalls = nstalled = 0; set_weak(0);
}
void run_one(void (*fn)(int, void*), void* arg, int id) {
  struct C { void (*f)(int, void*); void* a; int id; } c = {fn, arg, id};
  stk_id = id;
  // the task keeps number `id` of the caller's choosing as argument; it runs as task 0
  run_tasks(1, [](int, void* p) { C* c = (C*)p; c->f(c->id, c->a); }, &c, nullptr, 0, 0, false);
  stk_id = 0;
}

// ------------------------------------------------------------------ fibers
struct Fiber { ucontext_t uc; bool done, begun; u64 since; i64 allocs, fault_after; bool sticky, hit; int arena; void* eh[2]; };
static struct { Fiber f[MAXT]; ucontext_t base; int n, cur; void (*fn)(int, void*); void* arg; const Switch* sw; int nsw, pos, period; u64 until, count, clock; } fb;
extern "C" void* __cxa_get_globals();
int fiber_id() { return fb.n ? fb.cur : -1; }
static void fiber_next() { fb.until = fb.pos < fb.nsw ? (fb.sw[fb.pos].delta ? fb.sw[fb.pos].delta : 1) : 0; }
static int fiber_pick(int want) { for (int i = 0; i < fb.n; i++) { int k = (int)(((u64)want + (u64)i) % (u64)fb.n); if (!fb.f[k].done && k != fb.cur) return k; } return -1; }
static void fiber_enter(int k) {
  Fiber& f = fb.f[k]; Task* t = me(); fb.cur = k; f.begun = true;
  t->allocs = f.allocs; t->fault_after = f.fault_after; t->fault_sticky = f.sticky; t->fault_hit = f.hit; t_arena = f.arena; memcpy(__cxa_get_globals(), f.eh, sizeof f.eh);
}
static void fiber_main() {
  for (;;) {
    fb.fn(fb.cur, fb.arg); t_armed = 0; fb.f[fb.cur].done = true; memset(__cxa_get_globals(), 0, sizeof fb.f[0].eh);
    int k = fiber_pick(fb.cur + 1);
    ev("ends", fb.cur, k); R->sched_hash = mix(R->sched_hash ^ mix((u64)(fb.cur * 8 + k + 1)));
    if (k < 0) setcontext(&fb.base);
    fiber_enter(k); setcontext(&fb.f[k].uc);
  }
}
static void fiber_switch(int want) {
  int k = fiber_pick(want); if (k < 0) return;
  Fiber& f = fb.f[fb.cur]; Task* t = me(); int from = fb.cur;
  f.allocs = t->allocs; f.fault_after = t->fault_after; f.sticky = t->fault_sticky; f.hit = t->fault_hit; f.arena = t_arena; memcpy(f.eh, __cxa_get_globals(), sizeof f.eh); f.since = ++fb.clock;
  int susp = 0; bool cross = false; for (int i = 0; i < fb.n; i++) if (i != k && fb.f[i].begun && !fb.f[i].done) { susp++; cross = cross || (i != from && fb.f[k].begun && fb.f[i].since > fb.f[k].since); }
  fired(F_SUSPEND); probe(P_SUSPENDED3, susp >= 3); probe(P_RESUMED_CROSSWISE, cross);
  R->switches++; R->sched_hash = mix(R->sched_hash ^ mix(R->steps * 64 + (u64)(from * 8 + k)));
  ev("suspends", from, k, (i64)R->steps);
  fiber_enter(k); swapcontext(&f.uc, &fb.f[k].uc);
}
void suspend_point() {
  if (!fb.n) return;
  R->steps++;
  if (fb.until) { if (--fb.until == 0) { int w = fb.sw[fb.pos].target; fb.pos++; fiber_next(); fiber_switch(w); } }
  else if (fb.period && ++fb.count % (u64)fb.period == 0) fiber_switch(fb.cur + 1);
}
void run_fibers(int n, void (*fn)(int, void*), void* arg, const Switch* sw, int nsw, int period) {
  if (n > MAXT - 1) n = MAXT - 1;
  memset(fb.f, 0, sizeof fb.f); fb.fn = fn; fb.arg = arg; fb.sw = sw; fb.nsw = nsw; fb.pos = 0; fb.period = period; fb.count = fb.clock = 0; fb.n = n; fiber_next();
  for (int i = 0; i < n; i++) {
    Fiber& f = fb.f[i]; f.fault_after = -1; getcontext(&f.uc);
    f.uc.uc_stack.ss_sp = STKBASE + STKSIZE * 2 * (size_t)(i + 1) + STKSIZE; f.uc.uc_stack.ss_size = STKSIZE; f.uc.uc_link = nullptr; makecontext(&f.uc, fiber_main, 0);
  }
  volatile bool over = false; void* eh[2]; memcpy(eh, __cxa_get_globals(), sizeof eh);
  getcontext(&fb.base);
  if (!over) { over = true; fiber_enter(0); setcontext(&fb.f[0].uc); }
  memcpy(__cxa_get_globals(), eh, sizeof eh); fb.n = 0; alloc_fault(-1, false);
  for (int i = 0; i < n; i++) madvise(STKBASE + STKSIZE * 2 * (size_t)(i + 1) + STKSIZE, STKSIZE, MADV_DONTNEED);
}

// ------------------------------------------------------------------ races
// per-octet shadow cells, 32 to a block, blocks in an open-addressing table; epochs as in FastTrack
struct Cell { u32 wclk; u8 wtid; u8 has_w; u8 pad[2]; u32 rclk[MAXT]; };
struct Block { u64 key; Cell c[32]; };
enum { NBLOCK = 1 << 15 };
static Block blocks[NBLOCK]; static u32 nblocks, block_used[NBLOCK];
static void shadow_reset() { for (u32 i = 0; i < nblocks; i++) memset(&blocks[block_used[i]], 0, sizeof(Block)); nblocks = 0; }
static Cell* block(u64 a, bool stat) {
  u64 k = (a >> 5) + 1; u32 i = (u32)(mix(k) & (NBLOCK - 1));
  while (blocks[i].key && blocks[i].key != k) i = (i + 1) & (NBLOCK - 1);
  if (!blocks[i].key) { if (nblocks > (stat ? NBLOCK * 3 / 4 : NBLOCK / 2)) { R->probe[P_RACE_FULL]++; return nullptr; } blocks[i].key = k; block_used[nblocks++] = i; }
  return blocks[i].c;
}
static const char* where_is(const void* p, char* b, size_t n) {
  const char* c = (const char*)p;
  for (int i = 0; i < nregions; i++) if (c >= regions[i].lo - 64 && c < regions[i].hi + 64) { snprintf(b, n, "offset %ld of %s %d (length %ld)", (long)(c - regions[i].lo), regions[i].name, regions[i].id, (long)(regions[i].hi - regions[i].lo)); return b; }
  if (in_arena(p)) snprintf(b, n, "heap"); else snprintf(b, n, "static storage or another thread's stack");
  return b;
}
static void race_check(Task* t, const char* p, unsigned n, bool w, bool stat) {
  Cell* cs = nullptr;
  for (unsigned i = 0; i < n; i++) {
    u64 a = (u64)(p + i); if (!cs || !(a & 31)) cs = block(a, stat); if (!cs) return;
    Cell* c = &cs[a & 31];
    int other = -1;
    if (c->has_w && c->wtid != t->id && c->wclk > t->vc[c->wtid]) other = c->wtid;
    if (w) for (int k = 0; k < ntasks; k++) if (k != t->id && c->rclk[k] > t->vc[k]) other = k;
    if (other >= 0) {
      char b[160]; violation("data-race", "threads %d and %d access %s without synchronisation, at least one writing", other < t->id ? other : t->id, other < t->id ? t->id : other, where_is(p, b, sizeof b));
    }
    if (w) { c->has_w = 1; c->wtid = t->id; c->wclk = t->vc[t->id]; }
    else c->rclk[t->id] = t->vc[t->id];
  }
}
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
// what the last release of each object passes on; the last slot is shared by whatever finds no room
enum { NSYNC = 4096 };
static struct SyncVC { const void* a; VC vc; } syncs[NSYNC + 1]; static int nsyncs; static u32 sync_used[NSYNC];
static void sync_reset() { for (int i = 0; i < nsyncs; i++) memset(&syncs[sync_used[i]], 0, sizeof(SyncVC)); nsyncs = 0; memset(&syncs[NSYNC], 0, sizeof(SyncVC)); }
static SyncVC* sync_of(const void* a, bool make = true) {
  u32 i = (u32)(mix((u64)a) % NSYNC); while (syncs[i].a && syncs[i].a != a) i = (i + 1) % NSYNC;
  if (syncs[i].a) return &syncs[i];
  if (nsyncs >= NSYNC * 3 / 4) return &syncs[NSYNC];
  if (!make) return nullptr;
  syncs[i].a = a; sync_used[nsyncs++] = i; return &syncs[i];
}
static void acquire(const void* a) { Task* t = t_task; if (!t) return; SyncVC* s = sync_of(a, false); if (s) join(t->vc, s->vc); }
static void release(const void* a) { Task* t = t_task; if (!t) return; join(sync_of(a)->vc, t->vc); t->vc[t->id]++; }

// ------------------------------------------------------------------ stores seen late
// Where the plan says so, an atomic load may find an earlier value of the object than the last stored, as the
// memory model allows: one that nothing this thread has seen makes too old.  Every store becomes visible to
// each other thread at a step of its own.  Sequentially consistent operations see everything.
struct Stored { u64 val, no, step; u32 wclk; int wid; VC vc; };
struct Loc { const void* a; unsigned size; int n; Stored e[4]; u64 last[MAXT]; };
enum { NLOC = 512 };
static Loc locs[NLOC]; static int nlocs; static u64 weak_salt, nstored; static const char* weak_lo; static const char* weak_hi;
void set_weak(u64 salt) { weak_salt = salt; }
static void weak_reset() { if (nlocs) memset(locs, 0, sizeof locs); nlocs = 0; nstored = 0; weak_lo = (const char*)~0ull; weak_hi = nullptr; }
static Loc* loc_of(const void* a, bool make) {
  u32 i = (u32)(mix((u64)a) % NLOC); while (locs[i].a && locs[i].a != a) i = (i + 1) % NLOC;
  if (locs[i].a) return &locs[i];
  if (!make || nlocs >= NLOC * 3 / 4) return nullptr;
  nlocs++; locs[i].a = a; if ((const char*)a < weak_lo) weak_lo = (const char*)a; if ((const char*)a + 8 > weak_hi) weak_hi = (const char*)a + 8;
  return &locs[i];
}
static void weak_forget(const char* p, size_t n) {       // ordinary stores: what was stored before is gone
  if (p >= weak_hi || p + n <= weak_lo) return;
  if (n > 64) { for (auto& l : locs) if (l.n && (const char*)l.a < p + n && (const char*)l.a + l.size > p) l.n = 0; return; }
  for (const char* q = p - 7; q < p + n; q++) { Loc* l = loc_of(q, false); if (l && l->n && q + l->size > p) l->n = 0; }
}
static bool weak_seen(const Stored& e, Task* t, const Loc& l) {
  if (e.wid < 0 || e.wid == t->id || e.wclk <= t->vc[e.wid] || e.no <= l.last[t->id] || e.no <= t->sc) return true;
  u64 h = mix(weak_salt * 1024 + e.no * 16 + (u64)t->id); static const u32 far[] = {0, 0, 0, 20, 20, 200, 200, 2000};
  u32 f = far[h & 7]; return R->steps >= e.step + (f ? 1 + (h >> 8) % f : 0);
}
static const Stored* weak_load(const void* a, unsigned size, u64 now, int mo) {
  if (!weak_salt) return nullptr;
  Loc* l = loc_of(a, false); if (!l || !l->n) return nullptr;
  Task* t = t_task; int i = l->n - 1;
  if (l->size != size || l->e[i].val != now) { l->n = 0; return nullptr; }
  if (mo != 5) while (i > 0 && !weak_seen(l->e[i], t, *l)) i--;
  if (i < l->n - 1) { fired(F_LATE); ev("reads-earlier", l->n - 1 - i); }
  if (l->e[i].no > l->last[t->id]) l->last[t->id] = l->e[i].no;
  return &l->e[i];
}
static void weak_store(const void* a, unsigned size, u64 before, u64 val, const VC& out, bool rmw) {
  if (!weak_salt || ((const char*)a >= STKBASE && (const char*)a < STKBASE + STKSIZE * 2 * (MAXT + 1))) return;
  Loc* l = loc_of(a, true); if (!l) return;
  Task* t = t_task;
  if (l->n && (l->size != size || l->e[l->n - 1].val != before)) l->n = 0;
  if (!l->n) { l->size = size; l->n = 1; memset(&l->e[0], 0, sizeof(Stored)); l->e[0].val = before; l->e[0].wid = -1; memset(l->last, 0, sizeof l->last); SyncVC* s = sync_of(a, false); if (s) memcpy(l->e[0].vc, s->vc, sizeof(VC)); }
  if (l->n == 4) { memmove(l->e, l->e + 1, 3 * sizeof(Stored)); l->n = 3; }
  Stored& e = l->e[l->n]; const Stored& q = l->e[l->n - 1]; l->n++;
  e.val = val; e.no = ++nstored; e.step = R->steps; e.wid = t->id; e.wclk = t->vc[t->id]; memcpy(e.vc, out, sizeof(VC));
  if (rmw || q.wid == t->id) join(e.vc, q.vc);           // continues the release sequence
  l->last[t->id] = e.no;
}

// ------------------------------------------------------------------ memory accesses
// the instrumented code is built with -fstack-protector-all
extern "C" [[noreturn]] void __stack_chk_fail() { violation("stack-overrun", "the library wrote past a local variable: the word kept behind it has changed"); }
extern "C" char __data_start, _end;
static void bad_access(const char* p, unsigned n, bool w, int sh) {
  char b[160];
  violation(sh == 2 ? "use-after-free" : w ? "write-outside" : "read-outside", "%s of %u octet(s) at %s", w ? "write" : "read", n, where_is(p, b, sizeof b));
}
static Watch watch;
static void watch_take() { Unarmed u; watch.taken = true; if (watch.struck) watch.struck(watch.arg); size_t n = watch.hi - watch.lo; memcpy(watch.snap, watch.lo, n); memcpy(watch.written, watch.all, n); }
void watch_start(const void* lo, const void* hi, i64 k, bool every, void (*struck)(void*), void* arg) {
  memset(&watch, 0, sizeof watch); watch.lo = (const char*)lo; watch.hi = (const char*)hi; watch.k = k; watch.on = true; watch.every = every; watch.struck = struck; watch.arg = arg;
  if (watch.hi - watch.lo > Watch::MAX) internal_error("watched region too large");
}
Watch* watch_stop() { bool crashed = watch.taken; watch.struck = nullptr; if (!crashed) watch_take(); watch.taken = crashed; watch.on = false; return &watch; }
// called before a write; src is known for block copies, which may then tear at any octet
static void watch_write(const char* p, size_t n, const char* src) {
  if (p + n <= watch.lo || p >= watch.hi) return;
  if (watch.taken) return;
  for (size_t i = 0; i < n; i++) {
    const char* q = p + i; if (q < watch.lo || q >= watch.hi) continue;
    size_t o = q - watch.lo;
    if (!watch.all[o] || watch.every) {
      if (watch.k >= 0 && watch.count == watch.k) {
        watch_take();
        if (src) for (size_t j = 0; j < i; j++) if (p + j >= watch.lo && p + j < watch.hi) watch.snap[p + j - watch.lo] = src[j];
        if (!src && n > 1) for (size_t j = 0; j < i; j++) if (p + j >= watch.lo && p + j < watch.hi) watch.written[p + j - watch.lo] = false;
        return;
      }
      watch.all[o] = true; watch.count++;
    }
  }
}
static inline void access(const void* pv, size_t n, bool w) {
  if (!t_armed) return;
  const char* p = (const char*)pv; Task* t = t_task;
  if (++R->ticks > tick_cap) violation("no-progress", "call exceeded %llu simulated steps", (unsigned long long)tick_cap);
  if (t && p >= t->lo && p < t->hi) return;
  if (in_arena(p)) {
    const u8* s = SBASE + (p - ABASE);
    for (size_t i = 0; i < n; i++) if (s[i] != 1) bad_access(p + i, 1, w, s[i]);
    if (w && watch.on) watch_write(p, n, nullptr);
  } else if (p < (char*)4096) violation(w ? "write-outside" : "read-outside", "null pointer access");
  if (!t) return;
  if (w && nlocs) weak_forget(p, n);
  bool stat = p >= &__data_start && p < &_end;
  if (stat && w) R->probe[P_STATIC_WRITE]++;
  if (race_on && (stat || in_arena(p) || (p >= STKBASE && p < STKBASE + STKSIZE * 2 * MAXT))) race_check(t, p, n, w, stat);
  point();
  if (gwp && stat && w && ++gw_count % gwp == 0) do_switch(t->id + 1);
}
static void block_write(void* d, const void* s, size_t n) {
  if (watch.on) watch_write((const char*)d, n, (const char*)s);
  access(d, n, true);
}
} // namespace sim
using namespace sim;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (t_armed && ++R->ticks > tick_cap) violation("no-progress", "call exceeded %llu simulated steps", (unsigned long long)tick_cap); }
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
  void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); } \
  void __tsan_read##N##_pc(void* p, void*) { access(p, N, false); } void __tsan_write##N##_pc(void* p, void*) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }

// atomics: stores and read-modify-write operations take effect at once and loads find the last value stored, or,
// with late stores (above), an earlier one; happens-before follows the memory order asked for
} // extern C
static inline bool gets(int mo) { return mo != 0 && mo != 3; }
static inline bool gives(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline bool apre(bool st) {
  if (!t_armed) return false;
  if (++R->ticks > tick_cap) violation("no-progress", "call exceeded %llu simulated steps", (unsigned long long)tick_cap);
  if (!t_task) return false;
  point(); sync_point(); spun(); if (gwp && st && ++gw_count % gwp == 0) do_switch(t_task->id + 1);
  return true;
}
static void take(const void* a, int mo, const Stored* e) {
  Task* t = t_task; SyncVC* s = e ? nullptr : sync_of(a, false);
  if (e) join(gets(mo) ? t->vc : t->facq, e->vc); else if (s) join(gets(mo) ? t->vc : t->facq, s->vc);
  if (mo == 5) t->sc = nstored;
}
static void give(const void* a, unsigned size, u64 before, u64 val, int mo, bool rmw) {
  Unarmed u; Task* t = t_task; weak_store(a, size, before, val, gives(mo) ? t->vc : t->frel, rmw);
  if (gives(mo)) release(a); else { bool any = false; for (u32 x : t->frel) any = any || x; if (any) join(sync_of(a)->vc, t->frel); }
  if (mo == 5) t->sc = nstored;
}
template<class T> static inline T raw(const volatile T* a) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }
template<class T> static T aload(const volatile T* a, int mo) {
  if (!apre(false)) return raw(a);
  T v = raw(a); const Stored* e = weak_load((const void*)a, sizeof(T), (u64)v, mo); if (e) v = (T)e->val;
  take((const void*)a, mo, e); return v;
}
template<class T> static void astore(volatile T* a, T v, int mo) {
  if (apre(true)) give((const void*)a, sizeof(T), (u64)raw(a), (u64)v, mo, false);
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template<class T, class F> static T armw(volatile T* a, int mo, F f) {      // f: what to store for what was found; false: nothing
  if (!apre(true)) { T old = raw(a), v; while (f(old, v) && !__atomic_compare_exchange_n(a, &old, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} return old; }
  T old = raw(a), v; take((const void*)a, mo, weak_load((const void*)a, sizeof(T), (u64)old, 5));
  if (f(old, v)) { give((const void*)a, sizeof(T), (u64)old, (u64)v, mo, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }
  return old;
}
extern "C" {
#define RMW(B, T, N, E) T __tsan_atomic##B##_##N(volatile T* a, T x, int mo) { return armw(a, mo, [x](T o, T& v) { (void)o; v = (T)(E); return true; }); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { return aload(a, mo); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { astore(a, v, mo); } \
  RMW(B, T, exchange, x) RMW(B, T, fetch_add, o + x) RMW(B, T, fetch_sub, o - x) RMW(B, T, fetch_and, o & x) RMW(B, T, fetch_or, o | x) RMW(B, T, fetch_xor, o ^ x) RMW(B, T, fetch_nand, ~(o & x)) \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T x, int mo, int) { return armw(a, mo, [c, x](T o, T& v) { v = x; return o == c; }); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T x, int mo, int) { T w = *c, o = armw(a, mo, [w, x](T o, T& v) { v = x; return o == w; }); *c = o; return o == w; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T x, int mo, int) { T w = *c, o = armw(a, mo, [w, x](T o, T& v) { v = x; return o == w; }); *c = o; return o == w; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  if (!apre(true)) return;
  Unarmed u; Task* t = t_task; if (gets(mo)) join(t->vc, t->facq);
  if (gives(mo)) { memcpy(t->frel, t->vc, sizeof(VC)); t->vc[t->id]++; }
  if (mo == 5) t->sc = nstored;
}
void __tsan_atomic_signal_fence(int) {}

// ---- locks and one-time initialisation, simulated inside tasks
struct Lk { const void* a; int owner; int count; int readers; };
static Lk lks[256]; static int nlks;
static Lk* lk(const void* a) { for (int i = 0; i < nlks; i++) if (lks[i].a == a) return &lks[i]; if (nlks == 256) internal_error("too many locks"); lks[nlks] = Lk{a, -1, 0, 0}; return &lks[nlks++]; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!t_task || !t_armed) return __real_pthread_mutex_lock(m);
  point(); sync_point(); Lk* l = lk(m);
  if (l->owner == t_task->id) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { l->count++; return 0; } violation("deadlock", "thread locks a mutex it already holds"); }
  while (l->owner != -1) block_on(m);
  l->owner = t_task->id; l->count = 1; acquire(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!t_task || !t_armed) return __real_pthread_mutex_trylock(m);
  point(); sync_point(); Lk* l = lk(m); if (l->owner != -1) { spun(); return EBUSY; } l->owner = t_task->id; l->count = 1; acquire(m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!t_task || !t_armed) return __real_pthread_mutex_unlock(m);
  Lk* l = lk(m); if (--l->count > 0) return 0; release(m); l->owner = -1; wake_all(m); point(); sync_point(); return 0;
}
static int rest_a_while() { Unarmed u; if (++R->ticks > tick_cap) violation("no-progress", "call exceeded %llu simulated steps", (unsigned long long)tick_cap); give_way(); return 0; }
int __real_sched_yield(); int __real_usleep(unsigned); int __real_nanosleep(const timespec*, timespec*);
int __wrap_sched_yield() { if (!t_task || !t_armed) return __real_sched_yield(); return rest_a_while(); }
int __wrap_usleep(unsigned n) { if (!t_task || !t_armed) return __real_usleep(n); return rest_a_while(); }
int __wrap_nanosleep(const timespec* a, timespec* b) { if (!t_task || !t_armed) return __real_nanosleep(a, b); return rest_a_while(); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!t_task || !t_armed) return __real_pthread_rwlock_rdlock(m); point(); sync_point(); Lk* l = lk(m); while (l->owner != -1) block_on(m); l->readers++; acquire(m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!t_task || !t_armed) return __real_pthread_rwlock_wrlock(m); point(); sync_point(); Lk* l = lk(m); while (l->owner != -1 || l->readers) block_on(m); l->owner = t_task->id; acquire(m); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!t_task || !t_armed) return __real_pthread_rwlock_unlock(m); Lk* l = lk(m); release(m); if (l->owner == t_task->id) l->owner = -1; else l->readers--; wake_all(m); point(); return 0; }
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!t_task || !t_armed) return __real_pthread_rwlock_tryrdlock(m); point(); Lk* l = lk(m); if (l->owner != -1) { spun(); return EBUSY; } l->readers++; acquire(m); return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!t_task || !t_armed) return __real_pthread_rwlock_trywrlock(m); point(); Lk* l = lk(m); if (l->owner != -1 || l->readers) { spun(); return EBUSY; } l->owner = t_task->id; acquire(m); return 0; }
// waiting with a time limit: the others get a turn, then the time is over
static int timed_lock(pthread_mutex_t* m) { for (int i = 0; i < 3; i++) { if (!__wrap_pthread_mutex_trylock(m)) return 0; rest_a_while(); } return ETIMEDOUT; }
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*); int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const timespec*);
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!t_task || !t_armed) return __real_pthread_mutex_timedlock(m, t); return timed_lock(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { if (!t_task || !t_armed) return __real_pthread_mutex_clocklock(m, c, t); return timed_lock(m); }
int __real_pthread_spin_lock(pthread_spinlock_t*); int __real_pthread_spin_trylock(pthread_spinlock_t*); int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { if (!t_task || !t_armed) return __real_pthread_spin_trylock(m); point(); int r = __real_pthread_spin_trylock(m); if (r) spun(); else acquire((const void*)m); return r; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { if (!t_task || !t_armed) return __real_pthread_spin_lock(m); point(); while (__real_pthread_spin_trylock(m)) rest_a_while(); acquire((const void*)m); return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { if (!t_task || !t_armed) return __real_pthread_spin_unlock(m); release((const void*)m); int r = __real_pthread_spin_unlock(m); point(); return r; }
// condition variables and semaphores
static int cv_wait(const void* cv, pthread_mutex_t* m, bool timed) {
  point(); Lk* l = lk(m); int held = l->count; release(m); l->owner = -1; l->count = 0; wake_all(m);
  if (timed) rest_a_while(); else block_on(cv);
  while (l->owner != -1) block_on(m);
  l->owner = t_task->id; l->count = held; acquire(m); return timed ? ETIMEDOUT : 0;
}
static void cv_wake(const void* cv, bool all) {
  point(); int k = 0, w[MAXT];
  for (int i = 0; i < ntasks; i++) if (tasks[i].st == Task::BLOCKED && tasks[i].wait_on == cv) w[k++] = i;
  if (all) wake_all(cv); else if (k) tasks[w[mix(R->steps) % (u64)k]].st = Task::READY;
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*); int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!t_task || !t_armed) return __real_pthread_cond_wait(c, m); return cv_wait(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!t_task || !t_armed) return __real_pthread_cond_timedwait(c, m, t); return cv_wait(c, m, true); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!t_task || !t_armed) return __real_pthread_cond_clockwait(c, m, k, t); return cv_wait(c, m, true); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!t_task || !t_armed) return __real_pthread_cond_signal(c); cv_wake(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!t_task || !t_armed) return __real_pthread_cond_broadcast(c); cv_wake(c, true); return 0; }
struct StdLock { pthread_mutex_t* m; bool owns; };   // std::unique_lock<std::mutex>
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, StdLock*); void __real__ZNSt18condition_variable10notify_oneEv(void*); void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, StdLock* l) { if (!t_task || !t_armed) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); cv_wait(c, l->m, false); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { if (!t_task || !t_armed) return __real__ZNSt18condition_variable10notify_oneEv(c); cv_wake(c, false); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { if (!t_task || !t_armed) return __real__ZNSt18condition_variable10notify_allEv(c); cv_wake(c, true); }
// std::atomic_load and the like of a std::shared_ptr: the library's own table of mutexes, as one lock
static char sp_mark; static thread_local bool sp_mine;
static void sp_lock() { sp_mine = true; point(); sync_point(); Lk* l = lk(&sp_mark); while (l->owner != -1) block_on(&sp_mark); l->owner = t_task->id; acquire(&sp_mark); }
void __real__ZNSt10_Sp_lockerC1EPKv(void*, const void*); void __real__ZNSt10_Sp_lockerC1EPKvS1_(void*, const void*, const void*); void __real__ZNSt10_Sp_lockerD1Ev(void*);
void __wrap__ZNSt10_Sp_lockerC1EPKv(void* l, const void* a) { if (!t_task || !t_armed) return __real__ZNSt10_Sp_lockerC1EPKv(l, a); sp_lock(); }
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void* l, const void* a, const void* b) { if (!t_task || !t_armed) return __real__ZNSt10_Sp_lockerC1EPKvS1_(l, a, b); sp_lock(); }
void __wrap__ZNSt10_Sp_lockerD1Ev(void* l) { if (!sp_mine) return __real__ZNSt10_Sp_lockerD1Ev(l); sp_mine = false; release(&sp_mark); lk(&sp_mark)->owner = -1; wake_all(&sp_mark); point(); sync_point(); }
int __real_sem_wait(sem_t*); int __real_sem_trywait(sem_t*); int __real_sem_post(sem_t*);
int __wrap_sem_wait(sem_t* s) { if (!t_task || !t_armed) return __real_sem_wait(s); point(); while (__real_sem_trywait(s)) block_on(s); acquire(s); return 0; }
int __wrap_sem_trywait(sem_t* s) { if (!t_task || !t_armed) return __real_sem_trywait(s); point(); if (__real_sem_trywait(s)) { spun(); return -1; } acquire(s); return 0; }
int __wrap_sem_post(sem_t* s) { if (!t_task || !t_armed) return __real_sem_post(s); release(s); int r = __real_sem_post(s); wake_all(s); point(); return r; }
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!t_task || !t_armed) return __real_pthread_once(o, f);
  point(); sync_point(); Lk* l = lk(o);
  while (!(*o & 2)) {
    if (l->owner != -1) { if (l->owner == t_task->id) violation("deadlock", "recursive one-time initialisation"); block_on(o); continue; }
    l->owner = t_task->id;
    try { f(); } catch (...) { l->owner = -1; wake_all(o); throw; }
    l->owner = -1; release(o); *o = 2; wake_all(o); return 0;
  }
  acquire(o); return 0;
}
int __real___cxa_guard_acquire(u64*); void __real___cxa_guard_release(u64*); void __real___cxa_guard_abort(u64*);
int __wrap___cxa_guard_acquire(u64* g) {
  if (!t_task || !t_armed) return __real___cxa_guard_acquire(g);
  point(); sync_point(); Lk* l = lk(g);
  while (!*(volatile u8*)g) {
    if (l->owner == -1) { l->owner = t_task->id; return 1; }
    if (l->owner == t_task->id) violation("deadlock", "recursive initialisation of a static object");
    block_on(g);
  }
  acquire(g); return 0;
}
void __wrap___cxa_guard_release(u64* g) { if (!t_task || !t_armed) return __real___cxa_guard_release(g); Lk* l = lk(g); release(g); *(volatile u8*)g = 1; l->owner = -1; wake_all(g); point(); }
void __wrap___cxa_guard_abort(u64* g) { if (!t_task || !t_armed) return __real___cxa_guard_abort(g); Lk* l = lk(g); l->owner = -1; wake_all(g); }

// ---- block operations called from instrumented code
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (t_armed && n) { access(s, n, false); block_write(d, s, n); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (t_armed && n) { access(s, n, false); block_write(d, s, n); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (t_armed && n) access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (t_armed && n) { access(a, n, false); access(b, n, false); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (t_armed && n) access(a, r ? (const char*)r - (const char*)a + 1 : n, false); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (t_armed) access(s, n + 1, false); return n; }

// ---- C allocation
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
static bool alloc_fails() {
  Task* t = t_task ? t_task : nullptr; if (!t) t = me();
  i64 k = t->allocs++;
  if (t->fault_after < 0) return false;
  bool f = t->fault_sticky ? k >= t->fault_after : k == t->fault_after;
  if (f) { t->fault_hit = true; R->fault[t->fault_sticky ? F_ALLOC_STICKY : F_ALLOC_ONCE]++; ev("alloc-fails", k); }
  return f;
}
void* __wrap_malloc(size_t n) { if (!t_armed) return __real_malloc(n); Unarmed u; if (alloc_fails()) { errno = ENOMEM; return nullptr; } return arena_alloc(n); }
void __wrap_free(void* p) { if (!p) return; if (in_arena(p)) { Unarmed u; arena_free(p); } else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!t_armed) return __real_calloc(a, b); Unarmed u; if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = arena_alloc(a * b); __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
  if (!in_arena(p) && (p || !t_armed)) return __real_realloc(p, n);
  Unarmed u; if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  void* q = arena_alloc(n); if (p) { size_t o = ((Hdr*)((char*)p - sizeof(Hdr)))->size; __real_memcpy(q, p, o < n ? o : n); arena_free(p); } return q;
}
} // extern C

// ---- C++ allocation
static void* nw(size_t n, size_t al, bool thr) {
  if (t_armed) {
    Unarmed u;
    if (alloc_fails()) { if (thr) throw std::bad_alloc(); return nullptr; }
    return arena_alloc(n, al);
  }
  if (t_arena) return arena_alloc(n, al);
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
  if (!p && thr) throw std::bad_alloc();
  return p;
}
static void dl(void* p) { if (!p) return; if (in_arena(p)) { Unarmed u; arena_free(p); } else __real_free(p); }
void* operator new(size_t n) { return nw(n, 16, true); }
void* operator new[](size_t n) { return nw(n, 16, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n, 16, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n, 16, false); }
void operator delete(void* p) noexcept { dl(p); }
void operator delete[](void* p) noexcept { dl(p); }
void operator delete(void* p, size_t) noexcept { dl(p); }
void operator delete[](void* p, size_t) noexcept { dl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dl(p); }

// ------------------------------------------------------------------ outcomes and solo forks
namespace sim {
void Outcome::clear() { last = 0; n = 0; total = 0; h = 0; }
void Outcome::put(i64 x) { Unarmed u; last = (int32_t)x; if (n < CAP) v[n++] = (int32_t)x; total++; h = mix(h ^ mix((u64)x)); }
bool Outcome::same(const Outcome& o) const { return total == o.total && h == o.h; }
static Outcome* pool;
void set_outcome_pool(void* p) { pool = (Outcome*)p; }
size_t outcome_pool_size() { return sizeof(Outcome) * OUTCOMES + sizeof(Result); }
Outcome* outcome_slot(int i) { if (i < 0 || i >= OUTCOMES) internal_error("outcome slot %d", i); return &pool[i]; }
static bool fork_run(void (*fn)(void*), void* arg, char* why, size_t nwhy, bool here) {
  Result* sr = (Result*)(pool + OUTCOMES);
  memset(sr, 0, sizeof *sr);
  R->solo++;
  if (here) t_armed = 1;          // what the library does at a fork (pthread_atfork) is scheduled too
  pid_t p = fork(); t_armed = 0;
  if (p < 0) internal_error("fork: %s", strerror(errno));
  if (p == 0) { R = sr; trace_fd = -1; limit_run(); if (here) alone_after_fork(); fn(arg); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (sr->status == ST_INTERNAL) internal_error("in solo run: %s", sr->detail);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  R->solo_failed++;
  if (why) { if (sr->status == ST_VIOLATION) snprintf(why, nwhy, "%s: %.200s", sr->cls, sr->detail); else snprintf(why, nwhy, "died, status %d", st); }
  return false;
}
bool fork_solo(void (*fn)(void*), void* arg, char* why, size_t nwhy) { return fork_run(fn, arg, why, nwhy, false); }
bool fork_here(void (*fn)(void*), void* arg, char* why, size_t nwhy) { bool ok = fork_run(fn, arg, why, nwhy, true); if (!ok) R->solo_failed--; return ok; }
}
