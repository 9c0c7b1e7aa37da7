// Simulator runtime: owns the allocator, the thread schedule, the access map of
// memory the compiled library may touch, fault injection and the event log.
// Compiled WITHOUT instrumentation; everything that includes u5e headers is
// compiled with -fsanitize=thread and linked against the hooks defined here
// (libtsan itself is not linked).
#ifndef U5ESIM_RUNTIME
#define U5ESIM_RUNTIME
#include <stddef.h>
#include <stdint.h>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;

enum FaultKind {
  F_ALLOC_ONCE, F_ALLOC_STICKY, F_CALLBACK, F_SOURCE, F_SINK_FAIL, F_SINK_TORN, F_CRASH,
  F_FLIP, F_OVERWRITE, F_DROP, F_DUP, F_REORDER, F_ZERO, F_CUT, F_INSERT, F_STALE,
  F_SHORTREAD, F_EMPTYREAD, F_RECONNECT, F_PREEMPT, F_STALL, F_BLOCK, F_NEST, F_REUSE, F_THREADEND,
  F_EARLYINIT, F_LATEEXIT, F_FORKED, F_SUSPEND, F_LATE, F_N };
extern const char* const fault_names[F_N];

enum Probe {
  P_CLUSTER_GT16, P_ENC1, P_ENC2, P_ENC3, P_ENC4, P_STRAY_CONT, P_CHECK_REJECT, P_CHECK_ACCEPT_DAMAGED,
  P_ENFORCE_CHANGED, P_REOPEN_MID_GRAPHEME, P_REOPEN_MID_CODEPOINT, P_TORN_CODEPOINT, P_HELD_BACK_OCTETS,
  P_COMPOSED, P_RETRY_OK, P_CURSOR_FAULT_MOVE, P_OVERLAP_CALLS, P_STATIC_WRITE, P_GRAPHEME_SPLIT_PIECE,
  P_NEST_DEPTH2, P_PARTIAL_OUTPUT, P_LEAD_5_6_7_8, P_FIRST_OCTET_BAD, P_RESUMED, P_RAGGED_BASE, P_LONG_TEXT, P_RACE_FULL, P_SOURCE_ELEMENT, P_GRAPHEME_KEPT, P_HUGE_TEXT, P_MANY_CALLS, P_OVERWRITTEN_BETWEEN, P_FORK_INSIDE, P_ROUND_CUT_SHORT, P_SUSPENDED3, P_RESUMED_CROSSWISE, P_N };
extern const char* const probe_names[P_N];

enum Status { ST_OK = 0, ST_VIOLATION = 1, ST_INTERNAL = 2, ST_SKIP = 3, ST_DIED = 4 };

struct Result {
  volatile int status; int armed_at_death;
  char cls[64]; char detail[512];
  u64 hash, sched_hash, state_hash; u64 steps, ticks, switches, events;
  u32 fault[F_N]; u32 probe[P_N]; u32 ops, solo, solo_failed;
};
extern Result* R;                 // where this process reports
extern int trace_fd;              // -1: no trace

[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf,1,2)));
void ev(const char* kind, i64 a = 0, i64 b = 0, i64 c = 0);   // event log: hash, and text when tracing
void state(u64 h);                                            // fold into the state hash
inline void fired(FaultKind k, u32 n = 1) { R->fault[k] += n; }
inline void probe(Probe p, u32 n = 1) { R->probe[p] += n; }

u64 mix(u64 x);
u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ULL);

// ---- arming: while armed, memory accesses and allocations are the library's
extern thread_local int t_armed;
struct Armed { int s; Armed() : s(t_armed) { t_armed = 1; } ~Armed() { t_armed = s; } };
struct Unarmed { int s; Unarmed() : s(t_armed) { t_armed = 0; } ~Unarmed() { t_armed = s; } };
struct ArenaScope { int s; ArenaScope(); ~ArenaScope(); };    // harness allocations go to the arena, without faults

// ---- arena
void  runtime_init();             // once per process image, before any fork
void* arena_alloc(size_t n, size_t align = 16);
void  arena_free(void* p);
bool  in_arena(const void* p);
void  set_valid(const void* lo, const void* hi, bool valid);  // trim what the library may touch
void  name_region(const char* name, int id, const void* lo, const void* hi);
u64   live_blocks(); u64 live_bytes(); u64 arena_used();
void  set_fill(int octet);
void  set_tick_cap(u64 cap); void raise_tick_cap(u64 cap); void move_tick_cap(i64 d);   /* raise: where other calls are under way as well */ void set_stack_salt(u64 salt);
enum { CPU_LIMIT = 40 };
void  limit_run();                // processor time and wall-clock limits of this process

// ---- allocation faults of the current task (counted while armed)
void  alloc_fault(i64 after, bool sticky);   // after: number of allocations that succeed first; <0: none
i64   alloc_count();                         // since last alloc_fault()
bool  alloc_fault_fired();

// ---- tasks
struct Switch { u64 delta; int target; };
struct Stall { int task; u64 at, len; };          // the thread stops at its at-th synchronising operation
void set_stalls(const Stall*, int n);             // for the next run_tasks
void set_weak(u64 salt);                          // for the next run_tasks; 0: stores are seen at once
void run_tasks(int n, void (*fn)(int, void*), void* arg, const Switch* sw, int nsw, int gw_period, bool races);
void run_one(void (*fn)(int, void*), void* arg, int id = 0);
int  task_id();
void yield_point();               // possible switch, used by seams
// several calls on one thread, each on a stack of its own; one is left and another continued only where a call has called out
void run_fibers(int n, void (*fn)(int, void*), void* arg, const Switch* sw, int nsw, int period);
void suspend_point();
int  fiber_id();                  // -1: none

// ---- storage that is watched: what it holds when the k-th octet has been stored
struct Watch { enum { MAX = 8192 }; const char* lo; const char* hi; i64 k, count; bool on, taken, every; void (*struck)(void*); void* arg; char snap[MAX]; bool written[MAX]; bool all[MAX]; };
void watch_start(const void* lo, const void* hi, i64 k, bool every = false, void (*struck)(void*) = nullptr, void* arg = nullptr);   // k < 0: no crash, only the final state; every: octets stored again count again
Watch* watch_stop();

// ---- outcomes: what a call returned and wrote, in shared memory
struct Outcome { enum { CAP = 4000 }; u32 n; u32 total; u64 h; int32_t last; int32_t v[CAP];
  void clear(); void put(i64 x); bool same(const Outcome& o) const; };
Outcome* outcome_slot(int i);     // shared between forks of this run; at most OUTCOMES
enum { OUTCOMES = 96 };
void set_outcome_pool(void* p); size_t outcome_pool_size();
// run fn in a fork of this process; false if it died or violated
bool fork_solo(void (*fn)(void*), void* arg, char* why, size_t nwhy);
// the running task forks: fn runs in the child, of which this task is the only thread, whatever the others were doing
bool fork_here(void (*fn)(void*), void* arg, char* why, size_t nwhy);
int tasks_inside_calls();         // other tasks stopped in the middle of a call
}
#endif
