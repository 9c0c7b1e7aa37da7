// A plan is everything that decides one simulated run: texts, operations,
// faults and schedule.  It is what seeds are expanded to, what the minimiser
// shrinks and what a replay file holds.
#ifndef U5ESIM_PLAN
#define U5ESIM_PLAN
#include "runtime.hpp"
#include <string>
#include <vector>
#include <map>

namespace sim {
struct Rng {
  u64 s; explicit Rng(u64 seed) : s(seed) {}
  u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
  i64 below(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
  i64 range(i64 a, i64 b) { return a + below(b - a + 1); }      // inclusive
  bool chance(int pct) { return below(100) < pct; }
};

enum Store { S_U8, S_U8V, S_U32, S_U32V, S_SIM, S_N };
enum OpKind { O_WALK, O_BACK, O_GRAPH, O_NORM, O_REOPEN, O_TRUNC_CP, O_TRUNC_GR, O_CHECK, O_ENFORCE, O_PROPS,
  O_DECOMP, O_WRITE, O_FROM32, O_XAPPEND, O_MUTWALK, O_VERSION, O_FILTER, O_COMPARE, O_KINDS };
extern const char* const op_names[O_KINDS]; extern const char* const store_names[S_N];
enum { FT_ALLOC_ONCE, FT_ALLOC_STICKY, FT_SOURCE, FT_CALLBACK, FT_SINK_FAIL, FT_SINK_TORN };
struct Op { int id, task, kind, store, text; i64 a, b, c; };
struct Ev { std::string kind; i64 a, b, c, d; };
struct Plan {
  std::string prop; u64 seed = 0; u64 run = 0;
  std::map<std::string, i64> params;
  std::map<int, std::vector<int>> texts;      // codepoints
  std::vector<Op> ops;
  std::vector<Ev> evs;
  std::vector<Switch> sw;
  // out of line and not counted: what the harness looks up is no step of the run
  i64 param(const char* n, i64 dflt = 0) const;
  const std::vector<int>& text(int id) const;
  const Op* op(int id) const;
  void use_order(int round) const;            // the events of kind "stall" of that round, and late stores, are for the next run_tasks
};
std::string print(const Plan&);
bool parse(const std::string&, Plan&, std::string& err);
Plan generate(const std::string& prop, u64 seed, u64 run);
void execute(const Plan&);                    // in a pristine child
bool known_prop(const std::string&);

// independent UTF-8 encoder and reference walker
int  enc_len(int cp);
void enc(int cp, std::string& out);
std::string enc_all(const std::vector<int>&);
std::vector<int> unit_starts(const std::vector<int>& cps);   // octet position of each codepoint and of the end
}
#endif
