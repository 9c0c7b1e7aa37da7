// Scenarios made of whole library calls: C01 (threads), C02 (histories),
// C03 (allocation failures), C12 (calls from callbacks).
#include "ops.hpp"
#include "scen.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>

namespace sim {
std::string op_desc(const Op& o) { char b[200]; snprintf(b, sizeof b, "%s(%s, text %d, a=%lld b=%lld c=%lld)", op_names[(unsigned)o.kind % O_KINDS], store_names[(unsigned)o.store % S_N], o.text, (long long)o.a, (long long)o.b, (long long)o.c); return b; }
static std::string diff(const Outcome& got, const Outcome& want) {
  char b[160]; u32 i = 0; while (i < got.n && i < want.n && got.v[i] == want.v[i]) i++;
  if (i < got.n && i < want.n) snprintf(b, sizeof b, "element %u of its result is %d instead of %d", i, got.v[i], want.v[i]);
  else snprintf(b, sizeof b, "its result has %u elements instead of %u", got.total, want.total);
  return b;
}
static u64 oh(const Outcome& o) { return mix(o.h ^ o.total); }

std::map<int, TextStore*> make_texts(const Plan& p, size_t cap) {
  std::map<int, TextStore*> m;
  for (auto& t : p.texts) m[t.first] = new_text(t.first, t.second, cap);
  return m;
}
static TextStore* text_of(const std::map<int, TextStore*>& m, int id) { auto i = m.find(id); return i == m.end() ? nullptr : i->second; }

struct SoloArg { const Op* op; TextStore* t; Outcome* o; const std::vector<std::pair<TextStore*, const std::vector<int>*>>* rewrites; };
static void solo_body(int, void* a) { SoloArg* s = (SoloArg*)a; if (s->rewrites) for (auto& r : *s->rewrites) rewrite_text(r.first, *r.second); t_hooks = nullptr; alloc_fault(-1, false); run_op(*s->op, *s->t, *s->o); }
static void solo_fn(void* a) { run_one(solo_body, a); }
static bool solo(const Op& op, TextStore* t, Outcome* o, const std::vector<std::pair<TextStore*, const std::vector<int>*>>* rw = nullptr) {
  // the same call on the same text was asked for before in this run
  struct Done { Op op; TextStore* t; const std::vector<int>* now; Outcome* o; bool ok; }; static std::vector<Done> done;
  const std::vector<int>* now = nullptr; if (rw) for (auto& r : *rw) if (r.first == t) now = r.second;
  for (auto& d : done) if (d.t == t && d.now == now && d.op.kind == op.kind && d.op.store == op.store && d.op.a == op.a && d.op.b == op.b && d.op.c == op.c) { if (d.ok) memcpy(o, d.o, sizeof *o); else ev("solo-failed", op.id); return d.ok; }
  SoloArg a{&op, t, o, rw}; char why[300];
  bool ok = fork_solo(solo_fn, &a, why, sizeof why);
  if (!ok) ev("solo-failed", op.id);
  done.push_back(Done{op, t, now, o, ok});
  return ok;
}
static void set_fault(const Plan& p, int opid, Hooks& h) {
  alloc_fault(-1, false);
  for (auto& e : p.evs) if (e.kind == "fault" && e.a == opid) switch (e.b) {
    case FT_ALLOC_ONCE: alloc_fault(e.c, false); break; case FT_ALLOC_STICKY: alloc_fault(e.c, true); break;
    case FT_SOURCE: h.fail_at[H_SOURCE] = e.c; break; case FT_CALLBACK: h.fail_at[H_CALLBACK] = e.c; break;
    case FT_SINK_FAIL: h.fail_at[H_SINK] = e.c; h.torn = false; break; case FT_SINK_TORN: h.fail_at[H_SINK] = e.c; h.torn = true; break;
  }
}
// a call into which a fault was injected either reported it or is complete
static void judge(const char* cls, const Op& op, const Outcome& got, const Outcome& want, bool faulted, const char* where) {
  if (got.same(want)) return;
  if (faulted && op_failed(got)) return;
  violation(cls, "%s %s: %s", op_desc(op).c_str(), where, diff(got, want).c_str());
}

// ------------------------------------------------------------------ C01
struct C01 { const Plan* p; std::map<int, TextStore*> t; std::vector<Outcome*> got; std::vector<char> faulted; };
static void one_call(C01* c, size_t i) {
    const Op& op = c->p->ops[i];
    Hooks h; t_hooks = &h; set_fault(*c->p, op.id, h);
    ev("call", op.id, op.kind); run_op(op, *text_of(c->t, op.text), *c->got[i]);
    if (h.fired || alloc_fault_fired()) c->faulted[i] = 1;
    alloc_fault(-1, false); t_hooks = nullptr; R->ops++;
    ev("return", op.id, (i64)oh(*c->got[i]));
}
static void c01_task(int id, void* a) { C01* c = (C01*)a; for (size_t i = 0; i < c->p->ops.size(); i++) if (c->p->ops[i].task == id && c->got[i]) one_call(c, i); }
static void threads(const Plan& p, void (*task)(int, void*), bool races) {
  C01 c; c.p = &p; c.t = make_texts(p, 0); c.got.assign(p.ops.size(), nullptr); c.faulted.assign(p.ops.size(), 0);
  int nt = 1;
  for (size_t i = 0; i < p.ops.size() && i < OUTCOMES / 2; i++) {
    TextStore* t = text_of(c.t, p.ops[i].text); if (!t) continue;
    if (p.ops[i].task < 0 || p.ops[i].task >= 8) continue;
    if (!solo(p.ops[i], t, outcome_slot(i))) continue;
    c.got[i] = outcome_slot(OUTCOMES / 2 + i); c.got[i]->clear(); if (p.ops[i].task >= nt) nt = p.ops[i].task + 1;
  }
  std::map<int, u64> before; for (auto& t : c.t) before[t.first] = t.second->hash();
  // one round after the other, each with new threads and a schedule of its own: the switches up to the next separator
  size_t at = 0;
  for (int round = 0; round == 0 || at < p.sw.size(); round++) {
    size_t to = at; while (to < p.sw.size() && p.sw[to].target >= 0) to++;
    if (round) { ev("round", round); for (size_t i = 0; i < p.ops.size(); i++) if (c.got[i]) { c.got[i]->clear(); c.faulted[i] = 0; } }
    p.use_order(round); run_tasks(nt, task, &c, p.sw.data() + at, (int)(to - at), (int)p.param("gw"), races);
    for (size_t i = 0; i < p.ops.size(); i++) if (c.got[i]) {
      judge("wrong-result-in-concurrent-call", p.ops[i], *c.got[i], *outcome_slot(i), c.faulted[i], ("in thread " + std::to_string(p.ops[i].task)).c_str());
      state(oh(*c.got[i]));
    }
    at = to + 1;
  }
  for (auto& t : c.t) if (t.second->hash() != before[t.first]) violation("shared-text-altered", "text %d was altered", t.first);
}

void exec_C01(const Plan& p) { threads(p, c01_task, true); }

// ------------------------------------------------------------------ C11, processes forked from threads
// Threads make calls as for C01; some calls are made in a process that the thread
// forks for it, wherever the other threads stand, inside their calls included.
struct Forked { const Op* op; TextStore* t; Outcome* o; };
static void c11_child(void* a) { Forked* f = (Forked*)a; alloc_fault(-1, false); t_hooks = nullptr; run_op(*f->op, *f->t, *f->o); }
static void c11_task(int id, void* a) {
  C01* c = (C01*)a;
  for (size_t i = 0; i < c->p->ops.size(); i++) {
    const Op& op = c->p->ops[i]; if (op.task != id || !c->got[i]) continue;
    bool in_child = false; for (auto& e : c->p->evs) if (e.kind == "fork" && e.a == op.id) in_child = true;
    if (!in_child) { one_call(c, i); continue; }
    int k = tasks_inside_calls(); probe(P_FORK_INSIDE, k > 0); fired(F_FORKED); ev("fork", op.id, k); R->ops++;
    Forked f{&op, text_of(c->t, op.text), c->got[i]}; char why[300];
    if (!fork_here(c11_child, &f, why, sizeof why)) violation("call-dies-in-forked-process", "%s in a process forked from thread %d, while %d other thread(s) were inside calls: %s", op_desc(op).c_str(), id, k, why);
    ev("return", op.id, (i64)oh(*c->got[i]));
    judge("wrong-result-in-forked-process", op, *c->got[i], *outcome_slot(i), false, ("in a process forked from thread " + std::to_string(id)).c_str());
  }
}
void exec_C11_threads(const Plan& p) { threads(p, c11_task, false); }

// ------------------------------------------------------------------ C02
struct C02 { const Plan* p; std::map<int, TextStore*>* t; const std::vector<char>* usable; size_t from, to; };
static void c02_body(int, void* a) {
  C02* c = (C02*)a; Outcome* o = outcome_slot(OUTCOMES - 1);
  for (size_t i = c->from; i < c->to; i++) {
    const Op& op = c->p->ops[i];
    for (auto& e : c->p->evs) if (e.kind == "rewrite" && e.a == op.id) if (TextStore* t = text_of(*c->t, (int)e.b)) { rewrite_text(t, c->p->text((int)e.c)); fired(F_REUSE); ev("rewrite", e.b, e.c); }
    if (!(*c->usable)[i]) continue;
    for (auto& e : c->p->evs) if (e.kind == "rep" && e.a == op.id) {        // the same call many times over
      ev("repeat", op.id, e.b); probe(P_MANY_CALLS, e.b > 256);
      for (i64 k = 0; k < e.b; k++) { run_op(op, *text_of(*c->t, op.text), *o); R->ops++; judge("result-depends-on-history", op, *o, *outcome_slot(i), false, ("repeated " + std::to_string(k) + " times").c_str()); }
    }
    Hooks h; t_hooks = &h; set_fault(*c->p, op.id, h);
    ev("call", op.id, op.kind); run_op(op, *text_of(*c->t, op.text), *o);
    bool f = h.fired || alloc_fault_fired(); alloc_fault(-1, false); t_hooks = nullptr; R->ops++;
    ev("return", op.id, (i64)oh(*o)); state(oh(*o));
    if (op.kind == O_NORM || op.kind == O_GRAPH || op.kind == O_FILTER) if (f) probe(P_PARTIAL_OUTPUT);
    judge("result-depends-on-history", op, *o, *outcome_slot(i), f, ("as call " + std::to_string(i + 1) + " of the history").c_str());
  }
}
void exec_C02(const Plan& p) {
  size_t cap = 8; for (auto& t : p.texts) if (t.second.size() > cap) cap = t.second.size();
  std::map<int, TextStore*> t = make_texts(p, cap);
  size_t n = p.ops.size() < OUTCOMES - 2 ? p.ops.size() : OUTCOMES - 2;
  std::vector<char> usable(n, 0);
  std::vector<std::pair<TextStore*, const std::vector<int>*>> rw;
  for (size_t i = 0; i < n; i++) {
    for (auto& e : p.evs) if (e.kind == "rewrite" && e.a == p.ops[i].id) if (TextStore* s = text_of(t, (int)e.b)) rw.push_back({s, &p.text((int)e.c)});
    TextStore* s = text_of(t, p.ops[i].text); if (!s) continue;
    usable[i] = solo(p.ops[i], s, outcome_slot(i), &rw);
  }
  for (size_t i = 0; i < n;) {
    size_t j = i; while (j < n && p.ops[j].task == p.ops[i].task) j++;
    C02 c{&p, &t, &usable, i, j};
    run_one(c02_body, &c, p.ops[i].task);
    if (j < n) { fired(F_THREADEND); ev("thread-ends"); }
    i = j;
  }
}

// ------------------------------------------------------------------ C03
struct C03 { const Plan* p; TextStore* t; const Op* op; };
static void c03_count(int, void* a) { C03* c = (C03*)a; alloc_fault(-1, false); run_op(*c->op, *c->t, *outcome_slot(0)); i64 n = alloc_count(); outcome_slot(1)->clear(); outcome_slot(1)->put(n); }
static void c03_solo(void* a) { run_one(c03_count, a); }
// the outcome of an appending call ends with: size, units..., [count | markers]
struct Parsed { bool ok; std::vector<int> units; };
static void attempt(C03* c, i64 k, bool sticky, Outcome* o) { alloc_fault(k, sticky); run_op(*c->op, *c->t, *o); alloc_fault(-1, false); }
// Something kept for later calls fills, and may be emptied and filled again; what is lost is lost every time:
// in the second half of many attempts the process never holds as little as it did at most in the first half
static bool keeps_losing(C03* c, i64 k, bool sticky, Outcome* o) {
  for (int n : {48, 512}) {
    u64 most = 0, least = ~0ull;
    for (int i = 0; i < n; i++) { if (arena_used() > 300u << 20) return n > 48; attempt(c, k, sticky, o); u64 l = live_blocks(); if (i < n / 2) { if (l > most) most = l; } else if (l < least) least = l; }
    if (least <= most) return false;
  }
  return true;
}
static bool out_units(const Outcome& o, const Op& op, std::vector<int>& u) {
  // [count] size units [END]: the count is put before the output when the call succeeds
  u32 i = 0; bool counted = op.kind == O_NORM || op.kind == O_DECOMP; int end = op_failed(o);
  if (counted && !end) i = 1;
  if (i >= o.n) return false;
  i64 n = o.v[i]; if (i + 1 + n > o.n) return false;
  u.assign(o.v + i + 1, o.v + i + 1 + n); return true;
}
static void c03_main(int, void* a) {
  C03* c = (C03*)a; const Plan& p = *c->p; const Outcome& want = *outcome_slot(0); Outcome* o = outcome_slot(2);
  i64 n = outcome_slot(1)->n ? outcome_slot(1)->v[0] : 0;
  u64 th = c->t->hash();
  attempt(c, -1, false, o); R->ops++;
  if (!o->same(want)) violation("call-not-repeatable", "%s gives another result in another process: %s", op_desc(*c->op).c_str(), diff(*o, want).c_str());
  std::vector<int> full; if (!out_units(want, *c->op, full)) return;
  bool u8 = c->op->kind == O_FROM32 || c->op->kind == O_NORM ? (c->op->kind == O_NORM ? (c->op->b % 4) % 2 == 0 : c->op->b % 3 != 1) : c->op->kind == O_DECOMP ? false : (c->op->store == S_U8 || c->op->store == S_U8V || c->op->store == S_SIM);
  i64 k0 = p.param("k", -1), lo = k0 < 0 ? 0 : k0, hi = k0 < 0 ? (n < 48 ? n : 48) : k0 + 1;
  for (i64 k = lo; k < hi; k++) for (int sticky = 0; sticky < 2; sticky++) {
    if (p.param("mode", -1) >= 0 && p.param("mode") != sticky) continue;
    u64 live = live_blocks();
    attempt(c, k, sticky, o); R->ops++;
    bool f = R->fault[F_ALLOC_ONCE] + R->fault[F_ALLOC_STICKY]; (void)f;
    int end = op_failed(*o); ev("attempt", k, sticky, (i64)oh(*o)); state(oh(*o));
    if (end && end != END_ALLOC) violation("wrong-exception", "%s with allocation %lld failing%s: something other than std::bad_alloc reached the caller", op_desc(*c->op).c_str(), (long long)k, sticky ? " and all later ones" : "");
    std::vector<int> u;
    if (!end) { if (!o->same(want)) violation("silently-wrong-after-allocation-failure", "%s with allocation %lld failing%s returned, but %s", op_desc(*c->op).c_str(), (long long)k, sticky ? " and all later ones" : "", diff(*o, want).c_str()); }
    else if (!out_units(*o, *c->op, u)) violation("bad-output-after-allocation-failure", "%s with allocation %lld failing: output unreadable", op_desc(*c->op).c_str(), (long long)k);
    else {
      bool pre = u.size() <= full.size() && u.size() >= (size_t)c->op->c; for (size_t i = 0; pre && i < u.size(); i++) pre = u[i] == full[i];
      if (!pre) violation("output-damaged-by-allocation-failure", "%s with allocation %lld failing%s: the output is not its earlier contents followed by a prefix of the complete result", op_desc(*c->op).c_str(), (long long)k, sticky ? " and all later ones" : "");
      if (u8 && u.size() < full.size() && (full[u.size()] & 0xC0) == 0x80) violation("torn-codepoint-after-allocation-failure", "%s with allocation %lld failing%s: the output ends inside a codepoint", op_desc(*c->op).c_str(), (long long)k, sticky ? " and all later ones" : "");
      probe(P_PARTIAL_OUTPUT, u.size() > (size_t)c->op->c);
    }
    if (c->t->hash() != th) violation("input-altered", "%s with allocation %lld failing altered its input", op_desc(*c->op).c_str(), (long long)k);
    if (live_blocks() != live) {
      // a cache may fill once; memory lost again on every attempt is a leak
      u64 l1 = live_blocks(); attempt(c, k, sticky, o); u64 l2 = live_blocks(); attempt(c, k, sticky, o); u64 l3 = live_blocks();
      if (l1 < l2 && l2 < l3 && keeps_losing(c, k, sticky, o)) violation("leak", "%s with allocation %lld failing%s: memory is lost", op_desc(*c->op).c_str(), (long long)k, sticky ? " and all later ones" : "");
    }
    attempt(c, -1, false, o); R->ops++;
    if (!o->same(want)) violation("retry-wrong", "%s repeated after allocation %lld failed: %s", op_desc(*c->op).c_str(), (long long)k, diff(*o, want).c_str());
    probe(P_RETRY_OK);
  }
  u64 live = live_blocks(); attempt(c, -1, false, o); u64 l1 = live_blocks(); attempt(c, -1, false, o); u64 l2 = live_blocks(); attempt(c, -1, false, o); u64 l3 = live_blocks();
  if (live < l1 && l1 < l2 && l2 < l3 && keeps_losing(c, -1, false, o)) violation("leak", "%s loses memory on every call", op_desc(*c->op).c_str());
}
void exec_C03(const Plan& p) {
  auto t = make_texts(p, 0);
  for (auto& op : p.ops) {
    TextStore* s = text_of(t, op.text); if (!s) continue;
    C03 c{&p, s, &op}; char why[300];
    outcome_slot(1)->clear();
    if (!fork_solo(c03_solo, &c, why, sizeof why)) { ev("solo-failed", op.id); continue; }
    run_one(c03_main, &c);
  }
}

// ------------------------------------------------------------------ C15
// The same calls round after round, some cut short each time; what the process holds must stop growing
struct C15 { const Plan* p; std::map<int, TextStore*> t; const std::vector<char>* usable; size_t from, to; int rounds; std::vector<u64>* live; u64 round; };
// other arrangements of the same codepoints: what is kept for each codepoint, or each pair, comes to rest all the same
static void c15_arrange(C15* c) {
  c->round++; if (!c->p->param("vary") || c->round == 1) return;
  for (auto& t : c->t) { std::vector<int> v = c->p->text(t.first); u64 r = c->round * 1009 + (u64)t.first; for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[mix(r += 0x9E37) % i]); rewrite_text(t.second, v); }
}
static void c15_round(C15* c) {
  Outcome* o = outcome_slot(OUTCOMES - 1);
  for (size_t i = c->from; i < c->to; i++) {
    const Op& op = c->p->ops[i]; if (!(*c->usable)[i]) continue;
    Hooks h; t_hooks = &h; set_fault(*c->p, op.id, h);
    run_op(op, *text_of(c->t, op.text), *o); R->ops++; state(oh(*o));
    if (h.fired || alloc_fault_fired()) probe(P_ROUND_CUT_SHORT);
    alloc_fault(-1, false); t_hooks = nullptr;
  }
}
static bool c15_full() { return arena_used() > (240u << 20); }
static void c15_body(int, void* a) { C15* c = (C15*)a; for (int r = 0; r < c->rounds && !c15_full(); r++) { { Unarmed u; c15_arrange(c); } c15_round(c); if (c->live) c->live->push_back(live_bytes()); } }
static bool c15_grows(const std::vector<u64>& live, size_t n, u64* at) {
  for (int k = 0; k < 4; k++) at[k] = live[(n >> (3 - k)) - 1];
  return at[0] < at[1] && at[1] < at[2] && at[2] < at[3];
}
void exec_C15(const Plan& p) {
  size_t n = p.ops.size() < OUTCOMES - 2 ? p.ops.size() : OUTCOMES - 2; std::vector<char> usable(n, 0); std::vector<u64> live; u64 at[4];
  C15 c{&p, make_texts(p, 0), &usable, 0, n, 0, &live, 0};
  for (size_t i = 0; i < n; i++) { TextStore* s = text_of(c.t, p.ops[i].text); if (s) usable[i] = solo(p.ops[i], s, outcome_slot(i)); }
  // compared after 1/8, 1/4, 1/2 and all of the rounds; what is kept for later calls may fill slowly (one entry
  // more in each round that is cut short), so what grows gets 16 and 128 times as many rounds to come to rest
  size_t rounds = (size_t)std::min<i64>(std::max<i64>(p.param("rounds", 16), 8), 4096), want = rounds; bool grows = false;
  for (int stage = 0; stage < 3; stage++, want *= 16) {
    if (stage == 2) want /= 2;
    if (!p.param("threads")) { c.rounds = (int)(want - live.size()); run_one(c15_body, &c); }
    else { c.rounds = 1; c.live = nullptr;
      while (live.size() < want && !c15_full()) {
        c15_arrange(&c);
        for (size_t i = 0; i < n;) { size_t j = i; while (j < n && p.ops[j].task == p.ops[i].task) j++; c.from = i; c.to = j; run_one(c15_body, &c, p.ops[i].task); fired(F_THREADEND); i = j; }
        live.push_back(live_bytes());
      } }
    if (live.size() < 8) return;
    grows = c15_grows(live, live.size(), at);
    for (int k = 0; k < 4; k++) { ev("live", (i64)at[k]); state(at[k] + (u64)k); }
    if (!grows) return;
    if (c15_full()) { if (live.size() < 100) return; break; }
  }
  // what is held may also go up and down, by the length of the texts remembered at the moment; that is not growth
  if (p.param("vary") && at[3] - at[2] < 8 * (live.size() / 2)) return;
  violation("memory-grows", "after %zu, %zu, %zu and %zu rounds of the same calls the process holds %llu, %llu, %llu and %llu octets", live.size() / 8, live.size() / 4, live.size() / 2, live.size(), (unsigned long long)at[0], (unsigned long long)at[1], (unsigned long long)at[2], (unsigned long long)at[3]);
}

// ------------------------------------------------------------------ C16
// every access of the text source, call of the operation and write to the output fails in turn
struct C16 { const Plan* p; TextStore* t; const Op* op; };
static const char* const part_name[H_N] = {"text source", "operation", "output"};
static void c16_count(int, void* a) {
  C16* c = (C16*)a; Hooks h; t_hooks = &h; alloc_fault(-1, false); run_op(*c->op, *c->t, *outcome_slot(0)); t_hooks = nullptr;
  Outcome* o = outcome_slot(1); o->clear(); for (int k = 0; k < H_N; k++) o->put(h.n[k]);
}
static void c16_solo(void* a) { run_one(c16_count, a); }
static void c16_attempt(C16* c, int part, i64 k, bool torn, bool starve, bool& f, Outcome* o) {
  Hooks h; if (part >= 0) h.fail_at[part] = k; h.torn = torn; h.starve = starve;
  t_hooks = &h; alloc_fault(-1, false); run_op(*c->op, *c->t, *o); alloc_fault(-1, false); t_hooks = nullptr; f = h.fired; R->ops++;
}
static void c16_one(C16* c, int part, i64 k, bool torn, bool starve, const Outcome& want, const std::vector<int>* full, Outcome* o) {
  const Op& op = *c->op; std::string d = op_desc(op); bool f; u64 th = c->t->hash();
  c16_attempt(c, part, k, torn, starve, f, o);
  ev("attempt", part * 4 + torn * 2 + starve, k, (i64)oh(*o)); state(oh(*o));
  if (!f) { if (!o->same(want)) violation("call-not-repeatable", "%s repeated: %s", d.c_str(), diff(*o, want).c_str()); return; }
  const char* with = starve ? " and no memory left from then on" : "";
  if (!op_failed(*o)) violation("failure-swallowed", "%s with access %lld of the %s failing%s returned as if nothing had happened", d.c_str(), (long long)k, part_name[part], with);
  if (o->total != o->n) return;                                        // longer than what is recorded
  if (op_failed(*o) != END_SEAM || o->n < 3 || o->v[o->n - 3] != part || o->v[o->n - 2] != (int)k) violation("wrong-exception", "%s with access %lld of the %s failing%s: what reached the caller is not what was thrown", d.c_str(), (long long)k, part_name[part], with);
  u32 n = o->n - 3;
  if (full) {
    std::vector<int> u;
    bool pre = n >= 1 && o->v[0] >= 0 && (u32)o->v[0] == n - 1; if (pre) u.assign(o->v + 1, o->v + n);
    pre = pre && u.size() <= full->size() && u.size() >= (size_t)op.c; for (size_t i = 0; pre && i < u.size(); i++) pre = u[i] == (*full)[i];
    if (!pre) violation("output-damaged-by-failure", "%s with access %lld of the %s failing%s: the output is not its earlier contents followed by a beginning of the complete result", d.c_str(), (long long)k, part_name[part], with);
    bool real8 = op.kind == O_NORM ? op.b % 4 == 0 : op.kind == O_FROM32 ? op.b % 3 == 0 : op.kind == O_DECOMP ? false : op.kind == O_XAPPEND ? !(op.b & 1) : true;
    if (real8 && op.store != S_U32 && op.store != S_U32V && u.size() < full->size() && ((*full)[u.size()] & 0xC0) == 0x80) violation("torn-codepoint-after-failure", "%s with access %lld of the %s failing%s: the output ends inside a codepoint", d.c_str(), (long long)k, part_name[part], with);
    probe(P_PARTIAL_OUTPUT, u.size() > (size_t)op.c);
  } else if (op.kind != O_FILTER) {
    bool pre = n <= want.n; for (u32 i = 0; pre && i < n; i++) pre = o->v[i] == want.v[i];
    if (!pre) violation("wrong-before-failure", "%s with access %lld of the %s failing%s delivered something else before it failed", d.c_str(), (long long)k, part_name[part], with);
  }
  if (c->t->hash() != th) violation("input-altered", "%s with access %lld of the %s failing altered its input", d.c_str(), (long long)k, part_name[part]);
  c16_attempt(c, -1, 0, false, false, f, o);
  if (!o->same(want)) violation("retry-wrong", "%s repeated after access %lld of the %s had failed%s: %s", d.c_str(), (long long)k, part_name[part], with, diff(*o, want).c_str());
  probe(P_RETRY_OK);
}
static void c16_main(int, void* a) {
  C16* c = (C16*)a; const Plan& p = *c->p; const Outcome& want = *outcome_slot(0); const Outcome& cnt = *outcome_slot(1); Outcome* o = outcome_slot(2);
  if (cnt.n < H_N || want.total != want.n || op_failed(want)) return;
  int kd = c->op->kind; std::vector<int> full; const std::vector<int>* fp = nullptr;
  if (kd == O_NORM || kd == O_DECOMP || kd == O_FROM32 || kd == O_XAPPEND || kd == O_TRUNC_CP || kd == O_TRUNC_GR) { if (!out_units(want, *c->op, full)) return; fp = &full; }
  i64 only = p.param("at", -1), part0 = p.param("part", -1), mode0 = p.param("mode", -1);
  for (int part = 0; part < H_N; part++) {
    if (part0 >= 0 && part0 != part) continue;
    i64 n = cnt.v[part];
    for (i64 j = 0; j < n && (only >= 0 ? j < 1 : j < 64); j++) {
      // the first 24, the last 8, and 32 in between
      i64 k = only >= 0 ? only : n <= 64 || j < 24 ? j : j < 32 ? n - 1 - (j - 24) : 24 + (i64)(mix((u64)j * 77 + (u64)c->op->id + p.run) % (u64)(n - 32));
      for (int mode = 0; mode < 4; mode++) {
        if (mode0 >= 0 ? mode0 != mode : ((mode & 2) && part != H_SINK) || ((mode & 1) && mix((u64)k ^ p.run) % 3)) continue;
        c16_one(c, part, k, mode & 2, mode & 1, want, fp, o);
      }
    }
  }
}
void exec_C16(const Plan& p) {
  auto t = make_texts(p, 0);
  for (auto& op : p.ops) {
    TextStore* s = text_of(t, op.text); if (!s) continue;
    C16 c{&p, s, &op}; char why[300];
    outcome_slot(1)->clear();
    if (!fork_solo(c16_solo, &c, why, sizeof why)) { ev("solo-failed", op.id); continue; }
    run_one(c16_main, &c);
  }
}

// ------------------------------------------------------------------ C12
struct C12 { const Plan* p; std::map<int, TextStore*> t; std::map<int, int> slot; int budget, deepest; };
static void c12_call(C12* c, const Op& op, int depth);
static void c12_nested(Hooks* h, const Nest& n) {
  C12* c = (C12*)h->arg; const Op* op = c->p->op(n.op);
  if (op && h->depth < c->deepest) c12_call(c, *op, h->depth + 1);
}
static void c12_call(C12* c, const Op& op, int depth) {
  if (!c->slot.count(op.id) || --c->budget < 0) return;
  std::vector<Nest> ns; for (auto& e : c->p->evs) if (e.kind == "nest" && e.a == op.id && (e.d != op.id || c->deepest > 3)) ns.push_back(Nest{(int)e.b, e.c, (int)e.d});
  Hooks h; h.depth = depth; h.nests = ns.data(); h.nnests = (int)ns.size(); h.run_nested = c12_nested; h.arg = c;
  Hooks* outer = t_hooks; t_hooks = &h;
  bool had = alloc_fault_fired(); (void)had;
  set_fault(*c->p, op.id, h);
  Outcome* o = (Outcome*)calloc(1, sizeof(Outcome));
  ev("call", op.id, op.kind, depth); run_op(op, *text_of(c->t, op.text), *o); R->ops++;
  bool f = h.fired || alloc_fault_fired(); alloc_fault(-1, false); t_hooks = outer;
  ev("return", op.id, (i64)oh(*o), depth); state(oh(*o));
  judge("nested-call-interference", op, *o, *outcome_slot(c->slot[op.id]), f, depth ? ("called from a callback at depth " + std::to_string(depth)).c_str() : "with calls made from its callbacks");
  free(o);
}
static void c12_body(int, void* a) {
  C12* c = (C12*)a;
  for (auto& op : c->p->ops) if (op.task == 0) c12_call(c, op, 0);
}
void exec_C12(const Plan& p) {
  C12 c; c.p = &p; c.t = make_texts(p, 0); c.budget = 60; c.deepest = (int)std::min<i64>(p.param("deep", 3), 40);
  int k = 0;
  for (auto& op : p.ops) { TextStore* t = text_of(c.t, op.text); if (!t || k >= OUTCOMES) continue; if (solo(op, t, outcome_slot(k))) c.slot[op.id] = k; k++; }
  std::map<int, u64> before; for (auto& t : c.t) before[t.first] = t.second->hash();
  run_one(c12_body, &c);
  for (auto& t : c.t) if (t.second->hash() != before[t.first]) violation("text-altered", "text %d was altered", t.first);
}

// ------------------------------------------------------------------ C18
// calls on one thread that are left inside the caller's parts and continued in any order
struct C18 { const Plan* p; std::map<int, TextStore*> t; const std::vector<char>* usable; };
static void c18_fiber(int id, void* a) {
  C18* c = (C18*)a; size_t n = c->usable->size();
  for (size_t i = 0; i < n; i++) {
    const Op& op = c->p->ops[i]; if (op.task != id || !(*c->usable)[i]) continue;
    Hooks h; t_hooks = &h; set_fault(*c->p, op.id, h);
    Outcome* o = (Outcome*)calloc(1, sizeof(Outcome));
    ev("call", op.id, op.kind, id); run_op(op, *text_of(c->t, op.text), *o); R->ops++;
    bool f = h.fired || alloc_fault_fired(); alloc_fault(-1, false); t_hooks = nullptr;
    ev("return", op.id, (i64)oh(*o)); state(oh(*o));
    judge("suspended-call-interference", op, *o, *outcome_slot((int)i), f, ("in cooperative task " + std::to_string(id)).c_str());
    free(o);
  }
}
static void c18_body(int, void* a) {
  C18* c = (C18*)a; int n = 1; for (auto& op : c->p->ops) if (op.task >= n && op.task < 6) n = op.task + 1;
  run_fibers(n, c18_fiber, c, c->p->sw.data(), (int)c->p->sw.size(), (int)c->p->param("every"));
}
void exec_C18(const Plan& p) {
  size_t n = p.ops.size() < OUTCOMES - 2 ? p.ops.size() : OUTCOMES - 2; std::vector<char> usable(n, 0);
  C18 c{&p, make_texts(p, 0), &usable};
  for (size_t i = 0; i < n; i++) { TextStore* s = text_of(c.t, p.ops[i].text); if (s && p.ops[i].task >= 0 && p.ops[i].task < 6) usable[i] = solo(p.ops[i], s, outcome_slot((int)i)); }
  std::map<int, u64> before; for (auto& t : c.t) before[t.first] = t.second->hash();
  run_one(c18_body, &c, (int)((u64)p.param("id") % 6));
  for (auto& t : c.t) if (t.second->hash() != before[t.first]) violation("shared-text-altered", "text %d was altered", t.first);
}
}
