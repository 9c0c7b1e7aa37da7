#include "seam.hpp"
#include <new>
#include <stdexcept>
#include <ios>
namespace sim {
struct FaultAlloc : std::bad_alloc, SimFault { FaultAlloc(int k, i64 a) : SimFault(k, a) {} };
template <class B> struct FaultStd : B, SimFault { FaultStd(int k, i64 a) : B("injected"), SimFault(k, a) {} };
void throw_fault(int kind, i64 at) {
  ArenaScope a;
  switch (mix((u64)at * 8 + (u64)kind) % 12) {
  case 0: throw FaultAlloc(kind, at);
  case 1: throw FaultStd<std::runtime_error>(kind, at);
  case 2: throw FaultStd<std::length_error>(kind, at);
  case 3: throw FaultStd<std::out_of_range>(kind, at);
  case 4: case 5: throw FaultStd<std::ios_base::failure>(kind, at);
  case 6: throw FaultStd<std::invalid_argument>(kind, at);
  case 7: throw FaultStd<std::range_error>(kind, at);
  case 8: throw FaultStd<std::overflow_error>(kind, at);
  case 9: throw FaultStd<std::domain_error>(kind, at);
  default: throw SimFault(kind, at);
  }
}
thread_local Hooks* t_hooks = nullptr;
static const FaultKind fk[H_N] = {F_SOURCE, F_CALLBACK, F_SINK_FAIL};
void StreamIter::bad() { Unarmed u; violation("read-outside", "the source was read beyond its end"); }
void hook(int kind, const void* where) {
  Unarmed u;
  yield_point();
  Hooks* h = t_hooks; suspend_point(); t_hooks = h; if (!h) return;
  i64 k = h->n[kind]++;
  for (int i = 0; i < h->nnests; i++) if (h->nests[i].kind == kind && h->nests[i].at == k && h->run_nested) {
    fired(F_NEST); if (h->depth >= 1) probe(P_NEST_DEPTH2);
    ev("nested", kind, k, h->nests[i].op);
    h->run_nested(h, h->nests[i]); t_hooks = h;
  }
  if (h->fail_at[kind] == k) { h->fired = true; h->failed_at = where; fired(fk[kind]); ev("seam-fails", kind, k); if (h->starve) alloc_fault(0, true); throw_fault(kind, k); }
}
template <class C, class S> static void wr(S& s, const C* p, size_t n) {
  Unarmed u;
  yield_point();
  Hooks* h = t_hooks; suspend_point(); t_hooks = h;
  if (!h) { ArenaScope a; s.append(p, n); return; }
  i64 k = h->n[H_SINK]; h->n[H_SINK] += (i64)n;
  for (int i = 0; i < h->nnests; i++) if (h->nests[i].kind == H_SINK && !h->nests[i].done && h->nests[i].at >= k && h->nests[i].at < k + (i64)n && h->run_nested) {
    h->nests[i].done = true;
    fired(F_NEST); if (h->depth >= 1) probe(P_NEST_DEPTH2);
    ev("nested", H_SINK, k, h->nests[i].op); h->run_nested(h, h->nests[i]); t_hooks = h; }
  i64 f = h->fail_at[H_SINK];
  ArenaScope a;
  if (f >= k && f < k + (i64)n) {
    h->fired = true;
    if (h->torn) { s.append(p, (size_t)(f - k)); fired(F_SINK_TORN); } else fired(F_SINK_FAIL);
    ev("sink-fails", f, h->torn); if (h->starve) alloc_fault(0, true); throw_fault(H_SINK, f);
  }
  s.append(p, n);
}
void sink_begin() {
  Unarmed u; yield_point();
  Hooks* h = t_hooks; suspend_point(); t_hooks = h; if (!h) return;
  i64 k = h->n[H_SINK];
  for (int i = 0; i < h->nnests; i++) if (h->nests[i].kind == H_SINK && !h->nests[i].done && h->nests[i].at == k && (h->nests[i].op & 1) && h->run_nested) {
    h->nests[i].done = true; fired(F_NEST); if (h->depth >= 1) probe(P_NEST_DEPTH2);
    ev("nested", H_SINK, k, h->nests[i].op); h->run_nested(h, h->nests[i]); t_hooks = h; }
}
void sink_write(std::string& s, const char* p, size_t n) { wr<char>(s, p, n); }
void sink_write32(std::basic_string<int>& s, const int* p, size_t n) { wr<int>(s, p, n); }
}
