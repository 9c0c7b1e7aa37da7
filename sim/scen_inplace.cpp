// C14 overwriting codepoints in place
#include "scen_text.hpp"
#include <memory>
#include <functional>
#include <algorithm>
namespace sim {
enum { MSLOTS = 4, SLOTS = 8, TMAX = 4 };
struct Flight { int idx; int old, now; };             // a codepoint being overwritten; idx -1: none
struct C14 {
  const Plan* p; Cps model; std::vector<int> st; int nt; int lo[TMAX], hi[TMAX]; size_t next[TMAX]; Flight fl[TMAX]; int at[TMAX][SLOTS];
  // as they were when the crash struck
  bool crashed; Cps model_then; size_t next_then[TMAX]; Flight fl_then[TMAX]; int at_then[TMAX][SLOTS];
};
static void struck(void* a) { C14* c = (C14*)a; c->crashed = true; c->model_then = c->model; memcpy(c->next_then, c->next, sizeof c->next); memcpy(c->fl_then, c->fl, sizeof c->fl); memcpy(c->at_then, c->at, sizeof c->at); }
static int same_length(i64 x, int old) {              // another codepoint encoded in as many octets
  int n = enc_len(old); u64 h = mix((u64)x * 7919 + 13);
  static const int near[4][6] = {{'a', 0x7F, 0, '?', 10, 0x3F}, {0x80, 0x7FF, 0xE9, 0x301, 0xBF, 0x5D0}, {0x800, 0xFFFF, 0x3042, 0xAC00, 0xFB1D, 0x1E0A}, {0x10000, 0x10FFFF, 0x1F600, 0x3FFFF, 0x1D165, 0x40000}};
  if (h & 1) return near[n - 1][(h >> 8) % 6];
  for (;; h = mix(h)) { static const int lim[] = {0x80, 0x800, 0x10000, 0x110000}; int c = (int)((h >> 11) % (u64)lim[n - 1]); if (enc_len(c) == n && (c < 0xD800 || c > 0xDFFF)) return c; }
}
template <class F> static bool act14(const Ev& e, i64 fault, F f) {
  Hooks h; h.fail_at[H_SOURCE] = fault; t_hooks = &h; bool threw = false; R->ops++;
  try { Armed a; f(); } catch (const SimFault&) { threw = true; }
  t_hooks = nullptr;
  if (h.fired != threw) violation("failure-swallowed", "a failing access during %s did not reach the caller", e.kind.c_str());
  return !threw;
}
template <class M, class C> struct Life {
  C14* c; std::function<M(int)> m_at; std::function<C(int)> c_at; std::function<int(const M&)> m_pos; std::function<int(const C&)> c_pos; std::function<const char*(int)> raw;
  static void task(int id, void* a) { ((Life*)a)->run(id); }
  void run(int t) {
    const Plan& p = *c->p; const int lo = c->lo[t], hi = c->hi[t], o0 = c->st[lo], o1 = c->st[hi]; if (lo == hi) return;
    std::unique_ptr<M> m[MSLOTS]; std::unique_ptr<C> k[SLOTS]; int* idx = c->at[t]; bool start[SLOTS];
    auto put = [&](int s, int o) { if (s < MSLOTS) m[s].reset(new M(m_at(o))); else k[s].reset(new C(c_at(o))); idx[s] = index_of(c->st, o); start[s] = o == c->st[idx[s]]; };
    auto has = [&](int s) { return s < MSLOTS ? !!m[s] : !!k[s]; };
    auto where = [&](int s) { return index_of(c->st, s < MSLOTS ? m_pos(*m[s]) : c_pos(*k[s])); };
    for (int s = 0; s < SLOTS; s++) if (idx[s] >= 0) put(s, c->st[idx[s]]);     // reopened where they stood
    for (size_t i = c->next[t]; i < p.evs.size(); i++) {
      const Ev& e = p.evs[i]; c->next[t] = i; if (e.kind == "crash" || e.kind == "stall" || e.a != t) continue;
      int s = (int)((u64)e.b % SLOTS); raise_tick_cap(R->ticks + 400000 + 60000ull * c->model.size());
      auto rep = [&](auto f) { if (!act14(e, e.d, f)) act14(e, -1, f); };
      if (e.kind == "mk") { int o = o0 + (int)((u64)e.c % (u64)(o1 - o0 + 1)); put(s, o); if (!start[s]) probe(P_REOPEN_MID_CODEPOINT); }
      else if (e.kind == "walk") {
        Cps got; rep([&] { { Unarmed u; got.clear(); } C x = c_at(o0), z = c_at(o1); while (x != z) { int v = (int)*x; { Unarmed u; got.push_back(v); } if (e.c & 1) x++; else ++x; } });
        Cps want(c->model.begin() + lo, c->model.begin() + hi); ev("walk", t, (i64)hash_of(got));
        if (got != want) violation("text-damaged", "a walk of codepoints %d to %d gives %s instead of %s", lo, hi, hexs(got).c_str(), hexs(want).c_str());
      } else if (e.kind == "gw") {
        Cps got; const char* b = raw(o0); act14(e, -1, [&] { utf8_string_view v(std::experimental::string_view(b, o1 - o0)); Seg sg = segment(v); Unarmed u; got = flat(sg); });
        Cps want(c->model.begin() + lo, c->model.begin() + hi); ev("graphemes", t, (i64)hash_of(got));
        if (got != want) violation("text-damaged", "walking codepoints %d to %d by grapheme gives %s instead of %s", lo, hi, hexs(got).c_str(), hexs(want).c_str());
      } else if (e.kind == "chk") {
        bool ok = false; const char* b = raw(o0); act14(e, -1, [&] { ok = utf8_bounds<const char*>::check(b, b + (o1 - o0)); }); ev("check", t, ok);
        if (!ok) violation("text-damaged", "the border check rejects codepoints %d to %d of a text overwritten in place", lo, hi);
      } else if (!has(s)) continue;
      else if (e.kind == "rd") {
        if (idx[s] == hi) continue; int v = -1;
        rep([&] { if (s < MSLOTS) v = (*(*m[s])).value; else v = (int)*(*k[s]); }); ev("read", t, idx[s], v);
        if (v != c->model[idx[s]]) violation("cursor-reads-wrong-codepoint", "thread %d: the cursor at codepoint %d reads U+%04X instead of U+%04X", t, idx[s], v, c->model[idx[s]]);
      } else if (e.kind == "inc" || e.kind == "dec") {
        bool inc = e.kind == "inc"; if (inc ? idx[s] == hi : idx[s] == lo) continue;
        int from = idx[s], to = inc ? from + 1 : from - 1; ev(e.kind.c_str(), t, from, s);
        auto mv = [&] { if (s < MSLOTS) { M& x = *m[s]; if (e.c & 1) { if (inc) x++; else x--; } else if (inc) ++x; else --x; } else { C& x = *k[s]; if (e.c & 1) { if (inc) x++; else x--; } else if (inc) ++x; else --x; } };
        if (!act14(e, e.d, mv)) { int at = where(s); if (at != from && at != to) violation("cursor-lost-after-read-error", "a cursor whose move from codepoint %d to %d failed stands at %d", from, to, at); probe(P_CURSOR_FAULT_MOVE); if (at == from) act14(e, -1, mv); }
        if (where(s) != to) violation("cursor-moved-wrongly", "thread %d: a cursor moved %s from codepoint %d stands at %d", t, inc ? "forward" : "back", from, where(s));
        idx[s] = to; start[s] = (s < MSLOTS ? m_pos(*m[s]) : c_pos(*k[s])) == c->st[to];
      } else if (e.kind == "wr") {
        if (s >= MSLOTS || idx[s] == hi || !start[s]) continue;
        int j = idx[s], nw = same_length(e.c, c->model[j]); ev("overwrite", t, j, nw); R->probe[P_ENC1 + enc_len(nw) - 1]++;
        if (e.c & 4) for (int q = 0; q < MSLOTS; q++) if (q != s && m[q] && idx[q] == j && start[q]) {         // reached for, then overwritten through another cursor, then overwritten after all
          auto x = *(*m[s]); int mid = same_length(e.c * 31 + 7, c->model[j]); if (e.c & 8) nw = c->model[j];
          c->fl[t] = Flight{j, c->model[j], mid}; act14(e, -1, [&] { *(*m[q]) = codepoint(mid); }); c->model[j] = mid;
          c->fl[t] = Flight{j, mid, nw}; act14(e, -1, [&] { x = codepoint(nw); }); c->model[j] = nw; c->fl[t].idx = -1;
          start[q] = m_pos(*m[q]) == c->st[j]; start[s] = m_pos(*m[s]) == c->st[j]; probe(P_OVERWRITTEN_BETWEEN); j = -1; break;
        }
        if (j < 0) goto done;
        c->fl[t] = Flight{j, c->model[j], nw};
        if ((e.c & 48) == 48 && e.d < 0) {                 // written as algorithms write: *x++ = c
          act14(e, -1, [&] { *(*m[s])++ = codepoint(nw); }); c->model[j] = nw; c->fl[t].idx = -1; idx[s] = j + 1; start[s] = m_pos(*m[s]) == c->st[j + 1];
          if (where(s) != j + 1) violation("cursor-moved-wrongly", "thread %d: the cursor that overwrote codepoint %d and went on stands at %d", t, j, where(s)); goto done;
        }
        auto w = [&] { if (e.c & 2) { auto x = *(*m[s]); x = codepoint(nw); } else *(*m[s]) = codepoint(nw); };
        if (!act14(e, e.d, w)) { int at = where(s); if (at != j) violation("cursor-lost-after-write-error", "a cursor whose write to codepoint %d failed stands at %d", j, at); m[s].reset(new M(m_at(c->st[j]))); act14(e, -1, w); }
        // done and recorded in one step, as far as the crash is concerned
        c->model[j] = nw; c->fl[t].idx = -1; start[s] = m_pos(*m[s]) == c->st[j];
        if (where(s) != j) violation("cursor-moved-wrongly", "thread %d: the cursor that overwrote codepoint %d stands at %d", t, j, where(s));
      } else if (e.kind == "cp") {
        int q = (int)((u64)e.c % SLOTS); if (q == s || (q < MSLOTS) != (s < MSLOTS)) continue;
        if (s < MSLOTS) { if (m[q] && (e.c & 64)) *m[q] = *m[s]; else m[q].reset(new M(*m[s])); } else { if (k[q] && (e.c & 64)) *k[q] = *k[s]; else k[q].reset(new C(*k[s])); }
        idx[q] = idx[s]; start[q] = start[s];
      } else if (e.kind == "eq") {
        int q = (int)((u64)e.c % SLOTS); if ((q < MSLOTS) != (s < MSLOTS) || !has(q) || idx[s] == hi) continue; bool eq = false, ne = false;
        rep([&] { if (s < MSLOTS) { eq = *m[s] == *m[q]; ne = *m[s] != *m[q]; } else { eq = *k[s] == *k[q]; ne = *k[s] != *k[q]; } }); ev("compare", idx[s], idx[q], eq);
        if (eq == ne || eq != (idx[s] == idx[q])) violation("cursors-compare-wrongly", "thread %d: cursors at codepoints %d and %d: == gives %d, != gives %d", t, idx[s], idx[q], eq, ne);
      } else continue;
      done: u64 h = 0;
      for (int x = 0; x < SLOTS; x++) if (has(x)) { if (where(x) != idx[x]) violation("other-cursor-moved", "thread %d: %s through cursor %d moved cursor %d from codepoint %d to %d", t, e.kind.c_str(), s, x, idx[x], where(x)); h = mix(h ^ (u64)(x * 1000 + idx[x])); }
      state(h);
    }
    c->next[t] = p.evs.size();
  }
};
// what is in the storage now: every codepoint in place, except that one being overwritten may be half new
static void intact(const C14& c, const std::string& oct, const Cps& model, const Flight* fl, const char* when) {
  Held H(oct, 7); raise_tick_cap(R->ticks + 400000 + 60000ull * model.size()); int n = (int)model.size(), i = 0; bool ok;
  { Armed a; ok = utf8_bounds<std::string::const_iterator>::check(H.s->native_cbegin(), H.s->native_cend()); }
  if (!ok) violation("text-damaged", "%s the border check rejects the text", when);
  auto busy = [&](int k) { for (int t = 0; t < c.nt; t++) if (fl && fl[t].idx == k) return true; return false; };
  Armed a; auto b = H.s->native_cbegin(); auto x = H.s->codepoint_cbegin(), z = H.s->codepoint_cend();
  while (x != z) {
    int o = (int)(raw_of(x) - b), v = (int)*x;
    { Unarmed u; if (i >= n || o != c.st[i]) violation("text-damaged", "%s codepoint %d of the text begins at octet %d instead of %d", when, i, o, i < n ? c.st[i] : -1);
      if (v != model[i] && !busy(i)) violation("text-damaged", "%s codepoint %d of the text is U+%04X instead of U+%04X", when, i, v, model[i]); }
    i++; ++x;
  }
  Unarmed u; if (i != n) violation("text-damaged", "%s the text has %d codepoints instead of %d", when, i, n);
}
static const int no_slots[TMAX][SLOTS] = {{-1,-1,-1,-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1,-1,-1,-1},{-1,-1,-1,-1,-1,-1,-1,-1}};
void exec_C14(const Plan& p) {
  C14 c; c.p = &p; c.model = p.text(0); c.st = unit_starts(c.model); int n = (int)c.model.size(); if (!n) return;
  c.nt = (int)std::min<i64>(std::max<i64>(p.param("nt", 1), 1), TMAX);
  std::vector<int> cut{0}; for (int t = 1; t < c.nt; t++) { char b[8]; snprintf(b, sizeof b, "cut%d", t); cut.push_back((int)((u64)p.param(b) % (u64)(n + 1))); } cut.push_back(n); std::sort(cut.begin(), cut.end());
  for (int t = 0; t < c.nt; t++) { c.lo[t] = cut[t]; c.hi[t] = cut[t + 1]; }
  for (int t = 0; t < TMAX; t++) { c.next[t] = 0; c.fl[t] = Flight{-1, 0, 0}; } memcpy(c.at, no_slots, sizeof c.at);
  std::vector<i64> crashes; for (auto& e : p.evs) if (e.kind == "crash") crashes.push_back(e.b);
  std::string oct = enc_all(c.model); int type = (int)p.param("type");
  for (size_t life = 0;; life++) {
    Held H(oct, (int)life, 0xE2); char* base = type == 1 ? &H.s->native_string[0] : H.blk; c.crashed = false;
    i64 k = life < crashes.size() ? crashes[life] : -1; ev("life", (i64)life, k);
    watch_start(base, base + H.n, k, true, struck, &c);
    auto go = [&](auto& l) { typedef typename std::remove_reference<decltype(l)>::type L; p.use_order((int)life); run_tasks(c.nt, L::task, &l, p.sw.data(), life ? 0 : (int)p.sw.size(), (int)p.param("gw"), true); };
    auto raw = [&](int o) { return (const char*)base + o; };
    if (type == 0) { typedef utf8_iterator<char*> M; typedef utf8_const_iterator<const char*> C; Life<M, C> l{&c, [&](int o) { return M(base + o); }, [&](int o) { return C(base + o); }, [&](const M& i) { return (int)(i.raw_iterator_ - base); }, [&](const C& i) { return (int)(i.raw_iterator_ - base); }, raw}; go(l); }
    else if (type == 1) { typedef utf8_string::iterator M; typedef utf8_string::const_iterator C; auto mb = H.s->native_begin(); auto cb = H.s->native_cbegin();
      Life<M, C> l{&c, [&](int o) { return M(mb + o); }, [&](int o) { return C(cb + o); }, [&](const M& i) { return (int)(i.raw_iterator_ - mb); }, [&](const C& i) { return (int)(i.raw_iterator_ - cb); }, raw}; go(l); }
    else { typedef utf8_iterator<SimIter<char>> M; typedef utf8_const_iterator<SimIter<const char>> C; Life<M, C> l{&c, [&](int o) { return M(SimIter<char>(base + o)); }, [&](int o) { return C(SimIter<const char>(base + o)); }, [&](const M& i) { return (int)(i.raw_iterator_.p - base); }, [&](const C& i) { return (int)(i.raw_iterator_.p - base); }, raw}; go(l); }
    Watch* w = watch_stop(); std::string end(base, H.n);
    intact(c, end, c.model, nullptr, "at the end");
    if (end != enc_all(c.model)) violation("text-damaged", "the text overwritten in place is %s instead of %s", hexs(end, 40).c_str(), hexs(enc_all(c.model), 40).c_str());
    if (!c.crashed) break;
    // the process died there; what it had stored is what is left
    fired(F_CRASH); oct.assign(w->snap, H.n); c.model = c.model_then; memcpy(c.next, c.next_then, sizeof c.next); memcpy(c.at, c.at_then, sizeof c.at); bool half = false;
    for (int t = 0; t < c.nt; t++) half |= c.fl_then[t].idx >= 0 && oct.compare(c.st[c.fl_then[t].idx], enc_len(c.fl_then[t].old), enc_all(Cps{c.fl_then[t].old})) != 0;
    probe(P_TORN_CODEPOINT, half); ev("crash", (i64)life, half); state(hash_of(oct));
    intact(c, oct, c.model, c.fl_then, "after a crash");
    // recovery overwrites again what was being overwritten
    for (int t = 0; t < c.nt; t++) c.fl[t] = Flight{-1, 0, 0};
    for (int t = 0; t < c.nt; t++) if (c.fl_then[t].idx >= 0) { int j = c.fl_then[t].idx; utf8_iterator<char*> it((char*)&oct[0] + c.st[j]); *it = codepoint(c.fl_then[t].now); c.model[j] = c.fl_then[t].now; c.next[t]++; }
    probe(P_RESUMED);
  }
}
}
