// C08 fragments, C09 cursors, C10 interrupted normalisation, C13 reopening
#include "scen_text.hpp"
#include <memory>
#include <functional>
#include <algorithm>
#include <new>
namespace sim {
static u64 cap2(size_t n) { return R->ticks + 300000 + 80000ull * n + 400ull * n * n; }
template <class E> struct StoreOf;
// normalise one grapheme
template <class ES, class OUT> int norm_one(int form, basic_grapheme<ES> g, OUT& out) {
  switch (form & 3) { case 0: return normalization_form_d<ES, OUT>(g, out); case 1: return normalization_form_c<ES, OUT>(g, out); case 2: return normalization_form_kd<ES, OUT>(g, out); default: return normalization_form_kc<ES, OUT>(g, out); }
}
static Cps decode32(const utf32ne_string& s) { return Cps(s.native_string.begin(), s.native_string.end()); }

// ------------------------------------------------------------------ C08
// The receiver: takes whatever arrived, processes what is certainly complete,
// keeps the rest.  `unit` 0 codepoints, 1 graphemes, 2 graphemes and normalised text.
struct Receiver {
  Cps got; std::vector<Cps> graphemes; utf8_string norm8; utf32ne_string norm32; size_t committed = 0; i64 count = 0;
};
struct RecvOp { Receiver* r; int form, dst;       // handed to filter: one complete grapheme
  template <class V, class OUT> int operator()(basic_grapheme<V> g, OUT& out) const {
    { Unarmed u; r->graphemes.emplace_back(); }
    for (auto i = g.codepoint_begin(); i != g.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; r->graphemes.back().push_back(c); r->got.push_back(c); }
    return norm_one<V, OUT>(form, g, out);
  }
};
// processes [0,n) of buf; returns how many units were consumed
template <class ES> static size_t recv_graphemes(const Plan& p, Receiver& r, ES& s, bool eof) {
  typedef basic_grapheme_iterator<ES> G; int form = (int)p.param("form"), dst = (int)p.param("dst");
  size_t n = (size_t)(s.native_cend() - s.native_cbegin()); if (!n) return 0;
  Armed a; auto b = s.native_cbegin();
  G g = s.grapheme_begin(), e = s.grapheme_end(), last = g;
  size_t used = n;
  if (!eof) {                                  // the last grapheme may still grow
    while (g != e) { last = g; ++g; }
    used = (size_t)(raw_of((*last).codepoint_begin()) - b); { Unarmed u; probe(P_GRAPHEME_SPLIT_PIECE); probe(P_HELD_BACK_OCTETS, (u32)(n - used)); }
    e = last; g = s.grapheme_begin();
  }
  RecvOp op{&r, form, dst};
  if (used) { if (dst) r.count += filter(g, e, r.norm32, op); else r.count += filter(g, e, r.norm8, op); }
  return used;
}
template <class ES> static size_t recv_codepoints(Receiver& r, ES& s, size_t complete) {
  if (!complete) return 0;
  Armed a; typename ES::const_iterator i = s.codepoint_cbegin(), e(s.native_cbegin() + complete);
  while (i != e) { int c = (int)*i; { Unarmed u; r.got.push_back(c); } ++i; }
  return complete;
}
static void c08_u8(const Plan& p) {
  const Cps& cps = p.text(0); std::string full = enc_all(cps); int mode = (int)p.param("mode"), unit = (int)p.param("unit");
  Receiver* r = new Receiver; size_t off = 0, have = 0;   // off: octets the sender has sent, have: octets buffered
  char* blk; utf8_string* str; size_t cap = full.size() + 64; typedef std::string::const_iterator SI; typedef std::experimental::string_view::const_iterator VI;
  { ArenaScope a; blk = (char*)arena_alloc(cap); memset(blk, (int)p.param("stale", 0xA9), cap); set_valid(blk, blk + cap, false); name_region("receive buffer", 0, blk, blk + cap);
    str = new (arena_alloc(sizeof(utf8_string))) utf8_string(); str->native_string.reserve(cap); }
  if (mode == 1) fired(F_STALE);
  auto arrive = [&](bool eof) {
    set_tick_cap(cap2(have)); R->ops++;
    char* base = mode == 1 ? blk : &str->native_string[0]; size_t complete = have;
    if (have) {
      bool ok; { Armed a; if (mode == 1) { utf8_string_view v(std::experimental::string_view(blk, have)); ok = utf8_bounds<VI>::check(v.native_cbegin(), v.native_cend()); } else ok = utf8_bounds<SI>::check(str->native_cbegin(), str->native_cend()); }
      ev("check", ok);
      if (!ok) {
        if (eof) violation("complete-text-rejected", "at the end of the transmission the border check rejects the last %zu octets %s", have, hexs(std::string(base, have), 40).c_str());
        probe(P_TORN_CODEPOINT);
        Armed a; if (mode == 1) { utf8_string_view v(std::experimental::string_view(blk, have)); complete = (size_t)(utf8::native_const_iterator<std::experimental::string_view>(utf8_string_view::const_iterator(v.native_cend() - 1)) - v.native_cbegin()); }
        else complete = (size_t)(utf8::native_const_iterator<std::string>(utf8_string::const_iterator(str->native_cend() - 1)) - str->native_cbegin());
      }
    }
    if (complete > have) violation("lost-track", "the cut off codepoint was found outside the buffer");
    size_t used = 0;
    if (mode == 1) { utf8_string_view v(std::experimental::string_view(blk, unit ? complete : have)); used = unit ? recv_graphemes(p, *r, v, eof) : recv_codepoints(*r, v, complete); }
    else if (unit == 0) used = recv_codepoints(*r, *str, complete);
    else { utf8_string part; { Unarmed u; ArenaScope a; part.native_string.assign(str->native_string, 0, complete); } used = recv_graphemes(p, *r, part, eof); }
    if (used > have) violation("lost-track", "%zu octets were processed of %zu received", used, have);
    r->committed += used; ev("processed", (i64)used, (i64)have); state(mix(r->committed * 131 + have));
    if (mode == 1) { memmove(blk, blk + used, have - used); have -= used; set_valid(blk, blk + cap, false); set_valid(blk, blk + have, true); }
    else { str->native_string.erase(0, used); have -= used; }
    if (have) probe(P_RESUMED);
  };
  auto deliver = [&](size_t n) {
    n = std::min(n, full.size() - off); size_t lo = r->committed; (void)lo;
    ev("deliver", (i64)n);
    if (mode == 1) { set_valid(blk, blk + have + n, true); memcpy(blk + have, full.data() + off, n); } else { ArenaScope a; str->native_string.append(full, off, n); }
    have += n; off += n; arrive(false);
  };
  for (auto& e : p.evs) {
    if (e.kind == "read") { if (e.a < 1) continue; if (off < full.size()) fired(F_SHORTREAD); deliver((size_t)e.a); }
    else if (e.kind == "empty") { fired(F_EMPTYREAD); deliver(0); }
    else if (e.kind == "reconnect") { if (off == r->committed && !have) continue; fired(F_RECONNECT); ev("reconnect", (i64)r->committed); off = r->committed; have = 0; if (mode == 1) set_valid(blk, blk + cap, false); else str->native_string.clear(); }
  }
  size_t rest = (size_t)p.param("rest"); int guard = 0;          // faults have stopped: everything must arrive
  while (off < full.size()) { if (++guard > 20000) violation("no-progress", "the transmission does not end"); deliver(rest ? rest : full.size()); }
  arrive(true);
  if (have || r->committed != full.size()) violation("text-left-over", "%zu octets were never processed", have);
  Held H(full, 9); set_tick_cap(cap2(full.size()));
  if (r->got != cps) { size_t i = 0; while (i < r->got.size() && i < cps.size() && r->got[i] == cps[i]) i++; violation("wrong-codepoints", "the receiver obtained %zu codepoints of %zu; first difference at %zu (U+%04X for U+%04X)", r->got.size(), cps.size(), i, i < r->got.size() ? r->got[i] : 0, i < cps.size() ? cps[i] : 0); }
  if (unit == 0) return;
  Seg whole = segment(*H.s);
  if (r->graphemes != whole.g) { size_t i = 0; while (i < whole.g.size() && i < r->graphemes.size() && whole.g[i] == r->graphemes[i]) i++;
    violation("wrong-graphemes", "grapheme %zu is %s when received in fragments, %s in one piece", i, i < r->graphemes.size() ? hexs(r->graphemes[i]).c_str() : "missing", i < whole.g.size() ? hexs(whole.g[i]).c_str() : "missing"); }
  set_tick_cap(cap2(full.size())); int form = (int)p.param("form");
  if (p.param("dst")) { utf32ne_string o; i64 c; { Armed a; c = normalize(form, *H.s, o); } if (o.native_string != r->norm32.native_string || c != r->count) violation("wrong-normalised-text", "form %d gives %s (%lld) in fragments, %s (%lld) in one piece", form, hexs(decode32(r->norm32)).c_str(), (long long)r->count, hexs(decode32(o)).c_str(), (long long)c); }
  else { utf8_string o; i64 c; { Armed a; c = normalize(form, *H.s, o); } if (o.native_string != r->norm8.native_string || c != r->count) violation("wrong-normalised-text", "form %d gives %s (%lld) in fragments, %s (%lld) in one piece", form, hexs(r->norm8.native_string).c_str(), (long long)r->count, hexs(o.native_string).c_str(), (long long)c); }
}
static void c08_u32(const Plan& p) {
  const Cps& cps = p.text(0); Receiver* r = new Receiver; size_t off = 0, have = 0; size_t cap = cps.size() + 32; int mode = (int)p.param("mode");
  int* blk; utf32ne_string* str;
  { ArenaScope a; blk = (int*)arena_alloc(cap * 4); for (size_t i = 0; i < cap; i++) blk[i] = 0x301; set_valid(blk, blk + cap, false); name_region("receive buffer", 0, blk, blk + cap); str = new (arena_alloc(sizeof(utf32ne_string))) utf32ne_string(); str->native_string.reserve(cap); }
  if (mode == 1) fired(F_STALE);
  auto arrive = [&](bool eof) {
    set_tick_cap(cap2(have)); R->ops++; size_t used;
    if (mode == 1) { utf32ne_string_view v(std::experimental::basic_string_view<int>(blk, have)); used = recv_graphemes(p, *r, v, eof); } else used = recv_graphemes(p, *r, *str, eof);
    if (used > have) violation("lost-track", "%zu codepoints were processed of %zu received", used, have);
    r->committed += used; ev("processed", (i64)used, (i64)have); state(mix(r->committed * 131 + have));
    if (mode == 1) { memmove(blk, blk + used, (have - used) * 4); have -= used; set_valid(blk, blk + cap, false); set_valid(blk, blk + have, true); } else { str->native_string.erase(0, used); have -= used; }
  };
  auto deliver = [&](size_t n) { n = std::min(n, cps.size() - off); ev("deliver", (i64)n); if (mode == 1) { set_valid(blk, blk + have + n, true); if (n) memcpy(blk + have, cps.data() + off, n * 4); } else { ArenaScope a; str->native_string.append(cps.data() + off, n); } have += n; off += n; arrive(false); };
  for (auto& e : p.evs) {
    if (e.kind == "read") { if (e.a < 1) continue; if (off < cps.size()) fired(F_SHORTREAD); deliver((size_t)e.a); }
    else if (e.kind == "empty") { fired(F_EMPTYREAD); deliver(0); }
    else if (e.kind == "reconnect") { if (off == r->committed && !have) continue; fired(F_RECONNECT); ev("reconnect", (i64)r->committed); off = r->committed; have = 0; if (mode == 1) set_valid(blk, blk + cap, false); else str->native_string.clear(); }
  }
  size_t rest = (size_t)p.param("rest"); int guard = 0;
  while (off < cps.size()) { if (++guard > 20000) violation("no-progress", "the transmission does not end"); deliver(rest ? rest : cps.size()); }
  arrive(true);
  if (have || r->committed != cps.size()) violation("text-left-over", "%zu codepoints were never processed", have);
  if (r->got != cps) violation("wrong-codepoints", "the receiver obtained %zu codepoints of %zu or in another order", r->got.size(), cps.size());
  Held32 H(cps, 9); set_tick_cap(cap2(cps.size())); Seg whole = segment(*H.s); int form = (int)p.param("form");
  if (r->graphemes != whole.g) { size_t i = 0; while (i < whole.g.size() && i < r->graphemes.size() && whole.g[i] == r->graphemes[i]) i++;
    violation("wrong-graphemes", "grapheme %zu is %s when received in fragments, %s in one piece", i, i < r->graphemes.size() ? hexs(r->graphemes[i]).c_str() : "missing", i < whole.g.size() ? hexs(whole.g[i]).c_str() : "missing"); }
  if (p.param("dst")) { utf32ne_string o; i64 c; { Armed a; c = normalize(form, *H.s, o); } if (o.native_string != r->norm32.native_string || c != r->count) violation("wrong-normalised-text", "form %d gives %s (%lld) in fragments, %s (%lld) in one piece", form, hexs(decode32(r->norm32)).c_str(), (long long)r->count, hexs(decode32(o)).c_str(), (long long)c); }
  else { utf8_string o; i64 c; { Armed a; c = normalize(form, *H.s, o); } if (o.native_string != r->norm8.native_string || c != r->count) violation("wrong-normalised-text", "form %d gives %s (%lld) in fragments, %s (%lld) in one piece", form, hexs(r->norm8.native_string).c_str(), (long long)r->count, hexs(o.native_string).c_str(), (long long)c); }
}
static void c08_run(const Plan& p) { if (p.param("enc")) c08_u32(p); else c08_u8(p); }
void exec_C08(const Plan& p) { in_task(c08_run, p); }

// ------------------------------------------------------------------ C09
enum { SLOTS = 8 };
static bool act(const Ev& e, void (*fn)(void*), void* arg, bool* threw) {      // one library call with a possible source failure
  Hooks h; h.fail_at[H_SOURCE] = e.d; t_hooks = &h; *threw = false; R->ops++;
  try { fn(arg); } catch (const SimFault&) { *threw = true; }
  t_hooks = nullptr;
  if (h.fired != *threw) violation("read-error-swallowed", "a source failure during %s did not reach the caller", e.kind.c_str());
  return !*threw;
}
template <class F> static bool acting(const Ev& e, F f) { bool t; return act(e, [](void* a) { Armed ar; (*(F*)a)(); }, &f, &t); }
template <class CI> struct Ref {     // the codepoint cursors under test
  const Cps& cps; const std::vector<int>& st; std::function<CI(int)> at; std::function<int(const CI&)> pos; bool can_eq_end, can_dec_end;
};
template <class CI> static void cursors(const Plan& p, const Ref<CI>& w) {
  const int n = (int)w.cps.size(); std::unique_ptr<CI> cur[SLOTS]; int idx[SLOTS]; 
  auto where = [&](int s) { return index_of(w.st, w.pos(*cur[s])); };
  auto slot = [&](i64 x) { return (int)((u64)x % SLOTS); };
  for (auto& e : p.evs) {
    int s = slot(e.a), t = slot(e.b);
    set_tick_cap(cap2(n + 8));
    if (e.kind == "mk") { int o = (int)((u64)e.b % (u64)(w.st[n] + 1)); cur[s].reset(new CI(w.at(o))); idx[s] = index_of(w.st, o); if (o != w.st[idx[s]]) probe(P_REOPEN_MID_CODEPOINT); }
    else if (!cur[s]) continue;
    else if (e.kind == "rd") {
      if (idx[s] == n) continue; int v = -1; ev("read", s, idx[s], e.d);
      if (!acting(e, [&] { v = (int)**cur[s]; })) acting(Ev{"repeated read", e.a, e.b, e.c, -1}, [&] { v = (int)**cur[s]; });
      if (v != w.cps[idx[s]]) violation("cursor-reads-wrong-codepoint", "the cursor at codepoint %d reads U+%04X instead of U+%04X", idx[s], v, w.cps[idx[s]]);
    } else if (e.kind == "peek") {              // what was read stays what it is when the cursor moves on
      if (idx[s] == n) continue; int v = -1, from = idx[s]; ev("peek", s, from, e.d);
      if (acting(e, [&] { auto&& c = **cur[s]; ++*cur[s]; v = (int)c; })) {
        if (v != w.cps[from]) violation("cursor-reads-wrong-codepoint", "what was read at codepoint %d is U+%04X instead of U+%04X after the cursor moved on", from, v, w.cps[from]);
        if (where(s) != from + 1) violation("cursor-moved-wrongly", "a cursor moved forward from codepoint %d stands at %d", from, where(s));
        idx[s]++;
      } else { int at = where(s); if (at != from && at != from + 1) violation("cursor-lost-after-read-error", "a cursor whose move from codepoint %d to %d failed stands at %d", from, from + 1, at); idx[s] = at; }
    } else if (e.kind == "inc" || e.kind == "dec") {
      bool inc = e.kind == "inc"; if (inc ? idx[s] == n : idx[s] == 0) continue; if (!inc && idx[s] == n && !w.can_dec_end) continue;
      int from = idx[s], to = inc ? from + 1 : from - 1; ev(inc ? "forward" : "back", s, from, e.d);
      std::unique_ptr<CI> old;
      auto move = [&] { if (e.c & 1) { CI o = inc ? (*cur[s])++ : (*cur[s])--; Unarmed u; old.reset(new CI(o)); } else if (inc) ++*cur[s]; else --*cur[s]; };
      if (acting(e, move)) {
        if (where(s) != to) violation("cursor-moved-wrongly", "a cursor moved %s from codepoint %d stands at %d", inc ? "forward" : "back", from, where(s));
        if (old && index_of(w.st, w.pos(*old)) != from) violation("cursor-moved-wrongly", "the cursor returned by the postfix move stands at codepoint %d instead of %d", index_of(w.st, w.pos(*old)), from);
      } else {
        int at = where(s); ev("after-failed-move", s, at);
        if (at != from && at != to) violation("cursor-lost-after-read-error", "a cursor whose move from codepoint %d to %d failed stands at %d", from, to, at);
        probe(P_CURSOR_FAULT_MOVE);
        if (at == from) { acting(Ev{"repeated move", e.a, e.b, e.c, -1}, move); if (where(s) != to) violation("cursor-moved-wrongly", "a move repeated after a read error ends at codepoint %d instead of %d", where(s), to); }
      }
      idx[s] = to;
    } else if (e.kind == "cp") {
      if (s == t) continue;
      if ((e.c & 1) && cur[t]) *cur[t] = *cur[s]; else cur[t].reset(new CI(*cur[s]));
      idx[t] = idx[s];
    } else if (e.kind == "eq") {
      if (!cur[t]) continue; if (idx[s] == n && !w.can_eq_end && s != t) continue;
      bool eq = false, ne = false; ev("compare", idx[s], idx[t], e.d);
      auto cmp = [&] { eq = *cur[s] == *cur[t]; ne = *cur[s] != *cur[t]; };
      if (!acting(e, cmp)) acting(Ev{"repeated comparison", e.a, e.b, e.c, -1}, cmp);
      if (eq == ne || eq != (idx[s] == idx[t])) violation("cursors-compare-wrongly", "cursors at codepoints %d and %d: == gives %d, != gives %d", idx[s], idx[t], eq, ne);
    } else continue;
    u64 h = 0;
    for (int k = 0; k < SLOTS; k++) if (cur[k]) {
      if (where(k) != idx[k]) violation("other-cursor-moved", "%s of cursor %d moved cursor %d from codepoint %d to %d", e.kind.c_str(), s, k, idx[k], where(k));
      h = mix(h ^ (u64)(k * 1000 + idx[k]));
    }
    state(h);
  }
}
template <class ES> static void gcursors(const Plan& p, const Seg& seg, int units, std::function<typename ES::const_iterator(int)> at, std::function<int(const typename ES::const_iterator&)> pos, const std::vector<int>& st, const Cps& cps) {
  typedef basic_grapheme_iterator<ES> G; typedef typename ES::const_iterator CI;
  const int n = (int)seg.g.size(); std::unique_ptr<G> cur[SLOTS]; int idx[SLOTS]; 
  typedef typename std::decay<decltype(*std::declval<G&>())>::type GR; std::unique_ptr<GR> held[SLOTS]; int hidx[SLOTS];       // graphemes kept while the cursors go on
  auto slot = [&](i64 x) { return (int)((u64)x % SLOTS); };
  auto same = [&](int k) -> bool {            // does the cursor still stand there? asked of a copy, so that looking changes nothing
    G look(*cur[k]); auto g = *look; int b = pos(g.codepoint_begin()), e = pos(g.codepoint_end());
    if (idx[k] == n) return b == units && e == units;
    return st[index_of(st, b)] == seg.start[idx[k]] && st[index_of(st, e)] == seg.start[idx[k] + 1];
  };
  for (auto& e : p.evs) {
    int s = slot(e.a), t = slot(e.b);
    set_tick_cap(cap2(cps.size() + 8) * 2);
    if (e.kind == "mk") {
      int o = (int)((u64)e.b % (u64)(units + 1)); std::unique_ptr<G> g; ev("open", s, o, e.d);
      int gi = o == units ? n : index_of(seg.start, o); bool whole = o == units || o == seg.start[gi];
      auto mk = [&] { if (whole && (e.c & 1)) { G x(at(0), at(units), at(o), at(o == units ? units : seg.start[gi + 1])); Unarmed u; g.reset(new G(x)); } else { G x(at(0), at(units), at(o)); Unarmed u; g.reset(new G(x)); } };
      if (!acting(e, mk)) acting(Ev{"repeated open", e.a, e.b, e.c, -1}, mk);
      cur[s] = std::move(g); idx[s] = o == units ? n : index_of(seg.start, o); if (o < units && o != seg.start[idx[s]]) probe(P_REOPEN_MID_GRAPHEME);
    } else if (e.kind == "use") {
      if (!held[t]) continue; Cps v; ev("use", t, hidx[t], e.d);
      auto rd = [&] { { Unarmed u; v.clear(); } GR g(*held[t]); for (CI i = g.codepoint_begin(); i != g.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; v.push_back(c); } };
      if (!acting(e, rd)) acting(Ev{"repeated use", e.a, e.b, e.c, -1}, rd);
      if (v != seg.g[hidx[t]]) violation("grapheme-changed", "a grapheme kept from grapheme %d gives %s instead of %s", hidx[t], hexs(v).c_str(), hexs(seg.g[hidx[t]]).c_str());
      probe(P_GRAPHEME_KEPT);
    } else if (!cur[s]) continue;
    else if (e.kind == "hold") {
      if (idx[s] == n) continue; ev("hold", t, idx[s], e.d); std::unique_ptr<GR> g;
      auto h = [&] { GR x = **cur[s]; Unarmed u; g.reset(new GR(x)); };
      if (!acting(e, h)) acting(Ev{"repeated hold", e.a, e.b, e.c, -1}, h);
      if ((e.c & 1) && held[t]) *held[t] = *g; else held[t] = std::move(g);
      hidx[t] = idx[s];
    }
    else if (e.kind == "rd") {
      if (idx[s] == n) continue; Cps v; ev("read", s, idx[s], e.d);
      auto rd = [&] { { Unarmed u; v.clear(); } auto g = **cur[s]; for (CI i = g.codepoint_begin(); i != g.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; v.push_back(c); } };
      if (!acting(e, rd)) acting(Ev{"repeated read", e.a, e.b, e.c, -1}, rd);
      if (v != seg.g[idx[s]]) violation("cursor-reads-wrong-grapheme", "the cursor at grapheme %d reads %s instead of %s", idx[s], hexs(v).c_str(), hexs(seg.g[idx[s]]).c_str());
    } else if (e.kind == "peek") {
      if (idx[s] == n) continue; Cps v; ev("peek", s, idx[s], e.d);
      auto pk = [&] { auto&& g = **cur[s]; ++*cur[s]; for (CI i = g.codepoint_begin(); i != g.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; v.push_back(c); } };
      if (!acting(e, pk)) { cur[s].reset(); continue; }
      if (v != seg.g[idx[s]]) violation("grapheme-changed", "what was read at grapheme %d is %s instead of %s after the cursor moved on", idx[s], hexs(v).c_str(), hexs(seg.g[idx[s]]).c_str());
      idx[s]++; if (!same(s)) violation("cursor-moved-wrongly", "a grapheme cursor moved forward from grapheme %d stands elsewhere than at grapheme %d", idx[s] - 1, idx[s]);
    } else if (e.kind == "inc" || e.kind == "dec") {
      if (idx[s] == n) continue; ev("forward", s, idx[s], e.d); std::unique_ptr<G> old;
      bool ok = acting(e, [&] { if (e.c & 1) { G o = (*cur[s])++; Unarmed u; old.reset(new G(o)); } else ++*cur[s]; });
      if (ok) {
        if (old) { auto g = **old; if (st[index_of(st, pos(g.codepoint_begin()))] != seg.start[idx[s]]) violation("cursor-moved-wrongly", "the cursor returned by the postfix move does not stand at grapheme %d", idx[s]); }
        idx[s]++;
        if (!same(s)) violation("cursor-moved-wrongly", "a grapheme cursor moved forward from grapheme %d stands elsewhere than at grapheme %d", idx[s] - 1, idx[s]);
      } else { probe(P_CURSOR_FAULT_MOVE); cur[s].reset(); }
    } else if (e.kind == "cp") { if (s == t) continue; if ((e.c & 1) && cur[t]) *cur[t] = *cur[s]; else cur[t].reset(new G(*cur[s])); idx[t] = idx[s]; }
    else if (e.kind == "eq") {
      if (!cur[t]) continue; bool eq = false, ne = false; ev("compare", idx[s], idx[t], e.d);
      auto cmp = [&] { eq = *cur[s] == *cur[t]; ne = *cur[s] != *cur[t]; };
      if (!acting(e, cmp)) acting(Ev{"repeated comparison", e.a, e.b, e.c, -1}, cmp);
      if (eq == ne || eq != (idx[s] == idx[t])) violation("cursors-compare-wrongly", "grapheme cursors at graphemes %d and %d of %d: == gives %d, != gives %d", idx[s], idx[t], n, eq, ne);
    } else if (e.kind == "eqc") {                       // against a codepoint cursor
      int o = (int)((u64)e.b % (u64)(units + 1)); bool eq = false, ne = false; int g = o == units ? n : index_of(seg.start, o); ev("compare", idx[s], g, e.d);
      auto cmp = [&] { CI c = at(o); eq = *cur[s] == c; ne = *cur[s] != c; };
      if (!acting(e, cmp)) acting(Ev{"repeated comparison", e.a, e.b, e.c, -1}, cmp);
      if (eq == ne || eq != (idx[s] == g)) violation("cursors-compare-wrongly", "a grapheme cursor at grapheme %d and a codepoint cursor inside grapheme %d of %d: == gives %d, != gives %d", idx[s], g, n, eq, ne);
    } else continue;
    u64 h = 1;
    for (int k = 0; k < SLOTS; k++) if (cur[k]) {
      if (!same(k)) violation("other-cursor-moved", "%s of grapheme cursor %d changed grapheme cursor %d, which was at grapheme %d", e.kind.c_str(), s, k, idx[k]);
      h = mix(h ^ (u64)(k * 1000 + idx[k]));
    }
    state(h);
  }
}
// reverse iterators: the same text seen from its end
template <class RI, class CI> static void rcursors(const Plan& p, const Cps& cps, const std::vector<int>& st, std::function<CI(int)> at, std::function<int(const CI&)> pos) {
  const int n = (int)cps.size(), units = st[n]; Cps rc(cps.rbegin(), cps.rend()); std::vector<int> rst; for (int i = 0; i <= n; i++) rst.push_back(units - st[n - i]);
  cursors<RI>(p, Ref<RI>{rc, rst,
    [&](int o) { int i = index_of(rst, o), k = n - i; return RI(at(st[k] + (k < n ? (o - rst[i]) % (st[k + 1] - st[k]) : 0))); },
    [&](const RI& r) { return units - st[index_of(st, pos(r.base()))]; }, true, true});
}
static void c09_run(const Plan& p) {
  const Cps& cps = p.text(0); std::string oct = enc_all(cps); auto st = unit_starts(cps); std::vector<int> st32; for (size_t i = 0; i <= cps.size(); i++) st32.push_back((int)i);
  Held H(oct); Held32 H32(cps); SimText sim(&H.s->native_string[0], H.n); char* d = sim.p;
  typedef SimIter<const char> SC; typedef SimIter<char> SM; typedef std::experimental::string_view SV; typedef std::experimental::basic_string_view<int> SV32;
  switch (p.param("type")) {
  case 0: { typedef utf8_const_iterator<SC> I; cursors<I>(p, Ref<I>{cps, st, [&](int o) { return I(SC(d + o)); }, [&](const I& i) { return (int)(i.raw_iterator_.p - d); }, true, true}); break; }
  case 1: { typedef utf8_iterator<SM> I; cursors<I>(p, Ref<I>{cps, st, [&](int o) { return I(SM(d + o)); }, [&](const I& i) { return (int)(i.raw_iterator_.p - d); }, true, true}); break; }
  case 2: { typedef utf8_string::const_iterator I; auto b = H.s->native_cbegin(); cursors<I>(p, Ref<I>{cps, st, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }, true, true}); break; }
  case 3: { typedef utf8_string_view::const_iterator I; auto b = H.v->native_cbegin(); cursors<I>(p, Ref<I>{cps, st, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }, false, true}); break; }
  case 4: { typedef utf8_string::iterator I; auto b = H.s->native_begin(); cursors<I>(p, Ref<I>{cps, st, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }, true, true}); break; }
  case 5: { typedef utf32ne_string::const_iterator I; auto b = H32.s->native_cbegin(); cursors<I>(p, Ref<I>{cps, st32, [&](int o) { return b + o; }, [&](const I& i) { return (int)(i - b); }, true, true}); break; }
  case 6: { typedef utf8_const_iterator<SC> I; sim_string s(sim); Seg g = segment(*H.s); gcursors<sim_string>(p, g, (int)H.n, [&](int o) { return I(SC(d + o)); }, [&](const I& i) { return (int)(i.raw_iterator_.p - d); }, st, cps); break; }
  case 7: { typedef utf8_string::const_iterator I; auto b = H.s->native_cbegin(); Seg g = segment(*H.s); gcursors<utf8_string>(p, g, (int)H.n, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }, st, cps); break; }
  case 8: { typedef utf8_string_view::const_iterator I; auto b = H.v->native_cbegin(); Seg g = segment(*H.v); gcursors<utf8_string_view>(p, g, (int)H.n, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }, st, cps); break; }
  case 10: { typedef utf8_const_iterator<SC> I; rcursors<sim_string::const_reverse_iterator, I>(p, cps, st, [&](int o) { return I(SC(d + o)); }, [&](const I& i) { return (int)(i.raw_iterator_.p - d); }); break; }
  case 11: { typedef utf8_string::const_iterator I; auto b = H.s->native_cbegin(); rcursors<utf8_string::const_reverse_iterator, I>(p, cps, st, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }); break; }
  case 12: { typedef utf8_string::iterator I; auto b = H.s->native_begin(); rcursors<utf8_string::reverse_iterator, I>(p, cps, st, [&](int o) { return I(b + o); }, [&](const I& i) { return (int)(raw_of(i) - b); }); break; }
  case 13: { typedef utf32ne_string::const_iterator I; auto b = H32.s->native_cbegin(); rcursors<utf32ne_string::const_reverse_iterator, I>(p, cps, st32, [&](int o) { return b + o; }, [&](const I& i) { return (int)(i - b); }); break; }
  default: { typedef const int* I; I b = H32.blk; Seg g = segment(*H32.v); gcursors<utf32ne_string_view>(p, g, (int)cps.size(), [&](int o) { return b + o; }, [&](const I& i) { return (int)(i - b); }, st32, cps); break; }
  }
}
void exec_C09(const Plan& p) { in_task(c09_run, p); }

// ------------------------------------------------------------------ C10
// Mode A: the job appends to a store whose writes fail and commits after each
// grapheme; it is restarted at the committed boundary.
struct Job { size_t pos, out; i64 count; };           // the durable commit record
template <class ES> struct JobOp { const Plan* p; Job* j; typename ES::const_iterator base; std::vector<Cps>* seen; size_t off;
  template <class OUT> int operator()(basic_grapheme<ES> g, OUT& out) const {
    hook(H_CALLBACK);
    int r = norm_one<ES, OUT>((int)p->param("form"), g, out);
    size_t end = (size_t)(raw_of(g.codepoint_end()) - raw_of(base));
    { Unarmed u; j->pos = off + end; j->out = out.native_string.size(); j->count += r; ev("commit", (i64)j->pos, (i64)j->out); }
    return r;
  }
};
template <class ES, class OUT, class MK> static void job_run(const Plan& p, OUT& out, size_t units, MK make, std::vector<i64>& commits, Job& j) {
  j = Job{0, 0, 0}; std::vector<Ev> cr; for (auto& e : p.evs) if (e.kind == "crash") cr.push_back(e);
  for (size_t att = 0; att <= cr.size(); att++) {
    Hooks h; bool last = att == cr.size(); alloc_fault(-1, false);
    if (!last) switch (cr[att].a) { case FT_ALLOC_ONCE: alloc_fault(cr[att].b, false); break; case FT_ALLOC_STICKY: alloc_fault(cr[att].b, true); break;
      case FT_CALLBACK: h.fail_at[H_CALLBACK] = cr[att].b; break; case FT_SINK_FAIL: h.fail_at[H_SINK] = cr[att].b; break; case FT_SINK_TORN: h.fail_at[H_SINK] = cr[att].b; h.torn = true; break; default: h.fail_at[H_SOURCE] = cr[att].b; }
    bool threw = false, alloc = false; set_tick_cap(cap2(units) * 2); ev("job", (i64)j.pos, (i64)att);
    size_t off = p.param("resume") ? j.pos : 0; bool cut = p.param("resume") != 0;
    ES* s = make(off); t_hooks = &h;
    try {
      Armed a; typedef basic_grapheme_iterator<ES> G; JobOp<ES> op{&p, &j, s->codepoint_cbegin(), nullptr, off};
      G e = s->grapheme_end();
      if (cut || j.pos == 0) { G b = s->grapheme_begin(); filter(b, e, out, op); }
      else { G b(s->codepoint_cbegin(), s->codepoint_cend(), typename ES::const_iterator(s->native_cbegin() + j.pos)); filter(b, e, out, op); }
    } catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = alloc = true; } catch (...) { violation("wrong-exception", "the job ended with an exception nobody threw"); }
    t_hooks = nullptr; bool af = alloc_fault_fired(); alloc_fault(-1, false); R->ops++;
    if (h.fired && !threw) violation("failure-swallowed", "a failure of the job did not reach the caller");
    if (threw && !h.fired && !af) violation("failure-invented", "the job failed although nothing was injected");
    (void)alloc; if (threw) { fired(F_CRASH); if (out.native_string.size() > j.out) probe(P_PARTIAL_OUTPUT); }
    if (out.native_string.size() < j.out) violation("committed-output-lost", "the output has %zu units although %zu were committed", out.native_string.size(), j.out);
    commits.push_back((i64)j.pos); state(mix(j.pos * 31 + j.out));
    if (!threw) { if (j.pos != units) violation("job-stopped-early", "the job ended at unit %zu of %zu", j.pos, units); return; }
    { ArenaScope a; out.native_string.resize(j.out); } probe(P_RESUMED);
  }
  violation("job-failed", "the job does not complete without faults");
}
template <class ES, class OUT, class MK> static void c10_a(const Plan& p, size_t units, MK make) {
  std::vector<i64> commits; Job j; OUT* out; { ArenaScope a; out = new (arena_alloc(sizeof(OUT))) OUT(); }
  OUT* ref; { ArenaScope a; ref = new (arena_alloc(sizeof(OUT))) OUT(); }
  i64 c; set_tick_cap(cap2(units) * 2); ES* w = make(0); { Armed a; c = normalize((int)p.param("form"), *w, *ref); }
  job_run<ES, OUT>(p, *out, units, make, commits, j);
  if (std::basic_string<typename std::remove_reference<decltype(out->native_string[0])>::type>(out->native_string) != ref->native_string) violation("restarted-job-differs", "form %d: a job restarted at units %s gives another text than a job that ran once", (int)p.param("form"), [&] { std::string s; for (auto x : commits) s += std::to_string(x) + " "; return s; }().c_str());
  if (j.count != c) violation("restarted-job-differs", "form %d: a restarted job counted %lld codepoints, a job that ran once %lld", (int)p.param("form"), (long long)j.count, (long long)c);
}
// Mode B: the job replaces graphemes in the text itself and starts over after each crash.
static Cps decode(const utf32ne_string& o) { return decode32(o); }
static Cps decode(const utf8_string& o) {                          // octets that are no encoding of anything stand for themselves, negative
  const std::string& s = o.native_string; Cps r;
  for (size_t i = 0; i < s.size();) {
    u8 c = (u8)s[i]; int n = c < 0x80 ? 1 : c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0, v = n == 1 ? c : n ? c & (0xFF >> (n + 1)) : 0; bool ok = n && i + n <= s.size();
    for (int k = 1; ok && k < n; k++) { u8 d = (u8)s[i + k]; ok = (d & 0xC0) == 0x80; v = v << 6 | (d & 63); }
    if (ok && enc_len(v) == n) { r.push_back(v); i += n; } else { r.push_back(-1 - (int)c); i++; }
  }
  return r;
}
template <class OUT> static Cps norm32_of(int form, const Cps& t, bool u8, std::vector<Cps>* each, Seg* sg) {
  set_tick_cap(cap2(t.size()) * 2);
  Cps r;
  auto run = [&](auto& s) {
    typedef typename std::remove_reference<decltype(s)>::type ES;
    if (sg) *sg = segment(s);
    if (each) { Armed a; basic_grapheme_iterator<ES> g = s.grapheme_begin(), e = s.grapheme_end(); while (g != e) { OUT o; norm_one<ES, OUT>(form, *g, o); { Unarmed u; each->push_back(decode(o)); } ++g; } }
    OUT o; { Armed a; normalize(form, s, o); } r = decode(o);
  };
  if (u8) { Held H(enc_all(t)); run(*H.s); } else { Held32 H(t); run(*H.s); }
  R->ops++; if (r.size() < t.size()) probe(P_COMPOSED); return r;
}
template <class OUT> static void c10_b(const Plan& p) {
  int form = (int)p.param("form"); bool u8 = p.param("enc") == 0; Cps cur = p.text(0);
  Cps want = norm32_of<OUT>(form, cur, u8, nullptr, nullptr);
  int k = 0;
  for (auto& e : p.evs) if (e.kind == "restart") {
    std::vector<Cps> each; Seg sg; norm32_of<OUT>(form, cur, u8, &each, &sg);
    if (each.size() != sg.g.size()) violation("graphemes-differ", "two walks give %zu and %zu graphemes", each.size(), sg.g.size());
    for (auto& g : each) for (int c : g) if (c < 0) violation("output-not-text", "form %d: the normalised grapheme is not well-formed text: %s", form, hexs(g).c_str());
    Cps nx; size_t upto = e.b ? each.size() : (size_t)((u64)e.a % (each.size() + 1));       // prefix, or any subset
    for (size_t i = 0; i < each.size(); i++) { bool done = e.b ? (mix((u64)e.a * 7919 + i) & 1) : i < upto; const Cps& g = done ? each[i] : sg.g[i]; nx.insert(nx.end(), g.begin(), g.end()); }
    fired(F_CRASH); ev("restart", (i64)hash_of(nx)); cur = nx; k++; state(hash_of(nx));
  }
  Cps got = norm32_of<OUT>(form, cur, u8, nullptr, nullptr);
  if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; Cps a(got.begin() + std::min(i, got.size()), got.end()), b(want.begin() + std::min(i, want.size()), want.end());
    violation("restarted-job-differs", "form %d: started over %d times on a partly replaced text the job ends with %s instead of %s", form, k, hexs(a, 8).c_str(), hexs(b, 8).c_str()); }
}
static void c10_run(const Plan& p) {
  const Cps& cps = p.text(0);
  if (p.param("mode")) { if (p.param("out8")) c10_b<utf8_string>(p); else c10_b<utf32ne_string>(p); return; }
  std::string oct = enc_all(cps);
  switch (p.param("type")) {
  case 0: c10_a<utf8_string, file_string>(p, oct.size(), [&](size_t o) { return Held(oct.substr(o), 0).s; }); break;
  case 1: c10_a<utf8_string_view, file32_string>(p, oct.size(), [&](size_t o) { return Held(oct.substr(o), 0).v; }); break;
  case 2: c10_a<utf32ne_string, file_string>(p, cps.size(), [&](size_t o) { return Held32(Cps(cps.begin() + o, cps.end()), 0).s; }); break;
  case 3: c10_a<utf32ne_string_view, file32_string>(p, cps.size(), [&](size_t o) { return Held32(Cps(cps.begin() + o, cps.end()), 0).v; }); break;
  default: c10_a<sim_string, file_string>(p, oct.size(), [&](size_t o) { Held h(oct.substr(o), 0); ArenaScope a; return new (arena_alloc(sizeof(sim_string))) sim_string(SimText(h.blk, h.n)); }); break;
  }
}
void exec_C10(const Plan& p) { in_task(c10_run, p); }

// ------------------------------------------------------------------ C13
static bool holds(const utf8_string& o, const Cps& w) { return o.native_string == enc_all(w); }
static bool holds(const utf32ne_string& o, const Cps& w) { return decode32(o) == w; }
static std::string shown(const utf8_string& o) { return hexs(o.native_string); }
static std::string shown(const utf32ne_string& o) { return hexs(decode32(o)); }
template <class ES, bool U8, bool VIEW> static void c13_on(const Plan& p, ES& s, const Cps& cps, const std::vector<int>& st, const Seg& seg) {
  typedef typename NativeOf<ES>::type NS; typedef typename NativeOf<ES>::enc EN; typedef typename ES::const_iterator CI; typedef basic_grapheme_iterator<ES> G;
  typedef typename std::conditional<U8, utf8_string, utf32ne_string>::type SAME;
  const int n = st.back(), nc = (int)cps.size(), ng = (int)seg.g.size(); auto base = s.native_cbegin();
  auto first_of = [&](CI c) { Armed a; return (int)(EN::template native_const_iterator<NS>(c) - base); };
  auto norm = [&](int q) { return q < 0 || q > n ? -1 : q == n ? n : st[index_of(st, q)]; };
  auto read = [&](G& w) { Cps v; { Armed a; auto x = *w; for (CI i = x.codepoint_begin(); i != x.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; v.push_back(c); } } return v; };
  auto open_g = [&](int pos, i64 fault) {                // retried after a read error
    Hooks h; h.fail_at[H_SOURCE] = fault; std::unique_ptr<G> g; bool threw = false;
    for (int t = 0; t < 2 && !g; t++) {
      t_hooks = &h;
      try { Armed a; G x(s.codepoint_cbegin(), s.codepoint_cend(), CI(base + pos)); Unarmed u; g.reset(new G(x)); } catch (const SimFault&) { threw = true; }
      t_hooks = nullptr;
      if (t == 0 && h.fired != threw) violation("read-error-swallowed", "a source failure while reopening did not reach the caller");
      h = Hooks();
    }
    if (!g) violation("cannot-reopen", "reopening fails without a fault");
    return g;
  };
  auto expect = [&](const SAME& got, const Cps& want, int pos, const char* part) {
    if (!holds(got, want)) violation("truncation-wrong", "the %s unit %d of the text is %s instead of %s", part, pos, shown(got).c_str(), hexs(want).c_str());
  };
  auto open_at = [&](int pos, i64 fault) {
    set_tick_cap(cap2(n) * 2); ev("open", pos, fault); fired(F_CRASH); R->ops++;
    int k = pos == n ? nc : index_of(st, pos), gk = pos == n ? ng : index_of(seg.start, pos);
    if (pos < n && st[k] != pos) probe(P_REOPEN_MID_CODEPOINT);
    if (pos < n && seg.start[gk] != pos) probe(P_REOPEN_MID_GRAPHEME);
    if (pos < n) {
      CI c(base + pos); int v; { Armed a; v = (int)*c; }
      if (v != cps[k]) violation("reopened-at-wrong-codepoint", "a codepoint cursor opened at unit %d reads U+%04X instead of U+%04X", pos, v, cps[k]);
      int f = first_of(CI(base + pos)); if (f != st[k]) violation("reopened-at-wrong-codepoint", "the codepoint containing unit %d starts at %d, not %d", pos, st[k], f);
      CI nx(base + pos); { Armed a; ++nx; }
      int q = (int)(raw_of(nx) - base); if (norm(q) != st[k + 1]) violation("reopened-moves-wrongly", "a cursor opened at unit %d moves forward to unit %d instead of %d", pos, q, st[k + 1]);
      if (k + 1 < nc) { { Armed a; v = (int)*nx; } if (v != cps[k + 1]) violation("reopened-moves-wrongly", "after moving forward from unit %d the cursor reads U+%04X instead of U+%04X", pos, v, cps[k + 1]); }
    }
    if (k > 0) {
      CI pv(base + pos); int v; { Armed a; --pv; v = (int)*pv; }
      if (v != cps[k - 1]) violation("reopened-moves-wrongly", "a cursor opened at unit %d and moved back reads U+%04X instead of U+%04X", pos, v, cps[k - 1]);
      if (first_of(pv) != st[k - 1]) violation("reopened-moves-wrongly", "a cursor opened at unit %d and moved back stands at %d instead of %d", pos, first_of(pv), st[k - 1]);
    }
    std::unique_ptr<G> g = open_g(pos, fault);
    int gs = gk == ng ? n : seg.start[gk], ge = gk == ng ? n : seg.start[gk + 1];
    auto gr = **g; int rb = (int)(raw_of(gr.codepoint_begin()) - base), re = (int)(raw_of(gr.codepoint_end()) - base);
    if (norm(rb) != gs || norm(re) != ge) violation("reopened-at-wrong-grapheme", "a grapheme cursor opened at unit %d has the grapheme [%d,%d) instead of [%d,%d)", pos, norm(rb), norm(re), gs, ge);
    { bool at_end; set_tick_cap(cap2(n)); { Armed a; at_end = *g == s.grapheme_end(); } if (at_end != (gk == ng)) violation("reopened-at-wrong-grapheme", "a grapheme cursor opened at unit %d of %d %s the end", pos, n, at_end ? "compares equal to" : "differs from"); }
    if (p.param("rest", 1)) {
      set_tick_cap(cap2(n) * 2); std::vector<Cps> rest; G w = *g, e = s.grapheme_end(); bool more;
      for (;;) { { Armed a; more = w != e; } if (!more) break; rest.push_back(read(w)); Armed a; ++w; }
      std::vector<Cps> exp(seg.g.begin() + gk, seg.g.end());
      if (rest != exp) { size_t i = 0; while (i < rest.size() && i < exp.size() && rest[i] == exp[i]) i++; violation("rest-of-text-differs", "read on from unit %d, grapheme %zu is %s instead of %s", pos, i, i < rest.size() ? hexs(rest[i]).c_str() : "missing", i < exp.size() ? hexs(exp[i]).c_str() : "missing"); }
    }
    set_tick_cap(cap2(n));
    if (pos < n || !VIEW) {
      Cps before(cps.begin(), cps.begin() + k), from(cps.begin() + k, cps.end());
      { SAME out; { Armed a; out.template append<NS>(s.codepoint_cbegin(), CI(base + pos)); } expect(out, before, pos, "codepoints before"); }
      if (!VIEW) { SAME out; { Armed a; append_plain<NS>(out, CI(base + pos), s.codepoint_cend(), 0); } expect(out, from, pos, "codepoints from"); }
      int gc = gk == ng ? nc : index_of(st, seg.start[gk]); Cps gb(cps.begin(), cps.begin() + gc), gf(cps.begin() + gc, cps.end());
      { SAME out; { Armed a; G b = s.grapheme_begin(); out.template append<NS>(b, *g); } expect(out, gb, pos, "graphemes before"); }
      if (!VIEW) { SAME out; { Armed a; G e = s.grapheme_end(); append_plain<NS>(out, *g, e, 0); } expect(out, gf, pos, "graphemes from"); }
    }
    state(mix((u64)pos * 977 + (u64)gs));
  };
  if (p.param("all")) for (int pos = 0; pos <= n; pos++) open_at(pos, -1);
  // a reader that logs graphemes, crashes again and again and continues at its progress record
  std::vector<Cps> log; int pos = 0;
  for (auto& e : p.evs) {
    if (e.kind == "open") open_at((int)((u64)e.a % (u64)(n + 1)), e.b);
    else if (e.kind == "crash") {                       // a: graphemes read before the crash, b: where in what was read the record stands, c: source fault
      set_tick_cap(cap2(n) * 2); ev("read-from", pos, e.a); R->ops++;
      std::unique_ptr<G> g = open_g(pos, e.c); G end = s.grapheme_end(); bool more;
      log.resize((size_t)(pos == n ? ng : index_of(seg.start, pos)));
      for (i64 i = 0; i < e.a; i++) { { Armed a; more = *g != end; } if (!more) break; log.push_back(read(*g)); Armed a; ++*g; }
      int lim = log.size() >= seg.start.size() ? n : seg.start[log.size()]; pos = (int)((u64)e.b % (u64)(lim + 1)); fired(F_CRASH);
      ev("crash", pos); state(mix((u64)pos ^ 0xc4a5));
    }
  }
  set_tick_cap(cap2(n) * 2);
  { std::unique_ptr<G> g = open_g(pos, -1); G end = s.grapheme_end(); bool more; log.resize((size_t)(pos == n ? ng : index_of(seg.start, pos)));
    for (;;) { { Armed a; more = *g != end; } if (!more) break; log.push_back(read(*g)); Armed a; ++*g; } }
  if (log != seg.g) { size_t i = 0; while (i < log.size() && i < seg.g.size() && log[i] == seg.g[i]) i++; violation("reader-lost-or-repeated-text", "after crashes the reader's log has %zu graphemes of %zu, the first difference at %zu", log.size(), seg.g.size(), i); }
}
static void c13_run(const Plan& p) {
  const Cps& cps = p.text(0); std::string oct = enc_all(cps); auto st = unit_starts(cps); std::vector<int> st32; for (size_t i = 0; i <= cps.size(); i++) st32.push_back((int)i);
  Held H(oct); Held32 H32(cps); set_tick_cap(cap2(oct.size()) * 2);
  switch (p.param("type")) {
  case 0: c13_on<utf8_string, true, false>(p, *H.s, cps, st, segment(*H.s)); break;
  case 1: c13_on<utf8_string_view, true, true>(p, *H.v, cps, st, segment(*H.v)); break;
  case 2: c13_on<utf32ne_string, false, false>(p, *H32.s, cps, st32, segment(*H32.s)); break;
  case 3: c13_on<utf32ne_string_view, false, true>(p, *H32.v, cps, st32, segment(*H32.v)); break;
  default: { sim_string s(SimText(H.blk, H.n)); c13_on<sim_string, true, true>(p, s, cps, st, segment(s)); break; }
  }
}
void exec_C13(const Plan& p) { in_task(c13_run, p); }
}
