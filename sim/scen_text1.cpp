// C04 filter, C05 border check, C06 damage locality, C07 encoding cut off
#include "scen_text.hpp"
#include <list>
#include <functional>
namespace sim {
struct TA { void (*fn)(const Plan&); const Plan* p; };
static void ta(int, void* a) { TA* t = (TA*)a; t->fn(*t->p); }
void in_task(void (*fn)(const Plan&), const Plan& p) { TA t{fn, &p}; run_one(ta, &t); }

// ------------------------------------------------------------------ C04
struct C04 {
  const Plan* p; i64 base; i64 calls; Hooks* h; bool after_failure; std::vector<Cps> log; Cps rets; std::string model; std::basic_string<int> model32; bool tail_fail;
  std::function<i64(const void*)> element_of; i64 ahead;    // the element a failed read belongs to; how many elements the source itself looks ahead
};
static i64 ret_of(const Plan& p, i64 i) {
  i64 r = (i64)(mix((u64)p.param("rets") * 1000 + (u64)i) % 17);
  switch (p.param("retmode")) { case 0: return r - 8; case 1: return 0; case 2: return 1; case 3: return (i64)1 << (r & (p.text(0).size() > 2000 ? 7 : 15)); default: return -r; }
}
static Cps elem(codepoint c) { return Cps{c.value}; }
static Cps elem(int c) { return Cps{c}; }
template <class V> static Cps elem(basic_grapheme<V> g) { Cps r; { Armed a; for (auto i = g.codepoint_begin(); i != g.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; r.push_back(c); } } return r; }
struct OpCustom {          // caller's operation: writes some output, may fail before or after writing
  C04* c; i64 own = 0;     // an operation may keep state of its own from one element to the next
  explicit OpCustom(C04* x) : c(x) {}
  template <class E, class OUT> int operator()(const E& e, OUT& out) {
    Unarmed u;
    if (own++ != c->calls) violation("operation-state-lost", "the operation has seen %lld elements, but its own state says %lld", (long long)c->calls, (long long)own - 1);
    if (c->h->fired) c->after_failure = true;
    i64 i = c->base + c->calls++;
    Hooks* hh = t_hooks; t_hooks = nullptr; c->log.push_back(elem(e)); t_hooks = hh;
    if (!(i & 1) || !c->tail_fail) hook(H_CALLBACK);
    i64 w = (i64)(mix((u64)c->p->param("writes") * 77 + (u64)i) % 4);
    for (i64 k = 0; k < w; k++) {
      char ch = (char)('a' + (i + k) % 26); i64 f = c->h->fail_at[H_SINK];
      if (!(f >= 0 && c->h->n[H_SINK] == f)) c->model += ch;     // what will have reached the output
      out.append(&ch, &ch + 1);
    }
    if ((i & 1) && c->tail_fail) hook(H_CALLBACK);
    i64 r = ret_of(*c->p, i); c->rets.push_back((int)r); return (int)r;
  }
};
template <int FN> struct OpLib {    // the library's own operations
  C04* c;
  template <class E, class OUT> int operator()(E e, OUT& out) const {
    { Unarmed u; if (c->h->fired) c->after_failure = true; c->calls++; Hooks* hh = t_hooks; t_hooks = nullptr; c->log.push_back(elem(e)); t_hooks = hh; hook(H_CALLBACK); }
    int r = FN == 0 ? canonical_decomposition<OUT>(e, out) : compatibility_and_canonical_decomposition<OUT>(e, out);
    { Unarmed u; c->rets.push_back(r); }
    return r;
  }
};
struct C04Result { bool threw; int fk; i64 fat; bool other; int sum; };
template <class It, class OUT, class F> static C04Result c04_call(Hooks* h, It b, It e, OUT& out, F f) {
  C04Result r{false, 0, 0, false, 0};
  t_hooks = h;
  try { Armed a; r.sum = filter(b, e, out, f); }
  catch (const SimFault& x) { r.threw = true; r.fk = x.kind; r.fat = x.at; }
  catch (...) { r.threw = true; r.other = true; }
  t_hooks = nullptr; R->ops++;
  return r;
}
// one filtering call over the elements from `at` on, then everything the property says about it
template <class CALL> static bool c04_attempt(C04& c, const std::vector<Cps>& want, size_t at, const Ev* fail, CALL call) {
  Hooks h; if (fail && fail->a >= 0 && fail->a < H_N) { h.fail_at[fail->a] = fail->b; h.torn = fail->c; }
  c.h = &h; c.base = (i64)at; c.calls = 0; c.after_failure = false; c.log.clear(); c.rets.clear(); c.tail_fail = c.p->param("tail");
  ev("filter", (i64)at);
  set_tick_cap(R->ticks + 3000000 + 60000ull * want.size());
  C04Result r = call(&h);
  ev("filtered", r.threw, r.sum, (i64)c.log.size()); state(mix(c.log.size() ^ (u64)r.sum << 8 ^ r.threw));
  for (size_t i = 0; i < c.log.size(); i++) {
    if (at + i >= want.size()) violation("extra-element", "the operation was called for %zu elements of %zu", at + c.log.size(), want.size());
    if (c.log[i] != want[at + i]) violation("wrong-element", "call %zu of the operation received %s instead of %s", i, hexs(c.log[i]).c_str(), hexs(want[at + i]).c_str());
  }
  if (c.after_failure) violation("element-after-failure", "an element was handed over after a failure");
  if (h.fired && !r.threw) violation("failure-swallowed", "a failure of the %s did not reach the caller", h.fail_at[0] >= 0 ? "source" : h.fail_at[1] >= 0 ? "operation" : "output");
  if (r.threw && (!h.fired || r.other || h.fail_at[r.fk] != r.fat)) violation("wrong-exception", "the exception that reached the caller is not the injected failure");
  if (r.threw && r.fk == H_SOURCE && c.element_of && h.failed_at) {
    i64 k = c.element_of(h.failed_at); ev("failed-element", k); probe(P_SOURCE_ELEMENT);
    if ((i64)(at + c.log.size()) < k - c.ahead) violation("element-lost-before-failure", "the source failed at element %lld, but only the first %zu elements were handed over", (long long)k, at + c.log.size());
  }
  if (!r.threw) {
    if (at + c.log.size() != want.size()) violation("missing-element", "the operation was called for %zu elements of %zu", at + c.log.size(), want.size());
    i64 s = 0; for (int x : c.rets) s += x;
    if (s != r.sum) violation("wrong-sum", "filter returned %d, the operation returned %lld in total", r.sum, (long long)s);
  }
  return r.threw;
}
static void c04_run(const Plan& p) {
  const Cps& cps = p.text(0); std::string oct = enc_all(cps); Held H(oct); Held32 H32(cps);
  int kind = (int)p.param("elem"), fn = (int)p.param("fn");
  Seg seg = segment(*H.s); auto starts = unit_starts(cps);
  C04 c; c.p = &p; c.ahead = kind == 2 ? 2 : kind == 7 ? 1 : 0;
  if (kind == 1) c.element_of = [&](const void* q) { return (i64)index_of(starts, (int)((const char*)q - H.blk)); };
  if (kind == 2) c.element_of = [&](const void* q) { return (i64)index_of(seg.start, (int)((const char*)q - H.blk)); };
  if (kind == 7) c.element_of = [&](const void* q) { return (i64)((const int*)q - H32.blk); };
  SimStream stream{nullptr, nullptr};
  std::vector<Ev> fails; for (auto& e : p.evs) if (e.kind == "fail") fails.push_back(e);
  auto on_codepoints = [&](size_t at, Hooks* h, auto& out, auto f) -> C04Result {
    if (kind == 1) { SimIter<const char> b0(H.blk + starts[at]), e0(H.blk + H.n); utf8_const_iterator<SimIter<const char>> b(b0), e(e0); return c04_call(h, b, e, out, f); }
    if (kind == 7) { stream.p = H32.blk + at; stream.end = H32.blk + H32.n; return c04_call(h, StreamIter(&stream), StreamIter(), out, f); }
    if (kind == 4) return c04_call(h, (const int*)H32.blk + at, (const int*)H32.blk + H32.n, out, f);
    if (kind == 5) return c04_call(h, H32.s->codepoint_cbegin() + at, H32.s->codepoint_cend(), out, f);
    utf8_string::const_iterator b(H.s->native_cbegin() + starts[at]), e(H.s->native_cend()); return c04_call(h, b, e, out, f);
  };
  if (fn == 0) {
    bool gr = kind == 2 || kind == 3;
    std::vector<Cps> want; if (gr) want = seg.g; else for (int x : cps) want.push_back(Cps{x});
    SimFile out; OpCustom f(&c);
    auto call = [&](size_t at, Hooks* h) -> C04Result {
      if (kind == 2) { sim_string s(SimText(H.blk + seg.start[at], H.n - seg.start[at])); return c04_call(h, s.grapheme_begin(), s.grapheme_end(), out, f); }
      if (kind == 3) { utf8_string_view s(std::experimental::string_view(H.blk + seg.start[at], H.n - seg.start[at])); return c04_call(h, s.grapheme_begin(), s.grapheme_end(), out, f); }
      if (kind == 6) { std::list<int> l(cps.begin() + at, cps.end()); return c04_call(h, l.begin(), l.end(), out, f); }
      return on_codepoints(at, h, out, f);
    };
    size_t at = 0;
    for (size_t k = 0; k <= fails.size(); k++) {
      bool threw = c04_attempt(c, want, at, k < fails.size() ? &fails[k] : nullptr, [&](Hooks* h) { return call(at, h); });
      if (out != c.model) violation("output-damaged", "the output is \"%.60s\" instead of \"%.60s\"", out.c_str(), c.model.c_str());
      if (!threw) break;
      at += c.rets.size(); probe(P_RESUMED);       // an element is complete when its operation returned
    }
  } else {
    std::vector<Cps> want; for (int x : cps) want.push_back(Cps{x});
    std::vector<Cps> each;                          // reference: each element decomposed on its own
    for (int x : cps) { utf32ne_string o; { Armed a; if (fn == 1) canonical_decomposition<utf32ne_string>(x, o); else compatibility_and_canonical_decomposition<utf32ne_string>(x, o); } each.push_back(Cps(o.native_string.begin(), o.native_string.end())); }
    file32_string fo; Cps model; size_t at = 0;
    for (size_t k = 0; k <= fails.size(); k++) {
      bool threw = c04_attempt(c, want, at, k < fails.size() ? &fails[k] : nullptr, [&](Hooks* h) { return fn == 1 ? on_codepoints(at, h, fo, OpLib<0>{&c}) : on_codepoints(at, h, fo, OpLib<1>{&c}); });
      size_t complete = c.rets.size();
      for (size_t i = 0; i < complete; i++) model.insert(model.end(), each[at + i].begin(), each[at + i].end());
      Cps got(fo.native_string.begin(), fo.native_string.end());
      bool ok = got.size() >= model.size() && std::equal(model.begin(), model.end(), got.begin());
      size_t tail = ok ? got.size() - model.size() : 0;
      if (tail) { ok = threw && at + complete < each.size() && tail <= each[at + complete].size() && std::equal(got.begin() + model.size(), got.end(), each[at + complete].begin()); probe(P_PARTIAL_OUTPUT); }
      if (!ok) violation("output-damaged", "the output is %s, expected %s and at most a part of the next element", hexs(got).c_str(), hexs(model).c_str());
      state(hash_of(model));
      if (!threw) break;
      fo.native_string.resize(model.size()); at += complete; probe(P_RESUMED);
    }
  }
}
void exec_C04(const Plan& p) { in_task(c04_run, p); }

// ------------------------------------------------------------------ damage
std::string apply_damage(const Plan& p, std::string o, bool& damaged, bool& only_cuts, int& cut_front, int& cut_back) {
  damaged = false; only_cuts = true; cut_front = cut_back = 0;
  for (auto& e : p.evs) {
    size_t n = o.size(); if (!n && e.kind != "ins") continue;
    size_t pos = n ? (u64)e.a % n : 0, len = e.b < 0 ? 0 : (u64)e.b; if (pos + len > n) len = n - pos;
    std::string was = o; FaultKind k;
    if (e.kind == "flip") { o[pos] ^= (char)(1 << (e.b & 7)); k = F_FLIP; }
    else if (e.kind == "over") { for (size_t i = 0; i < len; i++) o[pos + i] = (char)mix((u64)e.c + i); k = F_OVERWRITE; }
    else if (e.kind == "put") { o[pos] = (char)e.b; k = F_OVERWRITE; }
    else if (e.kind == "drop") { o.erase(pos, len); k = F_DROP; }
    else if (e.kind == "dup") { o.insert(pos + len, o.substr(pos, len)); k = F_DUP; }
    else if (e.kind == "move") { std::string s = o.substr(pos, len); o.erase(pos, len); o.insert(o.size() ? (u64)e.c % (o.size() + 1) : 0, s); k = F_REORDER; }
    else if (e.kind == "zero") { for (size_t i = 0; i < len; i++) o[pos + i] = 0; k = F_ZERO; }
    else if (e.kind == "ins") { std::string s; for (i64 i = 0; i < e.b && i < 64; i++) s += (char)mix((u64)e.c + i); o.insert(n ? pos : 0, s); k = F_INSERT; }
    else if (e.kind == "cutf") { size_t c = (u64)e.a % (n + 1); o.erase(0, c); cut_front += c; k = F_CUT; if (c) { fired(k); damaged = true; } continue; }
    else if (e.kind == "cutb") { size_t c = (u64)e.a % (n + 1); o.erase(n - c); cut_back += c; k = F_CUT; if (c) { fired(k); damaged = true; } continue; }
    else continue;
    if (o != was) { fired(k); damaged = true; only_cuts = false; }
  }
  return o;
}
// ------------------------------------------------------------------ C05
static u64 cap_for(size_t n) { return R->ticks + 300000 + 80000ull * n + 400ull * n * n; }
template <class ES, bool VIEW> static void walk_everything(const Plan& p, ES& s, const char* what) {
  const i64 n = s.native_cend() - s.native_cbegin(); typedef typename NativeOf<ES>::type NS; typedef typename ES::const_iterator CI; typedef basic_grapheme_iterator<ES> GI;
  i64 m = p.param("walks", 63); u64 h = 0; (void)what;
  if (m & 1) { set_tick_cap(cap_for(n)); ev("walk-forward"); Armed a; CI i = s.codepoint_cbegin(), e = s.codepoint_cend(); while (i != e) { h = mix(h ^ (u64)(int)*i); ++i; } }
  if ((m & 2) && n) {
    set_tick_cap(cap_for(n)); ev("walk-backward"); Armed a; CI b = s.codepoint_cbegin(), e = s.codepoint_cend(), i = e;
    --i; h = mix(h ^ (u64)(int)*i); while (i != b) { --i; h = mix(h ^ (u64)(int)*i); }
  }
  if (m & 4) { set_tick_cap(cap_for(n)); ev("walk-graphemes"); Armed a; GI g = s.grapheme_begin(), e = s.grapheme_end(); while (g != e) { auto gr = *g; for (CI i = gr.codepoint_begin(); i != gr.codepoint_end(); ++i) h = mix(h ^ (u64)(int)*i); ++g; } }
  for (int f = 0; f < 4; f++) if (m & (8 << f)) {
    set_tick_cap(cap_for(n)); ev("normalize", f); Armed a;
    if (p.param("dst") == 0) { utf8_string o; h = mix(h ^ (u64)normalize(f, s, o)); Unarmed u; h = mix(h ^ hash_of(o.native_string)); }
    else { utf32ne_string o; h = mix(h ^ (u64)normalize(f, s, o)); }
  }
  if ((m & 128) && n) for (auto& e : p.evs) if (e.kind == "reopen") {
    set_tick_cap(cap_for(n)); i64 pos = (u64)e.a % n; ev("reopen", pos); Armed a;
    GI g(s.codepoint_cbegin(), s.codepoint_cend(), CI(s.native_cbegin() + pos)); auto gr = *g; for (CI i = gr.codepoint_begin(); i != gr.codepoint_end(); ++i) h = mix(h ^ (u64)(int)*i);
    CI i(s.native_cbegin() + pos); h = mix(h ^ (u64)(int)*i); CI j = i; ++j; if (i != s.codepoint_cbegin()) { --i; h = mix(h ^ (u64)(int)*i); }
    utf8_string o; o.template append<NS>(s.codepoint_cbegin(), CI(s.native_cbegin() + pos));
  }
  state(h);
}
static bool lib_check(const std::string& o, bool view, int stale) {
  Held H(o, 0, stale); set_tick_cap(cap_for(o.size())); Armed a;
  return view ? utf8_bounds<std::experimental::string_view::const_iterator>::check(H.v->native_cbegin(), H.v->native_cend()) : utf8_bounds<std::string::const_iterator>::check(H.s->native_cbegin(), H.s->native_cend());
}
static void walk_held(const Plan& p, const std::string& o, bool view, int stale, const char* what) {
  Held H(o, 1, stale);
  for (u8 c : o) { if (c >= 0xF8) probe(P_LEAD_5_6_7_8); }
  if (view) walk_everything<utf8_string_view, true>(p, *H.v, what); else walk_everything<utf8_string, false>(p, *H.s, what);
}
static void c05_run(const Plan& p) {
  const Cps& cps = p.text(0); auto starts = unit_starts(cps); std::string whole = enc_all(cps);
  bool damaged, only_cuts; int cf, cb; std::string o = apply_damage(p, whole, damaged, only_cuts, cf, cb);
  bool view = p.param("view"); int stale = (int)p.param("stale", 0xA9); if (view) fired(F_STALE);
  ev("check", (i64)hash_of(o));
  bool ok = lib_check(o, view, stale); R->ops++; ev("checked", ok);
  bool cut_inside = false;
  if (damaged && only_cuts) { int lo = cf, hi = (int)whole.size() - cb; cut_inside = lo < hi && (starts[index_of(starts, lo)] != lo || starts[index_of(starts, hi)] != hi); }
  if (o.empty()) { if (!damaged && !ok) violation("good-text-rejected", "the empty text was rejected"); }
  else if (!damaged && !ok) violation("good-text-rejected", "undamaged text %s was rejected", hexs(o).c_str());
  else if (damaged && only_cuts && cut_inside && ok) violation("cut-text-accepted", "text cut inside a codepoint was accepted: %s", hexs(o).c_str());
  else if (damaged && only_cuts && !cut_inside && !ok) violation("good-text-rejected", "text cut between codepoints was rejected: %s", hexs(o).c_str());
  probe(ok ? (damaged ? P_CHECK_ACCEPT_DAMAGED : P_CHECK_ACCEPT_DAMAGED) : P_CHECK_REJECT, ok && !damaged ? 0 : 1);
  if (o.size() && ((u8)o[0] & 0xC0) == 0x80) probe(P_FIRST_OCTET_BAD);
  if (ok) { R->ops++; walk_held(p, o, view, stale, "checked"); }
  // enforcement
  Held H(o, 2, stale); bool r; ev("enforce");
  set_tick_cap(cap_for(o.size()));
  { Armed a; if (view) r = utf8_bounds<char*>::enforce(H.blk, H.blk + H.n); else r = utf8_bounds<std::string::iterator>::enforce(H.s->native_begin(), H.s->native_end()); }
  R->ops++;
  std::string after = view ? std::string(H.blk, H.n) : H.s->native_string;
  ev("enforced", r, (i64)hash_of(after));
  if (after.size() != o.size()) violation("enforce-resized", "enforcement changed the length");
  size_t lead = 0; while (lead < o.size() && ((u8)o[lead] & 0xC0) == 0x80) lead++;
  for (size_t i = 0; i < o.size(); i++) if (after[i] != o[i]) {
    if (after[i] != '?') violation("enforce-wrote-garbage", "enforcement changed octet %zu to %02X", i, (u8)after[i]);
    if (!(i < lead || i + 6 >= o.size())) violation("enforce-outside-border", "enforcement changed octet %zu of %zu, which is not at a border", i, o.size());
  }
  if ((after == o) != r) violation("enforce-misreported", "enforcement of %s %s but returned %d", hexs(o).c_str(), after == o ? "changed nothing" : "changed the text", r);
  if (!damaged && !r) violation("good-text-changed", "enforcement changed undamaged text %s", hexs(o).c_str());
  if (damaged && only_cuts && cut_inside && r) violation("cut-text-not-repaired", "enforcement left a text cut inside a codepoint as it was: %s", hexs(o).c_str());
  if (!r) probe(P_ENFORCE_CHANGED);
  if (!lib_check(after, view, stale) && after.size()) violation("enforced-text-rejected", "the check rejects enforced text %s", hexs(after).c_str());
  if (!r) walk_held(p, after, view, stale, "enforced");
}
void exec_C05(const Plan& p) { in_task(c05_run, p); }

// known findings of C05: the specific calls that read one unit past an unterminated text
static void c05_site(const Plan& p) {
  const Cps& cps = p.text(0); std::string o = enc_all(cps); Held H(o); typedef utf8_string_view ES; typedef std::experimental::string_view NS;
  if (o.empty()) return;
  set_tick_cap(cap_for(o.size())); Armed a; ES& s = *H.v;
  switch (p.param("site")) {
  case 1: { auto i = s.codepoint_cend(); --i; state((u64)(int)*i); break; }
  case 2: { auto i = s.codepoint_cend(); bool r = i == s.codepoint_cbegin(); state(r); break; }
  case 3: { utf8_string out; out.append<NS>(s.codepoint_cbegin(), s.codepoint_cend()); break; }
  case 4: { char* b; { Unarmed u; b = (char*)arena_alloc(2); b[0] = (char)0xE2; b[1] = 'z'; } utf8_iterator<char*> it(b); *it = codepoint('a'); break; }
  }
}
void exec_C05S(const Plan& p) { in_task(c05_site, p); }

// ------------------------------------------------------------------ C06
struct Zone { size_t lo, hi; };
static void c06_run(const Plan& p) {
  const Cps& cps = p.text(0); auto st = unit_starts(cps); std::string o = enc_all(cps);
  // damages in original coordinates, kept apart
  std::vector<Ev> dm; for (auto& e : p.evs) dm.push_back(e);
  std::sort(dm.begin(), dm.end(), [](const Ev& x, const Ev& y) { return x.a < y.a; });
  std::string d; std::vector<long> to(o.size() + 1, -1); std::vector<Zone> zones; size_t pos = 0;
  for (auto& e : dm) {
    size_t at = (size_t)e.a; if (e.a < 0 || at < pos || at > o.size()) continue;
    size_t len = e.b < 1 ? 1 : (size_t)e.b; if (len > 40) len = 40;
    if (e.kind != "ins" && at >= o.size()) continue;
    if (at + len > o.size() && e.kind != "ins") len = o.size() - at;
    if (!(e.kind == "flip" || e.kind == "over" || e.kind == "drop" || e.kind == "ins" || e.kind == "dup")) continue;
    while (pos < at) { to[pos] = (long)d.size(); d += o[pos++]; }
    size_t zlo = d.size();
    if (e.kind == "flip") { d += (char)(o[pos] ^ (1 << (e.c & 7))); pos++; fired(F_FLIP); }
    else if (e.kind == "over") { for (size_t i = 0; i < len; i++) d += (char)(e.d ? e.c : (i64)mix((u64)e.c + i)); pos += len; fired(F_OVERWRITE); }
    else if (e.kind == "drop") { pos += len; fired(F_DROP); }
    else if (e.kind == "ins") { for (size_t i = 0; i < len; i++) d += (char)(e.d ? e.c : (i64)mix((u64)e.c + i)); fired(F_INSERT); }
    else { for (size_t i = 0; i < len; i++) { to[pos] = (long)d.size(); d += o[pos++]; } zlo = d.size(); d += o.substr(pos - len, len); fired(F_DUP); }
    zones.push_back(Zone{zlo, d.size()});
  }
  while (pos < o.size()) { to[pos] = (long)d.size(); d += o[pos++]; }
  to[o.size()] = (long)d.size();
  Held H0(o, 0), H(d, 1); utf8_string& s = *H.s; typedef utf8_string::const_iterator CI;
  bool ok; set_tick_cap(cap_for(d.size())); { Armed a; ok = utf8_bounds<std::string::const_iterator>::check(s.native_cbegin(), s.native_cend()); }
  // the border check is C05's business; here a text counts when its borders are acceptable by definition
  bool fine = true; if (d.size() && ((u8)d[0] & 0xC0) == 0x80) fine = false;
  for (size_t k = 1; k <= 8 && k <= d.size(); k++) { u8 c = (u8)d[d.size() - k]; if (c >= 0xC0) { size_t sz = c >= 0xFE ? 1 : c >= 0xFC ? 6 : c >= 0xF8 ? 5 : c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; if (sz > k) fine = false; } }
  ev("border", ok, fine); if (!ok || !fine) { probe(P_CHECK_REJECT); R->status = ST_SKIP; return; }
  // which codepoints must have survived
  std::vector<int> keep(cps.size(), -1);
  for (size_t i = 0; i < cps.size(); i++) {
    long b = to[st[i]]; bool good = b >= 0; for (int k = st[i]; good && k < st[i + 1]; k++) good = to[k] == b + (k - st[i]);
    if (!good) continue;
    long e = b + (st[i + 1] - st[i]);
    for (auto& z : zones) { if ((long)z.lo >= e) continue; if ((long)z.hi <= b) { if (b - (long)z.hi < 6) good = false; } else good = false; }
    if (good) keep[i] = (int)b;
  }
  auto verify = [&](const std::vector<std::pair<int, int>>& seen, const char* dir) {
    size_t k = 0; std::map<int, int> count; for (auto& x : seen) count[x.first]++;
    for (size_t i = 0; i < cps.size(); i++) if (keep[i] >= 0) {
      while (k < seen.size() && seen[k].first < keep[i]) k++;
      if (k >= seen.size() || seen[k].first != keep[i]) violation("intact-codepoint-lost", "%s walk of %s: the undamaged codepoint U+%04X at octet %d was not visited", dir, hexs(d, 40).c_str(), cps[i], keep[i]);
      if (seen[k].second != cps[i]) violation("intact-codepoint-wrong", "%s walk of %s: the undamaged codepoint U+%04X at octet %d was read as U+%04X", dir, hexs(d, 40).c_str(), cps[i], keep[i], seen[k].second);
      if (count[keep[i]] != 1) violation("intact-codepoint-repeated", "%s walk of %s: the undamaged codepoint U+%04X at octet %d was visited %d times", dir, hexs(d, 40).c_str(), cps[i], keep[i], count[keep[i]]);
    }
  };
  std::vector<std::pair<int, int>> seen; auto b = s.native_cbegin();
  set_tick_cap(cap_for(d.size())); ev("walk-forward");
  { Armed a; CI i = s.codepoint_cbegin(), e = s.codepoint_cend(); while (i != e) { int v = (int)*i; auto q = utf8::native_const_iterator<std::string>(i); { Unarmed u; seen.push_back({(int)(q - b), v}); } ++i; } }
  R->ops++; for (size_t i = 1; i < seen.size(); i++) if (seen[i].first <= seen[i - 1].first) violation("walk-not-in-order", "forward walk of %s went from octet %d to %d", hexs(d, 40).c_str(), seen[i - 1].first, seen[i].first);
  verify(seen, "forward");
  seen.clear(); set_tick_cap(cap_for(d.size())); ev("walk-backward");
  if (d.size()) { Armed a; CI e = s.codepoint_cbegin(), i = s.codepoint_cend(); do { --i; int v = (int)*i; auto q = utf8::native_const_iterator<std::string>(i); { Unarmed u; seen.push_back({(int)(q - b), v}); } } while (i != e); }
  R->ops++; std::reverse(seen.begin(), seen.end());
  for (size_t i = 1; i < seen.size(); i++) if (seen[i].first <= seen[i - 1].first) violation("walk-not-in-order", "backward walk of %s went from octet %d to %d", hexs(d, 40).c_str(), seen[i].first, seen[i - 1].first);
  verify(seen, "backward");
  // graphemes
  set_tick_cap(cap_for(d.size())); ev("walk-graphemes");
  Seg g0 = segment(*H0.s), g1 = segment(s); R->ops++;
  std::map<int, bool> s0, s1; for (int x : g0.start) s0[x] = true; for (int x : g1.start) s1[x] = true;
  for (size_t i = 1; i < cps.size(); i++) if (keep[i - 1] >= 0 && keep[i] == keep[i - 1] + enc_len(cps[i - 1]))
    if (s0.count(st[i]) != s1.count(keep[i])) violation("grapheme-boundary-moved", "in %s the boundary between undamaged U+%04X and U+%04X at octet %d %s", hexs(d, 40).c_str(), cps[i - 1], cps[i], keep[i], s0.count(st[i]) ? "disappeared" : "appeared");
  size_t kept = 0; for (int k : keep) kept += k >= 0;
  for (size_t i = 1; i < d.size(); i++) if (((u8)d[i] & 0xC0) == 0x80 && (u8)d[i - 1] < 0x80) { probe(P_STRAY_CONT); break; }
  state(mix(hash_of(d) ^ kept));
}
void exec_C06(const Plan& p) { in_task(c06_run, p); }

// ------------------------------------------------------------------ C07
static void c07_run(const Plan& p) {
  const Cps& cps = p.text(0); std::string pre = enc_all(p.text(1)); const Cps ragged = p.param("path") < 2 ? p.text(3) : Cps();
  for (int c : ragged) pre += (char)c;            // what was there before may end anyhow, its last octets are not ours to touch
  std::string full = pre + enc_all(cps);
  std::vector<int> st; { int q = (int)pre.size(); for (int c : cps) { st.push_back(q); q += enc_len(c); } st.push_back(q); }
  for (int c : cps) probe((Probe)(P_ENC1 + enc_len(c) - 1));
  int path = (int)p.param("path"); std::vector<Ev> cuts; for (auto& e : p.evs) if (e.kind == "cut") cuts.push_back(e);
  std::string stored = pre; size_t done = 0;
  char* region = nullptr; size_t rcap = full.size() + 32;
  if (path >= 2) {           // storage that is written in place, over an older text
    ArenaScope a; region = (char*)arena_alloc(rcap); memset(region, 'z', rcap);
    std::string old = enc_all(p.text(2)); if (old.size() > full.size()) old.resize(0); memcpy(region, old.data(), old.size()); memcpy(region, pre.data(), pre.size());
    if (pre.size() < old.size()) { /* the older text may now begin in the middle of a codepoint */ }
    name_region("storage", 0, region, region + rcap);
  }
  for (size_t att = 0; att <= cuts.size(); att++) {
    Cps rest(cps.begin() + done, cps.end()); Held32 src(rest, 3);
    bool last = att == cuts.size(); i64 k = last ? -1 : cuts[att].a; bool torn = !last && cuts[att].b;
    bool threw = false, other = false; size_t before = stored.size(); std::string got;
    ev("write", (i64)done, k, path); set_tick_cap(cap_for(full.size()));
    if (path < 2) {
      file_string out; { Unarmed u; ArenaScope a; static_cast<std::string&>(out.native_string).assign(stored); }
      Hooks h; h.fail_at[H_SINK] = k; h.torn = torn; t_hooks = &h;
      try { Armed a; if (path == 0) out.append_from_utf32ne<std::basic_string<int>>(src.s->codepoint_cbegin(), src.s->codepoint_cend()); else out.append_from_utf32ne<std::experimental::basic_string_view<int>>(src.v->codepoint_cbegin(), src.v->codepoint_cend()); }
      catch (const SimFault&) { threw = true; } catch (...) { other = true; }
      t_hooks = nullptr; got.assign(out.native_string.data(), out.native_string.size());
      if (h.fired != threw || other) violation("write-failure-lost", "a failed write of the output did not reach the caller");
    } else {
      if (path == 3) { /* codepoint by codepoint, the cursor kept by the caller */ }
      watch_start(region + before, region + rcap, k);
      { Armed a; utf8_iterator<char*> it(region + before);
        for (size_t i = 0; i < rest.size(); i++) { if (path == 2) { *it = codepoint(rest[i]); ++it; } else { auto px = *it; px = codepoint(rest[i]); it++; } } }
      Watch* w = watch_stop(); threw = w->taken && !last; if (threw) fired(F_CRASH);
      size_t m = 0; while (before + m < rcap && w->written[m]) m++;
      for (size_t i = m; i < rcap - before && i < Watch::MAX; i++) if (w->written[i]) violation("octets-stored-out-of-order", "after a crash octet %zu of the encoding was stored but octet %zu was not", before + i, before + m);
      got.assign(stored); got.append(w->snap, m);
      memcpy(region + before, w->snap, std::min<size_t>(rcap - before, (size_t)Watch::MAX));
    }
    R->ops++; ev("stored", (i64)got.size(), threw); state(mix(hash_of(got) ^ threw));
    if (got.size() > full.size() || full.compare(0, got.size(), got) != 0) violation("not-a-prefix-of-the-encoding", "the octets stored are %s, which is not a prefix of the standard encoding %s", hexs(got, 40).c_str(), hexs(full, 40).c_str());
    if (!threw && got.size() != full.size()) violation("encoding-incomplete", "an uninterrupted write stored %zu octets instead of %zu", got.size(), full.size());
    if (ragged.size()) { probe(P_RAGGED_BASE); return; }
    // recovery
    Held H(got, 4); set_tick_cap(cap_for(got.size())); bool ok;
    { Armed a; ok = utf8_bounds<std::string::const_iterator>::check(H.s->native_cbegin(), H.s->native_cend()); }
    bool whole = got.size() <= pre.size(); for (int q : st) if ((size_t)q == got.size()) whole = true;
    if (got.size() && ok != whole) violation("border-check-wrong", "the border check %s text ending %s a codepoint: %s", ok ? "accepts" : "rejects", whole ? "after" : "inside", hexs(got, 40).c_str());
    std::string rec = got;
    if (!whole) {
      probe(P_TORN_CODEPOINT);
      utf8_string out; { Armed a; out.append(H.s->codepoint_cbegin(), utf8_string::const_iterator(H.s->native_cbegin() + (got.size() - 1))); }
      rec.assign(out.native_string.data(), out.native_string.size());
    }
    size_t want = 0; while (want + 1 < st.size() && (size_t)st[want + 1] <= got.size()) want++;
    if (rec.size() != (size_t)st[want] || full.compare(0, rec.size(), rec) != 0) violation("recovery-wrong", "recovery of %s gives %s", hexs(got, 40).c_str(), hexs(rec, 40).c_str());
    Held H2(rec, 5); set_tick_cap(cap_for(rec.size())); Cps dec = walk_all(*H2.s); Cps exp(p.text(1)); exp.insert(exp.end(), cps.begin(), cps.begin() + want);
    if (dec != exp) violation("decoding-wrong", "the recovered text decodes to %s instead of %s", hexs(dec).c_str(), hexs(exp).c_str());
    done = want; stored = rec;
    if (!threw) break;
    probe(P_RESUMED);
  }
  if (stored != full) violation("resumed-text-differs", "after resuming the text is %s instead of %s", hexs(stored, 40).c_str(), hexs(full, 40).c_str());
}
void exec_C07(const Plan& p) { in_task(c07_run, p); }
}
