// From a seed to a plan.
#include "plan.hpp"
#include "scen.hpp"
#include "seam.hpp"
#include "phase.hpp"
#include "pools.hpp"
#include <algorithm>
namespace sim {
#define PICK(P) pool_##P[r.below(n_pool_##P)]
static const int edges[] = {0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1FFF, 0x2000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xFFFFF, 0x100000, 0x10FFFF, 1, 0x3F, 0x40, 0xC0, 0x100, 0x300, 0x34F, 0xAD, 0x200D, 0xFEFF};
static int any_cp(Rng& r) { for (;;) { static const int lim[] = {0x80, 0x800, 0x10000, 0x110000}; int c = (int)r.below(lim[r.below(4)]); if (c < 0xD800 || c > 0xDFFF) return c; } }
static int mark(Rng& r) { int k = (int)r.below(n_pool_marks_idx / 2); int s = pool_marks_idx[2 * k], n = pool_marks_idx[2 * k + 1]; return r.chance(70) ? pool_marks[s + r.below(std::min(n, 6))] : pool_marks[s + r.below(n)]; }
static int near(Rng& r, int c) {              // another codepoint of the same neighbourhood
  for (int k = 0; k < 20; k++) {
    int d; switch (r.below(5)) { case 0: d = c + (int)r.range(-3, 3); break; case 1: d = (c & ~15) + (int)r.below(16); break; case 2: d = (c & ~255) + (int)r.below(256); break; case 3: d = (c & 0xFFFF) | (int)r.below(3) << 16; break; default: d = c ^ (1 << r.below(21)); }
    if (d > 0 && d != c && d < 0x110000 && (d < 0xD800 || d > 0xDFFF)) return d;
  }
  return c;
}
static int special(Rng& r) { switch (r.below(6)) { case 0: return PICK(canon); case 1: return mark(r); case 2: return PICK(SPACINGMARK); case 3: return PICK(compat); case 4: return PICK(zeromarks); default: return PICK(CONTROL); } }
enum { T_N = 21 };
static void piece(Rng& r, int cat, std::vector<int>& t, int room) {
  switch (cat) {
  case 0: for (int k = (int)r.range(1, 4); k--;) t.push_back((int)r.range(0x20, 0x7E)); break;
  case 1: t.push_back(PICK(canon)); break;
  case 2: { int k = (int)r.below(n_pool_pairs / 2); t.push_back(pool_pairs[2 * k]); t.push_back(pool_pairs[2 * k + 1]); if (r.chance(40)) t.push_back(mark(r)); break; }
  case 3: { t.push_back(r.chance(50) ? (int)r.range('a', 'z') : PICK(canon)); for (int k = (int)r.range(1, 6); k--;) t.push_back(mark(r)); break; }
  case 4: { t.push_back((int)r.range('a', 'z')); for (int k = (int)r.range(16, room > 40 ? 40 : 20); k--;) t.push_back(mark(r)); break; }
  case 5: t.push_back(PICK(compat)); break;
  case 6: { t.push_back(r.chance(50) ? 'a' : PICK(canon)); t.push_back(mark(r)); t.push_back(PICK(zeromarks)); t.push_back(mark(r)); break; }
  case 7: { for (int k = (int)r.range(1, 2); k--;) t.push_back(PICK(L)); if (r.chance(80)) t.push_back(PICK(V)); if (r.chance(60)) t.push_back(PICK(T)); break; }
  case 8: t.push_back(r.chance(50) ? PICK(LV) : PICK(LVT)); if (r.chance(50)) t.push_back(PICK(T)); break;
  case 9: t.push_back(PICK(PREPEND)); if (r.chance(70)) t.push_back((int)r.range('a', 'z')); break;
  case 10: t.push_back(r.chance(50) ? 0x915 : (int)r.range('a', 'z')); t.push_back(PICK(SPACINGMARK)); break;
  case 11: { static const int c[] = {13, 10, 13, 10, 9, 0x200B, 0x85}; for (int k = (int)r.range(1, 3); k--;) t.push_back(r.chance(80) ? c[r.below(7)] : PICK(CONTROL)); break; }
  case 12: t.push_back(PICK(E_BASE)); if (r.chance(30)) t.push_back(0xFE0F); if (r.chance(80)) t.push_back(PICK(E_MODIFIER)); break;
  case 13: { t.push_back(r.chance(50) ? PICK(E_BASE_GAZ) : PICK(E_BASE)); for (int k = (int)r.range(1, 3); k--;) { t.push_back(PICK(ZWJ)); t.push_back(r.chance(50) ? PICK(E_BASE_GAZ) : PICK(GLUE_AFTER_ZWJ)); } break; }
  case 14: for (int k = (int)r.range(1, 5); k--;) t.push_back(PICK(REGIONAL_INDICATOR)); break;
  case 15: t.push_back(edges[r.below(sizeof edges / sizeof *edges)]); break;
  case 16: t.push_back(any_cp(r)); break;
  case 17: for (int k = (int)r.range(1, 3); k--;) t.push_back(mark(r)); break;              // marks without a base
  case 18: t.push_back(r.chance(50) ? PICK(multi) : PICK(single)); if (r.chance(40)) t.push_back(mark(r)); break;
  case 19: t.push_back(near(r, t.size() && r.chance(80) ? t[r.below(t.size())] : special(r))); break;
  case 20: { int c = special(r); for (int k = (int)r.range(1, 5); k--;) t.push_back(r.chance(40) ? c : near(r, c)); break; }
  }
}
// a text related to another one
static std::vector<int> kin(Rng& r, const std::vector<int>& o) {
  std::vector<int> t = o; if (t.empty()) return t;
  if (t.size() > 1500) { t.resize(12); return t; }
  switch (r.below(3)) {
  case 0: for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[r.below(i)]); break;
  case 1: for (auto& c : t) if (r.chance(50)) c = near(r, c); break;
  default: { size_t a = r.below(t.size()), n = 1 + r.below(t.size() - a); t = std::vector<int>(o.begin() + a, o.begin() + a + n); if (r.chance(50)) t.insert(t.end(), o.begin(), o.end()); }
  }
  if (t.size() > 80 && t.size() > 2 * o.size()) t.resize(2 * o.size());
  return t;
}
// now and then a long one: what counts to 64, 128, 256, 512 or 1024 must be reached
static int long_max = 1050;             // for the plan being drawn
static bool huge_ok = true; 
static std::vector<int> many_text(Rng& r, int n) {      // many different codepoints: what remembers them must at some time run out of room
  std::vector<int> t;
  if (r.chance(30)) { int k = (int)r.below(n_pool_canon + n_pool_compat), d = r.chance(50) ? 1 : 7; n = std::min(n, n_pool_canon + n_pool_compat); for (int i = 0; i < n; i++, k = (k + d) % (n_pool_canon + n_pool_compat)) t.push_back(k < n_pool_canon ? pool_canon[k] : pool_compat[k - n_pool_canon]); return t; }
  static const int from[] = {0x20, 0xA0, 0x300, 0x900, 0x1E00, 0x2000, 0x3000, 0xA000, 0xAC00, 0xF900, 0x10000, 0x1D000, 0x1F000, 0x2F800}; int c = r.chance(80) ? from[r.below(14)] : any_cp(r), d = r.chance(60) ? 1 : 1 + 2 * (int)r.below(40);
  while ((int)t.size() < n) { if (c >= 0xD800 && c < 0xE000) c += 0x800; if (c > 0x10FFFF) c = 0x20 + c % 0x1000; t.push_back(c); c += d; }
  return t;
}
static std::vector<int> huge_text(Rng& r) {         // what counts in 16 bits, or to 2048, 4096 or 8192: a short text again and again
  static const int l[] = {2100, 4200, 8300, 8300, 33000, 66000}; int n = l[r.below(6)] + (int)r.below(40); std::vector<int> q, t;
  if (r.chance(25)) { static const int m[] = {2100, 4300, 4300, 9000}; return many_text(r, m[r.below(4)]); }
  if (r.chance(25)) { if (n > 2200) n = 2100; q.push_back(mark(r)); if (r.chance(30)) q.push_back(mark(r)); t.push_back(r.chance(50) ? 'a' : PICK(canon)); }       // one grapheme
  else { q.push_back(r.chance(70) ? (int)r.range('a', 'z') : 10); for (int k = (int)r.below(3); k--;) piece(r, (int)r.below(T_N), q, 8); if (q.size() > 12) q.resize(12); }
  while ((int)t.size() < n) t.insert(t.end(), q.begin(), q.end());
  return t;
}
static std::vector<int> long_text(Rng& r) {
  if (huge_ok && r.below(16) == 0) return huge_text(r);
  static const int l[] = {40, 70, 140, 140, 270, 270, 530, 1050}; int n = std::min(l[r.below(8)], long_max) - (int)r.below(8); std::vector<int> t;
  switch (r.below(6)) {
  case 5: t = many_text(r, n); break;
  case 0: { t.push_back(r.chance(50) ? 'a' : PICK(canon)); int m = mark(r); while ((int)t.size() < n) t.push_back(r.chance(90) ? m : mark(r)); if (r.chance(50)) t.push_back('z'); break; }      // one long grapheme
  case 1: { t.push_back('a'); while ((int)t.size() < n) { if (r.chance(70)) t.push_back(mark(r)); else t.push_back(r.chance(60) ? PICK(zeromarks) : PICK(SPACINGMARK)); } break; }
  case 2: { int c = (int)r.below(5); int x = c == 0 ? PICK(L) : c == 1 ? PICK(REGIONAL_INDICATOR) : c == 2 ? PICK(V) : c == 3 ? PICK(PREPEND) : PICK(ZWJ); while ((int)t.size() < n) t.push_back(x); break; }
  case 3: { std::vector<int> q; for (int k = (int)r.range(1, 4); k--;) piece(r, (int)r.below(T_N), q, 8); while ((int)t.size() < n) t.insert(t.end(), q.begin(), q.end()); break; }                 // the same again and again
  default: while ((int)t.size() < n) piece(r, (int)r.below(T_N), t, 8);
  }
  t.resize(n); return t;
}
static std::vector<int> text(Rng& r, int lo, int hi) {
  if (hi > 8 && r.below(80) == 0) return long_text(r);
  std::vector<int> t; int n = (int)r.range(lo, hi); u32 mask = (u32)r.next() & ((1u << T_N) - 1);
  if (r.chance(40)) mask &= (u32)r.next();
  if (hi < 24) mask &= ~(1u << 4);
  if (!mask) mask = 1u << r.below(T_N);
  if (n > 3 && r.chance(12)) {              // two or three clusters in turn: what remembers the last ones hits and misses
    std::vector<int> q[3]; int k = (int)r.range(2, 3), cat = r.chance(50) ? 2 : (int)r.below(T_N); for (int i = 0; i < k; i++) { piece(r, r.chance(70) ? cat : (int)r.below(T_N), q[i], 4); if (q[i].size() > 4) q[i].resize(4); }
    for (int i = 0; (int)t.size() < n; i = r.chance(50) ? i : (int)r.below(k)) t.insert(t.end(), q[i].begin(), q[i].end());
    return t;
  }
  while ((int)t.size() < n) { int c = (int)r.below(T_N); if (mask >> c & 1) piece(r, c, t, hi); }
  if (r.chance(3) && t.size()) t[r.below(t.size())] = 0;
  if ((int)t.size() > hi + 40) t.resize(hi + 40);
  return t;
}
static int text_len(Rng& r) { static const int l[] = {2, 4, 8, 16, 30, 60}; return l[r.below(6)]; }
static i64 octets(const std::vector<int>& t) { i64 n = 0; for (int c : t) n += enc_len(c); return n; }
static void any_op(Rng& r, Op& o) {
  static const int w[] = {O_WALK, O_BACK, O_GRAPH, O_GRAPH, O_NORM, O_NORM, O_NORM, O_NORM, O_REOPEN, O_TRUNC_CP, O_TRUNC_GR, O_CHECK, O_ENFORCE, O_PROPS, O_PROPS, O_DECOMP, O_DECOMP, O_WRITE, O_FROM32, O_XAPPEND, O_MUTWALK, O_VERSION, O_FILTER, O_COMPARE};
  o.kind = w[r.below(sizeof w / sizeof *w)]; o.store = (int)r.below(S_N); if (o.kind == O_FROM32) o.store = r.chance(50) ? S_U32 : S_U32V;
  o.a = r.below(1000); o.b = r.below(1000); o.c = r.chance(60) ? 0 : r.below(40);
  if (o.kind == O_NORM) { o.a = r.below(4); o.b = r.below(4); }
}
static void any_fault(Rng& r, Plan& p, const Op& o, i64 len) {
  Ev e; e.kind = "fault"; e.a = o.id; e.d = 0; if (p.texts.count(o.text)) len = std::max<i64>(len, p.texts[o.text].size());
  e.b = o.store == S_SIM ? (r.chance(60) ? FT_SOURCE : r.below(6)) : o.kind == O_FILTER ? (r.chance(60) ? FT_CALLBACK : r.below(2)) : r.chance(50) ? r.below(2) : 4 + r.below(2);
  e.c = e.b < 2 ? r.below(r.chance(80) ? 5 : 24) : r.below(len * 4 + 4);
  p.evs.push_back(e);
}
static void add_stalls(Rng& r, Plan& p, int nt, int round) {
  static const int far[] = {4, 12, 12, 40, 150, 600}, len[] = {30, 300, 3000, 30000, 300000};
  int f = far[r.below(6)];
  for (int k = (int)r.range(1, r.chance(50) ? 2 : 6); k--;) p.evs.push_back(Ev{"stall", r.below(nt), r.below(f), len[r.below(5)], round});
}
static void add_schedule(Rng& r, Plan& p, int nt, int round) {
  static const int avg[] = {2, 8, 40, 300, 2000};
  int mode = (int)r.below(4);
  if (mode < 2) { int a = avg[r.below(5)]; for (int k = (int)r.range(1, 150); k--;) p.sw.push_back(Switch{(u64)r.range(1, 2 * a), (int)r.below(nt)}); }
  else if (mode == 2) { int total = (int)r.range(200, 20000); std::vector<i64> at; for (int k = (int)r.range(1, 6); k--;) at.push_back(r.below(total)); std::sort(at.begin(), at.end()); i64 q = 0; for (i64 x : at) { p.sw.push_back(Switch{(u64)(x - q + 1), (int)r.below(nt)}); q = x; } }
  if (mode == 3 && round == 0) p.params["gw"] = r.chance(60) ? 1 : r.range(1, 9);
  if (r.chance(40)) add_stalls(r, p, nt, round);
}
// a few threads making one small call on a few clusters again and again: what remembers the last ones is read and replaced all the time
static void hot(Rng& r, Plan& p) {
  static const int cats[] = {1, 2, 2, 2, 2, 3, 5, 6, 7, 8, 12, 13, 14, 18}; std::vector<int> q[4]; int k = (int)r.range(2, 4), cat = r.chance(70) ? cats[r.below(14)] : (int)r.below(T_N), ntx = (int)r.range(1, 3), nt = r.chance(70) ? 2 : (int)r.range(3, 4);
  for (int i = 0; i < k; i++) { piece(r, r.chance(90) ? cat : (int)r.below(T_N), q[i], 4); if (q[i].size() > 3) q[i].resize(3); }
  for (int x = 0; x < ntx; x++) { auto& t = p.texts[x]; int n = (int)r.range(2, 12), w = (int)r.below(k); bool many = r.chance(60); while ((int)t.size() < n) { if (r.chance(30)) w = (int)r.below(k); t.insert(t.end(), q[w].begin(), q[w].end()); if (!many && r.chance(50)) break; } }
  Op o; any_op(r, o); if (r.chance(60)) { static const int kinds[] = {O_NORM, O_NORM, O_NORM, O_PROPS, O_GRAPH, O_DECOMP}; o.kind = kinds[r.below(6)]; o.store = (int)r.below(S_N); if (o.kind == O_NORM) { o.a = r.below(4); o.b = r.below(4); } }
  int id = 0; for (int t = 0; t < nt; t++) for (int e = (int)r.range(1, 5); e--;) { o.id = id++; o.task = t; o.text = (int)r.below(ntx); p.ops.push_back(o); }
  for (int i = 0, n = (int)r.range(8, 30); i < n; i++) { if (i) p.sw.push_back(Switch{0, -1}); add_schedule(r, p, nt, i); if (r.chance(60)) add_stalls(r, p, nt, i); }
}
static void gen_C01(Rng& r, Plan& p) {
  if (r.chance(40)) p.params["late"] = r.range(1, 1000000);
  if (r.chance(15)) { if (r.chance(50)) p.params["stk"] = r.range(1, 1000); hot(r, p); return; }
  int nt = (int)r.range(2, r.chance(3) ? 8 : r.chance(20) ? 5 : 3), ntx = (int)r.range(1, 3), hi = r.chance(15) ? 40 : (int)r.range(2, 10);
  for (int i = 0; i < ntx; i++) p.texts[i] = i && r.chance(40) ? kin(r, p.texts[r.below(i)]) : text(r, 1, hi);
  bool same = r.chance(25); int each = same && r.chance(50) ? 8 : 3;      // every thread makes the same call, on one text or another
  std::vector<Op> pool; int np = same ? 1 : (int)r.range(1, 5); for (int i = 0; i < np; i++) { Op o; any_op(r, o); o.text = (int)r.below(ntx); pool.push_back(o); }
  int id = 0;
  for (int t = 0; t < nt; t++) for (int k = (int)r.range(1, each); k--;) {
    Op o = pool[r.below(np)]; if (!same && r.chance(30)) { any_op(r, o); o.text = (int)r.below(ntx); } if (r.chance(same ? 60 : 20)) o.text = (int)r.below(ntx);
    o.id = id++; o.task = t; p.ops.push_back(o); if (r.chance(8)) any_fault(r, p, o, hi);
  }
  if (r.chance(50)) p.params["stk"] = r.range(1, 1000);
  add_schedule(r, p, nt, 0); if (r.chance(30)) p.params["gw"] = r.chance(60) ? 1 : r.range(1, 9);
  i64 total = 0; for (auto& t : p.texts) total += t.second.size();
  if (total < 150) for (int k = (int)r.range(0, 12), i = 1; i <= k; i++) { p.sw.push_back(Switch{0, -1}); add_schedule(r, p, nt, i); }
}
// the same call failing again and again in one thread, then ordinary calls: what a failure leaves behind adds up
static void storm(Rng& r, Plan& p) {
  int ntx = (int)r.range(1, 2), hi = (int)r.range(1, 10); for (int i = 0; i < ntx; i++) p.texts[i] = text(r, 1, hi);
  std::vector<Op> bad; for (int k = (int)r.range(1, 2); k--;) { Op o; any_op(r, o); o.text = (int)r.below(ntx); bad.push_back(o); }
  int id = 0; i64 low = r.chance(50) ? 4 : 16;
  for (auto& o : bad) {
    Ev f; f.kind = "fault"; f.d = 0; int n = (int)r.range(3, 40);
    for (int k = 0; k < n; k++) {
      o.id = id++; o.task = 0; p.ops.push_back(o);
      if (k == 0 || r.chance(25)) { Plan q; q.texts = p.texts; any_fault(r, q, o, hi); f = q.evs.back(); if (r.chance(50)) f.c %= low; }
      f.a = o.id; p.evs.push_back(f);
    }
  }
  for (int k = (int)r.range(1, 5); k--;) { Op o; any_op(r, o); if (r.chance(50)) o = bad[r.below(bad.size())]; o.id = id++; o.task = 0; o.text = (int)r.below(ntx); p.ops.push_back(o); }
}
static void gen_C02(Rng& r, Plan& p) {
  if (r.chance(12)) { storm(r, p); return; }
  int ntx = (int)r.range(1, 4), hi = r.chance(25) ? 50 : (int)r.range(2, 16), nop = (int)r.range(2, r.chance(20) ? 24 : 10);
  for (int i = 0; i < ntx; i++) p.texts[i] = i && r.chance(40) ? kin(r, p.texts[r.below(i)]) : text(r, 1, hi);
  if (r.below(100) == 0) { ntx = (int)r.range(2, 6); static const int m[] = {300, 1100, 2200, 4400}; int n = m[r.below(4)]; for (int i = 0; i < ntx; i++) p.texts[i] = many_text(r, n); nop = (int)r.range(ntx, 10); }
  std::vector<Op> pool; int np = (int)r.range(1, 5); for (int i = 0; i < np; i++) { Op o; any_op(r, o); pool.push_back(o); }
  int task = 0, nx = 10; if (r.chance(50)) p.params["stk"] = r.range(1, 1000);
  for (int i = 0; i < nop; i++) {
    Op o = pool[r.below(np)]; if (r.chance(25)) any_op(r, o);
    if (r.chance(15)) task++;
    o.id = i; o.task = task; o.text = (int)r.below(ntx); p.ops.push_back(o);
    if (r.chance(20)) any_fault(r, p, o, hi);
    if (r.chance(1) && p.texts[o.text].size() < 20) {
      static const int n[] = {20, 130, 260, 260, 520, 1030}; i64 k = n[r.below(6)]; bool light = o.kind == O_PROPS || o.kind == O_WALK || o.kind == O_BACK || o.kind == O_CHECK || o.kind == O_COMPARE;
      if (light && p.texts[o.text].size() < 5 && r.chance(50)) k = 66000;
      p.evs.push_back(Ev{"rep", i, k, 0, 0});
    }
    if (i && r.chance(25)) {
      int t = o.text; std::vector<int> v = p.texts[t];
      if (r.chance(50)) v = r.chance(40) ? kin(r, v) : text(r, 1, hi);               // another text in the same memory
      else if (v.size()) { size_t k = r.below(v.size()); for (int c : {(int)'b', 0xE9, 0x1EA0, 0x1F600, 0x301}) if (enc_len(c) == enc_len(v[k]) && r.chance(60)) { v[k] = c; break; } }
      size_t cap = p.texts[t].size(); for (auto& x : p.texts) cap = std::max(cap, x.first < 10 ? x.second.size() : 0); if (v.size() > cap) v.resize(cap);
      p.texts[nx] = v; p.evs.push_back(Ev{"rewrite", i, t, nx, 0}); nx++;
    }
  }
}
static void gen_C03(Rng& r, Plan& p) {
  int hi = text_len(r);
  for (int i = 0; i < 2; i++) p.texts[i] = text(r, 1, hi);
  static const int kinds[] = {O_NORM, O_NORM, O_NORM, O_NORM, O_DECOMP, O_FROM32, O_XAPPEND, O_TRUNC_CP, O_TRUNC_GR};
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; i++) {
    Op o; any_op(r, o); o.kind = kinds[r.below(9)]; o.store = o.kind == O_FROM32 ? (r.chance(50) ? S_U32 : S_U32V) : (int)r.below(S_N); o.id = i; o.task = 0; o.text = (int)r.below(2); o.c = r.chance(50) ? 0 : r.below(40);
    if (o.kind == O_NORM) { o.a = r.below(4); o.b = r.below(2); } else if (o.kind == O_FROM32) o.b = r.below(2); else o.b &= ~1ll;
    p.ops.push_back(o);
  }
}
static void gen_C04(Rng& r, Plan& p) {
  p.texts[0] = text(r, 0, text_len(r)); i64 n = p.texts[0].size();
  p.params["elem"] = r.below(8); p.params["fn"] = r.chance(60) ? 0 : r.range(1, 2); p.params["rets"] = r.below(1000); p.params["retmode"] = r.below(5); p.params["writes"] = r.below(1000); p.params["tail"] = r.below(2);
  for (int k = (int)r.below(4); k--;) { i64 kind = r.below(3); p.evs.push_back(Ev{"fail", kind, kind == 0 ? r.below(octets(p.texts[0]) * 3 + 2) : kind == 1 ? r.below(n + 1) : r.below(2 * n + 1), r.below(2), 0}); }
}
static const int bad_octets[] = {0x80, 0xBF, 0xA9, 0xC0, 0xC3, 0xDF, 0xE0, 0xE2, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x00, 0x41};
static int bad_octet(Rng& r) { return bad_octets[r.below(20)]; }
static void gen_C05(Rng& r, Plan& p) {
  p.texts[0] = text(r, r.chance(10) ? 0 : 1, r.chance(50) ? 4 : text_len(r)); i64 n = octets(p.texts[0]);
  p.params["view"] = r.below(2); static const int st[] = {0xA9, 0x80, 0xC3, 0xE2, 0xF0, 0xFF, 'a', 0}; p.params["stale"] = st[r.below(8)]; p.params["walks"] = 255; p.params["dst"] = r.below(2);
  auto pos = [&]() -> i64 { int k = (int)r.below(4); return k == 0 ? r.below(std::min<i64>(n + 1, 7)) : k == 1 ? std::max<i64>(0, n - 1 - r.below(7)) : r.below(n + 1); };
  int mode = (int)r.below(20);
  if (mode < 2) {}
  else if (mode < 7) { if (r.chance(60)) p.evs.push_back(Ev{"cutb", r.chance(70) ? r.below(6) : r.below(n + 1), 0, 0, 0}); if (r.chance(60)) p.evs.push_back(Ev{"cutf", r.chance(70) ? r.below(6) : r.below(n + 1), 0, 0, 0}); }
  else for (int k = (int)r.range(1, r.chance(20) ? 8 : 3); k--;) switch (r.below(9)) {
    case 0: p.evs.push_back(Ev{"flip", pos(), r.below(8), 0, 0}); break;
    case 1: p.evs.push_back(Ev{"over", pos(), r.range(1, 8), (i64)r.below(1 << 20), 0}); break;
    case 2: case 3: p.evs.push_back(Ev{"put", pos(), bad_octet(r), 0, 0}); break;
    case 4: p.evs.push_back(Ev{"drop", pos(), r.range(1, 5), 0, 0}); break;
    case 5: p.evs.push_back(Ev{r.chance(50) ? "dup" : "move", pos(), r.range(1, 6), r.below(n + 1), 0}); break;
    case 6: p.evs.push_back(Ev{"zero", pos(), r.range(1, 16), 0, 0}); break;
    case 7: p.evs.push_back(Ev{"ins", pos(), r.range(1, 10), (i64)r.below(1 << 20), 0}); break;
    default: p.evs.push_back(Ev{r.chance(50) ? "cutf" : "cutb", r.below(7), 0, 0, 0}); break;
  }
  for (int k = (int)r.below(4); k--;) p.evs.push_back(Ev{"reopen", r.below(n + 8), 0, 0, 0});
}
static void gen_C06(Rng& r, Plan& p) {
  p.texts[0] = text(r, 3, r.chance(40) ? 8 : 30); i64 n = octets(p.texts[0]); static const char* k[] = {"flip", "over", "over", "drop", "ins", "ins", "dup"};
  i64 at = 0;
  for (int i = (int)r.range(1, 4); i--;) {
    at = i64(r.chance(70) ? r.below(n) : at + r.range(1, 12)); Ev e; e.kind = k[r.below(7)]; e.a = at; e.b = r.chance(70) ? r.range(1, 4) : r.range(1, 12);
    e.d = r.chance(60); e.c = e.kind == std::string("flip") ? r.below(8) : e.d ? bad_octet(r) : r.below(1 << 20); p.evs.push_back(e);
  }
}
static void gen_C07(Rng& r, Plan& p) {
  p.texts[0] = text(r, 1, text_len(r)); p.texts[1] = r.chance(50) ? std::vector<int>() : text(r, 1, 8); p.texts[2] = r.chance(40) ? std::vector<int>() : text(r, 1, 20);
  p.params["path"] = r.below(4); i64 n = octets(p.texts[0]);
  if (r.chance(15)) for (int k = (int)r.range(1, 6); k--;) p.texts[3].push_back(bad_octet(r));
  for (int k = (int)r.below(5); k--;) p.evs.push_back(Ev{"cut", r.chance(70) ? r.below(n) : r.below(5), r.below(2), 0, 0});
}
static void gen_C08(Rng& r, Plan& p) {
  p.texts[0] = text(r, 1, text_len(r)); i64 n = octets(p.texts[0]);
  p.params["enc"] = r.chance(25); p.params["mode"] = r.below(2); p.params["unit"] = r.chance(25) ? 0 : 2; p.params["form"] = r.below(4); p.params["dst"] = r.below(2); p.params["stale"] = bad_octet(r);
  static const int rs[] = {0, 1, 2, 3, 5, 16}; p.params["rest"] = p.texts[0].size() > 120 ? (r.chance(50) ? 0 : 64) : rs[r.below(6)];
  int sz = (int)(r.chance(50) ? 3 : r.range(1, 20));
  for (int k = (int)r.below(30); k--;) { int c = (int)r.below(20); if (c < 2) p.evs.push_back(Ev{"empty", 0, 0, 0, 0}); else if (c < 4) p.evs.push_back(Ev{"reconnect", 0, 0, 0, 0}); else p.evs.push_back(Ev{"read", r.range(1, sz), 0, 0, 0}); }
  (void)n;
}
static void gen_C09(Rng& r, Plan& p) {
  p.texts[0] = text(r, 1, r.chance(70) ? 10 : 40); i64 n = octets(p.texts[0]); int type = (int)r.below(14); p.params["type"] = type;
  bool sim = type == 0 || type == 1 || type == 6 || type == 10, gr = type >= 6 && type < 10; int slots = (int)r.range(1, 6), bias = (int)r.range(20, 80); i64 acc = type == 6 ? 60 : 8;
  p.evs.push_back(Ev{"mk", 0, r.chance(50) ? 0 : r.below(n + 1), 0, -1});
  for (int k = (int)r.range(5, 60); k--;) {
    Ev e; e.a = r.below(slots); e.b = r.below(slots); e.c = r.below(2); e.d = sim && r.chance(25) ? r.below(acc) : -1;
    switch (r.below(10)) {
    case 0: e.kind = "mk"; e.b = r.chance(20) ? n : r.below(n + 1); break;
    case 1: case 2: e.kind = "rd"; break;
    case 3: case 4: case 5: e.kind = r.chance(bias) ? (r.chance(20) ? "peek" : "inc") : "dec"; break;
    case 6: case 7: e.kind = "cp"; break;
    default: e.kind = gr && r.chance(40) ? "eqc" : "eq"; if (e.kind == "eqc") e.b = r.below(n + 1); break;
    }
    if (gr && r.chance(20)) { e.kind = r.chance(50) ? "hold" : "use"; e.b = r.below(slots); }
    p.evs.push_back(e);
  }
}
static void gen_C10(Rng& r, Plan& p) {
  p.texts[0] = text(r, 1, text_len(r)); i64 n = octets(p.texts[0]); p.params["form"] = r.below(4);
  if (r.chance(60)) {
    p.params["mode"] = 0; p.params["type"] = r.below(5); p.params["resume"] = r.below(2);
    for (int k = (int)r.below(6); k--;) { i64 t = r.below(6); i64 m = t <= FT_ALLOC_STICKY ? 6 : t == FT_CALLBACK ? (i64)p.texts[0].size() + 1 : t == FT_SOURCE ? n * 6 + 1 : n + 4; p.evs.push_back(Ev{"crash", t, r.below(m), 0, 0}); }
  } else {
    p.params["mode"] = 1; p.params["enc"] = r.below(2); p.params["out8"] = r.below(2);
    for (int k = (int)r.range(1, 4); k--;) p.evs.push_back(Ev{"restart", r.below(1000), r.below(2), 0, 0});
  }
}
static void gen_C11(Rng& r, Plan& p) {
  if (r.chance(20)) {         // processes forked from threads while others are inside calls
    gen_C01(r, p); p.params["threads"] = 1; bool any = false;
    for (auto& o : p.ops) if (r.chance(30) || (!any && &o == &p.ops.back())) { any = true; bool f = false; for (auto& e : p.evs) f |= e.a == o.id; if (!f) p.evs.push_back(Ev{"fork", o.id, 0, 0, 0}); }
    return;
  }
  int nt = (int)r.range(1, 4); for (int i = 0; i < nt; i++) { p.texts[i] = text(r, 1, r.chance(70) ? 10 : 60); if (p.texts[i].size() > PH_CPS) p.texts[i].resize(PH_CPS); }
  p.params["variant"] = r.below(4); p.params["exit"] = r.below(3);
  bool one = r.chance(40); int ph = (int)r.below(PH_N);
  for (int k = (int)r.range(1, 24), i = 0; i < k; i++) { Op o; o.id = i; o.task = 0; o.kind = (int)r.below(PH_KINDS); o.store = 0; o.text = (int)r.below(nt); o.a = one && r.chance(80) ? ph : r.below(PH_N); o.b = o.c = 0; p.ops.push_back(o); }
}
static void gen_C12(Rng& r, Plan& p) {
  int ntx = (int)r.range(1, 3), hi = r.chance(20) ? 40 : (int)r.range(2, 14); for (int i = 0; i < ntx; i++) p.texts[i] = text(r, 1, hi);
  int top = (int)r.range(1, 3), in = (int)r.range(1, 5), id = 0;
  for (int i = 0; i < top + in; i++) {
    Op o; any_op(r, o); o.text = (int)r.below(ntx); o.id = id++; o.task = i < top ? 0 : 1;
    if (i < top || r.chance(50)) switch (r.below(4)) {          // give it somewhere to call from
      case 0: o.store = S_SIM; if (o.kind == O_FROM32) { o.kind = O_NORM; o.a = r.below(4); o.b = r.below(4); } break;
      case 1: o.kind = O_FILTER; break;
      case 2: o.kind = O_NORM; o.a = r.below(4); o.b = 2 + r.below(2); break;
      default: o.kind = r.chance(50) ? O_DECOMP : O_XAPPEND; o.b |= 1; break;
    }
    if (r.chance(30) && i) { Op& q = p.ops[r.below(p.ops.size())]; o.kind = q.kind; o.store = q.store; o.a = q.a; o.b = q.b; }   // the same call inside itself
    p.ops.push_back(o); if (r.chance(15)) any_fault(r, p, o, hi);
  }
  for (int k = (int)r.range(1, 6); k--;) { const Op& o = p.ops[r.below(p.ops.size())]; const Op& n = p.ops[top + r.below(in)]; i64 kind = o.kind == O_FILTER && r.chance(70) ? (i64)H_CALLBACK : o.store == S_SIM && r.chance(70) ? (i64)H_SOURCE : (i64)H_SINK; p.evs.push_back(Ev{"nest", o.id, kind, r.below(kind == H_SOURCE ? hi * 8 : hi * 2), n.id}); }
  if (r.chance(10)) {         // one call inside itself, many levels deep
    p.params["deep"] = r.range(4, 40); for (auto& t : p.texts) if (t.second.size() > 300) t.second.resize(300);
    Op& o = p.ops[0]; i64 kind; if (r.chance(50)) { o.kind = O_FILTER; kind = H_CALLBACK; } else { o.kind = O_NORM; o.store = S_SIM; o.a = r.below(4); o.b = r.below(4); kind = H_SOURCE; }
    p.evs.push_back(Ev{"nest", o.id, kind, r.below(kind == H_SOURCE ? hi * 8 : hi), o.id});
    if (r.chance(30)) { Op& q = p.ops[top]; q.kind = o.kind; q.store = o.store; q.a = o.a; q.b = o.b; p.evs.back().d = q.id; p.evs.push_back(Ev{"nest", q.id, kind, r.below(4), o.id}); }
  }
}
static void gen_C13(Rng& r, Plan& p) {
  p.texts[0] = text(r, 1, r.chance(60) ? 8 : text_len(r)); i64 n = octets(p.texts[0]); int type = (int)r.below(5); p.params["type"] = type;
  bool all = n <= 40 && r.chance(40); if (all) p.params["all"] = 1; else if (r.chance(50)) p.params["rest"] = 0;
  for (int k = (int)r.below(all ? 2 : 6); k--;) p.evs.push_back(Ev{"open", r.below(n + 1), type == 4 && r.chance(50) ? r.below(30) : -1, 0, 0});
  for (int k = (int)r.below(6); k--;) p.evs.push_back(Ev{"crash", r.below(8), r.below(n + 1), type == 4 && r.chance(30) ? r.below(30) : -1, 0});
}
static void gen_C14(Rng& r, Plan& p) {
  int nt = r.chance(50) ? 1 : (int)r.range(2, 4); p.params["nt"] = nt; p.texts[0] = text(r, 1, r.chance(60) ? 8 : 30); i64 n = octets(p.texts[0]); i64 m = (i64)p.texts[0].size();
  p.params["type"] = r.below(3); for (int t = 1; t < nt; t++) p.params["cut" + std::to_string(t)] = r.below(m + 1);
  static const char* k[] = {"mk", "mk", "rd", "rd", "inc", "inc", "dec", "wr", "wr", "wr", "wr", "cp", "eq", "walk", "gw", "chk"};
  int slots = (int)r.range(1, 4), cs = (int)r.below(4), bias = (int)r.below(3);
  for (int t = 0; t < nt; t++) p.evs.push_back(Ev{"mk", t, r.below(slots), r.below(n + 1), -1});
  for (int q = (int)r.range(3, 50); q--;) {
    Ev e; e.kind = k[r.below(16)]; e.a = r.below(nt); e.b = cs && r.chance(30) ? 4 + r.below(cs) : r.below(slots); e.c = r.below(100000); e.d = p.params["type"] == 2 && r.chance(15) ? r.below(12) : -1;
    if (bias && e.kind == std::string("dec")) e.kind = bias == 1 ? "inc" : "wr";
    if (e.kind == "cp" || e.kind == "eq") e.c = (e.b >= 4 ? 4 + r.below(cs) : r.below(slots)) + 64 * r.below(2);
    p.evs.push_back(e);
  }
  for (int c = r.chance(70) ? (int)r.range(1, 3) : 0; c--;) p.evs.push_back(Ev{"crash", 0, r.below(r.chance(60) ? 6 : 40), 0, 0});
  if (nt > 1) { if (r.chance(40)) p.params["late"] = r.range(1, 1000000); if (r.chance(30)) add_stalls(r, p, nt, 0); static const int avg[] = {2, 8, 40, 300}; int a = avg[r.below(4)]; for (int q = (int)r.range(1, 100); q--;) p.sw.push_back(Switch{(u64)r.range(1, 2 * a), (int)r.below(nt)}); }
}
static void gen_C15(Rng& r, Plan& p) {
  int ntx = (int)r.range(1, 3), hi = r.chance(15) ? 40 : (int)r.range(1, 10), nop = (int)r.range(1, 6);
  for (int i = 0; i < ntx; i++) p.texts[i] = text(r, 1, hi);
  int task = 0; if (r.chance(40)) p.params["threads"] = 1;
  for (int i = 0; i < nop; i++) { Op o; any_op(r, o); if (r.chance(15)) o.kind = O_FILTER; if (r.chance(20)) o.store = S_SIM; if (r.chance(30)) task++; o.id = i; o.task = task; o.text = (int)r.below(ntx); p.ops.push_back(o); if (r.chance(60)) any_fault(r, p, o, hi); }
  p.params["rounds"] = r.chance(85) ? 8 : r.chance(80) ? 16 : 64;
  if (r.chance(35)) { p.params["vary"] = 1; if (r.chance(50)) for (int i = 0; i < ntx; i++) { p.texts[i] = text(r, 1, 8); while (p.texts[i].size() < 24) { int c = p.texts[i][r.below(p.texts[i].size())]; p.texts[i].push_back(c); } } }
}
static void gen_C16(Rng& r, Plan& p) {
  int hi = text_len(r); for (int i = 0; i < 2; i++) p.texts[i] = text(r, 1, hi);
  static const int src[] = {O_WALK, O_BACK, O_GRAPH, O_GRAPH, O_NORM, O_NORM, O_NORM, O_REOPEN, O_TRUNC_CP, O_TRUNC_GR, O_CHECK, O_ENFORCE, O_MUTWALK, O_DECOMP, O_DECOMP, O_XAPPEND, O_FILTER, O_COMPARE};
  static const int snk[] = {O_NORM, O_NORM, O_NORM, O_DECOMP, O_FROM32, O_FROM32, O_XAPPEND};
  for (int i = 0, n = (int)r.range(1, 3); i < n; i++) {
    Op o; any_op(r, o); int m = (int)r.below(20);
    if (m < 12) { o.kind = src[r.below(18)]; o.store = S_SIM; }
    else if (m < 18) { o.kind = snk[r.below(7)]; if (o.kind == O_FROM32) { o.store = r.chance(50) ? S_U32 : S_U32V; o.b = 2 + 3 * r.below(9); } else if (o.kind == O_NORM) o.b = 2 + r.below(2); else o.b |= 1; }
    else o.kind = O_FILTER;
    if (o.kind == O_NORM) { o.a = r.below(4); o.b %= 4; }
    o.id = i; o.task = 0; o.text = (int)r.below(2); p.ops.push_back(o);
  }
}
static void gen_C17(Rng& r, Plan& p) {
  int ntx = (int)r.range(2, 4), hi = r.chance(20) ? 40 : (int)r.range(1, 10);
  for (int i = 0; i < ntx; i++) p.texts[i] = i && r.chance(40) ? kin(r, p.texts[r.below(i)]) : text(r, r.chance(10) ? 0 : 1, hi);
  static const char* k[] = {"new", "nat", "nat", "nat", "copy", "copy", "copy", "asg", "asg", "asg", "swap", "vec", "ow", "ow", "app", "app", "app", "appv", "appg", "appg", "a32", "a32", "norm", "vnew", "vnew", "vnew", "vcopy", "vcopy", "vasg", "vasg", "vswap"};
  int views = (int)r.below(3), nk = views == 0 ? 23 : 31, only = r.chance(30) ? (int)r.below(2) : -1;
  auto slot = [&] { i64 t = only >= 0 ? only : r.chance(70) ? 0 : 1; return 2 * r.below(4) + t; };
  for (int i = 0; i < 2; i++) p.evs.push_back(Ev{"new", slot(), r.below(ntx), r.below(4), -1});
  for (int q = (int)r.range(3, r.chance(20) ? 60 : 20); q--;) {
    Ev e; e.kind = k[views == 2 ? r.range(20, 30) : r.below(nk)]; e.a = slot(); e.b = e.kind == "new" || e.kind == "vnew" || e.kind == "nat" ? r.below(ntx) : r.below(4); e.c = r.below(1 << 20); e.d = r.chance(25) ? r.below(r.chance(70) ? 2 : 6) + (r.chance(40) ? 1000 : 0) : -1;
    p.evs.push_back(e);
    if (r.chance(10)) p.evs.push_back(Ev{"thread", r.below(6), 0, 0, 0});
  }
}
static void gen_C18(Rng& r, Plan& p) {
  int ntx = (int)r.range(1, 4), hi = r.chance(15) ? 40 : (int)r.range(2, 14); for (int i = 0; i < ntx; i++) p.texts[i] = i && r.chance(40) ? kin(r, p.texts[r.below(i)]) : text(r, 1, hi);
  int nf = (int)r.range(2, 6), nop = nf + (int)r.below(8);
  for (int i = 0; i < nop; i++) {
    Op o; any_op(r, o); o.text = (int)r.below(ntx); o.id = i; o.task = i < nf ? i : (int)r.below(nf);
    if (r.chance(85)) switch (r.below(5)) {
      case 0: case 1: o.store = S_SIM; if (o.kind == O_FROM32) { o.kind = O_NORM; o.a = r.below(4); o.b = r.below(4); } break;
      case 2: o.kind = O_FILTER; break;
      case 3: o.kind = O_NORM; o.a = r.below(4); o.b = 2 + r.below(2); if (r.chance(50)) o.store = S_SIM; break;
      default: o.kind = r.chance(50) ? O_DECOMP : O_XAPPEND; o.b |= 1; break;
    }
    if (i && r.chance(35)) { Op& q = p.ops[r.below(p.ops.size())]; o.kind = q.kind; o.store = q.store; o.a = q.a; o.b = q.b; if (r.chance(30)) o.text = q.text; }
    p.ops.push_back(o); if (r.chance(15)) any_fault(r, p, o, hi);
  }
  static const int avg[] = {1, 3, 10, 40}; int a = avg[r.below(4)];
  for (int q = (int)r.range(1, r.chance(20) ? 150 : 30); q--;) p.sw.push_back(Switch{(u64)r.range(1, 2 * a), (int)r.below(nf)});
  if (r.chance(40)) p.params["every"] = r.range(1, 2 * a);
  p.params["id"] = r.below(6);
}
static const struct { const char* n; void (*g)(Rng&, Plan&); void (*x)(const Plan&); } table[] = {
  {"C01", gen_C01, exec_C01}, {"C02", gen_C02, exec_C02}, {"C03", gen_C03, exec_C03}, {"C04", gen_C04, exec_C04}, {"C05", gen_C05, exec_C05}, {"C06", gen_C06, exec_C06}, {"C07", gen_C07, exec_C07},
  {"C08", gen_C08, exec_C08}, {"C09", gen_C09, exec_C09}, {"C10", gen_C10, exec_C10}, {"C11", gen_C11, exec_C11}, {"C12", gen_C12, exec_C12}, {"C13", gen_C13, exec_C13}, {"C14", gen_C14, exec_C14}, {"C15", gen_C15, exec_C15}, {"C16", gen_C16, exec_C16}, {"C17", gen_C17, exec_C17}, {"C18", gen_C18, exec_C18}, {"C05S", nullptr, exec_C05S}};
bool known_prop(const std::string& s) { for (auto& t : table) if (s == t.n) return true; return false; }
Plan generate(const std::string& prop, u64 seed, u64 run) {
  Plan p; p.prop = prop; p.seed = seed; p.run = run; Rng r(mix(seed * 0x9E3779B97F4A7C15ULL ^ mix(run ^ hash_bytes(prop.data(), prop.size()))));
  long_max = prop == "C01" || prop == "C09" || prop == "C14" ? 270 : prop == "C03" || prop == "C15" || prop == "C16" || prop == "C17" ? 140 : 1050;
  huge_ok = prop != "C03" && prop != "C15" && prop != "C16" && prop != "C17" && prop != "C07" && prop != "C14";
  for (auto& t : table) if (prop == t.n && t.g) t.g(r, p);
  Plan q; std::string err; return parse(print(p), q, err) ? q : p;      // exactly what a replay file gives
}
void execute(const Plan& p) { size_t big = 0; for (auto& t : p.texts) big = std::max(big, t.second.size()); set_tick_cap(4000000 + 60000ull * big); set_stack_salt((u64)p.param("stk")); probe(P_HUGE_TEXT, big > 2000); for (auto& t : p.texts) if (t.second.size() > 128) { probe(P_LONG_TEXT); break; }
  for (auto& t : table) if (p.prop == t.n) { t.x(p); return; } internal_error("unknown property"); }
}
