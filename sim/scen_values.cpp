// C17 encoded strings as values: made, copied, assigned, appended to, overwritten, changed through the native string
#include "scen_text.hpp"
#include <algorithm>
#include <map>
#include <new>
#include <vector>
namespace sim {
std::map<int, TextStore*> make_texts(const Plan& p, size_t cap);
enum { V8 = 4, V32 = 2, VN = V8 + V32 };
template <class ES> struct Val {
  typedef typename NativeOf<ES>::type NS; typedef typename NS::value_type U;
  ES* s; bool live; NS model;                          // the object stays at one place in memory whatever it holds
  Val() : live(false) { ArenaScope a; s = (ES*)arena_alloc(sizeof(ES)); }
};
template <class ES, class NS_> struct ValView {           // a view of memory that nothing changes
  typedef NS_ NS; typedef typename NS_::value_type U; ES* s; bool live; NS model;
  ValView() : live(false) { ArenaScope a; s = (ES*)arena_alloc(sizeof(ES)); }
};
typedef ValView<utf8_string_view, std::string> ValV8; typedef ValView<utf32ne_string_view, std::basic_string<int>> ValV32;
typedef Val<utf8_string> Val8; typedef Val<utf32ne_string> Val32;
static Cps cps_of(const std::string& o) { Cps r; for (size_t i = 0; i < o.size();) { u8 b = (u8)o[i]; int n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4, v = n == 1 ? b : b & (0x7F >> n); for (int k = 1; k < n; k++) v = v << 6 | ((u8)o[i + k] & 0x3F); r.push_back(v); i += n; } return r; }
static Cps cps_of(const std::basic_string<int>& o) { return Cps(o.begin(), o.end()); }
static std::string units_of(const Cps& c, const std::string*) { return enc_all(c); }
static std::basic_string<int> units_of(const Cps& c, const std::basic_string<int>*) { return std::basic_string<int>(c.begin(), c.end()); }
static std::vector<int> starts_of(const Cps& c, const std::string*) { return unit_starts(c); }
static std::vector<int> starts_of(const Cps& c, const std::basic_string<int>*) { std::vector<int> r; for (size_t i = 0; i <= c.size(); i++) r.push_back((int)i); return r; }
static int same_len(i64 x, int old, const std::string*) { static const int k[4][4] = {{'a', 'z', 0x7F, '\r'}, {0xE9, 0x301, 0x5D0, 0x80}, {0x1E0A, 0xAC00, 0x200D, 0xFB1D}, {0x1F600, 0x1D165, 0x1F3FB, 0x10000}}; return k[enc_len(old) - 1][(u64)x % 4]; }
static int same_len(i64 x, int, const std::basic_string<int>*) { static const int k[6] = {'a', 0x301, 0xAC00, 0x1F600, '\n', 0x1E0A}; return k[(u64)x % 6]; }

enum { VV = 4 };
struct C17 { const Plan* p; Val8 v8[V8]; Val32 v32[V32]; ValV8 vv8[VV]; ValV32 vv32[VV]; std::map<int, TextStore*> t; size_t from, to; };
template <class ES> static ES fresh(const typename NativeOf<ES>::type& m) { ArenaScope a; return ES(m); }
template <class V> struct OwnOf; template <class ES> struct OwnOf<Val<ES>> { typedef ES type; }; template <> struct OwnOf<ValV8> { typedef utf8_string type; }; template <> struct OwnOf<ValV32> { typedef utf32ne_string type; };
template <class V> static void observe(V& v, int slot, const char* after) {
  if (!v.live) return;
  typedef typename V::NS NS; auto& s = *v.s; typedef typename OwnOf<V>::type OWN; static const bool owns = std::is_same<V, Val<OWN>>::value; raise_tick_cap(R->ticks + 400000 + 60000ull * v.model.size());
  if (s.native_string.size() != v.model.size() || !std::equal(v.model.begin(), v.model.end(), s.native_string.begin())) violation("string-holds-something-else", "after %s string %d holds %s instead of %s", after, slot, hexs(cps_of(NS(s.native_string.begin(), s.native_string.end()))).c_str(), hexs(cps_of(v.model)).c_str());
  Cps want = cps_of(v.model), got = walk_all(s);
  if (got != want) violation("string-reads-wrong", "after %s walking string %d gives %s instead of %s", after, slot, hexs(got).c_str(), hexs(want).c_str());
  Cps back; { Armed a; auto b = s.codepoint_cbegin(), i = s.codepoint_cend(); if (want.size()) do { --i; int c = (int)*i; Unarmed u; back.push_back(c); } while (i != b); }
  std::reverse(back.begin(), back.end());
  if (back != want) violation("string-reads-wrong", "after %s walking string %d backward gives %s instead of %s", after, slot, hexs(back).c_str(), hexs(want).c_str());
  OWN f = fresh<OWN>(v.model); Seg g = segment(s), w = segment(f);
  if (g.start != w.start || g.g != w.g) violation("string-reads-wrong", "after %s string %d has %zu graphemes instead of the %zu of a new string with the same contents", after, slot, g.g.size(), w.g.size());
  if (owns) { Cps mut; { Armed a; auto i = s.codepoint_begin(), e = s.codepoint_end(); while (i != e) { const codepoint x = *i; const int c = x.value; bool same = x == c && c == x && x == codepoint(c) && (int)x == c && !(x == codepoint(c + 1)) && !(x == c + 1) && !(c + 1 == x); { Unarmed u; mut.push_back(c); if (!same) violation("codepoint-compares-wrongly", "a codepoint holding U+%04X compares as something else", c); } ++i; } }
  if (mut != want) violation("string-reads-wrong", "after %s walking string %d through mutable cursors gives %s instead of %s", after, slot, hexs(mut).c_str(), hexs(want).c_str()); }
  state(hash_bytes(v.model.data(), v.model.size() * sizeof(typename NS::value_type)));
}
static void observe_all(C17* c, const char* after) { for (int i = 0; i < V8; i++) observe(c->v8[i], i, after); for (int i = 0; i < V32; i++) observe(c->v32[i], V8 + i, after); for (int i = 0; i < VV; i++) { observe(c->vv8[i], 100 + i, after); observe(c->vv32[i], 200 + i, after); } }
// runs f, with an allocation failure if the event asks for one; what is thrown must be bad_alloc and only then
template <class F> static bool act17(const Ev& e, F f) {
  bool threw = false; raise_tick_cap(R->ticks + 8000000);
  alloc_fault(e.d < 0 ? -1 : e.d % 1000, e.d >= 1000); R->ops++;
  try { Armed a; f(); } catch (const std::bad_alloc&) { threw = true; } catch (...) { violation("wrong-exception", "%s threw something other than bad_alloc", e.kind.c_str()); }
  bool hit = alloc_fault_fired(); alloc_fault(-1, false);
  if (threw && !hit) violation("failure-out-of-nothing", "%s threw although no allocation failed", e.kind.c_str());
  return !threw;
}
template <class ES> static void grown(const Ev& e, Val<ES>& d, const typename Val<ES>::NS& add, bool ok, int slot) {
  typedef typename Val<ES>::NS NS; NS want = d.model + add; const NS& got = d.s->native_string; NS now; { ArenaScope a; now = got; }
  if (ok) { if (now != want) violation("appended-wrongly", "after %s string %d holds %s instead of %s", e.kind.c_str(), slot, hexs(cps_of(now)).c_str(), hexs(cps_of(want)).c_str()); d.model = want; return; }
  // cut short: its earlier contents and a beginning, up to a codepoint, of what was to be appended
  bool pre = now.size() >= d.model.size() && now.size() <= want.size() && want.compare(0, now.size(), now) == 0;
  std::vector<int> st = starts_of(cps_of(add), (NS*)nullptr); if (pre && !std::binary_search(st.begin(), st.end(), (int)(now.size() - d.model.size()))) pre = false;
  if (!pre) violation("appended-wrongly", "after %s was cut short string %d holds %s; it held %s and was to become %s", e.kind.c_str(), slot, hexs(cps_of(now)).c_str(), hexs(cps_of(d.model)).c_str(), hexs(cps_of(want)).c_str());
  probe(P_PARTIAL_OUTPUT, now.size() > d.model.size()); d.model = now;
}
template <class ES> static void value_op(C17* c, const Ev& e, Val<ES>* v, int n, int base) {
  typedef typename Val<ES>::NS NS; typedef typename ES::const_iterator CI; typedef basic_grapheme_iterator<ES> GI; typedef typename Val<ES>::U U;
  typedef std::experimental::basic_string_view<U> NV; typedef basic_encodedstring<typename NativeOf<ES>::enc, NV> VS;
  int a = (int)((u64)e.a / 2 % (u64)n), b = (int)((u64)e.b % (u64)n); Val<ES>& d = v[a]; Val<ES>& s = v[b]; const NS* tag = nullptr; const std::string& k = e.kind;
  auto destroy = [&](Val<ES>& x) { if (x.live) { Armed q; x.s->~ES(); x.live = false; } };
  if (k == "new") {
    NS t = units_of(c->p->text((int)e.b), tag); destroy(d);
    bool ok = act17(e, [&] { if (e.c & 1) new (d.s) ES(t); else { new (d.s) ES(); d.live = true; d.s->native_string.assign(t); } });
    if (ok) d.live = true;
    d.model = ok ? t : NS(); return;
  }
  if (k == "nat") {                                     // the owner changes the native string
    if (!d.live) return;
    Cps now = cps_of(d.model), more = cps_of(units_of(c->p->text((int)e.b), tag)); int m = (int)now.size(), at = m ? (int)((u64)e.c / 8 % (u64)(m + 1)) : 0;
    Cps to = now;
    switch (e.c & 7) { case 0: to.clear(); break; case 1: to.push_back('x'); break; case 2: if (m) to.pop_back(); break; case 3: to = more; break; case 4: to.insert(to.begin() + at, more.begin(), more.end()); break; case 5: to.erase(to.begin() + at, to.end()); break; case 6: to.erase(to.begin(), to.begin() + at); break; default: if (m) to[at % m] = same_len(e.c / 64, to[at % m], tag); }
    NS t = units_of(to, tag); { ArenaScope q; NS& ns = d.s->native_string; if (e.c & 64) ns = t; else if (e.c & 128) { NS x(t); ns.swap(x); } else { size_t i = 0; while (i < t.size() && i < ns.size() && t[i] == ns[i]) i++; ns.erase(i); ns.append(t, i, NS::npos); } }
    d.model = t; return;
  }
  if (!s.live) return;
  if (k == "copy") { if (a == b) return; destroy(d); if (act17(e, [&] { new (d.s) ES(*s.s); })) { d.live = true; d.model = s.model; } return; }
#ifdef U5E_NO_ASSIGN
  if (k == "asg" || k == "swap" || k == "vec") violation("assignment-does-not-compile", "no program that assigns one encoded string to another can be compiled");
#else
  if (k == "vec") {
    act17(e, [&] { std::vector<ES> x; for (int i = 0; i < n; i++) if (v[i].live) x.push_back(*v[i].s); ES y(x.back()); x.insert(x.begin(), y); Unarmed u; int j = 0; for (int i = 0; i < n; i++) if (v[i].live && x[1 + j++].native_string != v[i].model) violation("string-holds-something-else", "a copy of string %d kept in a vector holds something else", base + i); });
    return;
  }
  if (d.live && k == "asg") {
    NS old = d.model; ES* self = nullptr; bool ok = act17(e, [&] { self = &(*d.s = *s.s); }); if (ok && self != d.s) violation("assignment-returns-something-else", "assigning to string %d does not return it", base + a);
    if (ok || d.s->native_string == s.model) d.model = s.model; else d.model = old; return;
  }
  if (d.live && k == "swap") {
    if (a == b) return;
    NS x = d.model, y = s.model; bool ok = act17(e, [&] { std::swap(*d.s, *s.s); });
    if (ok) { d.model = y; s.model = x; } else { d.model = d.s->native_string == y ? y : x; s.model = s.s->native_string == x ? x : y; } return;
  }
#endif
  if (!d.live || k == "vec" || k == "asg" || k == "swap") return;
  Cps sc = cps_of(s.model); std::vector<int> st = starts_of(sc, tag); int m = (int)sc.size(); u64 r = mix((u64)e.c * 31 + 7);
  int i = (int)(r % (u64)(m + 1)), j = (int)((r >> 20) % (u64)(m + 1)); if (i > j) std::swap(i, j);
  if (k == "ow") {
    Cps dc = cps_of(d.model); if (dc.empty()) return; int at = (int)((u64)e.c % dc.size()), nw = same_len(e.c / 7, dc[at], tag); std::vector<int> ds = starts_of(dc, tag);
    Ev q = e; q.d = -1; act17(q, [&] { typename ES::iterator it(d.s->native_begin() + ds[at]); *it = nw; }); dc[at] = nw; d.model = units_of(dc, tag); return;
  }
  if (a == b) return;
  if (k == "app") { bool ok = act17(e, [&] { CI x(s.s->native_cbegin() + st[i]), y(s.s->native_cbegin() + st[j]); if (e.c & 1) d.s->append(x, y); else d.s->template append<NS>(x, y); }); grown(e, d, s.model.substr(st[i], st[j] - st[i]), ok, base + a); }
  else if (k == "appv") { bool ok = act17(e, [&] { VS w(NV(s.s->native_string.data(), s.s->native_string.size())); typename VS::const_iterator x(w.native_cbegin() + st[i]), y(w.native_cbegin() + st[j]); d.s->template append<NV>(x, y); }); grown(e, d, s.model.substr(st[i], st[j] - st[i]), ok, base + a); }
  else if (k == "appg") {
    ES f = fresh<ES>(s.model); Seg g = segment(f); int to = j == m || (e.c & 2) ? (int)s.model.size() : g.start[index_of(g.start, st[j])]; int fr = (e.c & 4) ? 0 : g.start[index_of(g.start, std::min(st[i], to))]; if (fr > to) return;
    bool ok = act17(e, [&] { GI x(s.s->codepoint_cbegin(), s.s->codepoint_cend(), CI(s.s->native_cbegin() + ((e.c & 4) ? 0 : std::min(st[i], to)))), y(s.s->codepoint_cbegin(), s.s->codepoint_cend(), CI(s.s->native_cbegin() + to)); if (e.c & 1) d.s->append(x, y); else d.s->template append<NS>(x, y); });
    grown(e, d, s.model.substr(fr, to - fr), ok, base + a);
  }
  else if (k == "norm") { NS add; { ES f = fresh<ES>(s.model), o = fresh<ES>(NS()); Armed q; normalize((int)(e.c & 3), f, o); Unarmed u; add = o.native_string; } bool ok = act17(e, [&] { normalize((int)(e.c & 3), *s.s, *d.s); }); grown(e, d, add, ok, base + a); }
}
template <class V, class B> static void view_op(C17* c, const Ev& e, V* v, B base_of) {
  typedef typename std::remove_reference<decltype(*v[0].s)>::type VS; typedef typename std::remove_reference<decltype(v[0].s->native_string)>::type NV; typedef typename V::NS NS;
  int a = (int)((u64)e.a / 2 % VV), b = (int)((u64)e.b % VV); V& d = v[a]; V& s = v[b];
  if (e.kind == "vnew") {
    const Cps& t = c->p->text((int)e.b); auto i = c->t.find((int)e.b); if (i == c->t.end()) return; std::vector<int> st = starts_of(t, (NS*)nullptr);
    u64 r = mix((u64)e.c * 31 + 7); int m = (int)t.size(), x = (int)(r % (u64)(m + 1)), y = (int)((r >> 20) % (u64)(m + 1)); if (x > y) std::swap(x, y); if (e.c & 1) x = 0; if (e.c & 2) y = m;
    NS all = units_of(t, (NS*)nullptr); if (d.live) { Armed q; d.s->~VS(); d.live = false; } NV n(base_of(i->second) + st[x], st[y] - st[x]);
    act17(e, [&] { if (e.c & 4) new (d.s) VS(n); else { new (d.s) VS(); d.s->native_string = n; } }); d.live = true; d.model = all.substr(st[x], st[y] - st[x]); return;
  }
  if (!s.live || (a == b && e.kind != "vasg")) return;
  if (e.kind == "vcopy") { if (d.live) { Armed q; d.s->~VS(); d.live = false; } act17(e, [&] { new (d.s) VS(*s.s); }); d.live = true; d.model = s.model; return; }
  if (!d.live) return;
#ifdef U5E_NO_ASSIGN
  violation("assignment-does-not-compile", "no program that assigns one encoded string to another can be compiled");
#else
  if (e.kind == "vasg") { act17(e, [&] { *d.s = *s.s; }); d.model = s.model; }
  else if (e.kind == "vswap") { act17(e, [&] { std::swap(*d.s, *s.s); }); std::swap(d.model, s.model); }
#endif
}
static void c17_body(int, void* arg) {
  C17* c = (C17*)arg;
  for (size_t x = c->from; x < c->to; x++) {
    const Ev& e = c->p->evs[x]; ev(e.kind.c_str(), e.a, e.b, e.c);
    if (e.kind == "a32") {                              // between the encodings
      Val32& s = c->v32[(u64)e.b % V32]; if (!s.live) continue; int m = (int)s.model.size(); u64 r = mix((u64)e.c * 31 + 7); int i = (int)(r % (u64)(m + 1)), j = (int)((r >> 20) % (u64)(m + 1)); if (i > j) std::swap(i, j);
      Cps part(s.model.begin() + i, s.model.begin() + j); auto f = s.s->native_cbegin() + i, l = s.s->native_cbegin() + j;
      if (e.a & 1) { Val32& d = c->v32[(u64)e.a / 2 % V32]; if (!d.live || &d == &s) continue; bool ok = act17(e, [&] { d.s->append_from_utf32ne<std::basic_string<int>>(f, l); }); grown(e, d, units_of(part, &d.model), ok, V8 + (int)((u64)e.a / 2 % V32)); }
      else { Val8& d = c->v8[(u64)e.a / 2 % V8]; if (!d.live) continue; bool ok = act17(e, [&] { d.s->append_from_utf32ne<std::basic_string<int>>(f, l); }); grown(e, d, units_of(part, &d.model), ok, (int)((u64)e.a / 2 % V8)); }
    }
    else if (e.kind[0] == 'v' && e.kind != "vec") { if (e.a & 1) view_op(c, e, c->vv32, [](TextStore* t) { return (const int*)t->b32; }); else view_op(c, e, c->vv8, [](TextStore* t) { return (const char*)t->b8; }); }
    else if (e.a & 1) value_op(c, e, c->v32, V32, V8); else value_op(c, e, c->v8, V8, 0);
    observe_all(c, e.kind.c_str());
  }
}
void exec_C17(const Plan& p) {
  C17 c; c.p = &p; c.t = make_texts(p, 0); size_t n = p.evs.size(); int task = 0;
  for (size_t i = 0; i < n;) {
    size_t j = i; while (j < n && p.evs[j].kind != "thread") j++;
    c.from = i; c.to = j; run_one(c17_body, &c, task); if (j < n) { fired(F_THREADEND); task = (int)((u64)p.evs[j].a % 6); }
    i = j + 1;
  }
}
}
