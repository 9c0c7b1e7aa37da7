#include "ops.hpp"
#include <cstdlib>
#include <stdlib.h>
#include <string.h>
#include <u5e/version.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>

namespace sim {
// append through the overload without a template argument where there is one
template <class NS, class OUT, class I, class J> auto append_plain(OUT& o, I&& a, J&& b, int) -> decltype(o.append(a, b), void()) { o.append(a, b); }
template <class NS, class OUT, class I, class J> void append_plain(OUT& o, I&& a, J&& b, long) { o.template append<NS>(a, b); }
using namespace u5e;
template <class S> void put_all(Outcome& o, const S& s) { Unarmed u; o.put((i64)s.size()); for (auto c : s) o.put((i64)(typename std::make_unsigned<typename S::value_type>::type)c); }
template <class OUT> void start_with(OUT& out, i64 n) { Unarmed u; ArenaScope a; for (i64 i = 0; i < n; i++) static_cast<std::basic_string<typename OUT::value_type>&>(out).push_back((typename OUT::value_type)('A' + i % 26)); }

template <class ES, class OUT> int normalize(int form, ES& src, OUT& out) {
  switch (form & 3) {
  case 0: return filter(src.grapheme_begin(), src.grapheme_end(), out, normalization_form_d<ES, OUT>);
  case 1: return filter(src.grapheme_begin(), src.grapheme_end(), out, normalization_form_c<ES, OUT>);
  case 2: return filter(src.grapheme_begin(), src.grapheme_end(), out, normalization_form_kd<ES, OUT>);
  default: return filter(src.grapheme_begin(), src.grapheme_end(), out, normalization_form_kc<ES, OUT>);
  }
}
template <class OUT> struct Keep {            // report what reached the output also when the call fails
  Outcome& o; OUT& out; ~Keep() { put_all(o, out.native_string); }
};
struct LogOp {                                // caller's operation handed to filter
  Outcome* o; int ret;
  template <class E> void one(const E& e) { o->put(e); }
  template <class V> void one(const basic_grapheme<V>& g0) { basic_grapheme<V> g(g0); for (auto i = g.codepoint_begin(); i != g.codepoint_end(); ++i) o->put((int)*i); o->put(-1); }
  template <class E, class OUT> int operator()(const E& e, OUT& out) { one(e); hook(H_CALLBACK); one(e); { Unarmed u; ArenaScope a; out.native_string.push_back('.'); } return ret; }
};
template <class E> struct NativeOf;
template <class En, class NS> struct NativeOf<basic_encodedstring<En, NS>> { typedef NS type; typedef En enc; };

template <class ES, bool U8, bool VIEW> struct OpsOn {
  typedef typename NativeOf<ES>::type NS; typedef typename NativeOf<ES>::enc EN;
  typedef typename ES::const_iterator CI; typedef basic_grapheme_iterator<ES> GI;
  typedef typename std::conditional<U8, utf8_string, utf32ne_string>::type SAME;

  template <class OUT> static void norm(const Op& op, ES& s, Outcome& o) {
    OUT out; start_with(out.native_string, op.c); Keep<OUT> k{o, out};
    o.put(normalize(op.a, s, out));
  }
  static void check(ES& s, Outcome& o, std::true_type) { o.put(utf8_bounds<typename NS::const_iterator>::check(s.native_cbegin(), s.native_cend())); }
  static void check(ES&, Outcome&, std::false_type) {}
  static void from32(const Op& op, ES& s, Outcome& o, std::false_type) {
    if (op.b % 3 == 0) { utf8_string out; start_with(out.native_string, op.c); Keep<utf8_string> k{o, out}; out.template append_from_utf32ne<NS>(s.codepoint_cbegin(), s.codepoint_cend()); }
    else if (op.b % 3 == 1) { utf32ne_string out; start_with(out.native_string, op.c); Keep<utf32ne_string> k{o, out}; out.template append_from_utf32ne<NS>(s.codepoint_cbegin(), s.codepoint_cend()); }
    else { file_string out; start_with(out.native_string, op.c); Keep<file_string> k{o, out}; out.template append_from_utf32ne<NS>(s.codepoint_cbegin(), s.codepoint_cend()); }
  }
  static void from32(const Op&, ES&, Outcome&, std::true_type) {}

  // the mutable cursor, moved and read only: over the failing source itself, else over a copy
  template <class S> static void mut_on(const Op& op, S& t, bool any, Outcome& o) {
    typename S::iterator it = t.codepoint_begin(), e = t.codepoint_end();
    while (it != e) { int v = (*it).value; o.put(v); if (op.a & 1) it++; else ++it; }
    if (any) do { if (op.a & 2) it--; else --it; o.put((*it).value); } while (it != t.codepoint_begin());
  }
  static void mutwalk(const Op& op, ES&, TextStore& ts, Outcome& o, std::false_type) {
    utf8_string t; { Unarmed u; ArenaScope a; t.native_string.reserve(40 + ts.n8); t.native_string.assign(ts.b8, ts.n8); }
    mut_on(op, t, ts.n8 != 0, o);
  }
  static void mutwalk(const Op& op, ES& s, TextStore& ts, Outcome& o, std::true_type) { mut_on(op, s, ts.n8 != 0, o); }
  static void enforce(std::string& t, Outcome& o, std::false_type) { o.put(utf8_bounds<std::string::iterator>::enforce(t.begin(), t.end())); }
  static void enforce(std::string& t, Outcome& o, std::true_type) { char* d = &t[0]; o.put(utf8_bounds<SimIter<char>>::enforce(SimIter<char>(d), SimIter<char>(d + t.size()))); }

  static void run(const Op& op, ES& s, TextStore& ts, Outcome& o) {
    typedef std::integral_constant<bool, U8> u8t;
    const i64 n = s.native_cend() - s.native_cbegin();
    Armed armed;
    switch (op.kind) {
    case O_WALK: { CI it = s.codepoint_cbegin(), e = s.codepoint_cend(); while (it != e) { o.put((int)*it); if (op.a & 1) it++; else ++it; } break; }
    case O_BACK: {
      CI b = s.codepoint_cbegin(), e = s.codepoint_cend(), it = e; if (n == 0) break;
      --it;
      o.put((int)*it);
      while (it != b) { if (op.a & 1) it--; else --it; o.put((int)*it); }
      break; }
    case O_GRAPH: {
      GI g = s.grapheme_begin(), e = s.grapheme_end();
      while (g != e) { auto gr = *g; for (CI i = gr.codepoint_begin(); i != gr.codepoint_end(); ++i) o.put((int)*i); o.put(-1); if (op.a & 1) g++; else ++g; }
      break; }
    case O_NORM: if (op.b % 4 == 0) norm<utf8_string>(op, s, o); else if (op.b % 4 == 1) norm<utf32ne_string>(op, s, o); else if (op.b % 4 == 2) norm<file_string>(op, s, o); else norm<file32_string>(op, s, o); break;
    case O_REOPEN: {
      i64 pos = (u64)op.a % (n + 1);
      GI g(s.codepoint_cbegin(), s.codepoint_cend(), CI(s.native_cbegin() + pos));
      auto gr = *g; for (CI i = gr.codepoint_begin(); i != gr.codepoint_end(); ++i) o.put((int)*i);
      if (pos < n) { CI i(s.native_cbegin() + pos); o.put((int)*i); }
      break; }
    case O_TRUNC_CP: {
      i64 pos = (u64)op.a % (n + 1); if (VIEW && pos == n) { if (!n) break; pos = n - 1; }
      SAME out; start_with(out.native_string, op.c); Keep<SAME> k{o, out};
      if (op.b & 2) append_plain<NS>(out, s.codepoint_cbegin(), CI(s.native_cbegin() + pos), 0); else out.template append<NS>(s.codepoint_cbegin(), CI(s.native_cbegin() + pos));
      break; }
    case O_TRUNC_GR: {
      i64 pos = (u64)op.a % (n + 1); if (VIEW && pos == n) { if (!n) break; pos = n - 1; }
      SAME out; start_with(out.native_string, op.c); Keep<SAME> k{o, out};
      GI b = s.grapheme_begin(), g(s.codepoint_cbegin(), s.codepoint_cend(), CI(s.native_cbegin() + pos));
      if (op.b & 2) append_plain<NS>(out, b, g, 0); else out.template append<NS>(b, g);
      break; }
    case O_CHECK: check(s, o, u8t()); break;
    case O_ENFORCE: {
      std::string t; { Unarmed u; ArenaScope a; t.reserve(40 + ts.n8); t.assign(ts.b8, ts.n8); if (t.size()) { if (op.a & 1) t[0] = (char)0x80; if (op.a & 2) t[t.size() - 1] = (char)0xE2; } }
      enforce(t, o, std::is_same<NS, SimText>()); put_all(o, t);
      break; }
    case O_PROPS: {
      int prev = -1;
      for (size_t i = 0; i < ts.n32; i++) {
        int c = ts.b32[i], r = 0;
        o.put(props::grapheme_cluster_break::resolve(c)); o.put(props::canonical_combining_class::resolve(c));
        if (const int* m = props::canonical_decomposition_mapping::resolve(c)) for (; *m; m++) o.put(*m);
        if (const int* m = props::compatibility_and_canonical_decomposition_mapping::resolve(c)) for (; *m; m++) o.put(*m);
        if (props::canonical_composition_mapping::resolve(prev, c, &r)) o.put(r);
        prev = c;
      }
      break; }
    case O_DECOMP: {
      if (op.b & 1) { file32_string out; start_with(out.native_string, op.c); Keep<file32_string> k{o, out};
        o.put(op.a & 1 ? filter(s.codepoint_cbegin(), s.codepoint_cend(), out, compatibility_and_canonical_decomposition<file32_string>) : filter(s.codepoint_cbegin(), s.codepoint_cend(), out, canonical_decomposition<file32_string>)); }
      else { utf32ne_string out; start_with(out.native_string, op.c); Keep<utf32ne_string> k{o, out};
        o.put(op.a & 1 ? filter(s.codepoint_cbegin(), s.codepoint_cend(), out, compatibility_and_canonical_decomposition<utf32ne_string>) : filter(s.codepoint_cbegin(), s.codepoint_cend(), out, canonical_decomposition<utf32ne_string>)); }
      break; }
    case O_WRITE: {
      char* buf; { Unarmed u; buf = (char*)arena_alloc(ts.n32 * 6 + 16); memset(buf, 0, ts.n32 * 6 + 16); }
      utf8_iterator<char*> it(buf);
      for (size_t i = 0; i < ts.n32; i++) { *it = codepoint(ts.b32[i]); ++it; }
      { Unarmed u; o.put(it.raw_iterator_ - buf); for (size_t i = 0; i < ts.n32 * 6 + 16; i++) o.put((u8)buf[i]); arena_free(buf); }
      break; }
    case O_FROM32: from32(op, s, o, u8t()); break;
    case O_XAPPEND: {
      if (VIEW && n == 0) break;
      i64 p = n ? (u64)op.a % n : 0;
      if (op.b & 1) { basic_encodedstring<EN, typename std::conditional<U8, SimFile, SimFile32>::type> out; start_with(out.native_string, op.c); Keep<decltype(out)> k{o, out}; out.template append<NS>(s.codepoint_cbegin(), CI(s.native_cbegin() + p)); }
      else { SAME out; start_with(out.native_string, op.c); Keep<SAME> k{o, out}; out.template append<NS>(CI(s.native_cbegin() + p), VIEW ? CI(s.native_cbegin() + (n - 1)) : s.codepoint_cend()); }
      break; }
    case O_MUTWALK: mutwalk(op, s, ts, o, std::is_same<NS, SimText>()); break;
    case O_VERSION: o.put(u5e::version::run_time::major); o.put(u5e::version::run_time::minor); o.put(u5e::version::run_time::patch); break;
    case O_FILTER: {
      utf8_string out; Keep<utf8_string> k{o, out}; LogOp f{&o, (int)(op.c % 7)};
      if (op.a & 1) o.put(filter(s.grapheme_begin(), s.grapheme_end(), out, f)); else o.put(filter(s.codepoint_cbegin(), s.codepoint_cend(), out, f));
      break; }
    case O_COMPARE: {
      if (!n) break;
      CI x(s.native_cbegin() + (u64)op.a % n), y(s.native_cbegin() + (u64)op.b % n);
      o.put(x == y); o.put(x != y);
      GI gx(s.codepoint_cbegin(), s.codepoint_cend(), x), gy(s.codepoint_cbegin(), s.codepoint_cend(), y);
      o.put(gx == gy); o.put(gx != gy); o.put(gx == y); o.put(gx == s.grapheme_end());
      break; }
    }
  }
  static void guarded(const Op& op, ES& s, TextStore& ts, Outcome& o) {
    try { run(op, s, ts, o); }
    catch (const SimFault& f) { o.put(f.kind); o.put(f.at); o.put(END_SEAM); }
    catch (const std::bad_alloc&) { o.put(END_ALLOC); }
    catch (const std::exception&) { o.put(END_OTHER); }
  }
};
}
