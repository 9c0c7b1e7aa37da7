// The calls made in each phase.  Nothing here has static initialisation of its own.
#include "phase_lib.hpp"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/version.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
using namespace u5e;
static PhaseShared* sh;
PhaseShared* phase_shared() {
  if (!sh) { const char* f = getenv("U5EPHASE_FD"); if (!f) _exit(90); void* p = mmap(nullptr, sizeof(PhaseShared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(f), 0); if (p == MAP_FAILED) _exit(91); sh = (PhaseShared*)p; }
  return sh;
}
static void put(PhaseCall& c, long x) { if (c.nout < PH_OUT) c.out[c.nout] = (int32_t)x; c.nout++; c.hash = (c.hash ^ (uint64_t)(x + 77)) * 1099511628211ULL; c.hash ^= c.hash >> 29; }
template <class S> static void put_all(PhaseCall& c, const S& s) { put(c, (long)s.size()); for (auto x : s) put(c, (long)x); }
template <class ES, class OUT> static void norm(PhaseCall& c, ES& s, int form) {
  OUT o; int r;
  switch (form) {
  case 0: r = filter(s.grapheme_begin(), s.grapheme_end(), o, normalization_form_d<ES, OUT>); break;
  case 1: r = filter(s.grapheme_begin(), s.grapheme_end(), o, normalization_form_c<ES, OUT>); break;
  case 2: r = filter(s.grapheme_begin(), s.grapheme_end(), o, normalization_form_kd<ES, OUT>); break;
  default: r = filter(s.grapheme_begin(), s.grapheme_end(), o, normalization_form_kc<ES, OUT>); break;
  }
  put(c, r); put_all(c, o.native_string);
}
static void call(PhaseCall& c) {
  std::basic_string<int> t32(c.cps, c.cps + c.n); utf32ne_string s32(t32); utf8_string s8;
  { for (int i = 0; i < c.n; i++) { int v = c.cps[i]; std::string& o = s8.native_string;
      if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); }
      else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); }
      else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } } }
  utf32ne_string_view v32(std::experimental::basic_string_view<int>(t32.data(), t32.size()));
  switch (c.kind % PH_KINDS) {
  case 0: { auto i = s8.codepoint_cbegin(), e = s8.codepoint_cend(); while (i != e) { put(c, (int)*i); ++i; } break; }
  case 1: { auto b = s8.codepoint_cbegin(), i = s8.codepoint_cend(); if (c.n) do { --i; put(c, (int)*i); } while (i != b); break; }
  case 2: { auto g = s8.grapheme_begin(), e = s8.grapheme_end(); while (g != e) { auto x = *g; for (auto i = x.codepoint_begin(); i != x.codepoint_end(); ++i) put(c, (int)*i); put(c, -1); ++g; } break; }
  case 3: case 4: case 5: case 6: norm<utf8_string, utf8_string>(c, s8, c.kind % PH_KINDS - 3); break;
  case 7: case 8: case 9: case 10: norm<utf32ne_string_view, utf32ne_string>(c, v32, c.kind % PH_KINDS - 7); break;
  case 11: for (int i = 0; i < c.n; i++) { put(c, props::grapheme_cluster_break::resolve(c.cps[i])); put(c, props::canonical_combining_class::resolve(c.cps[i])); } break;
  case 12: put(c, utf8_bounds<std::string::const_iterator>::check(s8.native_cbegin(), s8.native_cend())); put(c, utf8_bounds<std::string::iterator>::enforce(s8.native_begin(), s8.native_end())); put_all(c, s8.native_string); break;
  case 13: { utf32ne_string o; put(c, filter(s8.codepoint_cbegin(), s8.codepoint_cend(), o, compatibility_and_canonical_decomposition<utf32ne_string>)); put_all(c, o.native_string); break; }
  case 14: { utf8_string o; o.append_from_utf32ne<std::basic_string<int>>(s32.codepoint_cbegin(), s32.codepoint_cend()); put_all(c, o.native_string); break; }
  default: put(c, version::run_time::major); put(c, version::run_time::minor); put(c, version::run_time::patch);
    { utf8_string::const_iterator m(s8.native_cbegin() + s8.native_string.size() / 2); basic_grapheme_iterator<utf8_string> g(s8.codepoint_cbegin(), s8.codepoint_cend(), m); auto x = *g; for (auto i = x.codepoint_begin(); i != x.codepoint_end(); ++i) put(c, (int)*i); } break;
  }
}
void phase(int k) {
  PhaseShared* s = phase_shared();
  if (s->norder < 64) s->order[s->norder++] = k;
  for (int i = 0; i < s->ncalls && i < PH_CALLS; i++) if (s->c[i].phase == k) {
    PhaseCall& c = s->c[i]; c.state = 1;
    try { call(c); c.state = 2; } catch (...) { c.state = 3; }
  }
}
