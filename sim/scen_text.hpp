#ifndef U5ESIM_SCEN_TEXT
#define U5ESIM_SCEN_TEXT
#include "ops_impl.hpp"
#include "scen.hpp"
#include <stdio.h>
namespace sim {
typedef std::vector<int> Cps;
// text in simulated memory, exact to the octet
struct Held {
  utf8_string* s; utf8_string_view* v; char* blk; size_t n;
  explicit Held(const std::string& o, int id = 0, int stale = 0xA9) {
    ArenaScope a; n = o.size();
    s = new (arena_alloc(sizeof(utf8_string))) utf8_string(); s->native_string.reserve(n + 16); s->native_string.assign(o);
    char* d = &s->native_string[0]; set_valid(d, d + s->native_string.capacity() + 1, false); set_valid(d, d + n + 1, true);
    char* b = (char*)arena_alloc(n + 32); memset(b, stale, n + 32); memcpy(b + 16, o.data(), n); set_valid(b, b + n + 32, false); set_valid(b + 16, b + 16 + n, true); blk = b + 16;
    v = new (arena_alloc(sizeof(utf8_string_view))) utf8_string_view(std::experimental::string_view(blk, n));
    name_region("string of text", id, d, d + n); name_region("view of text", id, blk, blk + n);
  }
};
struct Held32 {
  utf32ne_string* s; utf32ne_string_view* v; int* blk; size_t n;
  explicit Held32(const Cps& o, int id = 0) {
    ArenaScope a; n = o.size();
    s = new (arena_alloc(sizeof(utf32ne_string))) utf32ne_string(); s->native_string.reserve(n + 8); s->native_string.assign(o.data(), n);
    int* d = &s->native_string[0]; set_valid(d, d + s->native_string.capacity() + 1, false); set_valid(d, d + n + 1, true);
    int* b = (int*)arena_alloc((n + 8) * 4); for (size_t i = 0; i < n + 8; i++) b[i] = 0x301; if (n) memcpy(b + 4, o.data(), n * 4); set_valid(b, b + n + 8, false); set_valid(b + 4, b + 4 + n, true); blk = b + 4;
    v = new (arena_alloc(sizeof(utf32ne_string_view))) utf32ne_string_view(std::experimental::basic_string_view<int>(blk, n));
    name_region("utf32 string of text", id, d, d + n); name_region("utf32 view of text", id, blk, blk + n);
  }
};
template <class I> auto raw_of(const I& i) -> decltype(i.raw_iterator_) { return i.raw_iterator_; }
inline const int* raw_of(const int* i) { return i; }
inline std::basic_string<int>::const_iterator raw_of(std::basic_string<int>::const_iterator i) { return i; }
inline std::basic_string<int>::iterator raw_of(std::basic_string<int>::iterator i) { return i; }

struct Seg { std::vector<int> start; std::vector<Cps> g; };   // grapheme starts in native units (and the end)
template <class ES> Seg segment(ES& s) {                      // uninterrupted walk
  Seg r; auto b = s.native_cbegin();
  Armed a;
  basic_grapheme_iterator<ES> g = s.grapheme_begin(), e = s.grapheme_end();
  while (g != e) {
    auto gr = *g; int st = (int)(raw_of(gr.codepoint_begin()) - b);
    { Unarmed u; r.start.push_back(st); r.g.emplace_back(); }
    for (auto i = gr.codepoint_begin(); i != gr.codepoint_end(); ++i) { int c = (int)*i; Unarmed u; r.g.back().push_back(c); }
    ++g;
  }
  { Unarmed u; r.start.push_back((int)(s.native_cend() - b)); }
  return r;
}
template <class ES> Cps walk_all(ES& s) {
  Cps r; Armed a;
  auto i = s.codepoint_cbegin(), e = s.codepoint_cend();
  while (i != e) { int c = (int)*i; { Unarmed u; r.push_back(c); } ++i; }
  return r;
}
inline Cps flat(const Seg& s) { Cps r; for (auto& g : s.g) r.insert(r.end(), g.begin(), g.end()); return r; }
inline int index_of(const std::vector<int>& starts, int pos) {       // index of the unit that contains pos
  int lo = 0, hi = (int)starts.size() - 1; while (lo < hi) { int m = (lo + hi + 1) / 2; if (starts[m] <= pos) lo = m; else hi = m - 1; } return lo;
}
inline u64 hash_of(const Cps& v) { return hash_bytes(v.data(), v.size() * sizeof(int)); }
inline u64 hash_of(const std::string& v) { return hash_bytes(v.data(), v.size()); }
inline std::string hexs(const std::string& s, size_t max = 24) { std::string r; char b[8]; for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%s%02X", i ? " " : "", (u8)s[i]); r += b; } if (s.size() > max) r += " ..."; return r; }
inline std::string hexs(const Cps& s, size_t max = 16) { std::string r; char b[16]; for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%sU+%04X", i ? " " : "", s[i]); r += b; } if (s.size() > max) r += " ..."; return r; }
void in_task(void (*fn)(const Plan&), const Plan& p);
}
#endif
