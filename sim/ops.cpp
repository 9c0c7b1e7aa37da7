#include "ops.hpp"
#include <new>
#include <string.h>
namespace sim {
static void put8(TextStore* t, const std::string& s) {
  t->n8 = s.size(); ArenaScope a;
  t->s8.native_string.assign(s); memcpy(t->b8, s.data(), s.size()); memcpy(t->bs, s.data(), s.size()); t->bs[s.size()] = 0;
  t->v8.native_string = std::experimental::string_view(t->b8, t->n8);
  t->sim.native_string = SimText(t->bs, t->n8);
  char* d = &t->s8.native_string[0]; size_t n = t->n8;
  set_valid(d, d + t->s8.native_string.capacity() + 1, false); set_valid(d, d + n + 1, true);
  set_valid(t->b8, t->b8 + t->cap8, false); set_valid(t->b8, t->b8 + n, true);
  set_valid(t->bs, t->bs + t->cap8 + 1, false); set_valid(t->bs, t->bs + n + 1, true);
}
static void put32(TextStore* t, const std::vector<int>& v) {
  t->n32 = v.size(); ArenaScope a;
  t->s32.native_string.assign(v.data(), v.size()); if (v.size()) memcpy(t->b32, v.data(), v.size() * 4);
  t->v32.native_string = std::experimental::basic_string_view<int>(t->b32, t->n32);
  int* d = &t->s32.native_string[0]; size_t n = t->n32;
  set_valid(d, d + t->s32.native_string.capacity() + 1, false); set_valid(d, d + n + 1, true);
  set_valid(t->b32, t->b32 + t->cap32, false); set_valid(t->b32, t->b32 + n, true);
}
TextStore* new_text(int id, const std::vector<int>& cps, size_t cap) {
  ArenaScope a;
  if (cap < cps.size()) cap = cps.size();
  TextStore* t = new (arena_alloc(sizeof(TextStore))) TextStore();
  t->id = id; t->cap32 = cap + 8; t->cap8 = cap * 4 + 24;
  t->s8.native_string.reserve(t->cap8); t->s32.native_string.reserve(t->cap32);
  // stale octets around the views: they belong to other texts and must not matter
  char* blk = (char*)arena_alloc(t->cap8 + 32); memset(blk, 0x80, 16); memset(blk + 16, 0xA9, t->cap8 + 16); set_valid(blk, blk + t->cap8 + 32, false); t->b8 = blk + 16;
  t->b32 = (int*)arena_alloc((t->cap32 + 8) * 4) + 4; for (size_t i = 0; i < t->cap32; i++) t->b32[i] = 0x301; set_valid(t->b32 - 4, t->b32 + t->cap32 + 4, false);
  t->bs = (char*)arena_alloc(t->cap8 + 8);
  put8(t, enc_all(cps)); put32(t, cps);
  name_region("string of text", id, t->s8.native_string.data(), t->s8.native_string.data() + t->n8);
  name_region("view of text", id, t->b8, t->b8 + t->n8);
  name_region("source of text", id, t->bs, t->bs + t->n8);
  name_region("utf32 string of text", id, t->s32.native_string.data(), t->s32.native_string.data() + t->n32);
  name_region("utf32 view of text", id, t->b32, t->b32 + t->n32);
  return t;
}
void rewrite_text(TextStore* t, const std::vector<int>& v) {
  std::vector<int> c(v); if (c.size() > t->cap32 - 8) c.resize(t->cap32 - 8);
  put8(t, enc_all(c)); put32(t, c);
}
void new_text_octets(TextStore* t, const std::string& s) { put8(t, s); }
u64 TextStore::hash() const {
  u64 h = hash_bytes(s8.native_string.data(), n8 + 1); h = hash_bytes(b8, n8, h); h = hash_bytes(bs, n8 + 1, h);
  h = hash_bytes(s32.native_string.data(), n32 * 4, h); h = hash_bytes(b32, n32 * 4, h);
  return mix(h ^ s8.native_string.size() ^ (u64)(uintptr_t)s8.native_string.data() ^ s32.native_string.size());
}
void run_op(const Op& op, TextStore& t, Outcome& o) {
  o.clear();
  // a budget of its own; what it used is given back to the calls that are under way around it
  struct Budget { i64 own; u64 t0; Budget(u64 b) : own((i64)b), t0(R->ticks) { raise_tick_cap(t0); move_tick_cap(own); } ~Budget() { move_tick_cap((i64)(R->ticks - t0) - own); } } budget(4000000 + 60000ull * t.n8 + 60ull * t.n8 * t.n8);
  switch ((unsigned)op.store % S_N) {
  case S_U8: run_op_u8(op, t, o); break; case S_U8V: run_op_u8v(op, t, o); break; case S_U32: run_op_u32(op, t, o); break;
  case S_U32V: run_op_u32v(op, t, o); break; case S_SIM: run_op_sim(op, t, o); break;
  }
}
int op_failed(const Outcome& o) { return o.total && (o.last == END_ALLOC || o.last == END_SEAM || o.last == END_OTHER) ? o.last : 0; }
}
