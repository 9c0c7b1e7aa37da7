#include "plan.hpp"
#include "runtime.hpp"
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
namespace sim {
i64 Plan::param(const char* n, i64 dflt) const { Unarmed u; auto i = params.find(n); return i == params.end() ? dflt : i->second; }
const std::vector<int>& Plan::text(int id) const { Unarmed u; static const std::vector<int> none; auto i = texts.find(id); return i == texts.end() ? none : i->second; }
void Plan::use_order(int round) const {
  static Stall l[16]; int n = 0;
  for (auto& e : evs) if (e.kind == "stall" && e.d == round && n < 16) l[n++] = Stall{(int)e.a, (u64)e.b, (u64)e.c};
  set_stalls(l, n); i64 late = param("late"); set_weak(late > 0 ? (u64)late * 64 + (u64)round : 0);
}
const Op* Plan::op(int id) const { Unarmed u; for (auto& o : ops) if (o.id == id) return &o; return nullptr; }
const char* const op_names[O_KINDS] = {"walk", "walk-back", "walk-graphemes", "normalize", "reopen", "truncate-codepoint", "truncate-grapheme", "check", "enforce", "lookup",
  "decompose", "write-cursor", "append-from-utf32", "append-range", "mutable-walk", "version", "filter", "compare"};
const char* const store_names[S_N] = {"utf8_string", "utf8_string_view", "utf32ne_string", "utf32ne_string_view", "utf8-over-simulated-source"};
std::string print(const Plan& p) {
  std::ostringstream o;
  o << "prop " << p.prop << "\nseed " << p.seed << "\nrun " << p.run << "\n";
  for (auto& k : p.params) o << "param " << k.first << " " << k.second << "\n";
  for (auto& t : p.texts) {
    const std::vector<int>& v = t.second; size_t n = v.size(), h = 0, q = 0;
    if (n > 1500) for (h = 0; h < 3 && !q; h++) for (size_t k = 1; k < 32 && !q; k++) { if ((n - h) % k) continue; size_t i = h; while (i + k < n && v[i] == v[i + k]) i++; if (i + k == n) q = k; }       // head, then a short text repeated
    if (q) h--;
    o << "text " << t.first;
    for (size_t i = 0; i < (q ? h + q : n); i++) { char b[40]; if (q && i == h) { snprintf(b, sizeof b, " x%zu", (n - h) / q); o << b; } snprintf(b, sizeof b, " %X", v[i]); o << b; }
    o << "\n";
  }
  for (auto& x : p.ops) o << "op " << x.id << " " << x.task << " " << x.kind << " " << x.store << " " << x.text << " " << x.a << " " << x.b << " " << x.c << "\n";
  for (auto& e : p.evs) o << "ev " << e.kind << " " << e.a << " " << e.b << " " << e.c << " " << e.d << "\n";
  for (auto& s : p.sw) o << "sw " << s.delta << " " << s.target << "\n";
  return o.str();
}
bool parse(const std::string& s, Plan& p, std::string& err) {
  std::istringstream in(s); std::string line; int n = 0;
  while (std::getline(in, line)) {
    n++; if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); std::string k; l >> k;
    if (k == "prop") l >> p.prop; else if (k == "seed") l >> p.seed; else if (k == "run") l >> p.run;
    else if (k == "param") { std::string a; i64 v; l >> a >> v; p.params[a] = v; }
    else if (k == "text") { int id; l >> id; std::vector<int>& v = p.texts[id]; std::string t; size_t h = 0; long x = 1; while (l >> t) if (t[0] == 'x') { h = v.size(); x = atol(t.c_str() + 1); } else v.push_back((int)strtol(t.c_str(), nullptr, 16)); l.clear();
      std::vector<int> q(v.begin() + h, v.end()); if (x < 1 || (size_t)x * (q.size() + 1) > 1000000) x = 1; while (--x > 0) v.insert(v.end(), q.begin(), q.end()); }
    else if (k == "op") { Op x; l >> x.id >> x.task >> x.kind >> x.store >> x.text >> x.a >> x.b >> x.c; p.ops.push_back(x); }
    else if (k == "ev") { Ev e; l >> e.kind >> e.a >> e.b >> e.c >> e.d; p.evs.push_back(e); }
    else if (k == "sw") { Switch w; l >> w.delta >> w.target; p.sw.push_back(w); }
    else { err = "unknown line " + line; return false; }
    if (l.fail()) { err = "bad line " + line; return false; }
  }
  if (!known_prop(p.prop)) { err = "unknown property " + p.prop; return false; }
  return true;
}
int enc_len(int c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
void enc(int c, std::string& o) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
std::string enc_all(const std::vector<int>& v) { std::string s; for (int c : v) enc(c, s); return s; }
std::vector<int> unit_starts(const std::vector<int>& v) { std::vector<int> r; int p = 0; for (int c : v) { r.push_back(p); p += enc_len(c); } r.push_back(p); return r; }
}
