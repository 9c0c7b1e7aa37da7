// Seams: the caller-supplied parts u5e takes as template arguments, made
// failing, tearing and re-entrant under the simulator's control.
#ifndef U5ESIM_SEAM
#define U5ESIM_SEAM
#include "plan.hpp"
#include <iterator>
#include <string>
#include <stddef.h>

namespace sim {
enum HookKind { H_SOURCE, H_CALLBACK, H_SINK, H_N };
// what a failing source, operation or sink throws; like those of real callers it may derive from a standard exception
struct SimFault { int kind; i64 at; SimFault(int k, i64 a) : kind(k), at(a) {} virtual ~SimFault() {} };
void throw_fault(int kind, i64 at);
struct Hooks;
struct Nest { int kind; i64 at; int op; mutable bool done; Nest(int k, i64 a, int o) : kind(k), at(a), op(o), done(false) {} };
struct Hooks {
  i64 n[H_N] = {0, 0, 0};
  i64 fail_at[H_N] = {-1, -1, -1};
  bool torn = false, fired = false, starve = false; int depth = 0; const void* failed_at = nullptr;
  const Nest* nests = nullptr; int nnests = 0; void (*run_nested)(Hooks*, const Nest&) = nullptr; void* arg = nullptr;
};
extern thread_local Hooks* t_hooks;
void hook(int kind, const void* where = nullptr);   // one access of that kind; may yield, nest or throw SimFault
void sink_begin();                                  // a write is about to begin: nothing of what is to be written has been taken yet
void sink_write(std::string& s, const char* p, size_t n);
void sink_write32(std::basic_string<int>& s, const int* p, size_t n);

// text source over octets; reading one is an access that can fail
template <class C> struct SimIter {
  typedef char value_type; typedef ptrdiff_t difference_type; typedef C& reference; typedef C* pointer;
  typedef std::random_access_iterator_tag iterator_category;
  C* p;
  SimIter() : p(nullptr) {}
  explicit SimIter(C* q) : p(q) {}
  template <class D> SimIter(const SimIter<D>& o) : p(o.p) {}
  C& operator*() const { hook(H_SOURCE, p); return *p; }
  C& operator[](ptrdiff_t k) const { hook(H_SOURCE, p + k); return p[k]; }
  SimIter& operator++() { ++p; return *this; } SimIter operator++(int) { SimIter t(*this); ++p; return t; }
  SimIter& operator--() { --p; return *this; } SimIter operator--(int) { SimIter t(*this); --p; return t; }
  SimIter& operator+=(ptrdiff_t k) { p += k; return *this; } SimIter& operator-=(ptrdiff_t k) { p -= k; return *this; }
  SimIter operator+(ptrdiff_t k) const { return SimIter(p + k); } SimIter operator-(ptrdiff_t k) const { return SimIter(p - k); }
  friend SimIter operator+(ptrdiff_t k, const SimIter& i) { return SimIter(i.p + k); }
  ptrdiff_t operator-(const SimIter& o) const { return p - o.p; }
  bool operator==(const SimIter& o) const { return p == o.p; } bool operator!=(const SimIter& o) const { return p != o.p; }
  bool operator<(const SimIter& o) const { return p < o.p; } bool operator>(const SimIter& o) const { return p > o.p; }
  bool operator<=(const SimIter& o) const { return p <= o.p; } bool operator>=(const SimIter& o) const { return p >= o.p; }
};
struct SimText {
  typedef char value_type; typedef char& reference; typedef const char& const_reference;
  typedef char* pointer; typedef const char* const_pointer; typedef size_t size_type; typedef ptrdiff_t difference_type;
  typedef SimIter<char> iterator; typedef SimIter<const char> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  char* p = nullptr; size_t n = 0;
  SimText() {} SimText(char* q, size_t m) : p(q), n(m) {} SimText(const char* q, size_t m) : p(const_cast<char*>(q)), n(m) {}
  iterator begin() { return iterator(p); } iterator end() { return iterator(p + n); }
  const_iterator begin() const { return const_iterator(p); } const_iterator end() const { return const_iterator(p + n); }
  const_iterator cbegin() const { return const_iterator(p); } const_iterator cend() const { return const_iterator(p + n); }
  size_t size() const { return n; } size_t length() const { return n; } bool empty() const { return n == 0; }
  const char* data() const { return p; } const char& operator[](size_t i) const { hook(H_SOURCE, p + i); return p[i]; } char& operator[](size_t i) { hook(H_SOURCE, p + i); return p[i]; }
  const char& front() const { return (*this)[0]; } const char& back() const { return (*this)[n - 1]; } size_t max_size() const { return n; }
  SimText substr(size_t from, size_t k = size_t(-1)) const { return SimText(p + from, k < n - from ? k : n - from); }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const { return const_reverse_iterator(cend()); } const_reverse_iterator crend() const { return const_reverse_iterator(cbegin()); }
};
// a source that can be read once: every iterator on it advances the same stream, and advancing can fail
struct SimStream { const int* p; const int* end; };
struct StreamIter {
  typedef int value_type; typedef ptrdiff_t difference_type; typedef const int& reference; typedef const int* pointer; typedef std::input_iterator_tag iterator_category;
  SimStream* s; int v;
  StreamIter() : s(nullptr), v(0) {}
  explicit StreamIter(SimStream* t) : s(t), v(0) { if (s->p == s->end) s = nullptr; else v = *s->p; }
  const int& operator*() const { if (!s) bad(); return v; }
  StreamIter& operator++() { if (!s) bad(); hook(H_SOURCE, s->p + 1); if (++s->p == s->end) s = nullptr; else v = *s->p; return *this; }
  StreamIter operator++(int) { StreamIter t(*this); ++*this; return t; }
  bool operator==(const StreamIter& o) const { return !s == !o.s; } bool operator!=(const StreamIter& o) const { return !s != !o.s; }
  static void bad();
};
// output whose writes can fail or tear
template <class C, class Base, void (*W)(Base&, const C*, size_t)> struct SimOut : Base {
  using Base::Base; SimOut() {}
  SimOut(const SimOut&) = default; SimOut& operator=(const SimOut&) = default;
  void w(const C* p, size_t n) { W(*this, p, n); }
  SimOut& append(const C* p, size_t n) { w(p, n); return *this; }
  SimOut& append(const C* p) { w(p, std::char_traits<C>::length(p)); return *this; }
  SimOut& append(size_t n, C c) { Base t; { Unarmed u; t.assign(n, c); } w(t.data(), n); return *this; }
  SimOut& append(const Base& s) { w(s.data(), s.size()); return *this; }
  SimOut& append(std::initializer_list<C> l) { w(l.begin(), l.size()); return *this; }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> SimOut& append(It f, It l) {
    sink_begin(); C chunk[256]; size_t k = 0;
    for (; f != l; ++f) { if (k == 256) { w(chunk, k); k = 0; } chunk[k++] = *f; }
    w(chunk, k); return *this;
  }
  void push_back(C c) { w(&c, 1); }
  SimOut& operator+=(C c) { w(&c, 1); return *this; }
  SimOut& operator+=(const Base& s) { w(s.data(), s.size()); return *this; }
  SimOut& operator+=(const C* s) { return append(s); }
};
typedef SimOut<char, std::string, sink_write> SimFile;
typedef SimOut<int, std::basic_string<int>, sink_write32> SimFile32;
}
#endif
