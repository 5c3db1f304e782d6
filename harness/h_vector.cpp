// bit_vector: every operation from an arbitrary representation against a model
// (a length and a wide integer holding the bits)
// the members of std::string are instantiated here rather than taken from the library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <memory>
#include <string>
#include <string_view>
#include "vh.hpp"
using V = bit::bit_vector<W>;
using bit::bit_value;
struct M { wide m; uint64_t n; };           // model: bits, length
static uint64_t words(uint64_t n) { return (n + D - 1) / D; }
// interesting lengths for wide words, all lengths for 8-bit words
static uint64_t anylen(const char* nm, uint64_t maxw) {
  static const uint8_t few[] = {0, 1, 5, D - 1}, two[] = {0, 3};
  if (v_param("full", D == 8)) return v_choose(nm, 0, maxw * D);
  uint64_t k = v_choose(nm, 0, 4 * maxw);
  return k / 4 * D + few[k % 4];
}
// a position in [0, hi], selected offsets for wide words
static uint64_t anyat(const char* nm, uint64_t hi) {
  if (v_param("full", D == 8)) return v_choose(nm, 0, hi);
  uint64_t w = v_choose(nm, 0, hi / D), c = v_choose(nm, 0, 3), o = c == 0 ? 0 : c == 1 ? 3 : c == 2 ? D - 1 : hi % D;
  v_assume(w * D + o <= hi);
  v_assume(c != 3 || (w == hi / D && o != 0 && o != 3 && o != D - 1));
  return w * D + o;
}
static uint64_t anycount(const char* nm) {
  static const uint16_t sel[] = {0, 1, 5, D - 1, D, D + 3, 2 * D};
  return sel[v_choose(nm, 0, sizeof sel / sizeof *sel - 1)];
}
// Arbitrary representation holding n bits: the unused bits of the last word are
// arbitrary, there may be words beyond the last bit, spare capacity or none.
static V make(const char* nm, uint64_t n, M& m, uint64_t how) {
  uint64_t w = words(n);
  std::vector<W> x;
  for (uint64_t i = 0; i < w; i++) x.push_back((W)v_sym(nm, D));
  m.m = 0; m.n = n;
  for (uint64_t i = 0; i < w; i++) m.m |= (wide)x[i] << (i * D);
  m.m &= ones(n);
  if (how == 1) return V(BIt(x.begin()), BIt(x.begin()) + n);
  V v(x.begin(), x.end());
  if (n < w * D) { if (how == 2) while (v.size() > n) v.pop_back(); else v.resize(n); }
  if (how == 2) v.reserve(n + 4 * D);
  return v;
}
static uint64_t anyhow() { return v_choose("rep", 0, v_param("reps", 2)); }
template <class T> static void check(T& v, const M& m, const char* what) {
  const T& c = v;
  v_observe(v.size());
  v_assert(v.size() == m.n && v.empty() == (m.n == 0), "size and empty");
  v_assert((uint64_t)(v.end() - v.begin()) == m.n && (uint64_t)(c.cend() - c.cbegin()) == m.n && (uint64_t)(c.end() - c.begin()) == m.n, "the iterators span size() bits");
  v_assert(v.capacity() >= v.size(), "capacity");
  if (m.n == 0) return;
  v_assert(&*v.begin().base() == v.data() && c.data() == v.data() && v.begin().position() == 0, "the bits are those of data()");
  for (uint64_t i = 0; i < words(m.n); i++) {
    W e = (W)(m.m >> (i * D)), k = m.n - i * D >= D ? (W)~(W)0 : (W)ones(m.n - i * D);
    v_observe(v.data()[i] & k);
    v_assert((W)(v.data()[i] & k) == (W)(e & k), what);
  }
}
static M cat(wide lo, uint64_t nlo, wide mid, uint64_t nmid, wide hi, uint64_t nhi) {
  return {(lo & ones(nlo)) | ((mid & ones(nmid)) << nlo) | ((hi & ones(nhi)) << (nlo + nmid)), nlo + nmid + nhi};
}
static M ins(const M& a, uint64_t d, wide x, uint64_t k) { return cat(a.m, d, x, k, a.m >> d, a.n - d); }
static M del(const M& a, uint64_t d, uint64_t k) { return cat(a.m, d, 0, 0, a.m >> (d + k), a.n - d - k); }

// ---- construction
extern "C" void h_ctor_count() {
  uint64_t n = v_param("full", D == 8) ? v_choose("n", 0, 4 * D) : anylen("n", 3);
  bool b = v_choose("b", 0, 1);
  V v(n, bit_value(b));
  check(v, {b ? ones(n) : (wide)0, n}, "count copies of the value");
  V z(n); check(z, {0, n}, "count zero bits");
  V e; check(e, {0, 0}, "empty"); V ea{std::allocator<W>()}; check(ea, {0, 0}, "empty");
  V va(n, bit_value(b), std::allocator<W>()); check(va, {b ? ones(n) : (wide)0, n}, "count copies, allocator");
}
extern "C" void h_ctor_bits() {          // from a range of bits
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide x = s.val();
  P f = D == 8 ? choosepos("f", 0, N * D) : anypos("f", N, 0, FEW), l = D == 8 ? choosepos("l", f.bit(), N * D) : anypos("l", N, f.w, FEW);
  v_assume(f.bit() <= l.bit());
  v_shard(f.bit() * 7 + l.bit());
  uint64_t n = l.bit() - f.bit();
  uint64_t raw = v_choose("raw", 0, 3);
  V v = raw == 1 ? V(bit::bit_iterator<W*>(s.p + f.w, f.o), bit::bit_iterator<W*>(s.p + l.w, l.o)) : raw == 2 ? V(f.cit(s.p), l.cit(s.p))
      : raw == 3 ? V(bit::bit_iterator<const W*>(s.p + f.w, f.o), bit::bit_iterator<const W*>(s.p + l.w, l.o)) : V(f.it(s.p), l.it(s.p));
  check(v, {(x >> f.bit()) & ones(n), n}, "the bits of the range");
  s.expect(x, "source unchanged");
  v_cover(f.o > l.o && n > D, "crosses words");
}
extern "C" void h_ctor_words() {         // from words: every bit of every word
  const uint64_t n = v_choose("n", 0, v_param("n", 3));
  std::vector<W> x; wide e = 0;
  for (uint64_t i = 0; i < n; i++) { x.push_back((W)v_sym("x", D)); e |= (wide)x[i] << (i * D); }
  V v(x.begin(), x.end()); check(v, {e, n * D}, "whole words from iterators");
  const W* p = x.data(); V vp(p, p + n); check(vp, {e, n * D}, "whole words from pointers");
  if (n == 2) { V l({x[0], x[1]}); check(l, {e, n * D}, "whole words from a list"); }
  if (n == 3) { std::initializer_list<W> q = {x[0], x[1], x[2]}; V l(q); check(l, {e, n * D}, "whole words from a list"); }
}
extern "C" void h_ctor_bools() {         // from bools
  const uint64_t n = v_choose("n", 0, v_param("n", 9));
  bool x[16]; wide e = 0;
  for (uint64_t i = 0; i < n; i++) { x[i] = v_sym("x", 1); e |= (wide)x[i] << i; }
  V v((const bool*)x, (const bool*)x + n); check(v, {e, n}, "one bit per bool");
  if (n == 9) {
    V l(std::initializer_list<bool>{x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]}); check(l, {e, n}, "one bit per bool of the list");
    V k(std::initializer_list<bit_value>{bit_value(x[0]), bit_value(x[1]), bit_value(x[2]), bit_value(x[3]), bit_value(x[4]), bit_value(x[5]), bit_value(x[6]), bit_value(x[7]), bit_value(x[8])});
    check(k, {e, n}, "one bit per value of the list");
  }
}
extern "C" void h_ctor_string() {        // every character string
  const uint64_t n = v_choose("n", 0, v_param("n", 4)), pre = v_param("pre", 0);
  char s[80]; M m{0, 0};
  for (uint64_t i = 0; i < pre; i++) { bool b = i % 3 == 0; s[i] = b ? '1' : '0'; m.m |= (wide)b << m.n++; }
  for (uint64_t i = 0; i < n; i++) {
    s[pre + i] = (char)v_sym("s", 8);
    if (s[pre + i] == '0') m.n++; else if (s[pre + i] == '1') { m.m |= (wide)1 << m.n; m.n++; }
  }
  V v(std::string_view(s, pre + n));
  check(v, m, "the digits 0 and 1 in order, other characters skipped");
  v_cover(m.n == pre + n && n > 0, "digits only"); v_cover(m.n > 0 && m.n < n + pre, "separators");
}
// ---- access
extern "C" void h_access() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow()); v_shard(n);
  if (n == 0) v_end();
  const V& c = v;
  uint64_t k = v_sym("k", 10); v_assume(k < n);
  bool b = (m.m >> k) & 1;
  v_assert(bool(v[k]) == b && bool(v.at(k)) == b && bool(v.begin()[k]) == b && bool(c.begin()[k]) == b && bool(*(v.begin() + k)) == b, "element k");
  v_assert(bool(v.front()) == bool(m.m & 1) && bool(v.back()) == bool((m.m >> (n - 1)) & 1), "front and back");
  v_assert(bool(c[k]) == b && bool(c.at(k)) == b && bool(*(c.cbegin() + k)) == b && bool(v.cbegin()[k]) == b, "element k of a constant vector");
  v_assert(bool(c.front()) == bool(m.m & 1) && bool(c.back()) == bool((m.m >> (n - 1)) & 1), "front and back of a constant vector");
  uint64_t op = v_choose("op", 0, 3);
  bool nv = v_sym("nv", 1);
  uint64_t t = op < 2 ? k : op == 2 ? 0 : n - 1;
  if (op == 0) v[k] = bit_value(nv); else if (op == 1) v.at(k) = bit_value(nv); else if (op == 2) v.front() = bit_value(nv); else v.back() = bit_value(nv);
  m.m = (m.m & ~((wide)1 << t)) | ((wide)nv << t);
  check(v, m, "writing an element changes exactly that element");
}
extern "C" void h_at() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t k = v_sym("k", 64);
  v_throw_ok(k >= n);
  v_cover(k >= n, "out of range"); v_cover(k >= n && k < words(n) * D, "inside the last word, past the end");
  const V& c = v;
  bool r = v_choose("const", 0, 1) ? bool(c.at(k)) : bool(v.at(k));
  v_assert(k < n && r == (((m.m >> k) & 1) != 0), "at() returns the element or throws out_of_range");
}
extern "C" void h_traverse() {           // forwards and backwards through every kind of iterator
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow()); v_shard(n);
  const V& c = v;
  uint64_t k = 0;
  auto bit = [&](uint64_t i) { return ((m.m >> i) & 1) != 0; };
  for (auto i = c.begin(); i != c.end(); ++i, ++k) v_assert(k < n && bool(*i) == bit(k), "constant traversal");
  v_assert(k == n, "constant traversal ends after the last bit"); k = 0;
  for (auto x : v) { v_assert(k < n && bool(x) == bit(k), "traversal"); k++; }
  v_assert(k == n, "traversal ends after the last bit");
  for (auto i = v.cend(); i != v.cbegin();) { --i; --k; v_assert(k < n && bool(*i) == bit(k), "backward traversal"); }
  v_assert(k == 0, "backward traversal ends at the first bit");
  v_assert(c.end() - c.begin() == (int64_t)n && v.end() - v.begin() == (int64_t)n && v.cend() - v.cbegin() == (int64_t)n, "the ends are size() bits apart");
  v_assert(c.size() == n && c.empty() == (n == 0), "size and empty");
}
// ---- modifiers
extern "C" void h_push_back() {
  uint64_t n = anylen("n", v_param("n", 3)); M m; V v = make("x", n, m, anyhow());
  for (uint64_t i = 0; i < 2; i++) { bool b = v_sym("b", 1); v.push_back(bit_value(b)); m = ins(m, m.n, b, 1); check(v, m, "push_back appends the value"); }
}
extern "C" void h_pop_back() {
  uint64_t n = anylen("n", v_param("n", 3)); M m; V v = make("x", n, m, anyhow());
  for (uint64_t i = 0; i < 2; i++) { if (m.n == 0) v_end(); v.pop_back(); m = del(m, m.n - 1, 1); check(v, m, "pop_back removes the last bit"); }
}
extern "C" void h_resize() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow()); v_shard(n);
  uint64_t k = anylen("k", v_param("n", 2) + 1);
  bool two = v_choose("two", 0, 1), b = two && v_choose("b", 0, 1);
  if (two) v.resize(k, bit_value(b)); else v.resize(k);
  m = k <= n ? M{m.m & ones(k), k} : ins(m, n, b ? ones(k - n) : (wide)0, k - n);
  check(v, m, "resize keeps the common prefix and appends copies of the value");
  v_cover(k > n && b, "grow with ones"); v_cover(k < n, "shrink");
}
extern "C" void h_clear() {
  uint64_t n = anylen("n", v_param("n", 3)); M m; V v = make("x", n, m, anyhow());
  v.clear(); check(v, {0, 0}, "clear");
  bool b = v_sym("b", 1); v.push_back(bit_value(b)); check(v, {(wide)b, 1}, "usable after clear");
}
extern "C" void h_insert_one() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t d = anyat("d", n); bool b = v_sym("b", 1);
  v_shard(n * 5 + d);
  auto r = v.insert(v.cbegin() + d, bit_value(b));
  v_assert((uint64_t)(r - v.begin()) == d, "insert returns the position of the new bit");
  check(v, ins(m, d, b, 1), "insert places one bit and moves the rest");
  v_cover(d < n && n % D == 0 && n > 0, "grows by a word");
}
extern "C" void h_insert_count() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t d = anyat("d", n), k = anycount("k"); bool b = v_choose("b", 0, 1);
  v_shard(n * 5 + d + k);
  auto r = v.insert(v.cbegin() + d, k, bit_value(b));
  v_assert((uint64_t)(r - v.begin()) == d, "insert returns the position of the first new bit");
  check(v, ins(m, d, b ? ones(k) : (wide)0, k), "insert places the copies and moves the rest");
  v_cover(k > D && d % D != 0, "several words in the middle");
}
extern "C" void h_insert_range() {
  uint64_t n = anylen("n", v_param("n", 1)); M m; V v = make("x", n, m, anyhow());
  uint64_t d = anyat("d", n), k = anycount("k");
  static const uint8_t few[] = {0, 3, D - 1};
  uint64_t f = few[v_choose("f", 0, 2)], sn = f + k + v_choose("tail", 0, 1);
  v_shard(n * 5 + d + k);
  M sm; V s = make("s", sn, sm, 0);
  auto r = v.insert(v.cbegin() + d, s.begin() + f, s.begin() + f + k);
  v_assert((uint64_t)(r - v.begin()) == d, "insert returns the position of the first new bit");
  check(v, ins(m, d, sm.m >> f, k), "insert places the range and moves the rest");
  check(s, sm, "the source is unchanged");
}
extern "C" void h_erase_one() {
  uint64_t n = anylen("n", v_param("n", 3)); M m; V v = make("x", n, m, anyhow());
  if (n == 0) v_end();
  uint64_t d = anyat("d", n - 1);
  v_shard(n * 5 + d);
  auto r = v.erase(v.begin() + d);
  v_assert((uint64_t)(r - v.begin()) == d, "erase returns the position after the removed bit");
  check(v, del(m, d, 1), "erase removes one bit and moves the rest");
}
extern "C" void h_erase_range() {
  uint64_t n = anylen("n", v_param("n", 3)); M m; V v = make("x", n, m, anyhow());
  uint64_t d = anyat("d", n), e = anyat("e", n); v_assume(d <= e);
  v_shard(n * 5 + d + e * 3);
  auto r = v.erase(v.begin() + d, v.begin() + e);
  v_assert((uint64_t)(r - v.begin()) == (e == d ? e : d), "erase returns the position after the removed bits");
  check(v, del(m, d, e - d), "erase removes the range and moves the rest");
  v_cover(e - d == n && n > 0, "everything");
}
// ---- copies and moves
extern "C" void h_copy_move() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t o = v_choose("o", 0, 2) * (D + 1); M mo; V t = make("t", o, mo, 0);
  uint64_t op = v_choose("op", 0, 6);
  bool b = v_sym("b", 1);
  bool moved = false;
  if (op == 0) { V c(v); check(c, m, "copy"); c.push_back(bit_value(b)); check(c, ins(m, n, b, 1), "the copy is independent"); }
  else if (op == 1) { V c(v, std::allocator<W>()); check(c, m, "copy with allocator"); if (n) { c[0] = bit_value(b); } }
  else if (op == 2) { t = v; check(t, m, "assignment"); t.push_back(bit_value(b)); check(t, ins(m, n, b, 1), "the copy is independent"); }
  else if (op == 3) { t = std::move(v); check(t, m, "move assignment"); moved = true; t.push_back(bit_value(b)); check(t, ins(m, n, b, 1), "usable after move assignment"); }
  else if (op == 4) { V c(std::move(v)); check(c, m, "move construction"); c.push_back(bit_value(b)); check(c, ins(m, n, b, 1), "usable after move"); moved = true; }
  else if (op == 5) { V c(std::move(v), std::allocator<W>()); check(c, m, "move construction with allocator"); moved = true; }
  else { V& r = t; t = r; check(t, mo, "assignment to itself"); }
  if (!moved) check(v, m, "the source of a copy is unchanged");
  else {
    check(v, {0, 0}, "the source of a move is empty");
    v.clear(); check(v, {0, 0}, "clear after move"); v.push_back(bit_value(b)); check(v, {(wide)b, 1}, "usable after clear");
  }
}
extern "C" void h_swap_vec() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t o = v_choose("o", 0, 2) * (D + 1); M mo; V t = make("t", o, mo, anyhow());
  std::swap(v, t);
  check(t, m, "swap"); check(v, mo, "swap");
}
// ---- capacity
extern "C" void h_capacity() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t k = anylen("k", v_param("n", 2) + 1);
  v.reserve(k);
  v_assert(v.capacity() >= k, "reserve provides the capacity");
  check(v, m, "reserve keeps the bits");
  const W* p = v.begin().base().base();
  bool b = v_choose("b", 0, 1);
  uint64_t how = v_choose("grow", 0, 2);
  if (k > n) {
    if (how == 0) v.resize(k, bit_value(b));
    else if (how == 1) while (v.size() < k) v.push_back(bit_value(b));
    else v.insert(v.cend(), k - n, bit_value(b));
    m = ins(m, n, b ? ones(k - n) : (wide)0, k - n);
    check(v, m, "growing within the capacity");
    v_assert(v.begin().base().base() == p, "growing within the reserved capacity does not move the bits");
  }
  v.shrink_to_fit();
  check(v, m, "shrink_to_fit keeps the bits");
  v_assert(v.max_size() >= (uint64_t)1 << 60 && v.max_size() % D == 0, "max_size");
}
// an allocator that records the requests; the memory is never touched
static uint64_t requested; static unsigned requests;
template <class T> struct Rec {
  using value_type = T;
  Rec() = default; template <class U> Rec(const Rec<U>&) {}
  T* allocate(size_t n) { requested = n; requests++; static T some[4]; return some; }
  void deallocate(T*, size_t) {}
  size_t max_size() const { return ~(size_t)0 / sizeof(T); }
  bool operator==(const Rec&) const { return true; }
  bool operator!=(const Rec&) const { return false; }
};
extern "C" void h_reserve_any() {
  requested = 0; requests = 0;
  bit::bit_vector<W, Rec<W>> v;
  uint64_t n = v_sym("n", 64);
  uint64_t most = (uint64_t)std::numeric_limits<std::ptrdiff_t>::max() / sizeof(W);   // words
  uint64_t need = n / D + (n % D != 0);
  v_throw_ok(need > most);
  v.reserve(n);
  v_assert(need <= most, "a request beyond max_size throws");
  v_assert(n == 0 ? requests == 0 : requests == 1 && requested >= need, "enough words are requested");
  v_assert(v.capacity() >= n || (n != 0 && v.capacity() / D < need), "capacity covers the request");
  v_assert(v.size() == 0, "size unchanged");
  v_cover(n > (1ull << 33), "beyond 32 bits"); v_cover(n > ~0ull - 3, "near the top");
}
// ---- no memory: whichever request fails, the vector is as it was
extern "C" void h_alloc_failure() {
  uint64_t n = anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow());
  uint64_t o = v_choose("o", 0, 1) * (D + 1); M mo; V t = make("t", o, mo, 0);
  uint64_t op = v_choose("op", 0, 15), k = v_choose("k", 1, 2), d = v_choose("at", 0, 2);
  bool b = v_sym("b", 1);
  d = d == 0 ? 0 : d == 1 ? n / 2 : n; v_shard(n);
  uint64_t c = 0; static const uint16_t sel[] = {1, D, 2 * D + 3};
  if (op < 7) c = sel[v_choose("c", 0, 2)];
  M e = m; bool threw = false;
  auto w = std::vector<W>(2, (W)5);
  v_fail(k);
  try {
    switch (op) {
      case 0: e = ins(m, n, b, 1); v.push_back(bit_value(b)); break;
      case 1: e = ins(m, d, b, 1); v.insert(v.cbegin() + d, bit_value(b)); break;
      case 2: e = ins(m, d, b ? ones(c) : (wide)0, c); v.insert(v.cbegin() + d, c, bit_value(b)); break;
      case 3: e = ins(m, d, mo.m, o); v.insert(v.cbegin() + d, t.begin(), t.end()); break;
      case 4: e = ins(m, n, b ? ones(c) : (wide)0, c); v.resize(n + c, bit_value(b)); break;
      case 5: e = ins(m, n, 0, c); v.resize(n + c); break;
      case 6: v.reserve(n + c); break;
      case 7: v.shrink_to_fit(); break;
      case 8: e = mo; v = t; break;
      case 9: { V x(v); v_use(x.begin().base().base()); v_fail(0); check(x, m, "copy"); break; }
      case 10: { V x(v.begin(), v.end()); v_use(x.begin().base().base()); v_fail(0); check(x, m, "construction from bits"); break; }
      case 11: { V x(n, bit_value(b)); v_use(x.begin().base().base()); v_fail(0); check(x, {b ? ones(n) : (wide)0, n}, "construction of copies"); break; }
      case 12: { V x(w.begin(), w.end()); v_use(x.begin().base().base()); v_fail(0); v_assert(x.size() == 2 * D, "construction from words"); break; }
      case 13: { V x(std::string_view("0110")); v_use(x.begin().base().base()); v_fail(0); check(x, {6, 4}, "construction from a string"); break; }
      case 14: { V x(std::move(v)); v_fail(0); check(x, m, "move construction"); e = {0, 0}; v.clear(); break; }
      default: t = std::move(v); v_fail(0); check(t, m, "move assignment"); t.clear(); mo = e = {0, 0}; v.clear(); break;
    }
  } catch (...) { threw = true; }
  v_fail(0);
  v_cover(threw, "the request for memory fails"); v_cover(!threw, "enough memory");
  if (threw) {
    v_assert(op != 14 && op != 15, "moving needs no memory");
    check(v, m, "unchanged when memory runs out");
    if (n) { v.pop_back(); m = del(m, n - 1, 1); }      // and still usable
    v.push_back(bit_value(b)); check(v, ins(m, m.n, b, 1), "usable after memory ran out");
  } else check(v, e, "the operation is complete when memory suffices");
  check(t, mo, "the other vector is unchanged");
}
// growth by any 64-bit amount beyond the memory there is
static W some[2][8];
template <class T> struct Lim {
  using value_type = T;
  Lim() = default; template <class U> Lim(const Lim<U>&) {}
  T* allocate(size_t n) { requested = n; if (n > 8) throw std::bad_alloc(); return some[requests++ % 2]; }
  void deallocate(T*, size_t) {}
  size_t max_size() const { return ~(size_t)0 / sizeof(T); }
  bool operator==(const Lim&) const { return true; }
  bool operator!=(const Lim&) const { return false; }
};
extern "C" void h_grow_any() {
  requested = 0; requests = 0;
  using L = bit::bit_vector<W, Lim<W>>;
  uint64_t n = v_choose("n", 0, 3); n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? D - 1 : D;
  W x = (W)v_sym("x", D); M m{x & ones(n), n};
  L v(n); if (n) *v.data() = x;
  uint64_t c = v_sym("c", 64), op = v_choose("op", 0, 5); bool b = v_sym("b", 1), threw = false;
  v_assume(c > 16 * D);
  requested = 0;
  try {
    switch (op) {
      case 0: v.resize(c); break;
      case 1: v.resize(c, bit_value(b)); break;
      case 2: v.insert(v.cbegin() + n / 2, c, bit_value(b)); break;
      case 3: v.reserve(c); break;
      case 4: { L x(c, bit_value(b)); v_use(&x); break; }
      default: { L x(c); v_use(&x); break; }
    }
  } catch (...) { threw = true; }
  v_assert(threw, "more bits than there is memory for");
  unsigned __int128 total = (unsigned __int128)c + (op == 2 ? n : 0), need = (total + D - 1) / D;
  v_assert(requested == 0 || requested >= need, "a request for memory covers the bits");
  check(v, m, "unchanged when memory runs out");
  v_cover(requested != 0, "memory is requested"); v_cover(c > ~0ull - 3 && op == 2, "near the top");
}
// ---- allocators: all memory comes from the allocator given and goes back to it
static struct { void* p; size_t n; int id; } blocks[16]; static unsigned nblocks; static int wrongId; static int ids[3];
template <class T> struct Al {
  using value_type = T;
  int id;
  Al(int i = 0) : id(i) {} template <class U> Al(const Al<U>& o) : id(o.id) {}
  T* allocate(size_t n) {
    T* p = std::allocator<T>().allocate(n);
    v_assert(nblocks < 16, "harness: blocks"); blocks[nblocks++] = {p, n, id}; ids[id]++;
    return p;
  }
  void deallocate(T* p, size_t n) {
    bool found = false;
    for (unsigned i = 0; i < nblocks; i++) if (blocks[i].p == p) { found = blocks[i].id == id && blocks[i].n == n; blocks[i] = blocks[--nblocks]; break; }
    v_assert(found, "memory goes back to the allocator it came from");
    std::allocator<T>().deallocate(p, n);
  }
  bool operator==(const Al& o) const { return id == o.id; }
  bool operator!=(const Al& o) const { return id != o.id; }
};
extern "C" void h_allocator() {
  nblocks = 0; ids[0] = ids[1] = ids[2] = 0;
  using A = bit::bit_vector<W, Al<W>>;
  {
    uint64_t n = anylen("n", v_param("n", 2)), kind = v_choose("kind", 0, 6), op = v_choose("op", 0, 9); bool b = v_sym("b", 1);
    v_shard(n);
    M m; V src = make("x", n, m, 0);
    Al<W> al(1);
    std::vector<W> w; std::vector<char> z; bool bools[6]; 
    A v = [&]() -> A {
      switch (kind) {
        case 0: m = {b ? ones(n) : (wide)0, n}; return A(n, bit_value(b), al);
        case 1: return A(src.begin(), src.end(), al);
        case 2: m.n = words(n) * D; m.m = 0; for (uint64_t i = 0; i < words(n); i++) { w.push_back(src.data()[i]); m.m |= (wide)w[i] << (i * D); } return A(w.begin(), w.end(), al);
        case 3: m = {0, 6}; for (int i = 0; i < 6; i++) { bools[i] = v_choose("bool", 0, 1); m.m |= (wide)bools[i] << i; } return A((bool*)bools, bools + 6, al);
        case 4: m = {(wide)5 | (wide)b << D, 2 * D}; return A(std::initializer_list<W>{(W)5, (W)b}, al);
        case 5: { A o(src.begin(), src.end(), Al<W>(2)); A c(o, al); ids[2] = 0; return c; }
        default: { A o(src.begin(), src.end(), Al<W>(2)); A c(std::move(o), al); ids[2] = 0; v_assert(o.empty(), "the source of a move is empty"); return c; }
      }
    }();
    n = m.n;
    check(v, m, "construction with an allocator");
    v_assert(ids[0] == 0 && ids[2] == 0, "construction takes memory only from the allocator given");
    A t(Al<W>(2));
    switch (op) {
      case 0: for (int i = 0; i < 3; i++) { v.push_back(bit_value(b)); m = ins(m, m.n, b, 1); } break;
      case 1: v.insert(v.cbegin() + n / 2, D + 1, bit_value(b)); m = ins(m, n / 2, b ? ones(D + 1) : (wide)0, D + 1); break;
      case 2: v.resize(n + D + 1, bit_value(b)); m = ins(m, n, b ? ones(D + 1) : (wide)0, D + 1); break;
      case 3: v.reserve(n + 2 * D); v.shrink_to_fit(); break;
      case 4: { A c(v); check(c, m, "copy"); v_assert(ids[2] == 0, "a copy takes memory from the same allocator"); break; }
      case 5: { A c(std::move(v)); check(c, m, "move"); v_assert(v.empty(), "the source of a move is empty"); m = {0, 0}; check(v, m, "the source of a move is empty"); break; }
      case 6: t = v; check(t, m, "assignment"); check(v, m, "the source of a copy is unchanged"); v_assert(n == 0 || ids[2] == 1, "assignment takes memory from the target's allocator"); break;
      case 7: t = std::move(v); check(t, m, "move assignment"); v_assert(v.empty(), "the source of a move is empty"); m = {0, 0}; check(v, m, "the source of a move is empty"); break;
      case 8: { A c(al); c = std::move(v); check(c, m, "move assignment"); v_assert(v.empty(), "the source of a move is empty"); m = {0, 0}; check(v, m, "the source of a move is empty"); break; }
      default: v.clear(); m = {0, 0}; break;
    }
    check(v, m, "operations with an allocator");
    v_assert(ids[0] == 0 && (op == 6 || op == 7 || ids[2] == 0), "operations take memory only from the allocator given");
  }
  v_assert(nblocks == 0, "all memory is given back");
}
// moving between unequal allocators needs memory; when there is none both vectors are as they were
extern "C" void h_alloc_move_failure() {
  nblocks = 0; ids[0] = ids[1] = ids[2] = 0;
  using A = bit::bit_vector<W, Al<W>>;
  {
    uint64_t n = anylen("n", v_param("n", 2)), o = v_choose("o", 0, 1) * (D + 1); v_shard(n);
    M m; V sv = make("x", n, m, 0); M mo; V st = make("t", o, mo, 0);
    A v(sv.begin(), sv.end(), Al<W>(1)), t(st.begin(), st.end(), Al<W>(2));
    uint64_t op = v_choose("op", 0, 2); bool threw = false;
    v_fail(v_choose("k", 0, 1));
    try {
      if (op == 0) t = std::move(v);
      else if (op == 1) t = v;
      else { A c(std::move(v), Al<W>(2)); v_fail(0); check(c, m, "moved to another allocator"); }
    } catch (...) { threw = true; }
    v_fail(0);
    v_cover(threw, "memory runs out"); v_cover(!threw, "enough memory");
    if (threw) { check(v, m, "unchanged when memory runs out"); check(t, mo, "unchanged when memory runs out"); }
    else {
      if (op == 1) check(v, m, "the source of a copy is unchanged"); else check(v, {0, 0}, "the source of a move is empty");
      check(t, op == 2 ? mo : m, "assignment is complete when memory suffices");
    }
  }
  v_assert(nblocks == 0, "all memory is given back");
}
// ---- histories: any sequence of operations
static uint64_t len2(const char* nm) { static const uint8_t few[] = {0, 1, D - 1, D, D + 1}; return few[v_choose(nm, 0, 4)]; }
extern "C" void h_history() {
  M m; uint64_t n = len2("n"); V v = make("x", n, m, anyhow());
  uint64_t steps = v_param("steps", 2), sh = n;
  for (uint64_t s = 0; s < steps; s++) {
    uint64_t op = v_choose("op", 0, 8);
    sh = sh * 9 + op; if (s < 2) v_shard(sh);
    uint64_t d = m.n / 2, k = m.n < 3 ? m.n : 3;
    bool b = v_sym("b", 1);
    switch (op) {
      case 0: v.push_back(bit_value(b)); m = ins(m, m.n, b, 1); break;
      case 1: if (m.n == 0) v_end(); v.pop_back(); m = del(m, m.n - 1, 1); break;
      case 2: { auto r = v.insert(v.cbegin() + d, bit_value(b)); v_assert((uint64_t)(r - v.begin()) == d, "insert's result"); m = ins(m, d, b, 1); break; }
      case 3: if (m.n == 0) v_end(); v.erase(v.begin() + d); m = del(m, d, 1); break;
      case 4: v.insert(v.cbegin() + d, D, bit_value(true)); m = ins(m, d, ones(D), D); break;
      case 5: v.erase(v.begin() + (m.n - k) / 2, v.begin() + (m.n - k) / 2 + k); m = del(m, (m.n - k) / 2, k); break;
      case 6: { uint64_t t = len2("t"); v.resize(t, bit_value(false)); m = t <= m.n ? M{m.m & ones(t), t} : M{m.m, t}; break; }
      case 7: v.clear(); m = {0, 0}; break;
      default: v.shrink_to_fit(); break;
    }
    check(v, m, "the vector holds the bits of the history");
  }
}
// ---- debug_string
extern "C" void h_debug_range() {
  uint64_t n = D == 8 ? 2 * D + 3 : D + 3; M m; V v = make("x", n, m, anyhow());
  uint64_t f, l;
  if (D == 8) { f = v_choose("f", 0, n); l = v_choose("l", f, n); }
  else { static const uint8_t few[] = {0, 3, 8, 9, D - 1, D}; f = few[v_choose("f", 0, 5)]; l = few[v_choose("l", 0, 5)]; v_assume(f <= l); }
  v_shard(f);
  std::string s = v.debug_string(v.cbegin() + f, v.cbegin() + l);
  uint64_t e = 0;
  for (uint64_t i = 0; i < l - f; i++) {
    if (i && i % D == 0) { v_assert(s[e] == ' ', "a space after each word's worth"); e++; }
    else if (i && i % 8 == 0) { v_assert(s[e] == '.', "a dot after each byte's worth"); e++; }
    v_assert(e < s.size() && s[e] == (((m.m >> (f + i)) & 1) ? '1' : '0'), "one digit per bit, in order"); e++;
  }
  v_assert(s.size() == e, "nothing else");
}
extern "C" void h_debug_string() {
  uint64_t n = v_param("full", D == 8) ? v_choose("n", 0, 2 * D + 3) : anylen("n", v_param("n", 2)); M m; V v = make("x", n, m, anyhow()); v_shard(n);
  std::string s = v.debug_string();
  uint64_t e = 0;
  for (uint64_t i = 0; i < n; i++) {
    if (i && i % D == 0) { v_assert(s[e] == ' ', "a space between words"); e++; }
    else if (i && i % 8 == 0) { v_assert(s[e] == '.', "a dot between bytes"); e++; }
    v_assert(e < s.size() && s[e] == (((m.m >> i) & 1) ? '1' : '0'), "one digit per bit, in order"); e++;
  }
  v_assert(s.size() == e, "nothing else");
  if (n <= v_param("round", 10)) { V t{std::string_view(s)}; check(t, m, "reading the string back gives the same bits"); }
  check(v, m, "unchanged");
}
