// bit_iterator / bit_pointer arithmetic and order, bit_reference / bit_value semantics
#include "vh.hpp"
// a word address anywhere in the middle of the address space; not dereferenced
static W* anyaddr(const char* nm) {
  uint64_t a = v_sym(nm, 46);
  v_assume(a >= (1ull << 44));
  return (W*)(a * sizeof(W));
}
static int64_t anyn(const char* nm) {   // |n| < 2^40
  int64_t n = (int64_t)v_sym(nm, 64), lim = (int64_t)1 << 40;
  v_assume(n > -lim && n < lim);
  return n;
}
static int64_t lin(W* p, uint64_t pos) { return (int64_t)((uint64_t)p / sizeof(W)) * D + pos; }
template <class I> static int64_t pos(I i) { return lin(&*i.base(), i.position()); }
template <class W2> static int64_t pos(bit::bit_pointer<W2> p) { return lin((W*)(*p).address(), (*p).position()); }
template <class I> static uint64_t off(I i) { return i.position(); }
template <class W2> static uint64_t off(bit::bit_pointer<W2> p) { return (*p).position(); }
template <class I> static void arith(I i, int64_t at) {
  int64_t n = anyn("n");
  I f = i + n;
  v_assert(pos(f) == at + n && off(f) < D, "i + n designates the bit n further on");
  I g = i - n;
  v_assert(pos(g) == at - n && off(g) < D, "i - n designates the bit n before");
  I a = i; a += n; I b = i; b -= n;
  v_assert(a == f && b == g, "compound forms agree");
  v_assert(n + i == f, "n + i is i + n");
  v_cover(n < 0 && n % (int64_t)D != 0, "negative unaligned");
}
// differences, as the inverse of addition
template <class I> static void diff(I i) {
  int64_t n = anyn("n");
  I f = i + n;
  v_assert(f - i == n, "difference inverts addition");
  v_assert(i - f == -n, "difference inverts addition, backwards");
  v_assert(f - n == i, "subtraction inverts addition");
}
template <class I> static void step(I i, int64_t at) {
  I a = i, b = i, c = i, d = i;
  v_assert(pos(++a) == at + 1 && pos(--b) == at - 1, "one step");
  I o = c++, q = d--;
  v_assert(o == i && q == i && c == a && d == b, "postfix forms return the old position");
  v_assert(off(a) < D && off(b) < D, "position inside the word");
  I e = i; ++e; --e; v_assert(e == i, "-- inverts ++");
}
static bool lt(int64_t a, int64_t b) { return a < b; }
template <class I, class K> static void order(I i, K j, int64_t a, int64_t b) {
  v_assert((i == j) == (a == b) && (i != j) == (a != b), "equality is equality of positions");
  v_assert((i < j) == lt(a, b) && (i > j) == lt(b, a), "strict order is the order of positions");
  v_assert((i <= j) == !lt(b, a) && (i >= j) == !lt(a, b), "order is the order of positions");
  v_assert(i - j == (int64_t)(a - b), "difference is the distance in bits");
  v_cover(a < b, "before"); v_cover(a > b, "after"); v_cover(a == b, "same");
}
using RIt = bit::bit_iterator<W*>;
using RCIt = bit::bit_iterator<const W*>;
using CIt = bit::bit_iterator<VCIt>;
struct Pi { W* p; uint64_t o; int64_t at() const { return lin(p, o); } };
static Pi anyp(const char* nm) { W* p = anyaddr(nm); uint64_t o = v_sym(nm, LOGD); return {p, o}; }
static Pi anypm(const char* nm) {
  static const uint8_t few[] = {0, 5, D - 1};
  uint64_t m = v_param("om", 0);
  W* p = anyaddr(nm);
  uint64_t o = m == 1 ? v_choose("io", 0, D - 1) : m == 3 ? few[v_choose("io", 0, 2)] : v_sym("io", LOGD);
  v_shard(o);
  return {p, o};
}
extern "C" void h_iter_arith() { Pi p = anypm("i"); arith(BIt(VIt(p.p), p.o), p.at()); }
extern "C" void h_iter_diff() { Pi p = anypm("i"); diff(BIt(VIt(p.p), p.o)); }
extern "C" void h_iter_step() { Pi p = anyp("i"); step(BIt(VIt(p.p), p.o), p.at()); RIt r(p.p, p.o); step(r, p.at()); }
extern "C" void h_iter_order() {
  Pi p = anyp("i"), q = anyp("j");
  order(BIt(VIt(p.p), p.o), BIt(VIt(q.p), q.o), p.at(), q.at());
  order(RIt(p.p, p.o), RIt(q.p, q.o), p.at(), q.at());
}
extern "C" void h_iter_mixed() {
  Pi p = anyp("i"), q = anyp("j");
  order(RIt(p.p, p.o), RCIt(q.p, q.o), p.at(), q.at());
  RCIt c(RIt(p.p, p.o));
  v_assert(c.base() == p.p && c.position() == p.o, "conversion to a const iterator keeps the position");
  BIt b(VIt(p.p), p.o);
  RCIt ca; ca = RIt(p.p, p.o); CIt cb; cb = b;
  v_assert(ca == c && cb == b, "assignment to a const iterator keeps the position");
  v_assert(ca - RIt(q.p, q.o) == c - RCIt(q.p, q.o), "mixed differences");
  v_assert(b.mask() == (W)((W)1 << p.o), "mask selects the bit");
  v_assert(BIt(VIt(p.p)).position() == 0, "word iterator converts to its lowest bit");
}
// access through iterators: *i, i[n], -> and & designate the same bit
extern "C" void h_iter_access() {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P a = anypos("a", N - 1), b = anypos("b", N - 1);
  v_assume(a.w < N - 1); v_assume(b.w < N - 1);
  v_shard(a.w * 5 + b.w);
  BIt i = a.it(s.p);
  int64_t n = (int64_t)(b.bit() - a.bit());
  bool bit = (v >> b.bit()) & 1;
  v_assert(bool(i[n]) == bit, "i[n] reads the bit n further on");
  v_assert(bool(*(i + n)) == bit, "*(i + n) reads the same bit");
  v_assert(bool(*(&*i + n)) == bit, "a pointer obtained from a reference steps the same way");
  v_assert((&*i)[n].address() == i[n].address() && (&*i)[n].position() == i[n].position(), "pointer and iterator indexing agree");
  v_assert(i->address() == s.p + a.w && i->position() == a.o && i->mask() == (W)((W)1 << a.o), "-> designates the bit");
  bool nv = v_sym("nv", 1);
  i[n] = bit::bit_value(nv);
  s.expect((v & ~((wide)1 << b.bit())) | ((wide)nv << b.bit()), "writing through i[n] changes exactly that bit");
  v_cover(n < 0, "backwards");
}
// pointers (a bit_pointer keeps a mask, not an index)
extern "C" void h_ptr_arith() { Pi p = anypm("i"); arith(bit::bit_pointer<W>(p.p, p.o), p.at()); }
extern "C" void h_ptr_diff() { Pi p = anypm("i"); diff(bit::bit_pointer<W>(p.p, p.o)); }
extern "C" void h_ptr_step() { Pi p = anyp("i"); step(bit::bit_pointer<W>(p.p, p.o), p.at()); }
extern "C" void h_ptr_order() {
  Pi p = anyp("i"), q = anyp("j");
  order(bit::bit_pointer<W>(p.p, p.o), bit::bit_pointer<W>(q.p, q.o), p.at(), q.at());
  order(bit::bit_pointer<W>(p.p, p.o), bit::bit_pointer<const W>(q.p, q.o), p.at(), q.at());
}
extern "C" void h_ptr_misc() {
  Pi p = anyp("i");
  bit::bit_pointer<W> a(p.p, p.o), b, c(nullptr), d(p.p);
  v_assert(bool(a) && !bool(b) && !bool(c), "null tests");
  v_assert(d == bit::bit_pointer<W>(p.p, 0), "a word pointer converts to a pointer to its lowest bit");
  b = a; v_assert(b == a, "assignment");
  bit::bit_pointer<const W> k(a); v_assert(k == a, "conversion to pointer to const");
  bit::bit_pointer<const W> m; m = a; v_assert(m == a && (*m).address() == p.p && (*m).position() == p.o, "assignment to a pointer to const");
  m = b; v_assert(m == b, "assignment between pointers");
  b = nullptr; v_assert(!bool(b) && b == c, "assignment of nullptr");
  v_assert((*a).address() == p.p && (*a).position() == p.o && a->mask() == (W)((W)1 << p.o), "dereference");
}
// references: every mutator changes exactly the designated bit
extern "C" void h_reference() {
  Buf s("buf", 2);
  W x = s.p[0], y = s.p[1];
  uint64_t i = v_sym("i", LOGD), j = v_sym("j", LOGD);
  bool bi = (x >> i) & 1, v = v_sym("v", 1);
  W val = (W)v_sym("val", D);
  bit::bit_reference<W> r(s.p[0], i);
  bit::bit_value bv(v);
  bool other;                       // value of the designated bit afterwards
  uint64_t op = v_choose("op", 0, 16);
  bool one = op == 15 || op == 16;
  bool wantj = (y >> j) & 1, newj = wantj;
  bit::bit_reference<W> q(s.p[1], j);
  bit::bit_value t(v);
  bool wantt = v;
  switch (op) {
    case 0: r.set(); other = true; break;
    case 1: r.reset(); other = false; break;
    case 2: r.flip(); other = !bi; break;
    case 3: r.set(v); other = v; break;
    case 4: r = bv; other = v; break;
    case 5: r &= bv; other = bi && v; break;
    case 6: r |= bv; other = bi || v; break;
    case 7: r ^= bv; other = bi != v; break;
    case 8: r.assign(val); other = val & 1; break;
    case 9: r.assign(val, j); other = (val >> j) & 1; break;
    case 10: r = q; other = wantj; break;
    case 11: r.swap(q); other = wantj; newj = bi; break;
    case 12: swap(r, q); other = wantj; newj = bi; break;
    case 13: r.swap(t); other = v; wantt = bi; break;
    case 14: swap(r, t); other = v; wantt = bi; break;
    case 15: { bit::bit_reference<W> z(s.p[0], j); v_assume(i != j); bool zj = (x >> j) & 1; swap(r, z); other = zj;
      v_assert(bool(z) == bi, "the other bit of the same word is exchanged");
      v_assert(s.p[0] == (W)((x & ~(W)((W)1 << i) & ~(W)((W)1 << j)) | (W)((W)zj << i) | (W)((W)bi << j)), "exactly the two bits change"); break; }
    default: { bit::bit_reference<W> z(s.p[0], i); r.swap(z); other = bi; }
  }
  v_observe(s.p[0]); v_observe(s.p[1]);
  if (op != 15) v_assert(s.p[0] == (W)((x & ~(W)((W)1 << i)) | (W)((W)other << i)), "exactly the designated bit changes");
  v_assert(s.p[1] == (W)((y & ~(W)((W)1 << j)) | (W)((W)newj << j)), "the other operand holds the exchanged bit or is unchanged");
  v_assert(bool(t) == wantt, "the exchanged value");
  v_assert(bool(r) == other, "reading back");
  v_assert(r.address() == s.p && r.position() == i && r.mask() == (W)((W)1 << i), "the reference still designates its bit");
  bit::bit_reference<W> cp(r); v_assert(cp.address() == r.address() && cp.mask() == r.mask(), "copies designate the same bit");
  bit::bit_pointer<W> pt = &r; v_assert((*pt).address() == r.address() && (*pt).position() == i, "& yields a pointer to the bit");
  v_assert((r == q) == (bool(r) == bool(q)) && (r < q) == (bool(r) < bool(q)) && bool(r ^ q) == (bool(r) != bool(q)), "comparisons compare values");
}
extern "C" void h_value() {
  uint64_t a = v_sym("a", 1), b = v_sym("b", 1), k = v_sym("k", LOGD);
  W w = (W)v_sym("w", D);
  using bit::bit_value;
  bit_value x(a != 0), y(b != 0);
  v_assert(bool(x & y) == (a && b) && bool(x | y) == (a || b) && bool(x ^ y) == (a != b) && bool(~x) == !a, "bitwise operators");
  v_assert((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "order");
  bit_value c(x), d(x), e(x);
  c &= y; d |= y; e ^= y;
  v_assert(c == (x & y) && d == (x | y) && e == (x ^ y), "compound forms");
  v_assert(bool(bit_value(w)) == (w & 1), "construction from a word takes its lowest bit");
  v_assert(bool(bit_value(w, k)) == ((w >> k) & 1), "construction from a position of a word");
  c.assign(w); d.assign(w, k);
  v_assert(bool(c) == (w & 1) && bool(d) == ((w >> k) & 1), "assignment from words");
  bit_value p(x), q(y); p.swap(q);
  v_assert(p == y && q == x, "swap");
  p = x; p.flip(); v_assert(bool(p) == !a, "flip");
  p.set(); v_assert(bool(p), "set"); p.reset(); v_assert(!bool(p), "reset"); p.set(b != 0); v_assert(p == y, "set(b)");
  bit::bit_reference<W> r(w, k); bit_value f(r); v_assert(bool(f) == bool(r), "conversion from a reference");
  f = x; f = r; v_assert(bool(f) == bool(r), "assignment from a reference");
  v_assert(!bool(bit::bit0) && bool(bit::bit1) && !bool(bit::bit_off) && bool(bit::bit_on) && !bool(bit_value()), "constants");
}
