// ranges of more words than an 8-bit number counts (u8) and of more bits than a
// 16-bit number counts (wider words): contents symbolic, few positions
#include "vh.hpp"
static W revw(W x) {                  // the bits of a word in opposite order
  for (unsigned k = D / 2; k; k /= 2) {
    W m = 0; for (unsigned i = 0; i < D; i++) if (!(i & k)) m |= (W)((W)1 << i);
    x = (W)((W)((W)(x >> k) & m) | (W)((W)(x & m) << k));
  }
  return x;
}
struct Old {                          // the original words of a buffer
  W* o; int64_t n;
  explicit Old(const Buf& b) : o(new W[b.n]), n((int64_t)b.n) { for (int64_t i = 0; i < n; i++) o[i] = b.p[i]; }
  ~Old() { delete[] o; }
  W w(int64_t i) const { return i < 0 || i >= n ? (W)0 : o[i]; }
  W at(int64_t bit) const {           // the D bits from a position on
    int64_t k = bit >= 0 ? bit / (int64_t)D : -((-bit + D - 1) / D), r = bit - k * D;
    return r == 0 ? w(k) : (W)((W)(w(k) >> r) | (W)(w(k + 1) << (D - r)));
  }
};
static W mask(int64_t i, int64_t a, int64_t b) {   // which bits of word i lie in [a, b)
  int64_t lo = a - i * D, hi = b - i * D;
  if (lo < 0) lo = 0; if (hi > (int64_t)D) hi = D;
  if (lo >= hi) return 0;
  return (W)((hi - lo == D ? (W)~(W)0 : (W)(((W)1 << (hi - lo)) - 1)) << lo);
}
template <class F> static void expect(const Buf& b, const Old& o, int64_t from, int64_t to, int64_t free, const char* what, F f) {
  // [from, to) holds f's bits, [to, free) anything, all else is unchanged
  for (int64_t i = 0; i < o.n; i++) {
    W m = mask(i, from, to), u = mask(i, to, free);
    if (i < 2 || i > o.n - 3) v_observe(b.p[i] & (W)~u);
    W e = m == 0 ? o.w(i) : (W)((o.w(i) & (W)~m) | ((W)f(i) & m));
    v_assert((W)((b.p[i] ^ e) & (W)~u) == 0, what);
  }
}
struct R { int64_t n, f, l, d; };
// a range that begins in word 0 and ends in the last word but `slack`
static R range(int64_t slack = 1) {
  R r; r.n = (int64_t)v_param("n", 300);
  r.f = v_choose("f", 0, 1) * 5; r.d = v_choose("d", 0, 2) * 2;
  r.l = (r.n - slack) * (int64_t)D - (int64_t)v_choose("l", 0, 1) * 3;
  v_shard((uint64_t)(r.f + r.d * 3 + (r.n * D - r.l)));
  return r;
}
template <class F> static void transfer(bool backward, const char* what, F op) {
  R r = range();
  Buf s("src", r.n), t("dst", r.n); Old so(s), to(t);
  int64_t len = r.l - r.f;
  BIt q = op(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit_at(t.p, (backward ? r.d + len : r.d) / D, (backward ? r.d + len : r.d) % D));
  v_assert((int64_t)bitpos(q, t) == (backward ? r.d : r.d + len), "the end of the destination is returned");
  expect(t, to, r.d, r.d + len, 0, what, [&](int64_t i) { return so.at(i * D - r.d + r.f); });
  expect(s, so, 0, 0, 0, "the source is unchanged", [&](int64_t) { return (W)0; });
}
extern "C" void h_huge_copy() { transfer(false, "the destination holds the source's bits", [](BIt a, BIt b, BIt c) { return bit::copy(a, b, c); }); }
extern "C" void h_huge_move() { transfer(false, "the destination holds the source's bits", [](BIt a, BIt b, BIt c) { return bit::move(a, b, c); }); }
extern "C" void h_huge_copy_backward() { transfer(true, "the destination holds the source's bits", [](BIt a, BIt b, BIt c) { return bit::copy_backward(a, b, c); }); }
extern "C" void h_huge_fill() {
  R r = range(); bool v = v_choose("v", 0, 1);
  Buf s("buf", r.n); Old o(s);
  bit::fill(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit::bit_value(v));
  expect(s, o, r.f, r.l, 0, "exactly the range is filled", [&](int64_t) { return v ? (W)~(W)0 : (W)0; });
}
extern "C" void h_huge_equal() {
  R r = range();
  Buf s("a", r.n), t("b", r.n); Old to(t); int64_t len = r.l - r.f;
  // the second range repeats the first except, perhaps, at one place late in it
  for (int64_t i = 0; i < r.n; i++) { W m = mask(i, r.f, r.l); s.p[i] = (W)((s.p[i] & (W)~m) | (to.at(i * D - r.f + r.d) & m)); }
  int64_t p = r.l - (int64_t)v_choose("at", 1, 2) * (D + 1);
  bool flip = v_sym("flip", 1);
  s.p[p / D] ^= (W)((W)flip << (p % D));
  bool q = bit::equal(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit_at(t.p, r.d / D, r.d % D));
  (void)len;
  v_observe(q);
  v_assert(q == !flip, "a difference late in the range is noticed, and no other");
}
extern "C" void h_huge_find() {
  R r = range(); bool v = v_choose("v", 0, 1);
  Buf s("buf", r.n);
  for (int64_t i = 0; i < r.n; i++) { W m = mask(i, r.f, r.l - 2 * (int64_t)D); s.p[i] = (W)((s.p[i] & (W)~m) | (v ? 0 : m)); }
  Old o(s);
  BIt q = bit::find(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit::bit_value(v));
  int64_t e = r.l;
  for (int64_t b = r.l - 1; b >= r.l - 2 * (int64_t)D; b--) { bool is = (o.w(b / D) >> (b % D)) & 1; e = is == v ? b : e; }
  v_observe(bitpos(q, s));
  v_assert((int64_t)bitpos(q, s) == e, "the first matching bit, late in the range");
}
extern "C" void h_huge_reverse() {
  R r = range();
  Buf s("buf", r.n); Old o(s);
  bit::reverse(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D));
  expect(s, o, r.f, r.l, 0, "exactly the range is reversed", [&](int64_t i) { return revw(o.at(r.f + r.l - (int64_t)D - i * D)); });
}
static int64_t amount(int64_t len) {   // a little, whole words, half, most of the range
  switch (v_choose("k", 0, 4)) { case 0: return 3; case 1: return 2 * D; case 2: return len / 2; case 3: return (len / 3) / D * D + 1; default: return len - D - 2; }
}
extern "C" void h_huge_shift_left() {
  R r = range(); if (r.d) v_end();
  Buf s("buf", r.n); Old o(s); int64_t len = r.l - r.f, k = amount(len);
  BIt q = bit::shift_left(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), k);
  v_assert((int64_t)bitpos(q, s) == r.l - k, "the end of the surviving bits is returned");
  expect(s, o, r.f, r.l - k, r.l, "surviving bits move left", [&](int64_t i) { return o.at(i * D + k); });
}
extern "C" void h_huge_shift_right() {
  R r = range(); if (r.d) v_end();
  Buf s("buf", r.n); Old o(s); int64_t len = r.l - r.f, k = amount(len);
  BIt q = bit::shift_right(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), k);
  v_assert((int64_t)bitpos(q, s) == r.f + k, "the beginning of the surviving bits is returned");
  for (int64_t i = 0; i < o.n; i++) {
    W m = mask(i, r.f + k, r.l), u = mask(i, r.f, r.f + k);
    W e = (W)((o.w(i) & (W)~m) | (o.at(i * D - k) & m));
    if (i < 2 || i > o.n - 3) v_observe(s.p[i] & (W)~u);
    v_assert((W)((s.p[i] ^ e) & (W)~u) == 0, "surviving bits move right");
  }
}
extern "C" void h_huge_rotate() {
  R r = range(); if (r.d) v_end();
  Buf s("buf", r.n); Old o(s); int64_t len = r.l - r.f, k = amount(len), c = r.l - k;
  BIt q = bit::rotate(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, (r.f + k) / D, (r.f + k) % D), bit_at(s.p, r.l / D, r.l % D));
  v_assert((int64_t)bitpos(q, s) == c, "the new position of the first bit is returned");
  expect(s, o, r.f, r.l, 0, "exactly the range is rotated", [&](int64_t i) { W m = mask(i, r.f, c); return (W)((o.at(i * D + k) & m) | (o.at(i * D - (len - k)) & (W)~m)); });
}
extern "C" void h_huge_swap() {
  R r = range();
  Buf s("a", r.n), t("b", r.n); Old so(s), to(t); int64_t len = r.l - r.f;
  BIt q = bit::swap_ranges(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit_at(t.p, r.d / D, r.d % D));
  v_assert((int64_t)bitpos(q, t) == r.d + len, "the end of the second range is returned");
  expect(s, so, r.f, r.l, 0, "the first range holds the second's bits", [&](int64_t i) { return to.at(i * D - r.f + r.d); });
  expect(t, to, r.d, r.d + len, 0, "the second range holds the first's bits", [&](int64_t i) { return so.at(i * D - r.d + r.f); });
}
extern "C" void h_huge_transform() {
  R r = range();
  Buf s("src", r.n), t("dst", r.n); Old so(s), to(t); int64_t len = r.l - r.f;
  BIt q = bit::transform(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit_at(t.p, r.d / D, r.d % D), std::bit_not<W>());
  v_assert((int64_t)bitpos(q, t) == r.d + len, "the end of the destination is returned");
  expect(t, to, r.d, r.d + len, 0, "the destination holds the complement", [&](int64_t i) { return (W)~so.at(i * D - r.d + r.f); });
}
extern "C" void h_huge_transform_and() {
  R r = range();
  Buf s("a", r.n), t("b", r.n), u("dst", r.n); Old so(s), to(t), uo(u); int64_t len = r.l - r.f;
  BIt q = bit::transform(bit_at(s.p, r.f / D, r.f % D), bit_at(s.p, r.l / D, r.l % D), bit_at(t.p, 0, 1), bit_at(u.p, r.d / D, r.d % D), std::bit_and<W>());
  v_assert((int64_t)bitpos(q, u) == r.d + len, "the end of the destination is returned");
  expect(u, uo, r.d, r.d + len, 0, "the destination holds the conjunction", [&](int64_t i) { return (W)(so.at(i * D - r.d + r.f) & to.at(i * D - r.d + 1)); });
}
// ---- bit vectors of that size
using BV = bit::bit_vector<W>;
static void content(const BV& v, const Old& o, int64_t size, const char* what, int64_t p, int64_t gap, int64_t q, W fillw, const Old* in) {
  // bits [0, p) as before, [p, p + gap) = fillw or in's bits from 1 on, from there on the bits from q on
  v_assert((int64_t)v.size() == size, "size");
  v_assert((int64_t)v.capacity() >= size, "capacity");
  for (int64_t i = 0; i * (int64_t)D < size; i++) {
    W a = mask(i, 0, p), b = mask(i, p, p + gap), c = mask(i, p + gap, size);
    W e = (W)((o.w(i) & a) | ((in ? in->at(i * D - p + 1) : fillw) & b) | (o.at(i * D - p - gap + q) & c));
    if (i < 2) v_observe(v.data()[i] & (W)(a | b | c));
    v_assert((W)((v.data()[i] ^ e) & (W)(a | b | c)) == 0, what);
  }
}
extern "C" void h_huge_vector() {
  const int64_t n = (int64_t)v_param("n", 300);
  Buf s("buf", n); Old o(s);
  const unsigned op = (unsigned)v_choose("op", v_param("oplo", 0), v_param("ophi", 6));
  v_shard(op);
  int64_t cut = (int64_t)v_choose("cut", 0, 1) * 3, len = n * D - cut;
  int64_t at = v_choose("at", 0, 1) ? len / 2 + 1 : 2;
  int64_t k = (int64_t)v_choose("count", 0, 1) ? len - 4 : D + 1;
  BV v(bit_at(s.p, 0, 0), bit_at(s.p, len / D, len % D));
  v_assert((int64_t)v.size() == len, "size of a vector made from a range");
  if (op == 0) {
    content(v, o, len, "vector from a range", len, 0, len, 0, nullptr);
    BV u(s.p, s.p + n);
    content(u, o, n * D, "vector from words", n * D, 0, n * D, 0, nullptr);
    BV c(v), m(std::move(u));
    content(c, o, len, "copy", len, 0, len, 0, nullptr);
    content(m, o, n * D, "moved", n * D, 0, n * D, 0, nullptr);
  } else if (op == 1) {
    bool b = v_choose("v", 0, 1);
    auto r = v.insert(v.cbegin() + at, (size_t)k, bit::bit_value(b));
    v_assert(r - v.begin() == at, "position of the inserted bits");
    content(v, o, len + k, "bits are inserted", at, k, at, b ? (W)~(W)0 : (W)0, nullptr);
  } else if (op == 2) {
    Buf t("in", n); Old in(t);
    auto r = v.insert(v.cbegin() + at, bit_at(t.p, 0, 1), bit_at(t.p, (k + 1) / D, (k + 1) % D));
    v_assert(r - v.begin() == at, "position of the inserted bits");
    content(v, o, len + k, "a range is inserted", at, k, at, 0, &in);
  } else if (op == 3) {
    if (k > len - at) k = len - at;
    auto r = v.erase(v.begin() + at, v.begin() + at + k);
    v_assert(r - v.begin() == at, "position after the erased bits");
    content(v, o, len - k, "bits are erased", at, 0, at + k, 0, nullptr);
  } else if (op == 4) {
    bool b = v_choose("v", 0, 1);
    v.resize((size_t)(len + k), bit::bit_value(b));
    content(v, o, len + k, "bits are appended", len, k, len, b ? (W)~(W)0 : (W)0, nullptr);
    v.resize((size_t)at);
    content(v, o, at, "bits are dropped", at, 0, at, 0, nullptr);
  } else if (op == 5) {
    for (int i = 0; i < 5; i++) v.push_back(bit::bit_value(bool(i & 1)));
    W w = 0xa;
    v_assert((int64_t)v.size() == len + 5, "size");
    for (int i = 0; i < 5; i++) v_assert(bool(v[(size_t)(len + i)]) == bool((w >> i) & 1), "appended bits");
    for (int i = 0; i < 5; i++) v.pop_back();
    content(v, o, len, "bits appended and removed", len, 0, len, 0, nullptr);
    auto r = v.insert(v.cbegin() + at, bit::bit1);
    v_assert(r - v.begin() == at, "position of the inserted bit");
    content(v, o, len + 1, "a bit is inserted", at, 1, at, (W)~(W)0, nullptr);
    r = v.erase(v.begin() + at);
    v_assert(r - v.begin() == at, "position after the erased bit");
    content(v, o, len, "the bit is erased", at, 0, at, 0, nullptr);
  } else {
    BV u((size_t)len, bit::bit1);
    v_assert((int64_t)u.size() == len, "size of a vector of ones");
    for (int64_t i = 0; i < n; i++) { W m = mask(i, 0, len); v_assert((u.data()[i] & m) == m, "all ones"); }
    uint64_t j = (uint64_t)(v_choose("j", 0, 3) * (len - 1) / 3);
    v_assert(bool(v[j]) == bool((o.w(j / D) >> (j % D)) & 1) && bool(v.at(j)) == bool(v[j]), "element access");
    v.at(j) = bit::bit_value(!bool((o.w(j / D) >> (j % D)) & 1));
    for (int64_t i = 0; i < n; i++) { W m = mask(i, 0, len), f = i == (int64_t)(j / D) ? (W)((W)1 << (j % D)) : (W)0; v_assert((W)((v.data()[i] ^ o.w(i) ^ f) & m) == 0, "exactly one bit changes"); }
  }
}
