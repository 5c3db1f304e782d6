// get_word / write_word / _padded_read / is_within / distance / word shifts
#include "vh.hpp"
using bit::get_word; using bit::write_word; using bit::is_within; using bit::distance; using bit::word_shift_left; using bit::word_shift_right;
static wide lowbits(wide x, uint64_t n) { return x & ones(n); }
// T at most as wide as the buffer's words
template <class T> static void getw() {
  constexpr unsigned DT = sizeof(T) * 8;
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N);
  uint64_t len = v_sym("len", 8);
  v_assume(len >= 1 && len <= DT && len <= D && f.bit() + len <= N * D);
  v_shard(f.w);
  T r = get_word<T>(f.it(s.p), len);
  v_observe(r & (T)ones(len));
  v_assert((T)(r & (T)ones(len)) == (T)lowbits(v >> f.bit(), len), "the low len bits are the next len bits of the sequence");
  s.expect(v, "operand unchanged");
  v_cover(f.o + len > D, "crosses a word boundary");
  v_cover(len == D, "whole word");
}
extern "C" void h_get_word() { getw<W>(); }
extern "C" void h_get_word_narrow() { getw<uint8_t>(); }
extern "C" void h_get_word_wide() { getw<uint64_t>(); }
// T narrower than, as wide as or wider than the buffer's words
template <class T> static void putw() {
  constexpr unsigned DT = sizeof(T) * 8;
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N);
  T x = (T)v_sym("x", DT);
  uint64_t len = v_sym("len", 8);
  v_assume(len >= 1 && len <= DT && f.bit() + len <= N * D);
  v_shard(f.w);
  write_word<T>(x, f.it(s.p), (T)len);
  s.expect((v & ~(ones(len) << f.bit())) | ((wide)(T)(x & (T)ones(len)) << f.bit()), "exactly len bits are written");
  v_cover(f.o + len > D, "crosses a word boundary");
  v_cover(len == DT && f.o == 0, "aligned whole word");
}
extern "C" void h_write_word() { putw<W>(); }
extern "C" void h_write_word_narrow() { putw<uint8_t>(); }
extern "C" void h_write_word_wide() { putw<uint64_t>(); }
extern "C" void h_padded_read() {
  const uint64_t N = v_param("n", 2);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N - 1), l = anypos("l", N);
  v_assume(f.w < N - 1 ? true : false);
  v_assume(f.bit() < l.bit());
  bool pad = v_sym("pad", 1);
  W r = bit::_padded_read(f.it(s.p), l.it(s.p), bit::bit_value(pad));
  v_observe(r);
  uint64_t end = l.w == f.w ? l.o : D;
  W in = (W)((W)ones(end) & ~(W)ones(f.o));
  v_assert((W)(r & in) == (W)(s.p[f.w] & in), "bits of the range are read");
  // per the documentation, bits outside [first, last) within the first word are padded
  v_assert((W)(r & ~in) == (pad ? (W)~in : (W)0), "the other bits are padding");
  s.expect(v, "operand unchanged");
}
template <int... K> struct seq {};
template <int K> static void within1(BIt a, BIt b, uint64_t d) { bool r = is_within<K>(a, b); v_observe(r); v_assert(r == (d <= (uint64_t)K), "is_within<N> tells whether the distance is at most N"); }
extern "C" void h_distance() {
  const uint64_t N = v_param("n", 4);
  W* p = new W[N];
  P a = anypos("a", N), b = anypos("b", N, a.w);
  v_assume(a.bit() <= b.bit());
  v_shard(a.w * 5 + b.w);
  BIt x = a.it(p), y = b.it(p);
  uint64_t d = b.bit() - a.bit();
  v_assert((uint64_t)distance(x, y) == d, "bit::distance counts bits");
  v_assert((uint64_t)std::distance(x, y) == d, "std::distance counts bits");
  v_assert((uint64_t)(y - x) == d && (uint64_t)(x - y) == -d, "iterator difference counts bits");
  v_assert(::bit::next(x, d) == y, "next by the distance reaches the end");
  BIt z = x; ::bit::advance(z, d);
  v_assert(z == y, "advance by the distance reaches the end");
  within1<1>(x, y, d); within1<D - 1>(x, y, d); within1<D>(x, y, d); within1<D + 1>(x, y, d); within1<2 * D>(x, y, d); within1<2 * D + 3>(x, y, d); within1<3 * D>(x, y, d);
  uint64_t n = v_sym("n", 10);
  bool w = is_within(x, y, (std::ptrdiff_t)n);
  v_assert(w == (d <= n), "is_within with a run-time bound");
  v_assert(bit::_is_aligned_lsb(x) == (a.o == 0) && bit::_in_same_word(x, y) == (a.w == b.w), "alignment and same-word tests");
  v_cover(d > 2 * D, "far apart");
  delete[] p;
}
extern "C" void h_word_shift() {
  const uint64_t N = v_param("n", 6);
  Buf s("buf", N);
  std::vector<W> v(s.p, s.p + N);
  uint64_t f = v_choose("f", 0, N), l = v_choose("l", f, N);
  int64_t n = (int64_t)v_choose("n", 0, N + 2) - 1;
  bool left = v_choose("left", 0, 1);
  v_shard(f * 8 + l);
  VIt b(s.p);
  VIt r = left ? word_shift_left(b + f, b + l, n) : word_shift_right(b + f, b + l, n);
  uint64_t len = l - f;
  bool none = n <= 0, all = !none && (uint64_t)n >= len;
  uint64_t e = none ? (left ? l : f) : all ? (left ? f : l) : left ? l - n : f + n;
  v_assert((uint64_t)(r - b) == e, "the bound of the surviving words is returned");
  for (uint64_t i = 0; i < N; i++) {
    bool in = i >= f && i < l;
    if (!in || none) v_assert(s.p[i] == v[i], "words outside the range keep their value");
    else if (!all) {
      if (left && i + n < l) v_assert(s.p[i] == v[i + n], "words move left");
      if (!left && i >= f + n) v_assert(s.p[i] == v[i - n], "words move right");
    }
  }
}

// positions anywhere in the address space: distances beyond 2^32 bits
extern "C" void h_distance_far() {
  Far f = anyfar(); BIt x = f.x, y = f.y; uint64_t d = f.d;
  v_assert((uint64_t)distance(x, y) == d, "bit::distance counts bits");
  v_assert((uint64_t)std::distance(x, y) == d, "std::distance counts bits");
  v_assert((uint64_t)(y - x) == d, "iterator difference counts bits");
  int64_t n = (int64_t)v_sym("n", 64), lim = (int64_t)1 << 55;
  v_assume(n > -lim && n < lim);
  v_assert(is_within(x, y, n) == ((int64_t)d <= n), "is_within with a run-time bound");
  v_assert(is_within<D + 1>(x, y) == (d <= D + 1), "is_within<N>");
  v_cover(d > (1ull << 45), "far apart");
}
extern "C" void h_next_far() {
  Far f = anyfar(); uint64_t d = f.d;
  v_assert(::bit::next(f.x, d) == f.y, "next by the distance reaches the end");
  BIt z = f.x; ::bit::advance(z, d);
  v_assert(z == f.y, "advance by the distance reaches the end");
  BIt u = f.y; ::bit::advance(u, -(int64_t)d);
  v_assert(u == f.x, "advance by the negated distance reaches the beginning");
}
