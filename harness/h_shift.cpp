#ifndef WIDE
#define WIDE 576
#endif
#include "vh.hpp"
extern "C" void h_shift_left() {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM)), mid = anypos("m", N, f.w, v_param("mm", SYM), l.w);
  v_assume(f.bit() < l.bit());
  v_assume(f.bit() < mid.bit() && mid.bit() < l.bit());
  v_shard(f.w * 25 + l.w * 5 + mid.w);
  uint64_t n = mid.bit() - f.bit(), len = l.bit() - f.bit();
  BIt r = bit::shift_left(f.it(s.p), l.it(s.p), (int64_t)n);
  wide m = ones(len) << f.bit(), k = ones(len - n) << f.bit();
  wide got = s.val();
  s.expect((((v >> n) & k) | (v & ~m)) | (got & (m & ~k)), "surviving bits move left by n; nothing outside the range changes");
  v_assert(bitpos(r, s) == f.bit() + len - n, "the end of the surviving bits is returned");
  v_cover(len - n > D, "multi-word");
}
extern "C" void h_shift_right() {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM)), mid = anypos("m", N, f.w, v_param("mm", SYM), l.w);
  v_assume(f.bit() < mid.bit() && mid.bit() < l.bit());
  v_shard(f.w * 25 + l.w * 5 + mid.w);
  uint64_t n = l.bit() - mid.bit(), len = l.bit() - f.bit();
  if (v_param("split", 0)) v_split(mid.bit() - f.bit() < l.o);
  BIt r = bit::shift_right(f.it(s.p), l.it(s.p), (int64_t)n);
  wide m = ones(len) << f.bit(), k = m & ~ones(f.bit() + n);
  wide got = s.val();
  s.expect(((((v << l.bit()) >> mid.bit()) & k) | (v & ~m)) | (got & (m & ~k)), "surviving bits move right by n; nothing outside the range changes");
  v_assert(bitpos(r, s) == f.bit() + n, "the beginning of the surviving bits is returned");
  v_cover(len - n > D, "multi-word");
}
// shift counts outside (0, length): any 64-bit count that the caller may form
template <class F> static void edge(bool left, F op) {
  const uint64_t N = v_param("n", 2);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N), l = anypos("l", N, f.w);
  v_assume(f.bit() <= l.bit());
  int64_t n = (int64_t)v_sym("n", 64);
  int64_t lim = (int64_t)1 << 40;
  v_assume(n <= 0 ? n > -lim : n < lim);
  v_assume(n <= 0 || (uint64_t)n >= l.bit() - f.bit());
  BIt r = op(f.it(s.p), l.it(s.p), n);
  wide m = ones(l.bit() - f.bit()) << f.bit();
  wide got = s.val();
  if (n <= 0) s.expect(v, "a count of zero or less changes nothing");
  else s.expect((v & ~m) | (got & m), "nothing outside the range changes");
  bool none = n <= 0;
  v_assert(bitpos(r, s) == ((left == none) ? l.bit() : f.bit()), "the bound of the surviving bits is returned");
  v_cover(n > (int64_t)(N * D), "huge count");
  v_cover(n < 0, "negative count");
}
extern "C" void h_shift_left_edge() { edge(true, [](BIt a, BIt b, int64_t n) { return bit::shift_left(a, b, n); }); }
extern "C" void h_shift_right_edge() { edge(false, [](BIt a, BIt b, int64_t n) { return bit::shift_right(a, b, n); }); }
