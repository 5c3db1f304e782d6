#ifndef WIDE
#define WIDE 576
#endif
#include "vh.hpp"
// copy / move / copy_backward between disjoint buffers of exactly NS and ND words
template <class F> static void fwd(F op) {
  const uint64_t NS = v_param("ns", 3), ND = v_param("nd", 3);
  Buf s("src", NS), d("dst", ND);
  wide sv = s.val(), dv = d.val();
  P f = anypos("f", NS, 0, v_param("fm", SYM)), l = anypos("l", NS, f.w, v_param("lm", SYM)), o = anypos("o", ND, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 25 + l.w * 5 + o.w);
  uint64_t len = l.bit() - f.bit();
  v_assume(o.bit() + len <= ND * D);
  BIt r = op(f.sit(s.p), l.sit(s.p), o.it(d.p));
  wide m = ones(len);
  wide e = (dv & ~(m << o.bit())) | (((sv >> f.bit()) & m) << o.bit());
  s.expect(sv, "the source is unchanged");
  d.expect(e, "exactly the destination range is written, with the source bits in order");
  v_assert(bitpos(r, d) == o.bit() + len, "the end of the destination range is returned");
  v_cover(len > D, "multi-word");
  v_cover(len > 0 && len < D, "sub-word");
  v_cover(f.bit() == l.bit(), "empty");
}
extern "C" void h_copy() { fwd([](SIt a, SIt b, BIt c) { return bit::copy(a, b, c); }); }
extern "C" void h_move() { fwd([](SIt a, SIt b, BIt c) { return bit::move(a, b, c); }); }
extern "C" void h_copy_backward() {
  const uint64_t NS = v_param("ns", 3), ND = v_param("nd", 3);
  Buf s("src", NS), d("dst", ND);
  wide sv = s.val(), dv = d.val();
  P f = anypos("f", NS, 0, v_param("fm", SYM)), l = anypos("l", NS, f.w, v_param("lm", SYM)), o = anypos("o", ND, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 25 + l.w * 5 + o.w);
  uint64_t len = l.bit() - f.bit();
  v_assume(o.bit() >= len);
  if (v_param("split", 0)) v_split(o.o < len);
  BIt r = bit::copy_backward(f.sit(s.p), l.sit(s.p), o.it(d.p));
  uint64_t b = o.bit() - len;
  // stated from the far end: bit o-1-k of the destination is bit l-1-k of the source
  wide m = ones(o.bit()) & ~ones(b);
  wide e = (dv & ~m) | (((sv << o.bit()) >> l.bit()) & m);
  s.expect(sv, "the source is unchanged");
  d.expect(e, "exactly the destination range is written, with the source bits in order");
  v_assert(bitpos(r, d) == b, "the beginning of the destination range is returned");
  v_cover(len > D, "multi-word");
  v_cover(f.bit() == l.bit(), "empty");
}
// overlapping ranges inside one buffer
template <class F> static void overlap(bool backward, F op) {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM)), o = anypos("o", N, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 25 + l.w * 5 + o.w);
  uint64_t len = l.bit() - f.bit();
  uint64_t b;
  if (!backward) { v_assume(o.bit() <= f.bit()); b = o.bit(); }
  else { v_assume(o.bit() >= l.bit()); b = o.bit() - len; if (v_param("split", 0)) v_split(o.o < len); }
  BIt r = op(f.sit(s.p), l.sit(s.p), o.it(s.p));
  wide m = backward ? ones(o.bit()) & ~ones(b) : ones(len) << b;
  wide x = backward ? (v << o.bit()) >> l.bit() : (v >> f.bit()) << b;
  s.expect((v & ~m) | (x & m), "overlapping ranges: the destination holds the original source bits");
  v_assert(bitpos(r, s) == (backward ? b : b + len), "the far end of the destination range is returned");
  v_cover(len > 1 && b != f.bit() && b < f.bit() + len && f.bit() < b + len, "really overlapping");
  v_cover(len > D && b != f.bit() && b < f.bit() + len && f.bit() < b + len, "really overlapping, multi-word");
}
extern "C" void h_copy_overlap() { overlap(false, [](SIt a, SIt b, BIt c) { return bit::copy(a, b, c); }); }
extern "C" void h_move_overlap() { overlap(false, [](SIt a, SIt b, BIt c) { return bit::move(a, b, c); }); }
extern "C" void h_copy_backward_overlap() { overlap(true, [](SIt a, SIt b, BIt c) { return bit::copy_backward(a, b, c); }); }
