#include "vh.hpp"
template <class F> static void unary(bool inplace, int inv, F op) {
  const uint64_t N = v_param("n", 3);
  Buf s("src", N), d2("dst", N);
  Buf& d = inplace ? s : d2;
  wide sv = s.val(), dv = d.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM)), o = inplace ? f : anypos("o", N, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 25 + l.w * 5 + o.w);
  uint64_t len = l.bit() - f.bit();
  v_assume(o.bit() + len <= N * D);
  BIt r = bit::transform(f.it(s.p), l.it(s.p), o.it(d.p), op);
  wide m = ones(len);
  wide x = inv ? ~sv : sv;
  d.expect((dv & ~(m << o.bit())) | (((x >> f.bit()) & m) << o.bit()), "exactly the destination range holds the operation's results");
  if (!inplace) s.expect(sv, "the source is unchanged");
  v_assert(bitpos(r, d) == o.bit() + len, "the end of the destination range is returned");
  v_cover(len > D, "multi-word");
}
extern "C" void h_transform_not() { unary(false, 1, std::bit_not<W>()); }
extern "C" void h_transform_not_inplace() { unary(true, 1, std::bit_not<W>()); }
extern "C" void h_transform_id_lambda() { unary(false, 0, [](W w) -> W { return w; }); }
template <class F> static void binary(int which, bool inplace, F op) {
  const uint64_t N = v_param("n", 2);
  Buf a("a", N), b("b", N), d2("dst", N);
  Buf& d = inplace ? a : d2;
  wide av = a.val(), bv = b.val(), dv = d.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM)), g = anypos("g", N, 0, v_param("gm", SYM)), o = inplace ? f : anypos("o", N, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  uint64_t len = l.bit() - f.bit();
  v_assume(g.bit() + len <= N * D);
  v_assume(o.bit() + len <= N * D);
  v_shard(((f.w * 5 + l.w) * 5 + o.w) * 5 + g.w);
  BIt r = bit::transform(f.it(a.p), l.it(a.p), g.it(b.p), o.it(d.p), op);
  wide m = ones(len), x = av >> f.bit(), y = bv >> g.bit();
  wide z = which == 0 ? (x & y) : which == 1 ? (x | y) : (x ^ y);
  d.expect((dv & ~(m << o.bit())) | ((z & m) << o.bit()), "exactly the destination range holds the operation's results");
  if (!inplace) a.expect(av, "operands unchanged");
  b.expect(bv, "operands unchanged");
  v_assert(bitpos(r, d) == o.bit() + len, "the end of the destination range is returned");
  v_cover(len > D, "multi-word");
}
extern "C" void h_transform_and() { binary(0, false, std::bit_and<W>()); }
extern "C" void h_transform_or() { binary(1, false, std::bit_or<W>()); }
extern "C" void h_transform_xor() { binary(2, false, std::bit_xor<W>()); }
extern "C" void h_transform_xor_inplace() { binary(2, true, std::bit_xor<W>()); }
