#include "vh.hpp"
extern "C" void h_fill() {
  const uint64_t N = v_param("n", 4);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM));
  bool bv = v_sym("bv", 1);
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 5 + l.w);
  bit::fill(f.it(s.p), l.it(s.p), bit::bit_value(bv));
  wide m = ones(l.bit() - f.bit()) << f.bit();
  s.expect(bv ? v | m : v & ~m, "exactly the range holds the fill value");
  v_cover(l.bit() - f.bit() > 2 * D && bv, "long fill with ones");
  v_cover(l.bit() - f.bit() == 0, "empty");
}
