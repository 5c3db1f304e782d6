#include "vh.hpp"
extern "C" void h_find() {
  const uint64_t N = v_param("n", 3);
  const bool full = v_param("full", 0);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N, 0, v_param("fm", full)), l = anypos("l", N, 0, v_param("lm", full));
  v_assume(f.bit() <= l.bit());
  bool bv = v_sym("bv", 1);
  v_shard(full ? f.bit() * 64 + l.bit() : f.w * 5 + l.w);
  SIt r = bit::find(f.sit(s.p), l.sit(s.p), bit::bit_value(bv));
  uint64_t rb = bitpos(r, s);
  v_observe(rb);
  wide x = bv ? v : ~v;
  v_assert(rb >= f.bit() && rb <= l.bit(), "the result lies in the range");
  v_assert(((x & (ones(rb) & ~ones(f.bit()))) == 0), "no earlier bit matches");
  v_assert(rb == l.bit() || ((x >> rb) & 1) == 1, "the result is a match or the end");
  s.expect(v, "operand unchanged");
  v_cover(rb == l.bit() && f.bit() + D < l.bit(), "not found");
  v_cover(rb != l.bit() && f.bit() + D < rb, "found after a word");
}
