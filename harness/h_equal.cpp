#include "vh.hpp"
extern "C" void h_equal() {
  const uint64_t NS = v_param("ns", 2), ND = v_param("nd", 2);
  const bool full = v_param("full", 0);
  Buf s("src", NS), d("dst", ND);
  wide sv = s.val(), dv = d.val();
  P f = anypos("f", NS, 0, v_param("fm", full)), l = anypos("l", NS, 0, v_param("lm", full)), o = anypos("o", ND, 0, v_param("om", full));
  v_assume(f.bit() <= l.bit());
  uint64_t len = l.bit() - f.bit();
  v_shard(full ? (f.bit() * 64 + l.bit()) * 64 + o.bit() : f.w * 25 + l.w * 5 + o.w);
  v_assume(o.bit() + len <= ND * D);
  bool r = bit::equal(f.sit(s.p), l.sit(s.p), o.it(d.p));
  wide m = ones(len) << o.bit(), x = (sv >> f.bit()) << o.bit();
  v_observe(r);
  if (r) {
    for (uint64_t i = 0; i < ND; i++) v_assert(((W)(x >> (i * D)) & (W)(m >> (i * D))) == (d.p[i] & (W)(m >> (i * D))), "equal is true only when every pair of bits agrees");
  } else {
    bool same = true;
    for (uint64_t i = 0; i < ND; i++) same &= ((W)(x >> (i * D)) & (W)(m >> (i * D))) == (d.p[i] & (W)(m >> (i * D)));
    v_assert(!same, "equal is false only when some pair of bits differs");
  }
  s.expect(sv, "operands unchanged");
  d.expect(dv, "operands unchanged");
  v_cover(r && len > D, "equal long ranges");
  v_cover(!r && len > D, "different long ranges");
}
