#ifndef WIDE
#define WIDE 576
#endif
#include "vh.hpp"
static wide rev(wide x) { wide r = 0; for (unsigned i = 0; i < WIDE; i++) r |= ((x >> i) & 1) << (WIDE - 1 - i); return r; }
extern "C" void h_reverse() {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, 0, v_param("lm", SYM));
  v_assume(f.bit() < l.bit());
  v_shard(f.w * 5 + l.w);
  bit::reverse(f.it(s.p), l.it(s.p));
  // bit i of the range becomes bit f+l-1-i
  uint64_t len = l.bit() - f.bit();
  wide m = ones(len) << f.bit();
  wide y = rev(v);                        // y[WIDE-1-i] = v[i]; wanted e[f+l-1-i] = v[i]
  wide z = y >> (WIDE - f.bit() - l.bit());
  s.expect((v & ~m) | (z & m), "exactly the range is reversed");
  v_cover(len > D, "multi-word");
}
