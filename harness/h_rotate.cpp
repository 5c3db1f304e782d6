#ifndef WIDE
#define WIDE 576
#endif
#include "vh.hpp"
extern "C" void h_rotate() {
  const uint64_t N = v_param("n", 3);
  const bool full = v_param("full", 0);
  Buf s("buf", N);
  wide v = s.val();
  P f, mid, l;
  if (full) { f = choosepos("f", 0, N * D); mid = choosepos("m", f.bit(), N * D); l = choosepos("l", mid.bit(), N * D); }
  else { f = anypos("f", N, 0, v_param("fm", SYM)); l = anypos("l", N, f.w, v_param("lm", SYM)); mid = anypos("m", N, f.w, v_param("mm", SYM), l.w); }
  v_assume(f.bit() <= mid.bit() && mid.bit() <= l.bit());
  v_shard(full ? (f.bit() * 64 + l.bit()) * 64 + mid.bit() : f.w * 25 + l.w * 5 + mid.w);
  uint64_t k = mid.bit() - f.bit(), len = l.bit() - f.bit();
  BIt r = bit::rotate(f.it(s.p), mid.it(s.p), l.it(s.p));
  wide m = ones(len);
  wide x = (v >> f.bit()) & m;
  wide e = ((x >> k) | (x << (len - k))) & m;
  s.expect((v & ~(m << f.bit())) | (e << f.bit()), "exactly the range is rotated");
  v_assert(bitpos(r, s) == f.bit() + (len - k), "the new position of the first bit is returned");
  v_cover(len > 2 * D && k > D && len - k > D, "both parts longer than a word");
  v_cover(k == 0 && len > 0, "middle at the beginning");
  v_cover(k == len && len > 0, "middle at the end");
}
