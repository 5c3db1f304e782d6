#include "vh.hpp"
extern "C" void h_swap_ranges() {
  const uint64_t NA = v_param("na", 3), NB = v_param("nb", 3);
  Buf a("a", NA), b("b", NB);
  wide av = a.val(), bv = b.val();
  P f = anypos("f", NA, 0, v_param("fm", SYM)), l = anypos("l", NA, f.w, v_param("lm", SYM)), o = anypos("o", NB, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 25 + l.w * 5 + o.w);
  uint64_t len = l.bit() - f.bit();
  v_assume(o.bit() + len <= NB * D);
  BIt r = bit::swap_ranges(f.sit(a.p), l.sit(a.p), o.it(b.p));
  wide m = ones(len), x = (av >> f.bit()) & m, y = (bv >> o.bit()) & m;
  a.expect((av & ~(m << f.bit())) | (y << f.bit()), "the first range holds the second's bits, nothing else changes");
  b.expect((bv & ~(m << o.bit())) | (x << o.bit()), "the second range holds the first's bits, nothing else changes");
  v_assert(bitpos(r, b) == o.bit() + len, "the end of the second range is returned");
  v_cover(len > D, "multi-word");
}
// disjoint ranges of one buffer (they may share a word)
extern "C" void h_swap_same() {
  const uint64_t N = v_param("n", 3);
  Buf a("a", N);
  wide v = a.val();
  P f = anypos("f", N, 0, v_param("fm", SYM)), l = anypos("l", N, f.w, v_param("lm", SYM)), o = anypos("o", N, 0, v_param("om", SYM));
  v_assume(f.bit() <= l.bit());
  v_shard(f.w * 25 + l.w * 5 + o.w);
  uint64_t len = l.bit() - f.bit();
  v_assume(o.bit() + len <= N * D);
  v_assume(l.bit() <= o.bit() || o.bit() + len <= f.bit());
  BIt r = bit::swap_ranges(f.it(a.p), l.it(a.p), o.it(a.p));
  wide m = ones(len), x = (v >> f.bit()) & m, y = (v >> o.bit()) & m;
  a.expect((v & ~(m << f.bit()) & ~(m << o.bit())) | (y << f.bit()) | (x << o.bit()), "two disjoint ranges of one buffer are exchanged");
  v_assert(bitpos(r, a) == o.bit() + len, "the end of the second range is returned");
  v_cover(len > 1 && l.bit() == o.bit() && o.o != 0, "adjacent ranges sharing a word");
}

// words of different widths
template <class U> static void widths() {
  constexpr unsigned DU = sizeof(U) * 8;
  const uint64_t NA = 2, NB = 2;
  Buf a("a", NA);
  U* b = new U[NB]; for (uint64_t i = 0; i < NB; i++) b[i] = (U)v_sym("b", DU);
  wide av = a.val(), bv = 0;
  for (uint64_t i = 0; i < NB; i++) bv |= (wide)b[i] << (i * DU);
  // bit by bit, so few bits: across a word boundary of either, both or neither
  uint64_t p0 = D - 4 + v_choose("f", 0, 4), at = DU - 4 + v_choose("at", 0, 4), len = v_choose("len", 0, v_param("lenmax", 6));
  struct { uint64_t b; uint64_t bit() const { return b; } BIt it(W* p) const { return bit_at(p, b / D, b % D); } } f{p0}, l{p0 + len};
  v_shard(p0 * 5 + at);
  using UI = bit::bit_iterator<U*>;
  UI r = bit::swap_ranges(f.it(a.p), l.it(a.p), UI(b + at / DU, at % DU));
  wide m = ones(len), x = (av >> f.bit()) & m, y = (bv >> at) & m, now = 0;
  a.expect((av & ~(m << f.bit())) | (y << f.bit()), "the first range holds the second's bits, nothing else changes");
  for (uint64_t i = 0; i < NB; i++) { v_observe(b[i]); now |= (wide)b[i] << (i * DU); }
  v_assert(now == ((bv & ~(m << at)) | (x << at)), "the second range holds the first's bits, nothing else changes");
  v_assert((uint64_t)((r.base() - b) * DU + r.position()) == at + len, "the end of the second range is returned");
  delete[] b;
}
extern "C" void h_swap_widths() { if (D == 8) widths<uint32_t>(); else widths<uint8_t>(); }
