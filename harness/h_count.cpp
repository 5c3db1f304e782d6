#include "vh.hpp"
// number of one bits of the range [f, l) of the words
static uint64_t ones_in(const Buf& s, P f, P l) {
  uint64_t e = 0;
  for (uint64_t i = f.w; i <= l.w && i < s.n; i++) {
    uint64_t lo = i == f.w ? f.o : 0, hi = i == l.w ? l.o : D;
    if (lo >= hi) continue;
    e += __builtin_popcountll(((uint64_t)s.p[i] >> lo) & (hi - lo == 64 ? ~0ull : (1ull << (hi - lo)) - 1));
  }
  return e;
}
extern "C" void h_count() {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  wide v = s.val();
  P f = choosepos("f", 0, N * D), l = choosepos("l", f.bit(), N * D);
  v_shard(f.bit() * 64 + l.bit());
  bool bv = v_choose("bv", 0, 1);
  auto r = bit::count(f.sit(s.p), l.sit(s.p), bit::bit_value(bv));
  uint64_t e = ones_in(s, f, l);
  if (!bv) e = l.bit() - f.bit() - e;
  v_observe(r);
  v_assert((uint64_t)r == e, "count is the number of bits of the range with the value");
  s.expect(v, "operand unchanged");
  v_cover(f.bit() == l.bit() && f.o == 0, "empty range");
  v_cover(l.bit() - f.bit() > D, "multi-word");
}
// long ranges: the vectorised kernels of libpopcnt
extern "C" void h_count_long() {
  const uint64_t N = v_param("n", 3);
  Buf s("buf", N);
  P f = at(v_choose("f", 0, v_param("fmax", 1))), l = at(N * D - v_choose("cut", 0, v_param("lmax", 1)));
  v_shard(f.bit() * 64 + l.bit());
  auto r = bit::count(f.sit(s.p), l.sit(s.p), bit::bit1);
  v_observe(r);
  v_assert((uint64_t)r == ones_in(s, f, l), "count over a long range");
}
// lemmas used as summaries by the harnesses above
extern "C" void h_popcount64() {
  uint64_t x = v_sym("x", 64);
  uint64_t r = popcount64(x);
  v_observe(r);
  v_assert(r == (uint64_t)__builtin_popcountll(x), "popcount64 counts the one bits");
}
__attribute__((target("avx2"))) static void pc256(const uint64_t* x, uint64_t* r) {
  __m256i v = popcnt256(_mm256_loadu_si256((const __m256i*)x));
  _mm256_storeu_si256((__m256i*)r, v);
}
__attribute__((target("avx512bw"))) static void pc512(const uint64_t* x, uint64_t* r) {
  __m512i v = popcnt512(_mm512_loadu_si512((const void*)x));
  _mm512_storeu_si512((void*)r, v);
}
static void lanes(unsigned n) {
  uint64_t x[8], r[8];
  for (unsigned i = 0; i < n; i++) x[i] = v_sym("x", 64);
#ifdef VH_NATIVE
  if (!(n == 4 ? __builtin_cpu_supports("avx2") : __builtin_cpu_supports("avx512bw"))) for (unsigned i = 0; i < n; i++) r[i] = __builtin_popcountll(x[i]);
  else
#endif
  n == 4 ? pc256(x, r) : pc512(x, r);
  for (unsigned i = 0; i < n; i++) { v_observe(r[i]); v_assert(r[i] == (uint64_t)__builtin_popcountll(x[i]), "each 64-bit lane holds the number of its one bits"); }
}
extern "C" void h_popcnt256() { lanes(4); }
extern "C" void h_popcnt512() { lanes(8); }
