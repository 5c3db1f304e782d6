// word-level primitives (bit_details.hpp), intrinsic and generic variants
#include <immintrin.h>
#include "vh.hpp"
using namespace bit;
static const W FULLW = (W)~(W)0;
static W low(uint64_t n) { return n >= D ? FULLW : (W)(((W)1 << n) - 1); }
static unsigned pc(W x) { unsigned r = 0; for (unsigned i = 0; i < D; i++) r += (x >> i) & 1; return r; }
extern "C" void h_popcnt() {
  W x = (W)v_sym("x", D);
  W a = _popcnt<W>(x);
  v_observe(a);
  v_assert(a == (W)__builtin_popcountll(x), "the number of one bits");
}
// the loop variant: one word per number of leading zeros
extern "C" void h_popcnt_generic() {
  W x = (W)v_sym("x", D);
  uint64_t top = v_choose("top", 0, D);
  v_shard(top);
  v_assume((x & ~low(top)) == 0);
  v_assume(top == 0 || ((x >> (top ? top - 1 : 0)) & 1));
  W a = _popcnt(x, std::ignore);
  v_observe(a);
  v_assert(a == (W)__builtin_popcountll(x), "the number of one bits (generic)");
}
extern "C" void h_lzcnt() {
  W x = (W)v_sym("x", D);
  uint64_t k = v_choose("k", 0, D);
  v_assume(k == D ? x == 0 : (x >> (D - 1 - (k == D ? 0 : k))) == 1);
  W a = _lzcnt<W>(x), b = _lzcnt(x, std::ignore);
  v_observe(a); v_observe(b);
  v_assert(a == k, "the number of leading zeros");
  v_assert(b == k, "the number of leading zeros (generic)");
}
extern "C" void h_tzcnt() {
  W x = (W)v_sym("x", D);
  uint64_t k = v_choose("k", 0, D);
  v_assume(k == D ? x == 0 : (W)(x << (D - 1 - (k == D ? 0 : k))) == (W)((W)1 << (D - 1)));
  W a = _tzcnt<W>(x), b = _tzcnt(x, std::ignore);
  v_observe(a); v_observe(b);
  v_assert(a == k, "the number of trailing zeros");
  v_assert(b == k, "the number of trailing zeros (generic)");
}
extern "C" void h_bitswap() {
  W x = (W)v_sym("x", D);
  W r = _bitswap<W>(x), e = 0;
  for (unsigned i = 0; i < D; i++) e |= (W)((W)((x >> i) & 1) << (D - 1 - i));
  v_observe(r);
  v_assert(r == e, "bit i becomes bit digits-1-i");
  v_assert(_bitswap<W>(r) == x, "reversing twice restores the word");
}
extern "C" void h_byteswap() {
  W x = (W)v_sym("x", D);
  W e = 0;
  for (unsigned i = 0; i < sizeof(W); i++) e |= (W)((W)((x >> (8 * i)) & 0xff) << (D - 8 - 8 * i));
  W a = _byteswap<W>(x), b = _byteswap(x, std::ignore);
  v_observe(a); v_observe(b);
  v_assert(a == e, "bytes in reverse order");
  v_assert(b == e, "bytes in reverse order (generic)");
}
extern "C" void h_bextr() {
  W x = (W)v_sym("x", D), start = (W)v_sym("start", 8), len = (W)v_sym("len", 8);
  W e = start < D ? (W)(x >> (start < D ? start : 0)) & low(len) : 0;
  W b = _bextr(x, start, len, std::ignore);
  v_observe(b);
  v_assert(b == e, "the field [start, start+len) (generic)");
  W a = _bextr<W>(x, start, len);
  v_observe(a);
  v_assert(a == e, "the field [start, start+len)");
  v_cover(start >= D, "start past the word");
  v_cover(len >= D && start < D, "length past the word");
}
#if defined(__BMI2__)
extern "C" void h_pdep_bmi() {
  W x = (W)v_sym("x", D), m = (W)v_sym("m", D);
  W a = _pdep<W>(x, m), b = _pext<W>(x, m);
  v_observe(a); v_observe(b);
  W e = 0, g = 0; unsigned k = 0;
  for (unsigned i = 0; i < D; i++) if ((m >> i) & 1) { e |= (W)((W)((x >> k) & 1) << i); g |= (W)((W)((x >> i) & 1) << k); k++; }
  v_assert(a == e, "low bits deposited at the mask's positions");
  v_assert(b == g, "the mask's bits packed at the low end");
}
#endif
// every mask for small words; for wide words masks of few free bits
extern "C" void h_pdep_pext() {
  W x = (W)v_sym("x", D);
  uint64_t nb = v_param("free", 8), at = D > nb ? v_param("shift", 0) : 0;
  W m = (W)(v_choose("m", 0, (1ull << (nb < D ? nb : D)) - 1) << at);
  if (v_param("stretch", 0)) { W t = 0; for (unsigned i = 0; i < D; i++) t |= (W)((W)((m >> (i * nb / D)) & 1) << i); m = t; }
  v_shard(m);
  W a = _pdep(x, m, std::ignore), b = _pext(x, m, std::ignore), a2 = _pdep<W>(x, m), b2 = _pext<W>(x, m);
  v_observe(a); v_observe(b);
  W e = 0, g = 0; unsigned k = 0;
  for (unsigned i = 0; i < D; i++) if ((m >> i) & 1) { e |= (W)((W)((x >> k) & 1) << i); g |= (W)((W)((x >> i) & 1) << k); k++; }
  v_assert(a == e && a2 == e, "low bits deposited at the mask's positions");
  v_assert(b == g && b2 == g, "the mask's bits packed at the low end");
}
extern "C" void h_bitblend() {
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), m = (W)v_sym("m", D);
  W start = (W)v_sym("start", 8), len = (W)v_sym("len", 8);
  W r = _bitblend<W>(a, b, m);
  v_observe(r);
  v_assert(r == (W)((a & ~m) | (b & m)), "bits of the second operand where the mask is set");
  v_assume(start <= D && len <= D);
  W s = _bitblend<W>(a, b, start, len), f = start < D ? (W)(low(len) << (start < D ? start : 0)) : 0;
  v_observe(s);
  v_assert(s == (W)((a & ~f) | (b & f)), "len bits starting at start come from the second operand");
  v_cover(start == D, "empty at the end"); v_cover(len == D && start == 0, "whole word");
}
extern "C" void h_bitexch() {
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), m = (W)v_sym("m", D);
  W x = a, y = b;
  _bitexch<W>(x, y, m);
  v_observe(x); v_observe(y);
  v_assert(x == (W)((a & ~m) | (b & m)) && y == (W)((b & ~m) | (a & m)), "masked bits exchanged");
  W s0 = (W)v_sym("s0", 8), s1 = (W)v_sym("s1", 8), len = (W)v_sym("len", 8);
  v_assume(s0 < D && s1 < D && len <= D - (s0 > s1 ? s0 : s1));
  W f = (W)(low(len) << s0);
  x = a; y = b;
  _bitexch<W, W>(x, y, s0, len);
  v_observe(x); v_observe(y);
  v_assert(x == (W)((a & ~f) | (b & f)) && y == (W)((b & ~f) | (a & f)), "fields at one position exchanged");
  x = a; y = b;
  _bitexch<W, W>(x, y, s0, s1, len);
  v_observe(x); v_observe(y);
  W fa = (W)((a >> s0) & low(len)), fb = (W)((b >> s1) & low(len));
  v_assert(x == (W)((a & ~(W)(low(len) << s0)) | (W)(fb << s0)), "fields at two positions exchanged (first)");
  v_assert(y == (W)((b & ~(W)(low(len) << s1)) | (W)(fa << s1)), "fields at two positions exchanged (second)");
  v_cover(s0 > s1 && len > 1, "first field higher"); v_cover(s0 < s1 && len > 1, "second field higher");
}
extern "C" void h_bitcmp() {
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), s0 = (W)v_sym("s0", 8), s1 = (W)v_sym("s1", 8), len = (W)v_sym("len", 8);
  v_assume(s0 < D && s1 < D && len <= D - (s0 > s1 ? s0 : s1));
  W r = _bitcmp<W>(a, b, s0, s1, len);
  v_observe(r);
  v_assert((r != 0) == ((W)((a >> s0) & low(len)) == (W)((b >> s1) & low(len))), "nonzero exactly when the fields are equal");
}
extern "C" void h_shld_shrd() {
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), c = (W)v_sym("c", 8);
  unsigned cc = c;
  wide x = ((wide)a << D) | b, y = ((wide)b << D) | a;
  W l = _shld<W>(a, b, c), r = _shrd<W>(a, b, c);
  v_observe(l); v_observe(r);
  W el = cc >= 2 * D ? (W)0 : (W)((x << cc) >> D), er = cc >= 2 * D ? (W)0 : (W)(y >> cc);
  v_assert(l == el, "left shift of the double word");
  v_assert(r == er, "right shift of the double word");
  v_cover(c == 0, "zero"); v_cover(c == D, "whole word"); v_cover(c > D && c < 2 * D, "past the word");
}
extern "C" void h_addcarry() {
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), d1 = 0, d2 = 0;
  unsigned char c = (unsigned char)v_sym("c", 1);
  auto r1 = _addcarry(c, a, b, &d1);
  auto r2 = _addcarry(c, a, b, &d2, std::ignore);
  wide s = (wide)a + b + c;
  v_observe(d1); v_observe(r1);
  v_assert(d1 == (W)s && (r1 != 0) == ((s >> D) != 0), "sum and carry");
  v_assert(d2 == (W)s && (r2 != 0) == ((s >> D) != 0), "sum and carry (generic)");
}
extern "C" void h_subborrow() {
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), d1 = 0, d2 = 0;
  unsigned char c = (unsigned char)v_sym("c", 1);
  auto r1 = _subborrow(c, a, b, &d1);
  auto r2 = _subborrow(c, a, b, &d2, std::ignore);
  wide need = (wide)b + c;
  v_observe(d1); v_observe(r1);
  v_assert(d1 == (W)(a - b - c) && (r1 != 0) == (need > a), "difference and borrow");
  v_assert(d2 == (W)(a - b - c) && (r2 != 0) == (need > a), "difference and borrow (generic)");
}
#include <type_traits>
using PW = std::conditional_t<D == 64, unsigned __int128, std::conditional_t<D == 32, uint64_t, uint32_t>>;
extern "C" void h_mulx() {
  v_assert(binary_digits<_wider_type_t<W>>::value == (D == 64 ? 64 : 2 * D), "the wider type is the next wider word");
  W a = (W)v_sym("a", D), b = (W)v_sym("b", D), h1 = 0;
  W l1 = _mulx(a, b, &h1);
  v_observe(l1); v_observe(h1);
  PW p = (PW)a * b;
  v_assert(l1 == (W)p && h1 == (W)(p >> D), "double-width product");
}
// generic product: one factor is any word of the form (x << s) or ~(x << s), x < 2^bits
extern "C" void h_mulx_generic() {
  W a = (W)v_sym("a", D), h2 = 0;
  uint64_t k = v_param("bits", 3);
  uint64_t s = v_choose("at", 0, D - k), x = v_choose("x", 0, (1ull << k) - 1);
  v_shard(s);
  W b = (W)(x << s);
  if (v_choose("inv", 0, v_param("inv", 0))) b = (W)~b;
  W l2 = v_choose("swap", 0, 1) ? _mulx(b, a, &h2, std::ignore) : _mulx(a, b, &h2, std::ignore);
  v_observe(l2); v_observe(h2);
  PW p = (PW)a * b;
  v_assert(l2 == (W)p, "low word of the product (generic)");
  v_assert(h2 == (W)(p >> D), "high word of the product (generic)");
}
