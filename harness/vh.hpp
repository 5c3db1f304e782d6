// Interface between harnesses and the symbolic executor (engine/) and, when
// compiled with -DVH_NATIVE, the replay driver (lib/replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include "bitlib/bitlib.hpp"

extern "C" {
uint64_t v_sym(const char* name, unsigned bits);   // arbitrary value of `bits` bits
uint64_t v_choose(const char* name, uint64_t lo, uint64_t hi);  // arbitrary value in [lo, hi], one path each
uint64_t v_split(uint64_t x);                      // case split over every feasible value
void v_shard(uint64_t x);                          // distribute cases over processes
void v_assume(bool c);                             // documented precondition
void v_assert(bool c, const char* what);           // the property
void v_cover(bool c, const char* what);            // must be reachable
void v_observe(uint64_t x);                        // compared with the native run
uint64_t v_param(const char* name, uint64_t dflt); // bound chosen by the check
void v_throw_ok(bool c);                           // an exception from here on is right iff c
void v_align(uint64_t bytes);                      // the next heap block begins `bytes` beyond a multiple of 64
void v_fail(uint64_t k);                           // the k-th request for memory from here on fails (0: none)
void v_use(const void* p);                         // keeps compilers from optimising p's memory away
[[noreturn]] void v_end();                         // path is complete
}

#ifndef WORD
#define WORD uint8_t
#endif
using W = WORD;
static constexpr unsigned D = sizeof(W) * 8;
#ifdef RAW                        // bit iterators over raw pointers rather than vector iterators
using VIt = W*;
using VCIt = const W*;
#else
using VIt = typename std::vector<W>::iterator;
using VCIt = typename std::vector<W>::const_iterator;
#endif
using BIt = bit::bit_iterator<VIt>;
using CBIt = bit::bit_iterator<VCIt>;
#ifdef CSRC                       // operands that are only read are ranges of constant bits
using SIt = CBIt;
#elif defined MIX                 // the first range and the second are over different iterator types
using SIt = bit::bit_iterator<W*>;
#else
using SIt = BIt;
#endif

// wide unsigned integers for the reference models
#ifndef WIDE
#define WIDE 320
#endif
using wide = unsigned _BitInt(WIDE);
static inline wide ones(uint64_t n) { return n >= WIDE ? ~(wide)0 : (((wide)1 << n) - 1); }

// a buffer of exactly n words with arbitrary contents
struct Buf {
  W* p; size_t n;
#ifdef BITLIB_HWY                  // the vector loops begin at 64-byte boundaries
  static W* get(const char* name, size_t n) {
    const uint64_t S = sizeof(W), al = v_param("al", 0), lanes = 16 / S;
    if (al == 0) v_align(0);
    if (al == 1) v_align((64 - v_choose(name, 0, 2) * S) % 64);                           // the boundary is word 0, 1 or 2
    if (al == 2) v_align((64 * 64 - (n - lanes - v_choose(name, 0, 2)) * S) % 64);        // ... 0, 1 or 2 words before the last vector
    return new W[n];
  }
#else
  static W* get(const char*, size_t n) { return new W[n]; }
#endif
  Buf(const char* name, size_t n) : p(get(name, n)), n(n) { for (size_t i = 0; i < n; i++) p[i] = (W)v_sym(name, D); }
  ~Buf() { delete[] p; }
  Buf(const Buf&) = delete;
  wide val() const { wide r = 0; for (size_t i = 0; i < n; i++) r |= (wide)p[i] << (i * D); return r; }
  BIt at(size_t bit) const { return BIt(VIt(p + bit / D), bit % D); }
  void expect(wide e, const char* what) const {
    for (size_t i = 0; i < n; i++) { v_observe(p[i]); v_assert(p[i] == (W)(e >> (i * D)), what); }
  }
};
static constexpr unsigned LOGD = D == 8 ? 3 : D == 16 ? 4 : D == 32 ? 5 : 6;
static inline BIt bit_at(W* p, uint64_t word, uint64_t pos) { return BIt(VIt(p + word), pos); }
// A bit position: the word it falls in is case split, the offset inside the
// word stays symbolic (or is case split too when `full`).
struct P {
  uint64_t w, o;
  uint64_t bit() const { return w * D + o; }
  BIt it(W* p) const { return BIt(VIt(p + w), o); }
  CBIt cit(W* p) const { return CBIt(VCIt(p + w), o); }
#ifdef CSRC
  SIt sit(W* p) const { return cit(p); }
#elif defined MIX
  SIt sit(W* p) const { return SIt(p + w, o); }
#else
  SIt sit(W* p) const { return it(p); }
#endif
};
enum { SYM = 0, FULL = 1, SEL = 2, FEW = 3, LONG = 4, FIRST = 6, LAST = 7 };
static inline P anypos(const char* nm, uint64_t nwords, uint64_t loword = 0, uint64_t mode = SYM, uint64_t hiword = ~0ull) {
  static const uint8_t sel[] = {0, 1, D / 2 - 1, D / 2, D - 1, 5, D - 2}, few[] = {0, 5, D - 1};
  uint64_t hi = hiword < nwords ? hiword : nwords, w, o;
  if (mode == FIRST) w = loword;
  else if (mode == LAST) w = v_choose(nm, nwords - 1, nwords);
  else if (mode == LONG) {      // long buffers: positions in words near either end (and two in the middle)
    uint64_t ws[] = {0, 1, nwords / 2, nwords - 2, nwords - 1, nwords}, ok[6], n = 0;
    for (uint64_t x : ws) if (x >= loword && x <= hi) ok[n++] = x;
    if (n == 0) v_end();
    w = ok[v_choose(nm, 0, n - 1)];
  } else w = v_choose(nm, loword, hi);
  if (mode == FULL) o = v_choose(nm, 0, w == nwords ? 0 : D - 1);
  else if (mode == SEL) o = sel[v_choose(nm, 0, w == nwords ? 0 : sizeof sel - 1)];
  else if (mode == FEW || mode >= LONG) o = few[v_choose(nm, 0, w == nwords ? 0 : sizeof few - 1)];
  else o = w == nwords ? 0 : v_sym(nm, LOGD);
  return {w, o};
}
// fully case-split position in [lo, hi]
static inline P at(uint64_t bit) { return {bit / D, bit % D}; }
static inline P choosepos(const char* nm, uint64_t lo, uint64_t hi) { return at(v_choose(nm, lo, hi)); }
template <class I> static inline uint64_t bitpos(I i, const Buf& b) { return (uint64_t)(&*i.base() - b.p) * D + i.position(); }
// two bit positions anywhere in memory, far apart or near, neither dereferenced
struct Far { BIt x, y; uint64_t d; };
static inline Far anyfar() {
  uint64_t a = v_sym("a", 46), ao = v_sym("a", LOGD), b = v_sym("b", 46), bo = v_sym("b", LOGD);
  v_assume(a >= (1ull << 44) && b >= (1ull << 44));
  v_assume(b * D + bo >= a * D + ao);
  return {BIt(VIt((W*)(a * sizeof(W))), ao), BIt(VIt((W*)(b * sizeof(W))), bo), b * D + bo - (a * D + ao)};
}
