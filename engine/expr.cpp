#include "expr.h"
#include <cmath>
#include <cstring>
#include <deque>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>

std::vector<VarInfo> g_vars;
std::vector<E> g_exprs;

static std::deque<Expr> g_pool;

struct Key { Op op; unsigned w, aux; E a, b, c; uint64_t cv;
  bool operator==(const Key& o) const {
    return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && cv == o.cv; } };
struct KeyH { size_t operator()(const Key& k) const {
  uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.w); mix(k.aux); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); mix(k.cv); return h; } };
static std::unordered_map<Key, E, KeyH> g_tab;
struct BigH { size_t operator()(const std::pair<unsigned, std::string>& p) const { return std::hash<std::string>()(p.second) * 31 + p.first; } };
static std::unordered_map<std::pair<unsigned, std::string>, E, BigH> g_big;

static APInt umaxOf(const Expr& e);
static void sIntervalOf(Expr& e);

static E intern(Op op, unsigned w, unsigned aux, E a = nullptr, E b = nullptr, E c = nullptr) {
  Key k{op, w, aux, a, b, c, 0};
  auto it = g_tab.find(k);
  if (it != g_tab.end()) return it->second;
  g_pool.push_back(Expr{op, w, aux, (uint32_t)g_exprs.size(), {a, b, c}, APInt(1, 0), APInt(1, 0)});
  Expr* e = &g_pool.back();
  e->umax = umaxOf(*e);
  sIntervalOf(*e);
  g_exprs.push_back(e);
  g_tab.emplace(k, e);
  return e;
}

E mkConst(const APInt& v) {
  unsigned w = v.getBitWidth();
  if (w <= 64) {
    Key k{Op::Const, w, 0, nullptr, nullptr, nullptr, v.getZExtValue()};
    auto it = g_tab.find(k);
    if (it != g_tab.end()) return it->second;
    g_pool.push_back(Expr{Op::Const, w, 0, (uint32_t)g_exprs.size(), {nullptr, nullptr, nullptr}, v, v});
    g_pool.back().slo = g_pool.back().shi = v.getSExtValue();
    g_exprs.push_back(&g_pool.back());
    g_tab.emplace(k, &g_pool.back());
    return &g_pool.back();
  }
  std::string s((const char*)v.getRawData(), v.getNumWords() * 8);
  auto key = std::make_pair(w, s);
  auto it = g_big.find(key);
  if (it != g_big.end()) return it->second;
  g_pool.push_back(Expr{Op::Const, w, 0, (uint32_t)g_exprs.size(), {nullptr, nullptr, nullptr}, v, v});
  g_exprs.push_back(&g_pool.back());
  g_big.emplace(key, &g_pool.back());
  return &g_pool.back();
}
E mkConst(unsigned w, uint64_t v) { return mkConst(APInt(w, v)); }
E mkVar(const std::string& name, unsigned w) {
  unsigned idx = g_vars.size();
  g_vars.push_back({name, w});
  return intern(Op::Var, w, idx);
}
E mkTrue() { static E t = mkConst(1, 1); return t; }
E mkFalse() { static E t = mkConst(1, 0); return t; }
E mkBool(bool b) { return b ? mkTrue() : mkFalse(); }

static APInt umaxOf(const Expr& e) {
  unsigned w = e.w;
  APInt all = APInt::getAllOnes(w);
  auto bitceil = [&](const APInt& x) { unsigned n = x.getActiveBits(); return APInt::getLowBitsSet(w, n); };
  switch (e.op) {
    case Op::And: return llvm::APIntOps::umin(e.k[0]->umax, e.k[1]->umax);
    case Op::Or: case Op::Xor: { APInt x = bitceil(e.k[0]->umax), y = bitceil(e.k[1]->umax); return x.ugt(y) ? x : y; }
    case Op::Add: { bool ov; APInt r = e.k[0]->umax.uadd_ov(e.k[1]->umax, ov); return ov ? all : r; }
    case Op::Mul: { bool ov; APInt r = e.k[0]->umax.umul_ov(e.k[1]->umax, ov); return ov ? all : r; }
    case Op::UDiv: return e.k[1]->isConst() && !e.k[1]->val.isZero() ? e.k[0]->umax.udiv(e.k[1]->val) : all;
    case Op::URem: return e.k[1]->isConst() && !e.k[1]->val.isZero() ? llvm::APIntOps::umin(e.k[0]->umax, e.k[1]->val - 1) : e.k[0]->umax;
    case Op::LShr: return e.k[0]->umax;
    case Op::Ite: return e.k[1]->umax.ugt(e.k[2]->umax) ? e.k[1]->umax : e.k[2]->umax;
    case Op::Concat: return e.k[0]->umax.zext(w).shl(e.k[1]->w) | e.k[1]->umax.zext(w);
    case Op::Extract: {
      APInt u = e.k[0]->umax.lshr(e.aux);
      if (u.getActiveBits() <= w) return u.trunc(w);
      return all; }
    case Op::Popcnt: { APInt m(w, e.k[0]->w); return m; }
    default: return all;
  }
}

static void sIntervalOf(Expr& e) {
  unsigned w = e.w;
  if (w > 64) return;
  __int128 LO = -((__int128)1 << (w - 1)), HI = ((__int128)1 << (w - 1)) - 1, lo = LO, hi = HI;
  auto kid = [&](int i) { return e.k[i]; };
  switch (e.op) {
    case Op::Add: lo = (__int128)kid(0)->slo + kid(1)->slo; hi = (__int128)kid(0)->shi + kid(1)->shi; break;
    case Op::Sub: lo = (__int128)kid(0)->slo - kid(1)->shi; hi = (__int128)kid(0)->shi - kid(1)->slo; break;
    case Op::Mul: if (kid(1)->isConst()) { __int128 c = kid(1)->slo, x = kid(0)->slo * c, y = kid(0)->shi * c; lo = std::min(x, y); hi = std::max(x, y); } break;
    case Op::Ite: lo = std::min(kid(1)->slo, kid(2)->slo); hi = std::max(kid(1)->shi, kid(2)->shi); break;
    case Op::SExt: lo = kid(0)->slo; hi = kid(0)->shi; break;
    case Op::Extract: if (e.aux == 0 && kid(0)->w <= 64) { lo = kid(0)->slo; hi = kid(0)->shi; } break;
    case Op::Concat: if (kid(1)->isConst()) { __int128 c = kid(1)->val.getZExtValue(); unsigned n = kid(1)->w; lo = ((__int128)kid(0)->slo << n) + c; hi = ((__int128)kid(0)->shi << n) + c; } break;
    default: break;
  }
  if (lo < LO || hi > HI) { lo = LO; hi = HI; }
  if (!e.umax.isNegative()) { if (lo < 0) lo = 0; __int128 u = e.umax.getZExtValue(); if (hi > u) hi = u; if (lo > hi) lo = 0; }
  e.slo = (int64_t)lo; e.shi = (int64_t)hi;
}
// Replace a comparison of wide but small values by one of just enough bits.
static bool narrow(E& a, E& b, bool isSigned) {
  unsigned w = a->w;
  if (w <= 8 || w > 64) return false;
  if (!isSigned && (a->slo < 0 || b->slo < 0)) return false;
  __int128 lo = std::min(a->slo, b->slo), hi = std::max(a->shi, b->shi);
  unsigned n = 2;
  while (n < w && (lo < -((__int128)1 << (n - 1)) || hi > ((__int128)1 << (n - 1)) - 1)) n++;
  if (n >= w) return false;
  a = mkExtract(a, 0, n); b = mkExtract(b, 0, n);
  return true;
}

static bool comm(E& a, E& b) {  // const to the right, else by id
  if (a->isConst() && !b->isConst()) { std::swap(a, b); return true; }
  if (!a->isConst() && !b->isConst() && a->id > b->id) { std::swap(a, b); return true; }
  return false;
}

// ---- piecewise view -------------------------------------------------------
static void pieces(E e, std::vector<E>& out) {  // least significant first
  std::vector<E> hiFirst;
  while (e->op == Op::Concat) { hiFirst.push_back(e->k[0]); e = e->k[1]; }
  out.push_back(e);
  for (auto it = hiFirst.rbegin(); it != hiFirst.rend(); ++it) out.push_back(*it);
}

template <class F> static E piecewise(E a, E b, F f) {
  if (a->op != Op::Concat && b->op != Op::Concat) return nullptr;
  std::vector<E> pa, pb;
  pieces(a, pa); pieces(b, pb);
  // cut points
  std::vector<unsigned> cuts{0};
  { unsigned o = 0; for (E x : pa) { o += x->w; cuts.push_back(o); } }
  { unsigned o = 0; for (E x : pb) { o += x->w; cuts.push_back(o); } }
  std::sort(cuts.begin(), cuts.end());
  cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() > 200) return nullptr;
  // check every segment has a constant side (0 or all-ones)
  size_t ia = 0, ib = 0; unsigned oa = 0, ob = 0;
  struct Seg { E a, b; unsigned la, lb, w; };
  std::vector<Seg> segs;
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    unsigned lo = cuts[i], w = cuts[i + 1] - lo;
    while (lo >= oa + pa[ia]->w) { oa += pa[ia]->w; ia++; }
    while (lo >= ob + pb[ib]->w) { ob += pb[ib]->w; ib++; }
    E xa = pa[ia], xb = pb[ib];
    auto okc = [&](E x, unsigned l) {
      if (!x->isConst()) return false;
      APInt v = x->val.extractBits(w, l);
      return v.isZero() || v.isAllOnes(); };
    bool whole = lo == oa && lo == ob && w == xa->w && w == xb->w && w < a->w;
    if (!whole && !okc(xa, lo - oa) && !okc(xb, lo - ob) && !(xa->isConst() && xb->isConst())) return nullptr;
    segs.push_back({xa, xb, lo - oa, lo - ob, w});
  }
  E r = nullptr;
  for (auto& s : segs) {
    E x = f(mkExtract(s.a, s.la, s.w), mkExtract(s.b, s.lb, s.w));
    r = r ? mkConcat(x, r) : x;
  }
  return r;
}

// split constant mask into runs if few
static E maskPieces(E x, const APInt& m) {
  unsigned w = x->w, n = 0;
  for (unsigned i = 0; i < w;) { unsigned j = i; while (j < w && m[j] == m[i]) j++; n++; i = j; }
  if (n > 5) return nullptr;
  E r = nullptr;
  for (unsigned i = 0; i < w;) {
    unsigned j = i; while (j < w && m[j] == m[i]) j++;
    E p = m[i] ? mkExtract(x, i, j - i) : mkConst(j - i, 0);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}

E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->val);
  if (a->op == Op::Not) return a->k[0];
  if (a->w == 1) {
    if (a->op == Op::Ult) return mkUle(a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkUlt(a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkSle(a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkSlt(a->k[1], a->k[0]);
  }
  if (a->op == Op::Concat) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
  return intern(Op::Not, a->w, 0, a);
}
E mkAnd(E a, E b) {
  if (a == b) return a;
  comm(a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->val & b->val);
  if (b->isConst()) {
    if (b->val.isZero()) return b;
    if (b->val.isAllOnes()) return a;
    if (E r = maskPieces(a, b->val)) return r;
  }
  if (a->op == Op::Not && a->k[0] == b) return mkConst(a->w, 0);
  if (b->op == Op::Not && b->k[0] == a) return mkConst(a->w, 0);
  if (E r = piecewise(a, b, mkAnd)) return r;
  return intern(Op::And, a->w, 0, a, b);
}
E mkOr(E a, E b) {
  if (a == b) return a;
  comm(a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->val | b->val);
  if (b->isConst()) {
    if (b->val.isZero()) return a;
    if (b->val.isAllOnes()) return b;
  }
  if (a->op == Op::Not && a->k[0] == b) return mkConst(APInt::getAllOnes(a->w));
  if (b->op == Op::Not && b->k[0] == a) return mkConst(APInt::getAllOnes(a->w));
  if (E r = piecewise(a, b, mkOr)) return r;
  return intern(Op::Or, a->w, 0, a, b);
}
E mkXor(E a, E b) {
  if (a == b) return mkConst(a->w, 0);
  comm(a, b);
  if (a->isConst() && b->isConst()) return mkConst(a->val ^ b->val);
  if (b->isConst()) {
    if (b->val.isZero()) return a;
    if (b->val.isAllOnes()) return mkNot(a);
  }
  if (a->op == Op::Xor) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
  if (b->op == Op::Xor) { if (b->k[0] == a) return b->k[1]; if (b->k[1] == a) return b->k[0]; }
  if (E r = piecewise(a, b, mkXor)) return r;
  return intern(Op::Xor, a->w, 0, a, b);
}
E mkAdd(E a, E b) {
  comm(a, b);
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->val + b->val);
    if (b->val.isZero()) return a;
    if (a->op == Op::Add && a->k[1]->isConst()) return mkAdd(a->k[0], mkConst(a->k[1]->val + b->val));
    if (a->op == Op::Sub && a->k[0]->isConst()) return mkSub(mkConst(a->k[0]->val + b->val), a->k[1]);
    if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
      return mkIte(a->k[0], mkConst(a->k[1]->val + b->val), mkConst(a->k[2]->val + b->val));
    return intern(Op::Add, a->w, 0, a, b);
  }
  // pull constants outwards
  if (a->op == Op::Add && a->k[1]->isConst()) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
  if (b->op == Op::Add && b->k[1]->isConst()) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
  // (x - y) + y
  if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
  if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
  return intern(Op::Add, a->w, 0, a, b);
}
E mkSub(E a, E b) {
  if (a == b) return mkConst(a->w, 0);
  if (b->isConst()) return mkAdd(a, mkConst(-b->val));
  if (a->op == Op::Add && a->k[1]->isConst()) return mkAdd(mkSub(a->k[0], b), a->k[1]);
  if (b->op == Op::Add && b->k[1]->isConst()) return mkAdd(mkSub(a, b->k[0]), mkConst(-b->k[1]->val));
  if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
  if (b->op == Op::Sub && b->k[0] == a) return b->k[1];
  if (a->isConst() && a->val.isZero() && b->w > 1 && b->umax.ule(1)) return mkSExt(mkExtract(b, 0, 1), b->w);
  if (b->op == Op::Sub && b->k[0]->isConst() && a->isConst()) // c1 - (c2 - x)
    return mkAdd(b->k[1], mkConst(a->val - b->k[0]->val));
  return intern(Op::Sub, a->w, 0, a, b);
}
E mkNeg(E a) { return mkSub(mkConst(a->w, 0), a); }
E mkMul(E a, E b) {
  comm(a, b);
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->val * b->val);
    if (b->val.isZero()) return b;
    if (b->val.isOne()) return a;
    if (b->val.isPowerOf2()) return mkShl(a, mkConst(a->w, b->val.logBase2()));
    if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
      return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
  }
  // 0/1-valued factor
  if (a->umax.ule(1)) return mkIte(mkExtract(a, 0, 1), b, mkConst(a->w, 0));
  if (b->umax.ule(1)) return mkIte(mkExtract(b, 0, 1), a, mkConst(a->w, 0));
  return intern(Op::Mul, a->w, 0, a, b);
}
static bool nonneg(E a) { return !a->umax.isNegative(); }
E mkUDiv(E a, E b) {
  if (b->isConst() && !b->val.isZero()) {
    if (a->isConst()) return mkConst(a->val.udiv(b->val));
    if (b->val.isPowerOf2()) return mkLShr(a, mkConst(a->w, b->val.logBase2()));
    if (a->umax.ult(b->val)) return mkConst(a->w, 0);
  }
  return intern(Op::UDiv, a->w, 0, a, b);
}
E mkURem(E a, E b) {
  if (b->isConst() && !b->val.isZero()) {
    if (a->isConst()) return mkConst(a->val.urem(b->val));
    if (b->val.isPowerOf2()) return mkAnd(a, mkConst(b->val - 1));
    if (a->umax.ult(b->val)) return a;
  }
  return intern(Op::URem, a->w, 0, a, b);
}
E mkSDiv(E a, E b) {
  if (a->isConst() && b->isConst() && !b->val.isZero()) return mkConst(a->val.sdiv(b->val));
  if (nonneg(a) && nonneg(b)) return mkUDiv(a, b);
  if (b->isConst() && b->val.isPowerOf2() && !b->val.isNegative() && !b->val.isZero()) {
    unsigned k = b->val.logBase2();
    if (k == 0) return a;
    E sign = mkAShr(a, mkConst(a->w, a->w - 1));
    E bias = mkLShr(sign, mkConst(a->w, a->w - k));
    return mkAShr(mkAdd(a, bias), mkConst(a->w, k));
  }
  return intern(Op::SDiv, a->w, 0, a, b);
}
E mkSRem(E a, E b) {
  if (a->isConst() && b->isConst() && !b->val.isZero()) return mkConst(a->val.srem(b->val));
  if (nonneg(a) && nonneg(b)) return mkURem(a, b);
  if (b->isConst() && b->val.isPowerOf2() && !b->val.isNegative())
    return mkSub(a, mkMul(mkSDiv(a, b), b));
  return intern(Op::SRem, a->w, 0, a, b);
}
E mkShl(E a, E b) {
  if (b->isConst()) {
    if (b->val.isZero()) return a;
    if (b->val.uge(a->w)) return mkConst(a->w, 0);
    unsigned n = b->val.getZExtValue();
    return mkConcat(mkExtract(a, 0, a->w - n), mkConst(n, 0));
  }
  if (a->isConst() && a->val.isZero()) return a;
  if (b->op == Op::Ite && b->k[1]->isConst() && b->k[2]->isConst())
    return mkIte(b->k[0], mkShl(a, b->k[1]), mkShl(a, b->k[2]));
  return intern(Op::Shl, a->w, 0, a, b);
}
E mkLShr(E a, E b) {
  if (b->isConst()) {
    if (b->val.isZero()) return a;
    if (b->val.uge(a->w)) return mkConst(a->w, 0);
    unsigned n = b->val.getZExtValue();
    return mkConcat(mkConst(n, 0), mkExtract(a, n, a->w - n));
  }
  if (a->isConst() && a->val.isZero()) return a;
  return intern(Op::LShr, a->w, 0, a, b);
}
E mkAShr(E a, E b) {
  if (nonneg(a)) return mkLShr(a, b);
  if (b->isConst()) {
    if (b->val.isZero()) return a;
    unsigned n = b->val.uge(a->w) ? a->w - 1 : b->val.getZExtValue();
    return mkSExt(mkExtract(a, n, a->w - n), a->w);
  }
  if (a->isConst() && a->val.isZero()) return a;
  return intern(Op::AShr, a->w, 0, a, b);
}
E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  comm(a, b);
  if (a->isConst() && b->isConst()) return mkBool(a->val == b->val);
  if (b->isConst()) {
    if (a->w == 1) return b->val.isOne() ? a : mkNot(a);
    if (b->val.ugt(a->umax)) return mkFalse();
    if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val - a->k[1]->val));
    if (a->op == Op::Sub && a->k[0]->isConst()) return mkEq(a->k[1], mkConst(a->k[0]->val - b->val));
    if (a->op == Op::Not) return mkEq(a->k[0], mkConst(~b->val));
    if (a->op == Op::Concat) {
      E hi = mkEq(a->k[0], mkConst(b->val.extractBits(a->k[0]->w, a->k[1]->w)));
      if (hi->isFalse()) return hi;
      E lo = mkEq(a->k[1], mkConst(b->val.extractBits(a->k[1]->w, 0)));
      return mkAnd(hi, lo);
    }
    if (a->op == Op::Ite && (a->k[1]->isConst() || a->k[2]->isConst()))
      return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (a->op == Op::SExt) {
      E x = a->k[0];
      APInt t = b->val.trunc(x->w);
      if (t.sext(a->w) == b->val) return mkEq(x, mkConst(t));
      return mkFalse();
    }
  }
  if (a->op == Op::Concat && b->op == Op::Concat) {
    std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb);
    bool same = pa.size() == pb.size();
    for (size_t i = 0; same && i < pa.size(); i++) same = pa[i]->w == pb[i]->w;
    if (same) { E r = mkTrue(); for (size_t i = 0; i < pa.size(); i++) r = mkAnd(r, mkEq(pa[i], pb[i])); return r; }
    if (a->k[1]->w == b->k[1]->w && (a->k[0]->isConst() && b->k[0]->isConst() ))
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
  }
  if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
  if (narrow(a, b, true)) return mkEq(a, b);
  return intern(Op::Eq, 1, 0, a, b);
}
E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
static bool stripZ(E& a, E& b) { // drop common known-zero high bits
  unsigned n = std::max(std::max(a->umax.getActiveBits(), b->umax.getActiveBits()), 1u);
  if (n < a->w && (a->op == Op::Concat || a->isConst()) && (b->op == Op::Concat || b->isConst())) {
    a = mkExtract(a, 0, n); b = mkExtract(b, 0, n); return true;
  }
  return false;
}
E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return mkBool(a->val.ult(b->val));
  if (b->isConst()) {
    if (b->val.isZero()) return mkFalse();
    if (a->umax.ult(b->val)) return mkTrue();
    if (b->val.isOne()) return mkEq(a, mkConst(a->w, 0));
  }
  if (a->isConst()) {
    if (a->val.uge(b->umax)) return mkFalse();
    if (a->val.isZero()) return mkNe(b, mkConst(a->w, 0));
  }
  if (a->op == Op::Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst()))
    return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (b->op == Op::Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst()))
    return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  if (stripZ(a, b)) return mkUlt(a, b);
  if (narrow(a, b, false)) return mkUlt(a, b);
  if (a->w == 1) return mkAnd(mkNot(a), b);
  return intern(Op::Ult, 1, 0, a, b);
}
E mkUle(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkBool(a->val.ule(b->val));
  if (b->isConst()) {
    if (a->umax.ule(b->val)) return mkTrue();
    if (b->val.isZero()) return mkEq(a, b);
  }
  if (a->isConst()) {
    if (a->val.isZero()) return mkTrue();
    if (a->val.ugt(b->umax)) return mkFalse();
    if (a->val.isOne()) return mkNe(b, mkConst(a->w, 0));
  }
  if (a->op == Op::Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst()))
    return mkIte(a->k[0], mkUle(a->k[1], b), mkUle(a->k[2], b));
  if (b->op == Op::Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst()))
    return mkIte(b->k[0], mkUle(a, b->k[1]), mkUle(a, b->k[2]));
  if (stripZ(a, b)) return mkUle(a, b);
  if (narrow(a, b, false)) return mkUle(a, b);
  if (a->w == 1) return mkOr(mkNot(a), b);
  return intern(Op::Ule, 1, 0, a, b);
}
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return mkBool(a->val.slt(b->val));
  if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
  if (a->op == Op::Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst()))
    return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (b->op == Op::Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst()))
    return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  if (a->w <= 64) {
    if (a->shi < b->slo) return mkTrue();
    if (a->slo >= b->shi) return mkFalse();
  }
  if (narrow(a, b, true)) return mkSlt(a, b);
  return intern(Op::Slt, 1, 0, a, b);
}
E mkSle(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return mkBool(a->val.sle(b->val));
  if (nonneg(a) && nonneg(b)) return mkUle(a, b);
  if (a->op == Op::Ite && b->isConst() && (a->k[1]->isConst() || a->k[2]->isConst()))
    return mkIte(a->k[0], mkSle(a->k[1], b), mkSle(a->k[2], b));
  if (b->op == Op::Ite && a->isConst() && (b->k[1]->isConst() || b->k[2]->isConst()))
    return mkIte(b->k[0], mkSle(a, b->k[1]), mkSle(a, b->k[2]));
  if (a->w <= 64) {
    if (a->shi <= b->slo) return mkTrue();
    if (a->slo > b->shi) return mkFalse();
  }
  if (narrow(a, b, true)) return mkSle(a, b);
  return intern(Op::Sle, 1, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (c->isTrue()) return a;
  if (c->isFalse()) return b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isTrue() && b->isFalse()) return c;
    if (a->isFalse() && b->isTrue()) return mkNot(c);
    if (a->isTrue()) return mkOr(c, b);
    if (a->isFalse()) return mkAnd(mkNot(c), b);
    if (b->isTrue()) return mkOr(mkNot(c), a);
    if (b->isFalse()) return mkAnd(c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return intern(Op::Ite, a->w, 0, c, a, b);
}
E mkConcat(E hi, E lo) {
  if (hi->op == Op::Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  unsigned w = hi->w + lo->w;
  E l1 = lo->op == Op::Concat ? lo->k[0] : lo;
  E merged = nullptr;
  if (hi->isConst() && l1->isConst()) {
    APInt v = hi->val.zext(hi->w + l1->w).shl(l1->w) | l1->val.zext(hi->w + l1->w);
    merged = mkConst(v);
  } else if (hi->op == Op::Extract) {
    E x = hi->k[0];
    if (l1->op == Op::Extract && l1->k[0] == x && l1->aux + l1->w == hi->aux)
      merged = mkExtract(x, l1->aux, hi->w + l1->w);
    else if (l1 == x && false) merged = nullptr;
  } else if (hi->op == Op::SExt && l1->op != Op::Const) {
    // SExt(msb bit of l1) ++ l1  ->  SExt(l1)
    E m = hi->k[0];
    if (m->w == 1 && m == mkExtract(l1, l1->w - 1, 1)) merged = mkSExt(l1, hi->w + l1->w);
  }
  if (merged) return lo->op == Op::Concat ? mkConcat(merged, lo->k[1]) : merged;
  return intern(Op::Concat, w, 0, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case Op::Const: return mkConst(a->val.extractBits(w, lo));
    case Op::Extract: return mkExtract(a->k[0], a->aux + lo, w);
    case Op::Concat: {
      unsigned wl = a->k[1]->w;
      if (lo + w <= wl) return mkExtract(a->k[1], lo, w);
      if (lo >= wl) return mkExtract(a->k[0], lo - wl, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - wl), mkExtract(a->k[1], lo, wl - lo));
    }
    case Op::SExt: {
      E x = a->k[0];
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      if (lo >= x->w) return mkSExt(mkExtract(x, x->w - 1, 1), w);
      return mkSExt(mkExtract(x, lo, x->w - lo), w);
    }
    case Op::Ite:
      if (a->k[1]->isConst() || a->k[2]->isConst())
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
      break;
    case Op::Not: return mkNot(mkExtract(a->k[0], lo, w));
    case Op::And: case Op::Or: case Op::Xor:
      if (a->k[0]->op == Op::Concat || a->k[1]->op == Op::Concat || a->k[1]->isConst()) {
        E x = mkExtract(a->k[0], lo, w), y = mkExtract(a->k[1], lo, w);
        return a->op == Op::And ? mkAnd(x, y) : a->op == Op::Or ? mkOr(x, y) : mkXor(x, y);
      }
      break;
    case Op::Add: if (lo == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case Op::Sub: if (lo == 0) return mkSub(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    default: break;
  }
  if (a->umax.getActiveBits() <= lo) return mkConst(w, 0);
  return intern(Op::Extract, w, lo, a);
}
E mkZExt(E a, unsigned w) { return w == a->w ? a : mkConcat(mkConst(w - a->w, 0), a); }
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->val.sext(w));
  if (nonneg(a)) return mkZExt(a, w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  return intern(Op::SExt, w, 0, a);
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
static E popcntRec(E a, unsigned W) {
  if (a->isConst()) return mkConst(W, a->val.popcount());
  if (a->op == Op::Concat) return mkAdd(popcntRec(a->k[0], W), popcntRec(a->k[1], W));
  if (a->w == 1) return mkZExt(a, W);
  if (a->op == Op::Not) return mkSub(mkConst(W, a->w), popcntRec(a->k[0], W));
  return intern(Op::Popcnt, W, 0, a);
}
E mkBit(E v, E i) {
  if (i->isConst()) return i->val.uge(v->w) ? mkFalse() : mkExtract(v, i->val.getZExtValue(), 1);
  return intern(Op::Bit, 1, 0, v, i);
}
struct BK { E e, k; bool operator==(const BK& o) const { return e == o.e && k == o.k; } };
struct BKH { size_t operator()(const BK& b) const { return (uint64_t)b.e * 0x9E3779B97F4A7C15ull ^ ((uint64_t)b.k * 0xff51afd7ed558ccdull >> 7); } };
static std::unordered_map<BK, E, BKH> bitMemo;
// amount s (any width) as a KW-bit value and the condition "s >= w"
static void amount(E s, unsigned w, E& sk, E& big) {
  big = mkUle(mkConst(s->w, 0), s);
  big = s->w < 32 && (1ull << s->w) <= w ? mkFalse() : mkUle(mkConst(s->w, w), s);
  sk = s->w >= KW ? mkTrunc(s, KW) : mkZExt(s, KW);
}
static E shlOneAmount(E x) { // x = 1 << n (possibly truncated): returns n
  if (x->op == Op::Extract && x->aux == 0) x = x->k[0];
  if (x->op == Op::Shl && x->k[0]->isConst() && x->k[0]->val.isOne()) return x->k[1];
  return nullptr;
}
E bitAt(E e, E k) {
  if (k->isConst()) return k->val.uge(e->w) ? mkFalse() : mkExtract(e, k->val.getZExtValue(), 1);
  auto it = bitMemo.find({e, k});
  if (it != bitMemo.end()) return it->second;
  E r = nullptr;
  auto C = [](uint64_t v) { return mkConst(KW, v); };
  switch (e->op) {
    case Op::Const: {
      // runs of ones as interval tests on k
      unsigned runs = 0; const APInt& v = e->val;
      for (unsigned i = 0; i < e->w; i++) if (v[i] && (i == 0 || !v[i - 1])) runs++;
      if (runs <= 8) {
        r = mkFalse();
        for (unsigned i = 0; i < e->w;) {
          if (!v[i]) { i++; continue; }
          unsigned j = i; while (j < e->w && v[j]) j++;
          r = mkOr(r, mkAnd(mkUle(C(i), k), j == e->w ? mkTrue() : mkUlt(k, C(j))));
          i = j;
        }
      }
      break; }
    case Op::Var: r = mkBit(e, k); break;
    case Op::Not: r = mkNot(bitAt(e->k[0], k)); break;
    case Op::And: r = mkAnd(bitAt(e->k[0], k), bitAt(e->k[1], k)); break;
    case Op::Or: r = mkOr(bitAt(e->k[0], k), bitAt(e->k[1], k)); break;
    case Op::Xor: r = mkXor(bitAt(e->k[0], k), bitAt(e->k[1], k)); break;
    case Op::Ite: r = mkIte(e->k[0], bitAt(e->k[1], k), bitAt(e->k[2], k)); break;
    case Op::Concat: {
      unsigned wl = e->k[1]->w;
      r = mkIte(mkUlt(k, C(wl)), bitAt(e->k[1], k), bitAt(e->k[0], mkSub(k, C(wl)))); break; }
    case Op::Extract: r = bitAt(e->k[0], mkAdd(k, C(e->aux))); break;
    case Op::SExt: r = bitAt(e->k[0], mkIte(mkUlt(k, C(e->k[0]->w)), k, C(e->k[0]->w - 1))); break;
    case Op::Shl: { E s, big; amount(e->k[1], e->w, s, big);
      r = mkAnd(mkAnd(mkNot(big), mkUle(s, k)), bitAt(e->k[0], mkSub(k, s))); break; }
    case Op::LShr: { E s, big; amount(e->k[1], e->w, s, big);
      E i = mkAdd(k, s);
      r = mkAnd(mkAnd(mkNot(big), mkUlt(i, C(e->w))), bitAt(e->k[0], i)); break; }
    case Op::AShr: { E s, big; amount(e->k[1], e->w, s, big);
      E i = mkAdd(k, s), last = C(e->w - 1);
      r = bitAt(e->k[0], mkIte(mkOr(big, mkUlt(last, i)), last, i)); break; }
    case Op::Add:
      if (e->k[1]->isConst() && e->k[1]->val.isAllOnes()) if (E n = shlOneAmount(e->k[0])) {
        E s, big; amount(n, e->w, s, big);
        r = mkOr(big, mkUlt(k, s)); }
      break;
    default: break;
  }
  if (!r) r = mkExtract(mkLShr(e, e->w >= KW ? mkZExt(k, e->w) : mkConst(e->w, 0)), 0, 1);
  if (!r || (e->w < KW && r->op == Op::Extract && r->k[0] == e)) r = mkExtract(mkLShr(mkZExt(e, KW), k), 0, 1);
  bitMemo[{e, k}] = r;
  return r;
}
E mkPopcnt(E a) { return popcntRec(a, a->w); }

// ---- floating point -------------------------------------------------------
static const llvm::fltSemantics& sem(unsigned w) {
  return w == 32 ? llvm::APFloat::IEEEsingle() : w == 64 ? llvm::APFloat::IEEEdouble()
       : w == 80 ? llvm::APFloat::x87DoubleExtended() : llvm::APFloat::IEEEquad(); }
// FBin aux: 0 add 1 sub 2 mul 3 div ; FCmp aux: LLVM predicate ; FRound aux: 0 ceil 1 floor 2 trunc
APInt fpFold(Op op, unsigned aux, unsigned w, const APInt& a, const APInt* b) {
  using namespace llvm;
  auto rm = APFloat::rmNearestTiesToEven;
  switch (op) {
    case Op::FBin: {
      APFloat x(sem(a.getBitWidth()), a), y(sem(a.getBitWidth()), *b);
      if (aux == 0) x.add(y, rm); else if (aux == 1) x.subtract(y, rm);
      else if (aux == 2) x.multiply(y, rm); else x.divide(y, rm);
      return x.bitcastToAPInt(); }
    case Op::FCmp: {
      APFloat x(sem(a.getBitWidth()), a), y(sem(a.getBitWidth()), *b);
      auto r = x.compare(y);
      bool u = r == APFloat::cmpUnordered, e = r == APFloat::cmpEqual, g = r == APFloat::cmpGreaterThan, l = r == APFloat::cmpLessThan;
      bool v = ((aux & 8) && u) || ((aux & 1) && e) || ((aux & 2) && g) || ((aux & 4) && l);
      return APInt(1, v); }
    case Op::FFromU: { APFloat x(sem(w)); x.convertFromAPInt(a, false, rm); return x.bitcastToAPInt(); }
    case Op::FFromS: { APFloat x(sem(w)); x.convertFromAPInt(a, true, rm); return x.bitcastToAPInt(); }
    case Op::FToU: case Op::FToS: {
      APFloat x(sem(a.getBitWidth()), a); bool ex; APSInt r(w, op == Op::FToU);
      x.convertToInteger(r, APFloat::rmTowardZero, &ex); return r; }
    case Op::FCast: { APFloat x(sem(a.getBitWidth()), a); bool li; x.convert(sem(w), rm, &li); return x.bitcastToAPInt(); }
    case Op::FRound: { APFloat x(sem(a.getBitWidth()), a);
      x.roundToIntegral(aux == 0 ? APFloat::rmTowardPositive : aux == 1 ? APFloat::rmTowardNegative : APFloat::rmTowardZero);
      return x.bitcastToAPInt(); }
    default: abort();
  }
}
E mkFP(Op op, unsigned aux, unsigned w, E a, E b) {
  if (a->isConst() && (!b || b->isConst())) return mkConst(fpFold(op, aux, w, a->val, b ? &b->val : nullptr));
  return intern(op, w, aux, a, b);
}

// ---- evaluation -----------------------------------------------------------
static std::vector<APInt> ev_val;
static std::vector<uint32_t> ev_stamp;
static uint32_t ev_cur = 1;
void evalReset() { ev_cur++; }
static const APInt& evRec(E e, const Model& m) {
  if (e->id >= ev_stamp.size()) { ev_stamp.resize(g_exprs.size() + 1024, 0); ev_val.resize(g_exprs.size() + 1024); }
  if (ev_stamp[e->id] == ev_cur) return ev_val[e->id];
  APInt r(e->w, 0);
  auto A = [&](int i) -> APInt { return evRec(e->k[i], m); };
  switch (e->op) {
    case Op::Const: r = e->val; break;
    case Op::Var: r = APInt(e->w, m.get(e->aux)); break;
    case Op::Not: r = ~A(0); break;
    case Op::And: r = A(0) & A(1); break;
    case Op::Or: r = A(0) | A(1); break;
    case Op::Xor: r = A(0) ^ A(1); break;
    case Op::Add: r = A(0) + A(1); break;
    case Op::Sub: r = A(0) - A(1); break;
    case Op::Mul: r = A(0) * A(1); break;
    case Op::UDiv: { APInt b = A(1); r = b.isZero() ? APInt::getAllOnes(e->w) : A(0).udiv(b); break; }
    case Op::SDiv: { APInt b = A(1), a = A(0); r = b.isZero() ? (a.isNegative() ? APInt(e->w, 1) : APInt::getAllOnes(e->w)) : a.sdiv(b); break; }
    case Op::URem: { APInt b = A(1); r = b.isZero() ? A(0) : A(0).urem(b); break; }
    case Op::SRem: { APInt b = A(1); r = b.isZero() ? A(0) : A(0).srem(b); break; }
    case Op::Shl: r = A(0).shl(A(1)); break;
    case Op::LShr: r = A(0).lshr(A(1)); break;
    case Op::AShr: r = A(0).ashr(A(1)); break;
    case Op::Eq: r = APInt(1, A(0) == A(1)); break;
    case Op::Ult: r = APInt(1, A(0).ult(A(1))); break;
    case Op::Ule: r = APInt(1, A(0).ule(A(1))); break;
    case Op::Slt: r = APInt(1, A(0).slt(A(1))); break;
    case Op::Sle: r = APInt(1, A(0).sle(A(1))); break;
    case Op::Ite: r = A(0).isOne() ? A(1) : A(2); break;
    case Op::Concat: r = A(0).zext(e->w).shl(e->k[1]->w) | A(1).zext(e->w); break;
    case Op::Extract: r = A(0).extractBits(e->w, e->aux); break;
    case Op::SExt: r = A(0).sext(e->w); break;
    case Op::Popcnt: r = APInt(e->w, A(0).popcount()); break;
    case Op::Bit: { APInt i = A(1); APInt x = A(0); r = APInt(1, i.uge(x.getBitWidth()) ? 0 : x[i.getZExtValue()]); break; }
    default: { if (e->k[1]) { APInt b = A(1); r = fpFold(e->op, e->aux, e->w, A(0), &b); } else r = fpFold(e->op, e->aux, e->w, A(0), nullptr); }
  }
  ev_stamp[e->id] = ev_cur;
  ev_val[e->id] = r;
  return ev_val[e->id];
}
APInt evalExpr(E e, const Model& m) { if (e->isConst()) return e->val; return evRec(e, m); }

std::string toStr(E e, int d) {
  static const char* names[] = {"const","var","not","and","or","xor","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","sext","popcnt","bit","fbin","fcmp","ffromu","ffroms","ftou","ftos","fcast","fround"};
  if (e->isConst()) { llvm::SmallString<40> s; e->val.toString(s, 16, false); return "0x" + std::string(s.c_str()) + ":" + std::to_string(e->w); }
  if (e->op == Op::Var) return g_vars[e->aux].name;
  if (d == 0) return "#" + std::to_string(e->id);
  std::string r = std::string("(") + names[(int)e->op];
  if (e->op == Op::Extract) r += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
  for (int i = 0; i < 3; i++) if (e->k[i]) r += " " + toStr(e->k[i], d - 1);
  return r + ")";
}
