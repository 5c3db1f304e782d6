// Bit-vector expression DAG with hash-consing and eager simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <llvm/ADT/APInt.h>

using llvm::APInt;

enum class Op : uint8_t {
  Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem,
  Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt,
  Popcnt,
  Bit,             // Bit(x, i): bit i of x (0 when out of range); x is a Var
  // floating point on IEEE bit patterns; aux selects the operation
  FBin, FCmp, FFromU, FFromS, FToU, FToS, FCast, FRound
};

struct Expr {
  Op op;
  unsigned w;      // width in bits
  unsigned aux;    // Extract: low bit; Var: variable index; F*: sub operation
  uint32_t id;
  const Expr* k[3];
  APInt val;       // Const
  APInt umax;      // upper bound of the unsigned value
  int64_t slo = 0, shi = 0;  // signed interval (w <= 64)
  bool isConst() const { return op == Op::Const; }
  bool isTrue() const { return op == Op::Const && w == 1 && val.isOne(); }
  bool isFalse() const { return op == Op::Const && w == 1 && val.isZero(); }
};
using E = const Expr*;

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<E> g_exprs;

E mkConst(const APInt& v);
E mkConst(unsigned w, uint64_t v);
E mkVar(const std::string& name, unsigned w);
E mkTrue(); E mkFalse();
E mkBool(bool b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkShl(E a, E b);   // SMT-LIB semantics (oversized -> 0)
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkEq(E a, E b);
E mkNe(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkBit(E var, E idx);
E bitAt(E e, E k);   // bit k of e, pushed to the leaves (k has KW bits)
static const unsigned KW = 12;
E mkPopcnt(E a);     // same width as a
E mkFP(Op op, unsigned aux, unsigned w, E a, E b = nullptr);

// Model: variable index -> value
struct Model {
  std::vector<uint64_t> v;
  uint64_t get(unsigned i) const { return i < v.size() ? v[i] : 0; }
};
APInt evalExpr(E e, const Model& m);
void evalReset();                 // call when switching models
std::string toStr(E e, int depth = 4);
APInt fpFold(Op op, unsigned aux, unsigned w, const APInt& a, const APInt* b);
