// Symbolic executor for LLVM IR (the deciding machinery of /verif's checks).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <unistd.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <sys/resource.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <numeric>
#include <functional>
#include <unordered_map>
#include <pthread.h>
#include <malloc.h>

using namespace llvm;
using std::shared_ptr;
using std::string;
using std::vector;

struct Val {
  E e = nullptr;
  shared_ptr<vector<Val>> agg;
  Val() {}
  Val(E x) : e(x) {}
};

// byte i of the n-byte value e (n == 1: e itself)
struct Byte { E e = nullptr; uint16_t i = 0, n = 1;
  E get() const { return n == 1 ? e : mkExtract(e, 8 * i, 8); } };
struct Obj {
  uint64_t base, size;
  bool ro = false, heap = false;
  uint8_t akind = 0;           // 0 other, 1 new, 2 new[], 3 malloc
  string name;
  vector<Byte> b;              // e == nullptr: not yet initialised
};
struct FnInfo { const Function* f; std::unordered_map<const Value*, unsigned> num; unsigned n = 0; };
struct Frame {
  FnInfo* fi;
  vector<Val> regs;
  const BasicBlock* bb = nullptr;
  const BasicBlock* prev = nullptr;
  BasicBlock::const_iterator it;
  const CallBase* site = nullptr;
  vector<uint64_t> allocas;
};
struct State {
  vector<Frame> st;
  vector<shared_ptr<Obj>> mem;     // ascending base
  std::set<uint64_t> freed;
  vector<E> pc;
  shared_ptr<Model> model;
  std::unordered_map<E, E> conc;
  vector<std::pair<string, E>> inputs;
  std::map<string, unsigned> occ;
  vector<E> observed;
  uint64_t next = 0, misalign = 0, failAt = 0;   // failAt: which of the coming requests for memory fails
  unsigned garb = 0;
  E throwOk = nullptr;
  uint64_t excObj = 0;
  uint64_t steps = 0;
  unsigned asserts = 0;
};

struct Violation { string kind, msg, where; vector<std::pair<string, uint64_t>> inputs; };
struct Trace { vector<std::pair<string, uint64_t>> inputs; vector<uint64_t> obs; bool threw; };

static const DataLayout* DL;
static std::unique_ptr<Module> M;
static vector<shared_ptr<State>> work;
static vector<Violation> viols;
static std::map<string, bool> covers;
static vector<Trace> traces;
static std::set<string> undecided, unsupported;
static std::set<string> fnSeen;
static std::set<const BasicBlock*> bbSeen;
static uint64_t nPaths = 0, nForks = 0, nSteps = 0, nAsserts = 0, nProvedSimpl = 0, nProvedSolver = 0, nThrow = 0, nDropped = 0, nMemChecks = 0;
static double maxTime = 600; static unsigned maxViol = 3, keepTraces = 6;
static std::map<string, uint64_t> params;
static unsigned shardI = 0, shardN = 1;
static bool g_stop = false, g_timeout = false;
static std::mt19937_64 rng(1);
static std::chrono::steady_clock::time_point T0;
static bool verbose = false;

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct PathEnd {};      // path finished/dropped
struct Fork {};         // current instruction must be re-executed
struct Unsup { string what; };

static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fnInfos;
static FnInfo* infoOf(const Function* f) {
  auto& p = fnInfos[f];
  if (!p) {
    p.reset(new FnInfo{f});
    for (auto& a : f->args()) p->num[&a] = p->n++;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++;
  }
  return p.get();
}

static std::unordered_map<string, E> namedVars;
static E namedVar(const string& n, unsigned w) {
  auto key = n + "/" + std::to_string(w);
  auto it = namedVars.find(key);
  if (it != namedVars.end()) return it->second;
  return namedVars[key] = mkVar(n, w);
}

// ---- evaluation under the state's model -----------------------------------
static const Model* curEv = nullptr;
static shared_ptr<Model> curEvHold;
static APInt evalIn(State& s, E e) {
  if (e->isConst()) return e->val;
  if (curEv != s.model.get()) { evalReset(); curEv = s.model.get(); curEvHold = s.model; }
  return evalExpr(e, *s.model);
}

static string whereOf(State& s) {
  string r;
  int n = 0;
  for (auto it = s.st.rbegin(); it != s.st.rend() && n < 6; ++it, ++n) {
    if (n) r += " <- ";
    string d = demangle(it->fi->f->getName().str());
    if (d.size() > 110) d = d.substr(0, 110) + "...";
    r += d;
    if (it->bb && it->it != it->bb->end()) if (auto& dl = it->it->getDebugLoc()) r += ":" + std::to_string(dl.getLine());
  }
  return r;
}
static vector<std::pair<string, uint64_t>> inputsUnder(State& s, const Model& m) {
  vector<std::pair<string, uint64_t>> r;
  for (auto& p : s.inputs) r.push_back({p.first, m.get(p.second->op == Op::Var ? p.second->aux : p.second->k[1]->aux)});
  return r;
}
static void report(State& s, const string& kind, const string& msg, const Model& m) {
  Violation v{kind, msg, whereOf(s), inputsUnder(s, m)};
  viols.push_back(v);
  if (verbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
  if (viols.size() >= maxViol) g_stop = true;
}
static void addPC(State& s, E c) {
  if (c->isTrue()) return;
  if (c->op == Op::And && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  for (E x : s.pc) if (x == c) return;
  s.pc.push_back(c);
}
struct Slow { State& s; const char* what; double t0; Slow(State& s, const char* w) : s(s), what(w), t0(elapsed()) {}
  ~Slow() { if (verbose && elapsed() - t0 > 2) fprintf(stderr, "SLOW %s %.1fs at %s\n", what, elapsed() - t0, whereOf(s).c_str()); } };
// Is c possible on this path?  Gives a model when it is.
static Res feasible(State& s, E c, Model& m) {
  if (c->isFalse()) { return Res::Unsat; }
  if (c->isTrue() || evalIn(s, c).isOne()) { m = *s.model; return Res::Sat; }
  for (E x : s.pc) if (x == mkNot(c)) return Res::Unsat;
  Slow slow(s, "branch");
  m = *s.model;
  Res r = solveInc(s.pc, c, m);
  if (r != Res::Unknown) return r;
  return solve(s.pc, c, s.model.get(), m, g_timeout_ms);
}
static shared_ptr<State> cloneState(State& s) { nForks++; return std::make_shared<State>(s); }

// fork on a condition; returns the side taken by the current state
static bool decide(State& s, E c, const char* what) {
  if (c->isConst()) return c->isTrue();
  { auto it = s.conc.find(c); if (it != s.conc.end()) return it->second->isTrue(); }
  bool v = evalIn(s, c).isOne();
  E other = v ? mkNot(c) : c;
  Model m;
  Res r = feasible(s, other, m);
  if (r == Res::Sat) {
    auto t = cloneState(s);
    addPC(*t, other);
    t->conc[c] = mkBool(!v);
    t->model = std::make_shared<Model>(m);
    work.push_back(t);
  } else if (r == Res::Unknown) undecided.insert(string("branch feasibility (") + what + ") at " + whereOf(s));
  if (r != Res::Unsat) addPC(s, v ? c : mkNot(c));
  s.conc[c] = mkBool(v);
  return v;
}
static uint64_t concretize(State& s, E x, const char* what) {
  if (x->isConst()) return x->val.getLimitedValue();
  auto it = s.conc.find(x);
  if (it != s.conc.end()) return it->second->val.getLimitedValue();
  APInt v = evalIn(s, x);
  E cv = mkConst(v);
  E ne = mkNe(x, cv);
  Model m;
  Res r = feasible(s, ne, m);
  if (r == Res::Sat) {
    auto t = cloneState(s);
    addPC(*t, ne);
    t->model = std::make_shared<Model>(m);
    if (t->pc.size() > 20000) throw Unsup{string("unbounded concretisation: ") + what + " at " + whereOf(s)};
    work.push_back(t);
  } else if (r == Res::Unknown) undecided.insert(string("concretisation (") + what + ") at " + whereOf(s));
  // equality subsumes earlier disequalities on x
  if (r != Res::Unsat) {
    vector<E> np;
    for (E c : s.pc) if (!(c->op == Op::Not && c->k[0]->op == Op::Eq && (c->k[0]->k[0] == x) && c->k[0]->k[1]->isConst())) np.push_back(c);
    s.pc.swap(np);
    addPC(s, mkEq(x, cv));
  }
  s.conc[x] = cv;
  return v.getLimitedValue();
}
// Word equalities: prove bit(a,k) == bit(b,k) for one arbitrary index k with the
// data words as uninterpreted functions of the index (sound; incomplete only
// when the argument needs facts about the data held by the path condition).
static bool hasShift(E e) {
  static vector<uint8_t> memo;
  if (memo.size() <= e->id) memo.resize(g_exprs.size() + 4096, 0);
  if (memo[e->id]) return memo[e->id] == 2;
  bool r = (e->op == Op::Shl || e->op == Op::LShr || e->op == Op::AShr);
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasShift(e->k[i]);
  if (memo.size() <= e->id) memo.resize(g_exprs.size() + 4096, 0);
  memo[e->id] = r ? 2 : 1;
  return r;
}
static bool wideEq(E e) { return e->op == Op::Eq && e->k[0]->w >= 8 && e->k[0]->w <= 2048 && hasShift(e); }
static E bitDiff(E eq, E k) { return mkAnd(mkUlt(k, mkConst(KW, eq->k[0]->w)), mkXor(bitAt(eq->k[0], k), bitAt(eq->k[1], k))); }
// Is pc /\ n unsatisfiable?  Word equalities among them are replaced by their
// instances at one bit index: a disequality gives the index (a Skolem
// constant), every equality of the same width is instantiated there.
static bool refuteByBit(State& s, E n) {
  vector<E> flat, rest, pos, neg;
  std::function<void(E)> add = [&](E e) { if (e->op == Op::And && e->w == 1) { add(e->k[0]); add(e->k[1]); } else flat.push_back(e); };
  for (E c : s.pc) add(c);
  size_t own = flat.size();
  add(n);
  size_t ownNeg = 0;
  for (size_t i = 0; i < flat.size(); i++) {
    E e = flat[i];
    if (wideEq(e)) pos.push_back(e);
    else if (e->op == Op::Not && wideEq(e->k[0])) { if (i >= own) { neg.insert(neg.begin(), e->k[0]); ownNeg++; } else neg.push_back(e->k[0]); }
    else if (hasShift(e)) {}         // dropping a constraint is sound here
    else rest.push_back(e);
  }
  if (neg.size() > 6) neg.resize(6);
  if (ownNeg) neg.resize(ownNeg);    // the assertion itself supplies the index
  E k = namedVar("bitidx", KW);
  Model m;
  for (E d : neg) {
    E q = bitDiff(d, k);
    if (q->isFalse()) return true;
    vector<E> cs = rest;
    for (E p : pos) if (p->k[0]->w == d->k[0]->w) { E x = mkNot(mkXor(bitAt(p->k[0], k), bitAt(p->k[1], k))); if (x->isFalse()) return true; if (!x->isTrue()) cs.push_back(x); }
    Model base = *s.model;
    if (solve(cs, q, &base, m, std::min(g_timeout_ms, 20000u), true) == Res::Unsat) return true;
  }
  return false;
}
static bool proveByBit(State& s, E c) {
  if (c->op == Op::And && c->w == 1) return proveByBit(s, c->k[0]) && proveByBit(s, c->k[1]);
  Model m;
  if (refuteByBit(s, mkNot(c))) return true;
  if (getenv("VSE_DBG")) { fflush(stderr); fprintf(stderr, "NOBIT c=%s\n", toStr(c, 5).c_str()); for (E p : s.pc) fprintf(stderr, "   pc %s\n", toStr(p, 5).c_str()); }
  if (wideEq(c)) return false;
  return solve(s.pc, mkNot(c), s.model.get(), m, g_timeout_ms) == Res::Unsat;
}
static uint64_t nProvedBit = 0;

// ---- sums of population counts -------------------------------------------
// An equality of linear combinations of popcounts holds if it holds bit by bit:
// sum c_k * popcount(W_k) = sum over all bits b of (coefficient of b) * b.
// Identical bits cancel; the rest is split into groups that share no leaf bit,
// and the solver decides each group.
static bool linear(E e, const APInt& c, std::map<E, APInt>& at, APInt& k0, unsigned W) {
  if (e->isConst()) { k0 += c * e->val.zextOrTrunc(W); return true; }
  auto nov = [&](E a, E b) { bool o; (void)a->umax.uadd_ov(b->umax, o); return !o; };
  switch (e->op) {
    case Op::Popcnt: { auto it = at.emplace(e->k[0], APInt(W, 0)).first; it->second += c; return true; }
    case Op::Add: if (e->w != W && !nov(e->k[0], e->k[1])) return false;
      return linear(e->k[0], c, at, k0, W) && linear(e->k[1], c, at, k0, W);
    case Op::Sub: if (e->w != W) return false;
      return linear(e->k[0], c, at, k0, W) && linear(e->k[1], -c, at, k0, W);
    case Op::Shl: if (e->w != W || !e->k[1]->isConst() || e->k[1]->val.uge(W)) return false;
      return linear(e->k[0], c.shl(e->k[1]->val), at, k0, W);
    case Op::Concat:
      if (e->k[0]->isConst() && e->k[0]->val.isZero()) return linear(e->k[1], c, at, k0, W);
      if (e->k[1]->isConst() && e->k[1]->val.isZero()) { // x << n, with the bits lost at the top none or dropped mod 2^W
        return linear(e->k[0], c.shl(e->k[1]->w), at, k0, W); }
      return false;
    case Op::Ite: // a flag as 0/1
      if (e->k[1]->isConst() && e->k[2]->isConst()) {
        auto it = at.emplace(e->k[0], APInt(W, 0)).first; it->second += c * (e->k[1]->val.zextOrTrunc(W) - e->k[2]->val.zextOrTrunc(W));
        k0 += c * e->k[2]->val.zextOrTrunc(W); return true; }
      return false;
    case Op::Extract: // low part of a wider sum whose value fits
      if (e->aux == 0 && e->k[0]->umax.getActiveBits() <= e->w) return linear(e->k[0], c, at, k0, W);
      if (e->aux == 0 && e->w == W) return linear(e->k[0], c, at, k0, W);
      return false;
    default:
      if (e->w == 1) { auto it = at.emplace(e, APInt(W, 0)).first; it->second += c; return true; }
      return false;
  }
}
static bool hasPop(E e, std::unordered_map<uint32_t, bool>& memo) {
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->op == Op::Popcnt;
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasPop(e->k[i], memo);
  return memo[e->id] = r;
}
static void leafBits(E e, std::set<E>& out, std::set<E>& seen) {
  if (!seen.insert(e).second || e->isConst()) return;
  bool leaf = e->op == Op::Var || e->w != 1 || (e->op == Op::Extract);
  if (leaf) { out.insert(e); return; }
  for (int i = 0; i < 3; i++) if (e->k[i]) leafBits(e->k[i], out, seen);
}
static E bitOf(E e, unsigned i) {
  static std::unordered_map<uint64_t, E> memo;
  uint64_t key = (uint64_t)e->id << 16 | i;
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r;
  switch (e->op) {
    case Op::Not: r = mkNot(bitOf(e->k[0], i)); break;
    case Op::And: r = mkAnd(bitOf(e->k[0], i), bitOf(e->k[1], i)); break;
    case Op::Or: r = mkOr(bitOf(e->k[0], i), bitOf(e->k[1], i)); break;
    case Op::Xor: r = mkXor(bitOf(e->k[0], i), bitOf(e->k[1], i)); break;
    case Op::Ite: r = mkIte(e->k[0], bitOf(e->k[1], i), bitOf(e->k[2], i)); break;
    case Op::Concat: r = i < e->k[1]->w ? bitOf(e->k[1], i) : bitOf(e->k[0], i - e->k[1]->w); break;
    case Op::Extract: r = bitOf(e->k[0], i + e->aux); break;
    default: r = mkExtract(e, i, 1);
  }
  return memo[key] = r;
}
static uint64_t nProvedCol = 0;
static bool proveColumns(State& s, E c) {
  if (c->op != Op::Eq || c->k[0]->w < 8) return false;
  std::unordered_map<uint32_t, bool> memo;
  if (!hasPop(c, memo)) return false;
  unsigned W = c->k[0]->w;
  std::map<E, APInt> at; APInt k0(W, 0);
  bool dbg = getenv("VSE_DBGCOL");
  if (!linear(c->k[0], APInt(W, 1), at, k0, W) || !linear(c->k[1], APInt::getAllOnes(W), at, k0, W)) { if (dbg) fprintf(stderr, "NOLIN %s\n", toStr(c, 9).c_str()); return false; }
  std::map<E, APInt> bits;
  std::function<void(E, APInt)> addBit = [&](E b, APInt k) {
    if (b->isConst()) { if (b->val.isOne()) k0 += k; return; }
    if (b->op == Op::Not) { k0 += k; addBit(b->k[0], -k); return; }
    auto it = bits.emplace(b, APInt(W, 0)).first; it->second += k; };
  for (auto& t : at) { if (t.second.isZero()) continue; for (unsigned i = 0; i < t.first->w; i++) addBit(bitOf(t.first, i), t.second); }
  vector<std::pair<E, APInt>> rest;
  for (auto& b : bits) if (!b.second.isZero()) rest.push_back(b);
  if (rest.empty()) return k0.isZero();
  // connected groups
  vector<int> par(rest.size()); std::iota(par.begin(), par.end(), 0);
  std::function<int(int)> fnd = [&](int x) { return par[x] == x ? x : par[x] = fnd(par[x]); };
  std::map<E, int> owner;
  for (size_t i = 0; i < rest.size(); i++) { std::set<E> lb, seen; leafBits(rest[i].first, lb, seen);
    for (E l : lb) { auto it = owner.emplace(l, (int)i); if (!it.second) par[fnd(i)] = fnd(it.first->second); } }
  std::map<int, vector<int>> groups;
  for (size_t i = 0; i < rest.size(); i++) groups[fnd(i)].push_back(i);
  // every group must sum to a constant (its value at all-zero leaves); the constants must cancel
  for (auto& g : groups) {
    // rename the leaves, so that equal groups (other columns, other lanes) are one query
    std::sort(g.second.begin(), g.second.end(), [&](int x, int y) { return rest[x].first->id < rest[y].first->id; });
    std::unordered_map<uint32_t, E> sub; unsigned nleaf = 0; bool okr = true;
    std::function<E(E)> ren = [&](E e) -> E {
      if (e->isConst()) return e;
      auto it = sub.find(e->id); if (it != sub.end()) return it->second;
      E r;
      switch (e->w == 1 ? e->op : Op::Var) {
        case Op::Not: r = mkNot(ren(e->k[0])); break;
        case Op::And: { E x = ren(e->k[0]); r = mkAnd(x, ren(e->k[1])); break; }
        case Op::Or: { E x = ren(e->k[0]); r = mkOr(x, ren(e->k[1])); break; }
        case Op::Xor: { E x = ren(e->k[0]); r = mkXor(x, ren(e->k[1])); break; }
        case Op::Ite: { E x = ren(e->k[0]), y = ren(e->k[1]); r = mkIte(x, y, ren(e->k[2])); break; }
        case Op::Var: case Op::Extract: r = namedVar("leaf" + std::to_string(nleaf++), e->w); break;
        default: okr = false; r = e;
      }
      return sub[e->id] = r; };
    E sum = mkConst(W, 0);
    for (int i : g.second) { E b = ren(rest[i].first); sum = mkAdd(sum, mkIte(b, mkConst(rest[i].second), mkConst(W, 0))); }
    if (!okr) { sum = mkConst(W, 0); for (int i : g.second) sum = mkAdd(sum, mkIte(rest[i].first, mkConst(rest[i].second), mkConst(W, 0))); }
    Model z; evalReset();
    APInt base = evalExpr(sum, z); evalReset();
    k0 += base;
    static std::map<E, bool> proved;
    E q = mkEq(sum, mkConst(base));
    auto pr = proved.find(q);
    if (okr && pr != proved.end() && pr->second) continue;
    Model m;
    bool ok = solve(okr ? vector<E>() : s.pc, mkNot(q), s.model.get(), m, g_timeout_ms) == Res::Unsat;
    if (okr) proved[q] = ok;
    if (!ok) { if (dbg) fprintf(stderr, "NOGRP %zu of %zu %s\n", g.second.size(), rest.size(), toStr(sum, 9).c_str()); return false; }
  }
  if (dbg && !k0.isZero()) fprintf(stderr, "NOCONST\n");
  return k0.isZero();
}
// assertion; ends the path when it cannot hold
static void doAssert(State& s, E c, const string& kind, const string& msg) {
  nAsserts++; s.asserts++;
  if (c->isTrue()) { nProvedSimpl++; return; }
  Slow slow(s, "assert");
  E n = mkNot(c);
  if (n->isTrue() || evalIn(s, n).isOne()) { report(s, kind, msg, *s.model); throw PathEnd(); }
  Model m;
  if (proveColumns(s, c)) { nProvedSolver++; nProvedCol++; return; }
  { Slow slow2(s, "proveByBit"); if (proveByBit(s, c)) { nProvedSolver++; nProvedBit++; return; } }
  Res r = solve(s.pc, n, s.model.get(), m, g_timeout_ms);
  if (r == Res::Unsat) { nProvedSolver++; return; }
  if (r == Res::Sat) { report(s, kind, msg, m); throw PathEnd(); }
  undecided.insert("assertion '" + msg + "' at " + whereOf(s));
}

// ---- memory ---------------------------------------------------------------
static Obj* findObj(State& s, uint64_t a, size_t* idx = nullptr) {
  size_t lo = 0, hi = s.mem.size();
  while (lo < hi) { size_t mid = (lo + hi) / 2; if (s.mem[mid]->base <= a) lo = mid + 1; else hi = mid; }
  if (!lo) return nullptr;
  Obj* o = s.mem[lo - 1].get();
  if (a - o->base > o->size) return nullptr;
  if (idx) *idx = lo - 1;
  return o;
}
static Obj* writable(State& s, size_t i) {
  if (s.mem[i].use_count() > 1) s.mem[i] = std::make_shared<Obj>(*s.mem[i]);
  return s.mem[i].get();
}
static uint64_t allocObj(State& s, uint64_t size, const string& name, uint8_t akind) {
  if (size > (1u << 26)) throw Unsup{"allocation of " + std::to_string(size) + " bytes"};
  auto o = std::make_shared<Obj>();
  if (akind && s.misalign) { s.next += s.misalign; s.misalign = 0; }
  o->base = s.next; o->size = size; o->name = name; o->akind = akind; o->heap = akind != 0;
  o->b.assign(size, Byte());
  s.next = ((s.next + size + 64 + 63) / 64) * 64;
  s.mem.push_back(o);
  return o->base;
}
static void memError(State& s, uint64_t a, uint64_t n, bool wr) {
  char buf[300];
  string near;
  for (auto& o : s.mem) if (o->base <= a && a < o->base + o->size + 64) near = " near object '" + o->name + "' size " + std::to_string(o->size) + " offset " + std::to_string((int64_t)(a - o->base));
  bool uaf = false;
  snprintf(buf, sizeof buf, "%s of %lu bytes outside any live object%s", wr ? "store" : "load", (unsigned long)n, near.c_str());
  (void)uaf;
  report(s, "memory", buf, *s.model);
  throw PathEnd();
}
static size_t checkAccess(State& s, uint64_t a, uint64_t n, bool wr) {
  nMemChecks++;
  size_t i;
  Obj* o = findObj(s, a, &i);
  if (!o || n > o->size - (a - o->base)) memError(s, a, n, wr);
  if (wr && o->ro) { report(s, "memory", "store to constant '" + o->name + "'", *s.model); throw PathEnd(); }
  return i;
}
static E fresh(State& s, unsigned w) {
  E r = nullptr;
  while (w) { unsigned k = std::min(w, 64u); E v = namedVar("garb" + std::to_string(s.garb++), k); r = r ? mkConcat(v, r) : v; w -= k; }
  return r;
}
static Byte& byteAt(State& s, size_t i, uint64_t off) {
  if (s.mem[i]->b[off].e) return s.mem[i]->b[off];
  Obj* o = writable(s, i);
  o->b[off] = Byte{fresh(s, 8), 0, 1};
  return o->b[off];
}
static E loadRaw(State& s, uint64_t a, uint64_t n) {
  size_t i = checkAccess(s, a, n, false);
  uint64_t off = a - s.mem[i]->base;
  E r = nullptr;
  for (uint64_t k = 0; k < n;) {
    Byte b = byteAt(s, i, off + k);
    uint64_t m = 1;
    while (k + m < n) { const Byte& c = s.mem[i]->b[off + k + m]; if (c.e == b.e && c.n == b.n && b.n > 1 && c.i == b.i + m) m++; else break; }
    E x = b.n == 1 ? b.e : mkExtract(b.e, 8 * b.i, 8 * m);
    r = r ? mkConcat(x, r) : x;
    k += m;
  }
  return r;
}
static void storeRaw(State& s, uint64_t a, E v) {
  uint64_t n = v->w / 8;
  size_t i = checkAccess(s, a, n, true);
  Obj* o = writable(s, i);
  uint64_t off = a - o->base;
  if (v->isConst()) { for (uint64_t k = 0; k < n; k++) o->b[off + k] = Byte{mkExtract(v, 8 * k, 8), 0, 1}; return; }
  for (uint64_t k = 0; k < n; k++) o->b[off + k] = Byte{v, (uint16_t)k, (uint16_t)n};
}
static bool iteLeaves(E a, E cond, vector<std::pair<E, uint64_t>>& out) {
  if (a->isConst()) { out.push_back({cond, a->val.getZExtValue()}); return out.size() <= 8; }
  if (a->op == Op::Ite) return iteLeaves(a->k[1], mkAnd(cond, a->k[0]), out) && iteLeaves(a->k[2], mkAnd(cond, mkNot(a->k[0])), out);
  return false;
}
static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isFP128Ty()) return 128;
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * widthOf(v->getElementType());
  string str; raw_string_ostream os(str); t->print(os);
  throw Unsup{"type " + os.str()};
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy(); }
static E loadScalar(State& s, E addr, Type* t) {
  unsigned w = widthOf(t);
  uint64_t n = DL->getTypeStoreSize(t).getFixedValue();
  if (!addr->isConst()) {
    auto it = s.conc.find(addr);
    if (it == s.conc.end()) {
      vector<std::pair<E, uint64_t>> lv;
      if (addr->op == Op::Ite && iteLeaves(addr, mkTrue(), lv)) {
        bool ok = true;
        for (auto& l : lv) { Obj* o = findObj(s, l.second); if (!o || n > o->size - (l.second - o->base)) ok = false; }
        if (ok) {
          E r = nullptr;
          for (auto& l : lv) { E v = mkTrunc(loadRaw(s, l.second, n), w); r = r ? mkIte(l.first, v, r) : v; }
          return r;
        }
      }
    }
  }
  uint64_t a = concretize(s, addr, "load address");
  E v = loadRaw(s, a, n);
  return mkTrunc(v, w);
}
static void storeScalar(State& s, E addr, E v, Type* t) {
  uint64_t n = DL->getTypeStoreSize(t).getFixedValue();
  uint64_t a = concretize(s, addr, "store address");
  storeRaw(s, a, mkZExt(v, n * 8));
}
static Val loadVal(State& s, E addr, Type* t) {
  if (!isAgg(t)) return loadScalar(s, addr, t);
  Val r; r.agg = std::make_shared<vector<Val>>();
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      r.agg->push_back(loadVal(s, mkAdd(addr, mkConst(64, sl->getElementOffset(i))), st->getElementType(i)));
  } else {
    auto* at = cast<ArrayType>(t);
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadVal(s, mkAdd(addr, mkConst(64, sz * i)), at->getElementType()));
  }
  return r;
}
static void storeVal(State& s, E addr, const Val& v, Type* t) {
  if (!isAgg(t)) { storeScalar(s, addr, v.e, t); return; }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(s, mkAdd(addr, mkConst(64, sl->getElementOffset(i))), (*v.agg)[i], st->getElementType(i));
  } else {
    auto* at = cast<ArrayType>(t);
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) storeVal(s, mkAdd(addr, mkConst(64, sz * i)), (*v.agg)[i], at->getElementType());
  }
}

// ---- constants ------------------------------------------------------------
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::map<uint64_t, const Function*> faddr;

static E binop(State& s, unsigned opc, E a, E b);
static Val constVal(State& s, const Constant* c);
static E gepOffset(State& s, const GEPOperator* g, std::function<E(const Value*)> get) {
  E a = get(g->getPointerOperand());
  unsigned AW = a->w;
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
    const Value* idx = gti.getOperand();
    if (StructType* st = gti.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      a = mkAdd(a, mkConst(AW, DL->getStructLayout(st)->getElementOffset(f)));
    } else {
      uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
      E i = get(idx);
      i = i->w < 64 ? mkSExt(i, 64) : mkTrunc(i, 64);
      a = mkAdd(a, mkMul(i, mkConst(64, sz)));
    }
  }
  return a;
}
static Val undefVal(State& s, Type* t) {
  if (isAgg(t)) {
    Val r; r.agg = std::make_shared<vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(undefVal(s, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
    return r;
  }
  return fresh(s, widthOf(t));
}
static Val zeroVal(Type* t) {
  if (isAgg(t)) {
    Val r; r.agg = std::make_shared<vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(zeroVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
    return r;
  }
  return mkConst(widthOf(t), 0);
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNe(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SGE: return mkSle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SLE: return mkSle(a, b);
    default: throw Unsup{"icmp predicate"};
  }
}
static E castOp(unsigned opc, E v, unsigned w) {
  switch (opc) {
    case Instruction::Trunc: return mkTrunc(v, w);
    case Instruction::ZExt: return mkZExt(v, w);
    case Instruction::SExt: return mkSExt(v, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return v->w > w ? mkTrunc(v, w) : mkZExt(v, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
    case Instruction::UIToFP: return mkFP(Op::FFromU, 0, w, v);
    case Instruction::SIToFP: return mkFP(Op::FFromS, 0, w, v);
    case Instruction::FPToUI: return mkFP(Op::FToU, 0, w, v);
    case Instruction::FPToSI: return mkFP(Op::FToS, 0, w, v);
    case Instruction::FPExt: case Instruction::FPTrunc: return mkFP(Op::FCast, 0, w, v);
    default: throw Unsup{"cast"};
  }
}
static Val constVal(State& s, const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return mkConst(ci->getValue());
  if (auto* cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return mkConst(64, 0);
  if (isa<UndefValue>(c)) return undefVal(s, c->getType());
  if (isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* al = dyn_cast<GlobalAlias>(g)) return constVal(s, al->getAliasee());
    auto it = gaddr.find(g);
    if (it == gaddr.end()) throw Unsup{"global " + g->getName().str()};
    return mkConst(64, it->second);
  }
  if (auto* cv = dyn_cast<ConstantDataSequential>(c)) {
    if (c->getType()->isVectorTy()) {
      E r = nullptr;
      for (unsigned i = 0; i < cv->getNumElements(); i++) { E x = constVal(s, cv->getElementAsConstant(i)).e; r = r ? mkConcat(x, r) : x; }
      return r;
    }
    Val r; r.agg = std::make_shared<vector<Val>>();
    for (unsigned i = 0; i < cv->getNumElements(); i++) r.agg->push_back(constVal(s, cv->getElementAsConstant(i)));
    return r;
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    E r = nullptr;
    for (unsigned i = 0; i < cv->getNumOperands(); i++) { E x = constVal(s, cv->getOperand(i)).e; r = r ? mkConcat(x, r) : x; }
    return r;
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    Val r; r.agg = std::make_shared<vector<Val>>();
    for (unsigned i = 0; i < c->getNumOperands(); i++) r.agg->push_back(constVal(s, cast<Constant>(c->getOperand(i))));
    return r;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto get = [&](const Value* v) { return constVal(s, cast<Constant>(v)).e; };
    if (auto* g = dyn_cast<GEPOperator>(ce)) return gepOffset(s, g, get);
    if (ce->isCast()) return castOp(ce->getOpcode(), get(ce->getOperand(0)), widthOf(ce->getType()));
    if (ce->isCompare()) return icmp((CmpInst::Predicate)ce->getPredicate(), get(ce->getOperand(0)), get(ce->getOperand(1)));
    if (Instruction::isBinaryOp(ce->getOpcode())) return binop(s, ce->getOpcode(), get(ce->getOperand(0)), get(ce->getOperand(1)));
  }
  string str; raw_string_ostream os(str); c->print(os);
  throw Unsup{"constant " + os.str()};
}

static E binop(State& s, unsigned opc, E a, E b) {
  switch (opc) {
    case Instruction::Add: return mkAdd(a, b);
    case Instruction::Sub: return mkSub(a, b);
    case Instruction::Mul: return mkMul(a, b);
    case Instruction::And: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: return mkXor(a, b);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      // machine semantics of the x86 shifts the build uses: count modulo 32/64
      if (a->w == 32 || a->w == 64) b = mkAnd(b, mkConst(a->w, a->w - 1));
      return opc == Instruction::Shl ? mkShl(a, b) : opc == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b); }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      if (!b->isConst() || b->val.isZero()) doAssert(s, mkNe(b, mkConst(b->w, 0)), "div", "division by zero");
      return opc == Instruction::UDiv ? mkUDiv(a, b) : opc == Instruction::SDiv ? mkSDiv(a, b) : opc == Instruction::URem ? mkURem(a, b) : mkSRem(a, b);
    case Instruction::FAdd: return mkFP(Op::FBin, 0, a->w, a, b);
    case Instruction::FSub: return mkFP(Op::FBin, 1, a->w, a, b);
    case Instruction::FMul: return mkFP(Op::FBin, 2, a->w, a, b);
    case Instruction::FDiv: return mkFP(Op::FBin, 3, a->w, a, b);
    default: throw Unsup{"binary operator " + std::to_string(opc)};
  }
}

// lane-wise helper
static unsigned lanesOf(Type* t) { auto* v = dyn_cast<FixedVectorType>(t); return v ? v->getNumElements() : 1; }
static E lane(E v, unsigned i, unsigned w) { return mkExtract(v, i * w, w); }
template <class F> static E mapLanes(Type* t, F f) {
  unsigned n = lanesOf(t);
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E x = f(i); r = r ? mkConcat(x, r) : x; }
  return r;
}

static E getE(State& s, const Value* v);
static Val getV(State& s, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
  Frame& f = s.st.back();
  auto it = f.fi->num.find(v);
  if (it == f.fi->num.end()) throw Unsup{"operand"};
  return f.regs[it->second];
}
static E getE(State& s, const Value* v) { Val x = getV(s, v); if (!x.e) throw Unsup{"aggregate used as scalar"}; return x.e; }
static void setV(State& s, const Value* v, Val x) { Frame& f = s.st.back(); f.regs[f.fi->num[v]] = x; }

static string cstr(State& s, E p) {
  uint64_t a = concretize(s, p, "string pointer");
  string r;
  for (;;) { E b = loadRaw(s, a++, 1); if (!b->isConst()) throw Unsup{"symbolic C string"}; char c = (char)b->val.getZExtValue(); if (!c) break; r += c; }
  return r;
}

static void enterBlock(State& s, const BasicBlock* to) {
  Frame& f = s.st.back();
  const BasicBlock* from = f.bb;
  vector<std::pair<const Value*, Val>> upd;
  auto it = to->begin();
  for (; it != to->end(); ++it) {
    auto* p = dyn_cast<PHINode>(&*it);
    if (!p) break;
    upd.push_back({p, getV(s, p->getIncomingValueForBlock(from))});
  }
  for (auto& u : upd) setV(s, u.first, u.second);
  f.prev = from; f.bb = to; f.it = it;
  bbSeen.insert(to);
}

static void pushFrame(State& s, const Function* f, const vector<Val>& args, const CallBase* site) {
  if (s.st.size() > 400) throw Unsup{"call depth"};
  Frame fr;
  fr.fi = infoOf(f);
  fr.regs.resize(fr.fi->n);
  for (unsigned i = 0; i < f->arg_size(); i++) fr.regs[i] = args[i];
  fr.bb = &f->getEntryBlock();
  fr.it = fr.bb->begin();
  fr.site = site;
  bbSeen.insert(fr.bb);
  s.st.push_back(std::move(fr));
  static std::set<const Function*> seen;
  if (seen.insert(f).second) {
    string d = demangle(f->getName().str());
    fnSeen.insert(d);
  }
}
static void popAllocas(State& s, Frame& fr) {
  for (uint64_t b : fr.allocas) { size_t i; Obj* o = findObj(s, b, &i); if (o && o->base == b) s.mem.erase(s.mem.begin() + i); }
}
static void finishPath(State& s, bool threw) {
  nPaths++;
  if (threw) nThrow++;
  Trace t; t.inputs = inputsUnder(s, *s.model);
  for (E e : s.observed) t.obs.push_back(evalIn(s, e).getLimitedValue());
  t.threw = threw;
  if (traces.size() < keepTraces) traces.push_back(t);
  else if (keepTraces) { uint64_t j = rng() % nPaths; if (j < keepTraces) traces[j] = t; }
  throw PathEnd();
}
// Exceptions: unwinding is followed when some frame has a catch-all handler;
// otherwise the path ends with the exception leaving the harness.
static void unwind(State& s) {
  for (;; ) {
    Frame& f = s.st.back();
    if (auto* inv = dyn_cast<InvokeInst>(&*f.it)) {
      enterBlock(s, inv->getUnwindDest());
      Frame& g = s.st.back();
      auto* lp = dyn_cast<LandingPadInst>(&*g.it);
      if (!lp) throw Unsup{"unwind destination"};
      unsigned sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) {
        if (!lp->isCatch(i) || !isa<ConstantPointerNull>(lp->getClause(i))) throw Unsup{"typed exception handler"};
        sel = 1;
      }
      Val v; v.agg = std::make_shared<vector<Val>>();
      v.agg->push_back(Val(mkConst(64, s.excObj))); v.agg->push_back(Val(mkConst(32, sel)));
      setV(s, lp, v);
      ++g.it;
      return;
    }
    Frame fr = std::move(f);
    s.st.pop_back();
    if (s.st.empty()) throw Unsup{"unwinding past the harness"};
    popAllocas(s, fr);
  }
}
static bool handled(State& s) {
  for (auto& f : s.st) if (auto* inv = dyn_cast<InvokeInst>(&*f.it)) if (auto* lp = inv->getLandingPadInst()) if (lp->getNumClauses()) return true;
  return false;
}
static void doThrow(State& s, const string& what) {
  if (handled(s)) { unwind(s); return; }
  E ok = s.throwOk ? s.throwOk : mkFalse();
  doAssert(s, ok, "exception", "unexpected exception: " + what);
  finishPath(s, true);
}

// after a call returned by model
static void advance(State& s) {
  Frame& f = s.st.back();
  const Instruction& I = *f.it;
  if (auto* inv = dyn_cast<InvokeInst>(&I)) { enterBlock(s, inv->getNormalDest()); return; }
  ++f.it;
}
static void doReturn(State& s, Val v) {
  Frame fr = std::move(s.st.back());
  s.st.pop_back();
  popAllocas(s, fr);
  if (s.st.empty()) finishPath(s, false);
  const CallBase* site = fr.site;
  if (!site->getType()->isVoidTy()) setV(s, site, v);
  advance(s);
}

static E cttzE(E x, E ifZero) {
  E r = ifZero;
  for (int i = (int)x->w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(x->w, i), r);
  return r;
}
static E ctlzE(E x, E ifZero) {
  E r = ifZero;
  for (unsigned i = 0; i < x->w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(x->w, x->w - 1 - i), r);
  return r;
}
static E bitrevE(E x) { E r = nullptr; for (unsigned i = 0; i < x->w; i++) { E b = mkExtract(x, x->w - 1 - i, 1); r = r ? mkConcat(b, r) : b; } return r; }
static E bswapE(E x) { E r = nullptr; unsigned n = x->w / 8; for (unsigned i = 0; i < n; i++) { E b = mkExtract(x, 8 * (n - 1 - i), 8); r = r ? mkConcat(b, r) : b; } return r; }
static E pextE(E x, E m) {
  // r collects selected bits; k = number collected so far
  unsigned w = x->w;
  E r = mkConst(w, 0), k = mkConst(w, 0);
  for (unsigned i = 0; i < w; i++) {
    E b = mkZExt(mkAnd(mkExtract(x, i, 1), mkExtract(m, i, 1)), w);
    r = mkOr(r, mkShl(b, k));
    k = mkAdd(k, mkZExt(mkExtract(m, i, 1), w));
  }
  return r;
}
static E pdepE(E x, E m) {
  unsigned w = x->w;
  E r = nullptr, k = mkConst(w, 0);
  for (unsigned i = 0; i < w; i++) {
    E b = mkAnd(mkExtract(mkLShr(x, k), 0, 1), mkExtract(m, i, 1));
    r = r ? mkConcat(b, r) : b;
    k = mkAdd(k, mkZExt(mkExtract(m, i, 1), w));
  }
  return r;
}

// returns false when the function is not modelled
static bool builtinCall(State& s, const CallBase* cb, const string& name, vector<Val>& a) {
  auto ret = [&](E v) { if (!cb->getType()->isVoidTy()) setV(s, cb, v); advance(s); };
  auto con = [&](int i, const char* what) { return concretize(s, a[i].e, what); };
  // --- harness interface
  if (name == "v_sym") {
    string n = cstr(s, a[0].e);
    unsigned bits = con(1, "v_sym");
    string full = n + "#" + std::to_string(s.occ[n]++);
    E v = namedVar(full, bits);
    s.inputs.push_back({full, v});
    if (v->op == Op::Var && bits <= 64) {   // diverse starting point (any value is allowed here)
      auto m = std::make_shared<Model>(*s.model);
      if (m->v.size() <= v->aux) m->v.resize(v->aux + 1, 0);
      uint64_t x = rng();
      if ((x >> 8) % 5 == 0) x = 0; else if ((x >> 8) % 5 == 1) x = ~0ull;
      m->v[v->aux] = bits == 64 ? x : x & ((1ull << bits) - 1);
      s.model = m;
    }
    ret(mkZExt(v, 64));
    return true;
  }
  if (name == "v_assume") {
    E c = mkNe(a[0].e, mkConst(a[0].e->w, 0));
    if (c->isFalse()) { nDropped++; throw PathEnd(); }
    if (!evalIn(s, c).isOne()) {
      Model m; Res r = feasible(s, c, m);
      if (r == Res::Unsat) { nDropped++; throw PathEnd(); }
      if (r == Res::Unknown) { undecided.insert("assumption at " + whereOf(s)); throw PathEnd(); }
      s.model = std::make_shared<Model>(m);
    }
    addPC(s, c);
    ret(nullptr); return true;
  }
  if (name == "v_assert") {
    E c = mkNe(a[0].e, mkConst(a[0].e->w, 0));
    string msg = cstr(s, a[1].e);
    doAssert(s, c, "assert", msg);
    ret(nullptr); return true;
  }
  if (name == "v_choose") {      // fresh input in [lo, hi]: one path per value
    string n = cstr(s, a[0].e);
    uint64_t lo = con(1, "v_choose"), hi = con(2, "v_choose");
    if (lo > hi) { nDropped++; throw PathEnd(); }
    if (hi - lo > 100000) throw Unsup{"v_choose range"};
    string full = n + "#" + std::to_string(s.occ[n]++);
    E v = namedVar(full, 64);
    s.inputs.push_back({full, v});
    auto set = [&](State& t, uint64_t x) {
      auto m = std::make_shared<Model>(*t.model);
      if (m->v.size() <= v->aux) m->v.resize(v->aux + 1, 0);
      m->v[v->aux] = x; t.model = m;
      setV(t, cb, mkConst(64, x)); advance(t);
    };
    for (uint64_t x = hi; x > lo; x--) { auto t = cloneState(s); set(*t, x); work.push_back(t); }
    set(s, lo);
    return true;
  }
  if (name == "v_align") { s.misalign = con(0, "alignment") % 64; ret(nullptr); return true; }
  if (name == "v_split") { uint64_t v = con(0, "v_split"); ret(mkConst(64, v)); return true; }
  if (name == "v_shard") {
    uint64_t v = con(0, "v_shard");
    if (((v + 1) * 0x9E3779B97F4A7C15ull >> 40) % shardN != shardI) throw PathEnd();
    ret(nullptr); return true;
  }
  if (name == "v_cover") {
    E c = mkNe(a[0].e, mkConst(a[0].e->w, 0));
    string msg = cstr(s, a[1].e);
    bool& cv = covers[msg];
    if (!cv) { Model m; if (feasible(s, c, m) == Res::Sat) cv = true; }
    ret(nullptr); return true;
  }
  if (name == "v_observe") { s.observed.push_back(a[0].e); ret(nullptr); return true; }
  if (name == "v_param") {
    string n = cstr(s, a[0].e);
    auto it = params.find(n);
    ret(it == params.end() ? a[1].e : mkConst(64, it->second));
    return true;
  }
  if (name == "v_use") { ret(nullptr); return true; }
  if (name == "v_fail") { s.failAt = con(0, "v_fail"); ret(nullptr); return true; }
  if (name == "v_throw_ok") { s.throwOk = mkNe(a[0].e, mkConst(a[0].e->w, 0)); ret(nullptr); return true; }
  if (name == "v_end") { finishPath(s, false); }
  // --- allocation
  if (name == "_Znwm" || name == "_Znam" || name == "malloc") {
    if (s.failAt && name != "malloc" && --s.failAt == 0) { s.excObj = 0; doThrow(s, "bad_alloc"); return true; }
    uint64_t n = con(0, "allocation size");
    ret(mkConst(64, allocObj(s, n, name == "malloc" ? "malloc" : "new", name == "_Znwm" ? 1 : name == "_Znam" ? 2 : 3)));
    return true;
  }
  if (name == "_ZdlPv" || name == "_ZdlPvm" || name == "_ZdaPv" || name == "_ZdaPvm" || name == "free") {
    uint64_t p = con(0, "freed pointer");
    if (p) {
      size_t i; Obj* o = findObj(s, p, &i);
      int want = name == "free" ? 3 : name.compare(0, 5, "_ZdaP") == 0 ? 2 : 1;
      if (!o || o->base != p || o->akind != want) { report(s, "memory", "invalid free", *s.model); throw PathEnd(); }
      if ((name == "_ZdlPvm" || name == "_ZdaPvm") && a.size() > 1) {
        doAssert(s, mkEq(a[1].e, mkConst(64, o->size)), "memory", "sized delete with the wrong size");
      }
      s.mem.erase(s.mem.begin() + i);
    }
    ret(nullptr); return true;
  }
  if (name == "memcpy" || name == "memmove") {
    uint64_t n = con(2, "memcpy size"), d = con(0, "memcpy dst"), q = con(1, "memcpy src");
    if (n) {
      size_t i = checkAccess(s, q, n, false);
      vector<Byte> tmp;
      for (uint64_t k = 0; k < n; k++) tmp.push_back(byteAt(s, i, q - s.mem[i]->base + k));
      size_t j = checkAccess(s, d, n, true);
      Obj* o = writable(s, j);
      std::copy(tmp.begin(), tmp.end(), o->b.begin() + (d - o->base));
    }
    ret(a[0].e); return true;
  }
  if (name == "memset") {
    uint64_t n = con(2, "memset size"), d = con(0, "memset dst");
    if (n) { size_t j = checkAccess(s, d, n, true); Obj* o = writable(s, j); E v = mkTrunc(a[1].e, 8); for (uint64_t k = 0; k < n; k++) o->b[d - o->base + k] = Byte{v, 0, 1}; }
    ret(a[0].e); return true;
  }
  if (name == "memcmp" || name == "bcmp") {
    uint64_t n = con(2, "memcmp size"), p = con(0, "memcmp a"), q = con(1, "memcmp b");
    E all = mkTrue(), less = mkFalse();
    for (uint64_t k = n; k-- > 0;) {
      E x = loadRaw(s, p + k, 1), y = loadRaw(s, q + k, 1);
      less = mkIte(mkEq(x, y), less, mkUlt(x, y));
    }
    for (uint64_t k = 0; k < n; k += 8) { uint64_t m = std::min<uint64_t>(8, n - k); all = mkAnd(all, mkEq(loadRaw(s, p + k, m), loadRaw(s, q + k, m))); }
    E r = mkIte(all, mkConst(32, 0), mkIte(less, mkConst(APInt::getAllOnes(32)), mkConst(32, 1)));
    ret(r); return true;
  }
  if (name == "strlen") { uint64_t p = con(0, "strlen"); uint64_t n = 0; for (;; n++) { E b = loadRaw(s, p + n, 1); if (decide(s, mkEq(b, mkConst(8, 0)), "strlen")) break; } ret(mkConst(64, n)); return true; }
  if (name == "memchr") {
    uint64_t p = con(0, "memchr"), n = con(2, "memchr");
    E r = mkConst(64, 0); E c = mkTrunc(a[1].e, 8);
    for (uint64_t k = n; k-- > 0;) r = mkIte(mkEq(loadRaw(s, p + k, 1), c), mkConst(64, p + k), r);
    ret(r); return true;
  }
  // --- failure / exceptions
  if (name == "__assert_fail") {
    string m = "library assertion failed: " + cstr(s, a[0].e);
    report(s, "assert", m, *s.model); throw PathEnd();
  }
  if (name == "abort" || name == "_ZSt9terminatev" || name == "__clang_call_terminate" || name == "exit" || name == "_exit") {
    report(s, "abort", name + " reached", *s.model); throw PathEnd();
  }
  if (name == "__cxa_allocate_exception") { uint64_t n = con(0, "exception size"); ret(mkConst(64, allocObj(s, n, "exception", 0))); return true; }
  if (name == "__cxa_throw") { s.excObj = con(0, "exception"); doThrow(s, "throw"); return true; }
  if (name == "__cxa_rethrow") { doThrow(s, "rethrow"); return true; }
  if (name == "__cxa_begin_catch") { ret(a[0].e); return true; }
  if (name == "__cxa_end_catch") { ret(nullptr); return true; }
  if (name.compare(0, 10, "_ZSt17__th") == 0 || name.compare(0, 6, "_ZSt19") == 0 || name.find("__throw_") != string::npos) { s.excObj = 0; doThrow(s, demangle(name)); return true; }
  if (name == "__cxa_free_exception" || name == "__cxa_guard_release") { ret(nullptr); return true; }
  if (name == "__cxa_guard_acquire") {
    uint64_t g = con(0, "guard");
    E b = loadRaw(s, g, 1);
    if (b->isConst() && b->val.isZero()) { storeRaw(s, g, mkConst(8, 1)); ret(mkConst(32, 1)); } else ret(mkConst(32, 0));
    return true;
  }
  if (name == "__cxa_atexit") { ret(mkConst(32, 0)); return true; }
  if (name.compare(0, 4, "_ZNS") == 0 && (name.find("out_of_rangeC") != string::npos || name.find("_errorC") != string::npos)) { ret(nullptr); return true; }
  if (name == "_ZNSt8ios_base4InitC1Ev") { ret(nullptr); return true; }
  return false;
}

static uint64_t con3(State& s, E e) { return concretize(s, e, "immediate"); }
static bool intrinsicCall(State& s, const CallBase* cb, const Function* f, vector<Val>& a) {
  auto ret = [&](Val v) { if (!cb->getType()->isVoidTy()) setV(s, cb, v); advance(s); };
  Type* T = cb->getType();
  unsigned n = lanesOf(T);
  auto lw = [&]() { return widthOf(T) / n; };
  auto L = [&](int k, unsigned i) { return lane(a[k].e, i, a[k].e->w / n); };
  switch (f->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::prefetch:
    case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: ret(Val()); return true;
    case Intrinsic::stacksave: ret(mkConst(64, 0)); return true;
    case Intrinsic::invariant_start: ret(mkConst(64, 0)); return true;
    case Intrinsic::invariant_end: ret(Val()); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: ret(a[0]); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: ret(a[0]); return true;
    case Intrinsic::is_constant: ret(mkFalse()); return true;
    case Intrinsic::objectsize: ret(mkConst(widthOf(T), a[1].e->isTrue() ? 0 : ~0ull)); return true;
    case Intrinsic::trap: report(s, "abort", "trap reached", *s.model); throw PathEnd();
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return builtinCall(s, cb, "memmove", a);
    case Intrinsic::memset: return builtinCall(s, cb, "memset", a);
    case Intrinsic::ctpop: ret(mapLanes(T, [&](unsigned i) { return mkPopcnt(L(0, i)); })); return true;
    case Intrinsic::cttz: ret(mapLanes(T, [&](unsigned i) { E x = L(0, i); return cttzE(x, a[1].e->isTrue() ? fresh(s, x->w) : mkConst(x->w, x->w)); })); return true;
    case Intrinsic::ctlz: ret(mapLanes(T, [&](unsigned i) { E x = L(0, i); return ctlzE(x, a[1].e->isTrue() ? fresh(s, x->w) : mkConst(x->w, x->w)); })); return true;
    case Intrinsic::bswap: ret(mapLanes(T, [&](unsigned i) { return bswapE(L(0, i)); })); return true;
    case Intrinsic::bitreverse: ret(mapLanes(T, [&](unsigned i) { return bitrevE(L(0, i)); })); return true;
    case Intrinsic::umin: ret(mapLanes(T, [&](unsigned i) { return mkIte(mkUlt(L(0, i), L(1, i)), L(0, i), L(1, i)); })); return true;
    case Intrinsic::umax: ret(mapLanes(T, [&](unsigned i) { return mkIte(mkUlt(L(0, i), L(1, i)), L(1, i), L(0, i)); })); return true;
    case Intrinsic::smin: ret(mapLanes(T, [&](unsigned i) { return mkIte(mkSlt(L(0, i), L(1, i)), L(0, i), L(1, i)); })); return true;
    case Intrinsic::smax: ret(mapLanes(T, [&](unsigned i) { return mkIte(mkSlt(L(0, i), L(1, i)), L(1, i), L(0, i)); })); return true;
    case Intrinsic::abs: ret(mapLanes(T, [&](unsigned i) { E x = L(0, i); return mkIte(mkSlt(x, mkConst(x->w, 0)), mkNeg(x), x); })); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool left = f->getIntrinsicID() == Intrinsic::fshl;
      ret(mapLanes(T, [&](unsigned i) {
        E x = L(0, i), y = L(1, i), z = L(2, i); unsigned w = x->w;
        E c = mkURem(z, mkConst(w, w));
        E cat = mkConcat(x, y);
        if (left) return mkExtract(mkShl(cat, mkZExt(c, 2 * w)), w, w);
        return mkExtract(mkLShr(cat, mkZExt(c, 2 * w)), 0, w); }));
      return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = a[0].e, y = a[1].e; unsigned w = x->w; auto id = f->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      E X = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w), Y = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w);
      E R = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? mkAdd(X, Y)
          : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? mkSub(X, Y) : mkMul(X, Y);
      E lo = mkTrunc(R, w);
      E ov = mkNe(R, sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w));
      Val r; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(lo); r.agg->push_back(ov);
      ret(r); return true; }
    case Intrinsic::usub_sat: ret(mapLanes(T, [&](unsigned i) { return mkIte(mkUlt(L(0, i), L(1, i)), mkConst(lw(), 0), mkSub(L(0, i), L(1, i))); })); return true;
    case Intrinsic::uadd_sat: ret(mapLanes(T, [&](unsigned i) { E r = mkAdd(L(0, i), L(1, i)); return mkIte(mkUlt(r, L(0, i)), mkConst(APInt::getAllOnes(lw())), r); })); return true;
    case Intrinsic::ceil: ret(mkFP(Op::FRound, 0, a[0].e->w, a[0].e)); return true;
    case Intrinsic::floor: ret(mkFP(Op::FRound, 1, a[0].e->w, a[0].e)); return true;
    case Intrinsic::trunc: ret(mkFP(Op::FRound, 2, a[0].e->w, a[0].e)); return true;
    case Intrinsic::vector_reduce_add: {
      unsigned m = lanesOf(cb->getArgOperand(0)->getType()), w = a[0].e->w / m; E r = mkConst(w, 0);
      for (unsigned i = 0; i < m; i++) r = mkAdd(r, lane(a[0].e, i, w));
      ret(r); return true; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: {
      unsigned m = lanesOf(cb->getArgOperand(0)->getType()), w = a[0].e->w / m; E r = lane(a[0].e, 0, w);
      for (unsigned i = 1; i < m; i++) r = f->getIntrinsicID() == Intrinsic::vector_reduce_or ? mkOr(r, lane(a[0].e, i, w)) : mkAnd(r, lane(a[0].e, i, w));
      ret(r); return true; }
    default: break;
  }
  string nm = f->getName().str();
  auto X = [&](int k, unsigned i, unsigned w) { return lane(a[k].e, i, w); };
  auto cat = [&](unsigned cnt, std::function<E(unsigned)> g) { E r = nullptr; for (unsigned i = 0; i < cnt; i++) { E x = g(i); r = r ? mkConcat(x, r) : x; } return r; };
  if (nm.find("llvm.x86.bmi.pext") == 0) { ret(pextE(a[0].e, a[1].e)); return true; }
  if (nm.find("llvm.x86.bmi.pdep") == 0) { ret(pdepE(a[0].e, a[1].e)); return true; }
  if (nm.find("llvm.x86.bmi.bextr") == 0) {
    E x = a[0].e; unsigned w = x->w; E st = mkZExt(mkExtract(a[1].e, 0, 8), w), ln = mkZExt(mkExtract(a[1].e, 8, 8), w);
    E sh = mkLShr(x, st);
    E mask = mkIte(mkUlt(ln, mkConst(w, w)), mkSub(mkShl(mkConst(w, 1), ln), mkConst(w, 1)), mkConst(APInt::getAllOnes(w)));
    ret(mkAnd(sh, mask)); return true;
  }
  if (nm.find("llvm.x86.avx512.pternlog") == 0) {
    uint64_t tbl = con3(s, a[3].e);
    E x = a[0].e, y = a[1].e, z = a[2].e, r = mkConst(x->w, 0);
    if (tbl == 0x96) r = mkXor(mkXor(x, y), z);
    else if (tbl == 0xe8) r = mkOr(mkAnd(x, y), mkAnd(mkXor(x, y), z));
    else for (unsigned i = 0; i < 8; i++) if (tbl >> i & 1)
      r = mkOr(r, mkAnd(mkAnd(i & 4 ? x : mkNot(x), i & 2 ? y : mkNot(y)), i & 1 ? z : mkNot(z)));
    ret(r); return true;
  }
  if (nm.find("llvm.x86.addcarry") == 0 || nm.find("llvm.x86.subborrow") == 0) {
    bool sub = nm.find("sub") != string::npos;
    E x = a[1].e, y = a[2].e; unsigned w = x->w;
    E c = mkZExt(mkBool(false), w + 1);
    c = mkZExt(mkNe(a[0].e, mkConst(a[0].e->w, 0)), w + 1);
    E r = sub ? mkSub(mkSub(mkZExt(x, w + 1), mkZExt(y, w + 1)), c) : mkAdd(mkAdd(mkZExt(x, w + 1), mkZExt(y, w + 1)), c);
    Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back(mkZExt(mkExtract(r, w, 1), 8)); v.agg->push_back(mkTrunc(r, w));
    ret(v); return true;
  }
  if (nm.find("llvm.x86.sse2.pmovmskb") == 0 || nm == "llvm.x86.avx2.pmovmskb") { ret(mkZExt(cat(a[0].e->w / 8, [&](unsigned i) { return mkExtract(a[0].e, 8 * i + 7, 1); }), 32)); return true; }
  if (nm == "llvm.x86.sse2.movmsk.pd") { ret(mkZExt(cat(2, [&](unsigned i) { return mkExtract(a[0].e, 64 * i + 63, 1); }), 32)); return true; }
  if (nm == "llvm.x86.sse.movmsk.ps") { ret(mkZExt(cat(4, [&](unsigned i) { return mkExtract(a[0].e, 32 * i + 31, 1); }), 32)); return true; }
  if (nm == "llvm.x86.sse2.psad.bw" || nm == "llvm.x86.avx2.psad.bw" || nm == "llvm.x86.avx512.psad.bw.512") {
    unsigned q = a[0].e->w / 64;
    ret(cat(q, [&](unsigned i) { E sum = mkConst(64, 0); for (unsigned j = 0; j < 8; j++) { E x = X(0, 8 * i + j, 8), y = X(1, 8 * i + j, 8);
      E d = mkIte(mkUlt(x, y), mkSub(y, x), mkSub(x, y)); sum = mkAdd(sum, mkZExt(d, 64)); } return sum; }));
    return true;
  }
  if (nm == "llvm.x86.ssse3.pshuf.b.128" || nm == "llvm.x86.avx2.pshuf.b" || nm == "llvm.x86.avx512.pshuf.b.512") {
    unsigned nb = a[0].e->w / 8;
    ret(cat(nb, [&](unsigned i) {
      E c = X(1, i, 8); unsigned base = i / 16 * 16;
      E r = mkConst(8, 0);
      for (unsigned j = 0; j < 16; j++) r = mkIte(mkEq(mkExtract(c, 0, 4), mkConst(4, j)), X(0, base + j, 8), r);
      return mkIte(mkExtract(c, 7, 1), mkConst(8, 0), r); }));
    return true;
  }
  if (nm == "llvm.x86.sse2.packsswb.128" || nm == "llvm.x86.sse2.packssdw.128" || nm == "llvm.x86.sse2.packuswb.128") {
    unsigned ew = nm.find("dw") != string::npos ? 32 : 16, h = ew / 2, m = 128 / ew;
    bool u = nm.find("packus") != string::npos;
    ret(cat(2 * m, [&](unsigned i) {
      E x = i < m ? X(0, i, ew) : X(1, i - m, ew);
      E lo = u ? mkConst(ew, 0) : mkSExt(mkShl(mkConst(h, 1), mkConst(h, h - 1)), ew), hi = mkConst(ew, u ? (1ull << h) - 1 : (1ull << (h - 1)) - 1);
      return mkIte(mkSlt(x, lo), mkTrunc(lo, h), mkIte(mkSlt(hi, x), mkTrunc(hi, h), mkTrunc(x, h))); }));
    return true;
  }
  auto vshift = [&](unsigned ew, int kind, E cnt64) { // 0 sll 1 srl 2 sra
    unsigned m = a[0].e->w / ew;
    return cat(m, [&](unsigned i) {
      E x = X(0, i, ew); E big = mkUlt(mkConst(64, ew - 1), cnt64); E c = mkTrunc(cnt64, ew);
      if (kind == 0) return mkIte(big, mkConst(ew, 0), mkShl(x, c));
      if (kind == 1) return mkIte(big, mkConst(ew, 0), mkLShr(x, c));
      return mkIte(big, mkAShr(x, mkConst(ew, ew - 1)), mkAShr(x, c)); }); };
  {
    size_t p = nm.find(".ps");
    if ((nm.find("llvm.x86.sse2.ps") == 0 || nm.find("llvm.x86.avx2.ps") == 0 || nm.find("llvm.x86.avx512.ps") == 0) && p != string::npos) {
      string t = nm.substr(p + 1); // psll.w / pslli.w / psrl.q ...
      int kind = t.compare(0, 4, "psll") == 0 ? 0 : t.compare(0, 4, "psrl") == 0 ? 1 : t.compare(0, 4, "psra") == 0 ? 2 : -1;
      if (t.size() > 4 && t.compare(t.size() - 4, 4, ".512") == 0) t.resize(t.size() - 4);
      char last = t.back();
      unsigned ew = last == 'w' ? 16 : last == 'd' ? 32 : 64;
      bool imm = t.size() > 4 && t[4] == 'i', var = t.size() > 4 && t[4] == 'v';
      if (kind >= 0 && !var) { ret(vshift(ew, kind, imm ? mkZExt(a[1].e, 64) : mkExtract(a[1].e, 0, 64))); return true; }
    }
  }
  return false;
}

static bool asmCall(State& s, const CallBase* cb, const InlineAsm* ia, vector<Val>& a) {
  string t = ia->getAsmString();
  auto ret = [&](Val v) { if (!cb->getType()->isVoidTy()) setV(s, cb, v); advance(s); };
  if (t.find("popcnt") != string::npos) { ret(mkPopcnt(a[0].e)); return true; }
  if (t.find("cpuid") != string::npos || t.find("xgetbv") != string::npos) {
    string nm = t.find("cpuid") != string::npos ? "cpuid" : "xgetbv";
    auto pit = params.find("cpu");
    unsigned fld = 0;
    auto mk = [&](unsigned w) -> E {
      unsigned i = fld++;
      if (pit != params.end()) {   // fixed feature set: 0 none, 1 POPCNT, 2 +AVX2, 3 +AVX-512BW
        uint64_t lv = pit->second;
        bool x = nm == "xgetbv";
        uint64_t leaf1c = (lv ? 1u << 23 : 0) | (1u << 27), leaf7b = (lv >= 2 ? 1u << 5 : 0) | (lv >= 3 ? 1u << 30 : 0);
        if (x) return mkConst(w, lv >= 3 ? 0xe6 : lv >= 2 ? 0x06 : 0x02);
        // outputs: ebx, eax, ecx, edx
        bool leaf7 = a.size() >= 2 && a[1].e && a[1].e->isConst() && a[1].e->val == 7;
        return mkConst(w, leaf7 ? (i == 0 ? leaf7b : 0) : (i == 2 ? leaf1c : 0)); }
      string full = nm + "#" + std::to_string(s.occ[nm]++);
      return namedVar(full, w); };
    if (auto* st = dyn_cast<StructType>(cb->getType())) {
      Val v; v.agg = std::make_shared<vector<Val>>();
      for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(mk(widthOf(st->getElementType(i))));
      ret(v);
    } else if (cb->getType()->isVoidTy()) ret(Val()); else ret(mk(widthOf(cb->getType())));
    return true;
  }
  if (t.empty()) { if (cb->getType()->isVoidTy()) { ret(Val()); return true; } if (a.size() == 1) { ret(a[0]); return true; } }
  throw Unsup{"inline asm: " + t};
}

static std::set<string> summaries;
static void doCall(State& s, const CallBase* cb) {
  vector<Val> args;
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    if (cb->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(Val()); continue; }
    args.push_back(getV(s, cb->getArgOperand(i)));
  }
  const Value* callee = cb->getCalledOperand()->stripPointerCasts();
  if (auto* ia = dyn_cast<InlineAsm>(callee)) { asmCall(s, cb, ia, args); return; }
  const Function* f = dyn_cast<Function>(callee);
  if (!f) {
    if (auto* al = dyn_cast<GlobalAlias>(callee)) f = dyn_cast<Function>(al->getAliasee());
  }
  if (!f) {
    uint64_t p = concretize(s, getE(s, cb->getCalledOperand()), "call target");
    auto it = faddr.find(p);
    if (it == faddr.end()) { report(s, "memory", "call through invalid pointer", *s.model); throw PathEnd(); }
    f = it->second;
  }
  if (f->isIntrinsic()) { if (!intrinsicCall(s, cb, f, args)) throw Unsup{"intrinsic " + f->getName().str()}; return; }
  string name = f->getName().str();
  if (f->isDeclaration() || name == "__clang_call_terminate") {
    if (!builtinCall(s, cb, name, args)) throw Unsup{"external function " + demangle(name) + " [" + name + "]"};
    return;
  }
  if (!summaries.empty() && args.size() == 1 && args[0].e) {
    string d = demangle(name);
    if (summaries.count(d.substr(0, d.find('(')))) {
      // function proved (by its own harness) to count the one bits of each 64-bit lane
      unsigned W = widthOf(cb->getType());
      E x = cb->isByValArgument(0) ? loadRaw(s, concretize(s, args[0].e, "byval"), W / 8) : args[0].e;
      if (x->w == W && W % 64 == 0) {
        E r = nullptr;
        for (unsigned i = 0; i < W / 64; i++) { E y = mkPopcnt(mkExtract(x, 64 * i, 64)); r = r ? mkConcat(y, r) : y; }
        fnSeen.insert(d);
        setV(s, cb, r); advance(s); return;
      }
    }
  }
  // byval arguments are copied
  vector<uint64_t> copies;
  vector<std::pair<unsigned, std::pair<uint64_t, uint64_t>>> bv;
  for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) {
    uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
    bv.push_back({i, {concretize(s, args[i].e, "byval"), sz}});
  }
  for (auto& b : bv) {
    uint64_t src = b.second.first, sz = b.second.second;
    size_t i = checkAccess(s, src, sz, false);
    vector<Byte> tmp;
    for (uint64_t k = 0; k < sz; k++) tmp.push_back(s.mem[i]->b[src - s.mem[i]->base + k]);
    uint64_t p = allocObj(s, sz, "byval", 0);
    s.mem.back()->b = tmp;
    args[b.first] = mkConst(64, p);
    copies.push_back(p);
  }
  pushFrame(s, f, args, cb);
  s.st.back().allocas = copies;
}

static void alignCheck(State& s, E a, Type* t, uint64_t al, bool wr) {   // vector instructions fault on misaligned operands
  if (al < 16 || !t->isVectorTy()) return;
  doAssert(s, mkEq(mkAnd(a, mkConst(64, al - 1)), mkConst(64, 0)), "memory", wr ? "misaligned vector store" : "misaligned vector load");
}
static void step(State& s) {
  Frame& fr = s.st.back();
  const Instruction& I = *fr.it;
  s.steps++; nSteps++;
  switch (I.getOpcode()) {
    case Instruction::Alloca: {
      auto& al = cast<AllocaInst>(I);
      uint64_t n = 1;
      if (al.isArrayAllocation()) n = concretize(s, getE(s, al.getArraySize()), "alloca size");
      uint64_t p = allocObj(s, n * DL->getTypeAllocSize(al.getAllocatedType()), "stack " + al.getName().str(), 0);
      s.st.back().allocas.push_back(p);
      setV(s, &I, mkConst(64, p));
      break; }
    case Instruction::Load: alignCheck(s, getE(s, I.getOperand(0)), I.getType(), cast<LoadInst>(I).getAlign().value(), false); setV(s, &I, loadVal(s, getE(s, I.getOperand(0)), I.getType())); break;
    case Instruction::Store: alignCheck(s, getE(s, I.getOperand(1)), I.getOperand(0)->getType(), cast<StoreInst>(I).getAlign().value(), true); storeVal(s, getE(s, I.getOperand(1)), getV(s, I.getOperand(0)), I.getOperand(0)->getType()); break;
    case Instruction::GetElementPtr: {
      if (I.getType()->isVectorTy()) throw Unsup{"vector gep"};
      setV(s, &I, gepOffset(s, cast<GEPOperator>(&I), [&](const Value* v) { return getE(s, v); })); break; }
    case Instruction::ICmp: {
      E a = getE(s, I.getOperand(0)), b = getE(s, I.getOperand(1));
      auto p = cast<ICmpInst>(I).getPredicate();
      Type* t = I.getOperand(0)->getType(); unsigned n = lanesOf(t), w = a->w / n;
      setV(s, &I, n == 1 ? icmp(p, a, b) : mapLanes(t, [&](unsigned i) { return icmp(p, lane(a, i, w), lane(b, i, w)); })); break; }
    case Instruction::FCmp: setV(s, &I, mkFP(Op::FCmp, cast<FCmpInst>(I).getPredicate(), 1, getE(s, I.getOperand(0)), getE(s, I.getOperand(1)))); break;
    case Instruction::FNeg: { E a = getE(s, I.getOperand(0)); setV(s, &I, mkXor(a, mkConst(APInt::getSignMask(a->w)))); break; }
    case Instruction::Select: {
      E c = getE(s, I.getOperand(0)); Val x = getV(s, I.getOperand(1)), y = getV(s, I.getOperand(2));
      if (c->w > 1) { unsigned n = c->w, w = x.e->w / n; setV(s, &I, mapLanes(I.getType(), [&](unsigned i) { return mkIte(mkExtract(c, i, 1), lane(x.e, i, w), lane(y.e, i, w)); })); break; }
      { auto it = s.conc.find(c); if (it != s.conc.end()) c = it->second; }
      if (x.agg) {
        std::function<Val(Val, Val)> sel = [&](Val p, Val q) { if (!p.agg) return Val(mkIte(c, p.e, q.e)); Val r; r.agg = std::make_shared<vector<Val>>(); for (size_t i = 0; i < p.agg->size(); i++) r.agg->push_back(sel((*p.agg)[i], (*q.agg)[i])); return r; };
        setV(s, &I, sel(x, y));
      } else setV(s, &I, mkIte(c, x.e, y.e));
      break; }
    case Instruction::Br: {
      auto& b = cast<BranchInst>(I);
      if (b.isUnconditional()) { enterBlock(s, b.getSuccessor(0)); return; }
      bool v = decide(s, getE(s, b.getCondition()), "branch");
      enterBlock(s, b.getSuccessor(v ? 0 : 1));
      return; }
    case Instruction::Switch: {
      auto& sw = cast<SwitchInst>(I);
      E c = getE(s, sw.getCondition());
      for (auto& cs : sw.cases()) if (decide(s, mkEq(c, mkConst(cs.getCaseValue()->getValue())), "switch")) { enterBlock(s, cs.getCaseSuccessor()); return; }
      enterBlock(s, sw.getDefaultDest());
      return; }
    case Instruction::Ret: {
      Val v; if (I.getNumOperands()) v = getV(s, I.getOperand(0));
      doReturn(s, v); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(&I)); return;
    case Instruction::Unreachable: report(s, "abort", "unreachable reached", *s.model); throw PathEnd();
    case Instruction::ExtractValue: {
      Val v = getV(s, I.getOperand(0));
      for (unsigned i : cast<ExtractValueInst>(I).indices()) v = Val((*v.agg)[i]);
      setV(s, &I, v); break; }
    case Instruction::InsertValue: {
      Val v = getV(s, I.getOperand(0)); Val x = getV(s, I.getOperand(1));
      ArrayRef<unsigned> idx = cast<InsertValueInst>(I).getIndices();
      std::function<Val(Val, unsigned)> ins = [&](Val b, unsigned d) -> Val { if (d == idx.size()) return x; Val r; r.agg = std::make_shared<vector<Val>>(*b.agg); (*r.agg)[idx[d]] = ins((*r.agg)[idx[d]], d + 1); return r; };
      setV(s, &I, ins(v, 0)); break; }
    case Instruction::ExtractElement: {
      E v = getE(s, I.getOperand(0)); unsigned w = widthOf(I.getType());
      uint64_t i = concretize(s, getE(s, I.getOperand(1)), "extractelement");
      setV(s, &I, (i + 1) * w <= v->w ? mkExtract(v, i * w, w) : fresh(s, w)); break; }
    case Instruction::InsertElement: {
      E v = getE(s, I.getOperand(0)), x = getE(s, I.getOperand(1)); unsigned w = x->w;
      uint64_t i = concretize(s, getE(s, I.getOperand(2)), "insertelement");
      setV(s, &I, mapLanes(I.getType(), [&](unsigned k) { return k == i ? x : lane(v, k, w); })); break; }
    case Instruction::ShuffleVector: {
      auto& sv = cast<ShuffleVectorInst>(I);
      E x = getE(s, I.getOperand(0)), y = getE(s, I.getOperand(1));
      unsigned n = lanesOf(I.getOperand(0)->getType()), w = x->w / n;
      auto mask = sv.getShuffleMask();
      E r = nullptr;
      for (int m : mask) { E v = m < 0 ? fresh(s, w) : (unsigned)m < n ? lane(x, m, w) : lane(y, m - n, w); r = r ? mkConcat(v, r) : v; }
      setV(s, &I, r); break; }
    case Instruction::Freeze: setV(s, &I, getV(s, I.getOperand(0))); break;
    case Instruction::PHI: throw Unsup{"stray phi"};
    case Instruction::Fence: break;
    case Instruction::LandingPad: throw Unsup{"landing pad"};
    case Instruction::Resume: {
      Frame fr = std::move(s.st.back()); s.st.pop_back();
      if (s.st.empty()) throw Unsup{"unwinding past the harness"};
      popAllocas(s, fr);
      if (!handled(s)) { s.throwOk = s.throwOk ? s.throwOk : mkFalse(); doAssert(s, s.throwOk, "exception", "unexpected exception: rethrown"); finishPath(s, true); }
      unwind(s); return; }
    case Instruction::AtomicRMW: {
      auto& rm = cast<AtomicRMWInst>(I);
      E p = getE(s, rm.getPointerOperand()), v = getE(s, rm.getValOperand());
      E old = loadScalar(s, p, rm.getType());
      E nv;
      switch (rm.getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkSub(old, v); break;
        case AtomicRMWInst::Or: nv = mkOr(old, v); break; case AtomicRMWInst::And: nv = mkAnd(old, v); break; case AtomicRMWInst::Xor: nv = mkXor(old, v); break; default: throw Unsup{"atomicrmw"}; }
      storeScalar(s, p, nv, rm.getType());
      setV(s, &I, old); break; }
    default:
      if (I.isCast()) {
        E v = getE(s, I.getOperand(0));
        Type* t = I.getType();
        if (I.getOpcode() != Instruction::BitCast && t->isVectorTy()) {
          unsigned n = lanesOf(t), w = v->w / n, w2 = widthOf(t) / n;
          setV(s, &I, mapLanes(t, [&](unsigned i) { return castOp(I.getOpcode(), lane(v, i, w), w2); }));
        } else setV(s, &I, castOp(I.getOpcode(), v, widthOf(t)));
        break;
      }
      if (I.isBinaryOp()) {
        E a = getE(s, I.getOperand(0)), b = getE(s, I.getOperand(1));
        unsigned n = lanesOf(I.getType()), w = a->w / n;
        bool bitw = I.getOpcode() == Instruction::And || I.getOpcode() == Instruction::Or || I.getOpcode() == Instruction::Xor;
        if (n == 1 || bitw) setV(s, &I, binop(s, I.getOpcode(), a, b));
        else setV(s, &I, mapLanes(I.getType(), [&](unsigned i) { return binop(s, I.getOpcode(), lane(a, i, w), lane(b, i, w)); }));
        break;
      }
      { string str; raw_string_ostream os(str); I.print(os); throw Unsup{"instruction " + os.str()}; }
  }
  ++s.st.back().it;
}

static void initGlobals(State& s) {
  s.next = 0x10000;
  uint64_t fa = 0x1000;
  for (auto& f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; if (fa >= 0xf000000) break; }
  s.next = std::max<uint64_t>(0x100000, (fa + 0xfffff) & ~0xfffffull);
  for (auto& g : M->globals()) {
    uint64_t sz = 8;
    if (g.getValueType()->isSized()) sz = DL->getTypeAllocSize(g.getValueType());
    gaddr[&g] = allocObj(s, sz, g.getName().str(), 0);
  }
  for (auto& g : M->globals()) {
    if (g.hasInitializer() && !g.getName().starts_with("llvm.")) {
      try { storeVal(s, mkConst(64, gaddr[&g]), constVal(s, g.getInitializer()), g.getValueType()); } catch (Unsup&) {}
      if (g.isConstant()) { size_t i; findObj(s, gaddr[&g], &i); s.mem[i]->ro = true; }
    }
  }
}

static string jesc(const string& x) {
  string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}

static string bcPath, entry, outPath;

static void collectCovers() {
  // every v_cover name mentioned in functions reachable from the entry must be covered
  std::set<const Function*> seen; vector<const Function*> st{M->getFunction(entry)};
  while (!st.empty()) {
    const Function* f = st.back(); st.pop_back();
    if (!f || !seen.insert(f).second) continue;
    for (auto& bb : *f) for (auto& i : bb) if (auto* cb = dyn_cast<CallBase>(&i)) {
      if (auto* g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
        if (g->getName() == "v_cover") {
          if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts()))
            if (gv->hasInitializer()) if (auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) covers.emplace(cd->getAsCString().str(), false);
        } else st.push_back(g);
      }
    }
  }
}

static void* mainThread(void*) {
  LLVMContext C;
  SMDiagnostic err;
  M = parseIRFile(bcPath, err, C);
  if (!M) { err.print("vse", errs()); _exit(3); }
  DL = &M->getDataLayout();
  T0 = std::chrono::steady_clock::now();
  auto s0 = std::make_shared<State>();
  s0->model = std::make_shared<Model>();
  initGlobals(*s0);
  const Function* f = M->getFunction(entry);
  if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); _exit(3); }
  collectCovers();
  pushFrame(*s0, f, {}, nullptr);
  work.push_back(s0);
  s0.reset();
  while (!work.empty() && !g_stop) {
    auto s = work.back(); work.pop_back();
    try {
      for (;;) {
        step(*s);
        if ((nSteps & 1023) == 0) {
          if (elapsed() > maxTime) { g_timeout = true; g_stop = true; undecided.insert("time limit"); break; }
          if (s->steps > 20000000) throw Unsup{"path too long (possible non-termination) at " + whereOf(*s)};
        }
      }
    } catch (PathEnd&) {
    } catch (Unsup& u) {
      unsupported.insert(u.what);
      if (verbose) fprintf(stderr, "UNSUPPORTED %s at %s\n", u.what.c_str(), whereOf(*s).c_str());
    }
    if (elapsed() > maxTime && !work.empty()) { g_timeout = true; undecided.insert("time limit with " + std::to_string(work.size()) + " states pending"); break; }
  }
  double wall = elapsed();
  if (const char* cd = getenv("VSE_COV")) {   // which lines of the library were executed, for reviewing what the harnesses reach
    std::map<std::pair<string, unsigned>, bool> ln;
    for (auto& fn : *M) for (auto& bb : fn) for (auto& in : bb) if (auto* dl = in.getDebugLoc().get()) {
      string p = dl->getFilename().str();
      if (p.find("bitlib/") != string::npos && dl->getLine()) ln[{p.substr(p.rfind('/') + 1), dl->getLine()}] |= bbSeen.count(&bb) > 0;
    }
    FILE* c = fopen((string(cd) + "/" + std::to_string(getpid()) + ".cov").c_str(), "w");
    for (auto& x : ln) fprintf(c, "%s %u %d\n", x.first.first.c_str(), x.first.second, (int)x.second);
    fclose(c);
  }
  // output
  FILE* o = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
  fprintf(o, "{\"entry\":\"%s\",\"paths\":%lu,\"forks\":%lu,\"steps\":%lu,\"asserts\":%lu,\"proved_by_simplifier\":%lu,\"proved_by_solver\":%lu,\"proved_by_bit_index\":%lu,\"throw_paths\":%lu,\"mem_checks\":%lu,\"queries\":%lu,\"unsat\":%lu,\"sat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"timeout\":%s,\"exprs\":%zu,\n",
          jesc(entry).c_str(), nPaths, nForks, nSteps, nAsserts, nProvedSimpl, nProvedSolver, nProvedBit, nThrow, nMemChecks, g_ss.queries, g_ss.unsat, g_ss.sat, g_ss.unknown, g_ss.secs, g_ss.maxq, wall, g_timeout ? "true" : "false", g_exprs.size());
  auto inp = [&](const vector<std::pair<string, uint64_t>>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += "[\"" + jesc(v[i].first) + "\",\"" + std::to_string(v[i].second) + "\"]"; } return r + "]"; };
  fprintf(o, "\"violations\":[");
  for (size_t i = 0; i < viols.size(); i++) fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":%s}", i ? "," : "", viols[i].kind.c_str(), jesc(viols[i].msg).c_str(), jesc(viols[i].where).c_str(), inp(viols[i].inputs).c_str());
  fprintf(o, "],\n\"traces\":[");
  for (size_t i = 0; i < traces.size(); i++) {
    string ob = "["; for (size_t k = 0; k < traces[i].obs.size(); k++) { if (k) ob += ","; ob += "\"" + std::to_string(traces[i].obs[k]) + "\""; } ob += "]";
    fprintf(o, "%s{\"inputs\":%s,\"obs\":%s,\"threw\":%s}", i ? "," : "", inp(traces[i].inputs).c_str(), ob.c_str(), traces[i].threw ? "true" : "false");
  }
  auto list = [&](const char* nm, const std::set<string>& v) { fprintf(o, "],\n\"%s\":[", nm); bool first = true; for (auto& x : v) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } };
  list("undecided", undecided); list("unsupported", unsupported);
  std::set<string> bitf; for (auto& x : fnSeen) if (x.find("bit::") != string::npos || x.find("popcnt") != string::npos || x.find("CSA") != string::npos) bitf.insert(x);
  list("functions", bitf);
  uint64_t nb = 0; for (auto* bb : bbSeen) { string d = demangle(bb->getParent()->getName().str()); if (bitf.count(d)) nb++; }
  fprintf(o, "],\n\"blocks\":%lu,\"covers\":{", nb);
  { bool first = true; for (auto& c : covers) { fprintf(o, "%s\"%s\":%s", first ? "" : ",", jesc(c.first).c_str(), c.second ? "true" : "false"); first = false; } }
  fprintf(o, "}}\n");
  if (o != stdout) fclose(o);
  fflush(stdout);
  _exit(viols.empty() ? (unsupported.empty() && undecided.empty() ? 0 : 2) : 1);
  return nullptr;
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nxt = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = nxt();
    else if (a == "--out") outPath = nxt();
    else if (a == "--param") { string p = nxt(); auto e = p.find('='); params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, nullptr, 0); }
    else if (a == "--shard") { string p = nxt(); sscanf(p.c_str(), "%u/%u", &shardI, &shardN); }
    else if (a == "--timeout") g_timeout_ms = std::stoul(nxt()) * 1000;
    else if (a == "--maxtime") maxTime = std::stod(nxt());
    else if (a == "--maxviol") maxViol = std::stoul(nxt());
    else if (a == "--traces") keepTraces = std::stoul(nxt());
    else if (a == "--seed") rng.seed(std::stoull(nxt()));
    else if (a == "--summary") summaries.insert(nxt());
    else if (a == "-v") verbose = true;
    else bcPath = a;
  }
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 2048ull << 20);
  pthread_t t; pthread_create(&t, &at, mainThread, nullptr);
  pthread_join(t, nullptr);
}
