#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <set>
#include <llvm/ADT/SmallString.h>

SolverStats g_ss;
unsigned g_timeout_ms = 60000;

static Z3_context ctx;
static std::vector<Z3_ast> bvc, boc, bvc2, boc2;   // caches: 0 = exact, 2 = popcnt abstracted
static bool abstractPop = false;
static bool sawPop = false, sawFP = false;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);    // non-rc: asts live for the context's lifetime
  Z3_set_error_handler(ctx, errh);
}
static Z3_ast toBV(E e);
static Z3_ast toBool(E e);
static Z3_ast bvnum(const APInt& v) {
  llvm::SmallString<64> s; v.toString(s, 10, false);
  return Z3_mk_numeral(ctx, s.c_str(), Z3_mk_bv_sort(ctx, v.getBitWidth()));
}
static Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_128(ctx); }
static Z3_ast asF(E e) { return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fsort(e->w)); }
static Z3_ast popTree(Z3_ast x, unsigned xw, unsigned lo, unsigned n, unsigned W) {
  if (n == 1) { Z3_ast b = Z3_mk_extract(ctx, lo, lo, x); return W == 1 ? b : Z3_mk_zero_ext(ctx, W - 1, b); }
  return Z3_mk_bvadd(ctx, popTree(x, xw, lo, n / 2, W), popTree(x, xw, lo + n / 2, n - n / 2, W));
}
static bool isBoolOp(E e) {
  if (e->w != 1) return false;
  switch (e->op) { case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::FCmp: return true;
    case Op::Not: case Op::And: case Op::Or: case Op::Xor: case Op::Ite: return true; default: return false; }
}
template <class V> static Z3_ast& slot(V& c, E e) { if (c.size() <= e->id) c.resize(g_exprs.size() + 4096, nullptr); return c[e->id]; }

static Z3_ast toBool(E e) {
  auto& cache = abstractPop ? boc2 : boc;
  { Z3_ast s = slot(cache, e); if (s) return s; }
  Z3_ast r;
  if (e->isConst()) r = e->val.isOne() ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  else switch (e->op) {
    case Op::Eq:
      if (e->k[0]->w == 1 && (isBoolOp(e->k[0]) || isBoolOp(e->k[1]))) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
      else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
      break;
    case Op::Ult: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Ule: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Sle: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case Op::Not: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
    case Op::And: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case Op::Or: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case Op::Xor: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    case Op::FCmp: {
      sawFP = true;
      Z3_ast x = asF(e->k[0]), y = asF(e->k[1]);
      std::vector<Z3_ast> d;
      if (e->aux & 1) d.push_back(Z3_mk_fpa_eq(ctx, x, y));
      if (e->aux & 2) d.push_back(Z3_mk_fpa_gt(ctx, x, y));
      if (e->aux & 4) d.push_back(Z3_mk_fpa_lt(ctx, x, y));
      if (e->aux & 8) { d.push_back(Z3_mk_fpa_is_nan(ctx, x)); d.push_back(Z3_mk_fpa_is_nan(ctx, y)); }
      r = d.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, d.size(), d.data());
      break; }
    default: r = Z3_mk_eq(ctx, toBV(e), bvnum(APInt(1, 1)));
  }
  slot(cache, e) = r;
  return r;
}
static Z3_ast toBV(E e) {
  auto& cache = abstractPop ? bvc2 : bvc;
  { Z3_ast s = slot(cache, e); if (s) return s; }
  Z3_ast r;
  auto B = [&](int i) { return toBV(e->k[i]); };
  if (e->isConst()) r = bvnum(e->val);
  else if (isBoolOp(e)) r = Z3_mk_ite(ctx, toBool(e), bvnum(APInt(1, 1)), bvnum(APInt(1, 0)));
  else switch (e->op) {
    case Op::Var: {
      std::string n = "v" + std::to_string(e->aux);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w)); break; }
    case Op::Not: r = Z3_mk_bvnot(ctx, B(0)); break;
    case Op::And: r = Z3_mk_bvand(ctx, B(0), B(1)); break;
    case Op::Or: r = Z3_mk_bvor(ctx, B(0), B(1)); break;
    case Op::Xor: r = Z3_mk_bvxor(ctx, B(0), B(1)); break;
    case Op::Add: r = Z3_mk_bvadd(ctx, B(0), B(1)); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx, B(0), B(1)); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx, B(0), B(1)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx, B(0), B(1)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(ctx, B(0), B(1)); break;
    case Op::URem: r = Z3_mk_bvurem(ctx, B(0), B(1)); break;
    case Op::SRem: r = Z3_mk_bvsrem(ctx, B(0), B(1)); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, B(0), B(1)); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx, B(0), B(1)); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx, B(0), B(1)); break;
    case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->k[0]), B(1), B(2)); break;
    case Op::Concat: r = Z3_mk_concat(ctx, B(0), B(1)); break;
    case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, B(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, B(0)); break;
    case Op::Popcnt:
      sawPop = true;
      if (abstractPop) {
        Z3_sort d[1] = {Z3_mk_bv_sort(ctx, e->k[0]->w)};
        std::string n = "popcnt_" + std::to_string(e->k[0]->w) + "_" + std::to_string(e->w);
        Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, n.c_str()), 1, d, Z3_mk_bv_sort(ctx, e->w));
        Z3_ast a[1] = {B(0)};
        r = Z3_mk_app(ctx, f, 1, a);
      } else r = popTree(B(0), e->k[0]->w, 0, e->k[0]->w, e->w);
      break;
    case Op::Bit: {
      if (abstractPop) {
        Z3_sort d[1] = {Z3_mk_bv_sort(ctx, e->k[1]->w)};
        std::string n = "bit_" + std::to_string(e->k[0]->id);
        Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, n.c_str()), 1, d, Z3_mk_bv_sort(ctx, 1));
        Z3_ast a[1] = {B(1)};
        r = Z3_mk_app(ctx, f, 1, a);
      } else {
        unsigned W = std::max(e->k[0]->w, e->k[1]->w);
        Z3_ast x = B(0), i = B(1);
        if (W > e->k[0]->w) x = Z3_mk_zero_ext(ctx, W - e->k[0]->w, x);
        if (W > e->k[1]->w) i = Z3_mk_zero_ext(ctx, W - e->k[1]->w, i);
        r = Z3_mk_extract(ctx, 0, 0, Z3_mk_bvlshr(ctx, x, i));
      }
      break; }
    case Op::FBin: {
      sawFP = true;
      Z3_ast rm = Z3_mk_fpa_rne(ctx), x = asF(e->k[0]), y = asF(e->k[1]);
      Z3_ast f = e->aux == 0 ? Z3_mk_fpa_add(ctx, rm, x, y) : e->aux == 1 ? Z3_mk_fpa_sub(ctx, rm, x, y) : e->aux == 2 ? Z3_mk_fpa_mul(ctx, rm, x, y) : Z3_mk_fpa_div(ctx, rm, x, y);
      r = Z3_mk_fpa_to_ieee_bv(ctx, f); break; }
    case Op::FFromU: sawFP = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), B(0), fsort(e->w))); break;
    case Op::FFromS: sawFP = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), B(0), fsort(e->w))); break;
    case Op::FToU: sawFP = true; r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), asF(e->k[0]), e->w); break;
    case Op::FToS: sawFP = true; r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), asF(e->k[0]), e->w); break;
    case Op::FCast: sawFP = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), asF(e->k[0]), fsort(e->w))); break;
    case Op::FRound: sawFP = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, e->aux == 0 ? Z3_mk_fpa_rtp(ctx) : e->aux == 1 ? Z3_mk_fpa_rtn(ctx) : Z3_mk_fpa_rtz(ctx), asF(e->k[0]))); break;
    default: fprintf(stderr, "toBV: unexpected op %d\n", (int)e->op); abort();
  }
  slot(cache, e) = r;
  return r;
}

// ---- variable sets --------------------------------------------------------
static std::vector<std::unique_ptr<std::vector<uint32_t>>> vs;
const std::vector<uint32_t>& varsOf(E e) {
  if (vs.size() <= e->id) vs.resize(g_exprs.size() + 4096);
  if (vs[e->id]) return *vs[e->id];
  std::vector<uint32_t> r;
  if (e->op == Op::Var) r.push_back(e->aux);
  else for (int i = 0; i < 3; i++) if (e->k[i]) {
    const auto& s = varsOf(e->k[i]);
    if (r.empty()) { r = s; continue; }
    if (s.empty() || r == s) continue;
    std::vector<uint32_t> t; t.reserve(r.size() + s.size());
    std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t));
    r.swap(t);
  }
  if (vs.size() <= e->id) vs.resize(g_exprs.size() + 4096);
  vs[e->id].reset(new std::vector<uint32_t>(std::move(r)));
  return *vs[e->id];
}

static void hasSpecial(E e, bool& pop, bool& fp) {
  static std::vector<uint8_t> memo; // 1 visited, 2 pop, 4 fp
  struct R { static uint8_t go(E e) {
    if (memo.size() <= e->id) memo.resize(g_exprs.size() + 4096, 0);
    if (memo[e->id]) return memo[e->id];
    uint8_t r = 1;
    if (e->op == Op::Popcnt || e->op == Op::Bit) r |= 2;
    if (e->op >= Op::FBin) r |= 4;
    for (int i = 0; i < 3; i++) if (e->k[i]) r |= go(e->k[i]);
    memo[e->id] = r; return r; } };
  uint8_t r = R::go(e);
  if (r & 2) pop = true;
  if (r & 4) fp = true;
}

static Res run(const std::vector<E>& q, bool fp, unsigned to, Model* m, const std::vector<uint32_t>* mv) {
  Z3_solver s;
  if (fp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP"));
  else if (abstractPop) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV"));
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), to);
  Z3_solver_set_params(ctx, s, p);
  for (E e : q) Z3_solver_assert(ctx, s, toBool(e));
  if (const char* d = getenv("VSE_DUMP")) {
    static int n = 0; char fn[300]; snprintf(fn, sizeof fn, "%s/q%06d.smt2", d, n++);
    FILE* f = fopen(fn, "w"); fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f);
  }
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat && m) {
    Z3_model zm = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, zm);
    for (uint32_t i : *mv) {
      std::string n = "v" + std::to_string(i);
      Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, g_vars[i].w));
      Z3_ast out; uint64_t u = 0;
      if (Z3_model_eval(ctx, zm, c, true, &out)) {
        Z3_get_numeral_uint64(ctx, out, &u);
      }
      if (m->v.size() <= i) m->v.resize(i + 1, 0);
      m->v[i] = u;
    }
    Z3_model_dec_ref(ctx, zm);
  }
  Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  return res;
}

// ---- incremental solver for path feasibility ------------------------------
static Z3_solver inc; static std::vector<E> incStack;
Res solveInc(const std::vector<E>& cons, E extra, Model& m) {
  init();
  bool pop = false, fp = false;
  for (E e : cons) hasSpecial(e, pop, fp);
  hasSpecial(extra, pop, fp);
  if (pop || fp) return Res::Unknown;
  auto t0 = std::chrono::steady_clock::now();
  if (!inc) {
    inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, inc);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 2000);
    Z3_solver_set_params(ctx, inc, p);
  }
  size_t k = 0;
  while (k < incStack.size() && k < cons.size() && incStack[k] == cons[k]) k++;
  if (k < incStack.size()) { Z3_solver_pop(ctx, inc, incStack.size() - k); incStack.resize(k); }
  for (; k < cons.size(); k++) { Z3_solver_push(ctx, inc); Z3_solver_assert(ctx, inc, toBool(cons[k])); incStack.push_back(cons[k]); }
  Z3_solver_push(ctx, inc);
  Z3_solver_assert(ctx, inc, toBool(extra));
  Z3_lbool r = Z3_solver_check(ctx, inc);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (res == Res::Sat) {
    std::set<uint32_t> all;
    for (E e : cons) all.insert(varsOf(e).begin(), varsOf(e).end());
    all.insert(varsOf(extra).begin(), varsOf(extra).end());
    Z3_model zm = Z3_solver_get_model(ctx, inc);
    Z3_model_inc_ref(ctx, zm);
    for (uint32_t i : all) {
      std::string n = "v" + std::to_string(i);
      Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, g_vars[i].w));
      Z3_ast out; uint64_t u = 0;
      if (Z3_model_eval(ctx, zm, c, true, &out)) Z3_get_numeral_uint64(ctx, out, &u);
      if (m.v.size() <= i) m.v.resize(i + 1, 0);
      m.v[i] = u;
    }
    Z3_model_dec_ref(ctx, zm);
  }
  Z3_solver_pop(ctx, inc, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.secs += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (res != Res::Unknown) { g_ss.queries++; if (res == Res::Sat) g_ss.sat++; else g_ss.unsat++; }
  return res;
}

Res solve(const std::vector<E>& cons, E extra, const Model* base, Model& m, unsigned to, bool absOnly) {
  init();
  // slice
  std::vector<E> q;
  std::vector<uint32_t> mv;
  if (extra->isFalse()) return Res::Unsat;
  if (base) {
    std::set<uint32_t> rel(varsOf(extra).begin(), varsOf(extra).end());
    std::vector<bool> used(cons.size(), false);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
        const auto& v = varsOf(cons[i]);
        bool hit = false;
        for (uint32_t x : v) if (rel.count(x)) { hit = true; break; }
        if (hit) { used[i] = true; ch = true; rel.insert(v.begin(), v.end()); }
      }
    }
    for (size_t i = 0; i < cons.size(); i++) if (used[i]) q.push_back(cons[i]);
    mv.assign(rel.begin(), rel.end());
    m = *base;
  } else {
    q = cons;
    std::set<uint32_t> all;
    for (E e : q) all.insert(varsOf(e).begin(), varsOf(e).end());
    all.insert(varsOf(extra).begin(), varsOf(extra).end());
    mv.assign(all.begin(), all.end());
    m = Model();
  }
  q.push_back(extra);
  bool pop = false, fp = false;
  for (E e : q) hasSpecial(e, pop, fp);
  auto t0 = std::chrono::steady_clock::now();
  Res r = Res::Unknown;
  bool done = false;
  if (pop) {
    abstractPop = true;
    r = run(q, fp, std::min(to, 20000u), nullptr, nullptr);
    abstractPop = false;
    if (r == Res::Unsat || absOnly) done = true;
  }
  if (!done) r = run(q, fp, to, &m, &mv);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++; g_ss.secs += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (r == Res::Sat) g_ss.sat++; else if (r == Res::Unsat) g_ss.unsat++; else g_ss.unknown++;
  return r;
}
