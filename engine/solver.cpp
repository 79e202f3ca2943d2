#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <unordered_map>
#include <set>
#include <cstdio>
#include <cstdlib>

SolverStats g_solver_stats;
unsigned g_solver_timeout_ms = 20000;
double g_solver_deadline = 0; // in seconds of the steady clock, 0 for none

static Z3_context ctx;
static Z3_solver inc;
static bool has_error = false;

static void on_error(Z3_context c, Z3_error_code e)
{
 has_error = true;
 fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}

void solver_init()
{
 Z3_config cfg = Z3_mk_config();
 Z3_set_param_value(cfg, "model", "true");
 ctx = Z3_mk_context(cfg);
 Z3_set_error_handler(ctx, on_error);
 inc = Z3_mk_simple_solver(ctx);
 Z3_solver_inc_ref(ctx, inc);
 Z3_del_config(cfg);
}

static Z3_sort bv(unsigned w) {return Z3_mk_bv_sort(ctx, w);}
static Z3_ast keep(Z3_ast a) {return a;} // Z3_mk_context (not _rc): asts live as long as the context

static Z3_ast to_bool(Expr *e);

static Z3_ast num(u128 v, unsigned w)
{
 if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
 Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bv(w - 64));
 Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(64));
 return Z3_mk_concat(ctx, hi, lo);
}

static Z3_ast to_z3(Expr *e);

static Z3_ast table_tree(const TableInfo &t, Z3_ast idx, unsigned iw, size_t lo, size_t hi)
{
 bool same = true;
 for (size_t i = lo + 1; i < hi && i < t.elems.size(); i++) if (t.elems[i] != t.elems[lo]) {same = false; break;}
 if (hi > t.elems.size()) same = false;
 if (lo >= t.elems.size()) return num(0, t.elem_width);
 if (hi - lo == 1 || same) return num(t.elems[lo], t.elem_width);
 size_t mid = (lo + hi) / 2;
 return Z3_mk_ite(ctx, Z3_mk_bvult(ctx, idx, num(mid, iw)), table_tree(t, idx, iw, lo, mid), table_tree(t, idx, iw, mid, hi));
}

static Z3_ast fp(Expr *e)
{
 Z3_sort s = e->width == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx);
 return Z3_mk_fpa_to_fp_bv(ctx, to_z3(e), s);
}

static Z3_ast to_z3(Expr *e)
{
 if (e->z3ast) return (Z3_ast)e->z3ast;
 Z3_ast r = 0;
 switch (e->op)
 {
  case Op::Const: r = num(e->val, e->width); break;
  case Op::Var:
  {
   char name[32]; snprintf(name, sizeof name, "v%u", e->aux);
   r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, name), bv(e->width));
   break;
  }
  case Op::Add: r = Z3_mk_bvadd(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Sub: r = Z3_mk_bvsub(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Mul: r = Z3_mk_bvmul(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::UDiv: r = Z3_mk_bvudiv(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::SDiv: r = Z3_mk_bvsdiv(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::URem: r = Z3_mk_bvurem(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::SRem: r = Z3_mk_bvsrem(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Shl: r = Z3_mk_bvshl(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::LShr: r = Z3_mk_bvlshr(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::AShr: r = Z3_mk_bvashr(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::And: if (e->width == 1) goto booly; r = Z3_mk_bvand(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Or: if (e->width == 1) goto booly; r = Z3_mk_bvor(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Xor:
   if (e->width == 1) goto booly;
   if (e->k[1]->op == Op::Const && e->k[1]->val == mask_of(e->width)) r = Z3_mk_bvnot(ctx, to_z3(e->k[0]));
   else r = Z3_mk_bvxor(ctx, to_z3(e->k[0]), to_z3(e->k[1]));
   break;
  case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::FCmp:
  booly:
   r = Z3_mk_ite(ctx, to_bool(e), num(1, 1), num(0, 1)); break;
  case Op::Ite: r = Z3_mk_ite(ctx, to_bool(e->k[0]), to_z3(e->k[1]), to_z3(e->k[2])); break;
  case Op::Concat: r = Z3_mk_concat(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Extract: r = Z3_mk_extract(ctx, e->aux + e->width - 1, e->aux, to_z3(e->k[0])); break;
  case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, to_z3(e->k[0])); break;
  case Op::SExt: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, to_z3(e->k[0])); break;
  case Op::Table:
  {
   const TableInfo &t = g_tables[e->aux];
   size_t n = 1; while (n < t.elems.size()) n *= 2;
   unsigned iw = e->k[0]->width;
   r = table_tree(t, to_z3(e->k[0]), iw, 0, n);
   break;
  }
  case Op::FExt: case Op::FTrunc:
  {
   Z3_sort s = e->op == Op::FExt ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx);
   r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_round_nearest_ties_to_even(ctx), fp(e->k[0]), s));
   break;
  }
  default: abort();
 }
 e->z3ast = keep(r);
 return r;
}

static Z3_ast to_bool(Expr *e)
{
 if (e->z3bool) return (Z3_ast)e->z3bool;
 Z3_ast r = 0;
 switch (e->op)
 {
  case Op::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case Op::Eq:
   if (e->k[0]->width == 1) r = Z3_mk_eq(ctx, to_bool(e->k[0]), to_bool(e->k[1]));
   else r = Z3_mk_eq(ctx, to_z3(e->k[0]), to_z3(e->k[1]));
   break;
  case Op::Ult: r = Z3_mk_bvult(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Ule: r = Z3_mk_bvule(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Slt: r = Z3_mk_bvslt(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::Sle: r = Z3_mk_bvsle(ctx, to_z3(e->k[0]), to_z3(e->k[1])); break;
  case Op::And: {Z3_ast a[2] = {to_bool(e->k[0]), to_bool(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break;}
  case Op::Or: {Z3_ast a[2] = {to_bool(e->k[0]), to_bool(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break;}
  case Op::Xor:
   if (e->k[1]->op == Op::Const && e->k[1]->val == 1) r = Z3_mk_not(ctx, to_bool(e->k[0]));
   else r = Z3_mk_xor(ctx, to_bool(e->k[0]), to_bool(e->k[1]));
   break;
  case Op::Ite: r = Z3_mk_ite(ctx, to_bool(e->k[0]), to_bool(e->k[1]), to_bool(e->k[2])); break;
  case Op::FCmp:
  {
   Z3_ast x = fp(e->k[0]), y = fp(e->k[1]);
   Z3_ast ors[4]; unsigned n = 0;
   if (e->aux & 8) {Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)}; ors[n++] = Z3_mk_or(ctx, 2, a);}
   if (e->aux & 1) ors[n++] = Z3_mk_fpa_eq(ctx, x, y);
   if (e->aux & 2) ors[n++] = Z3_mk_fpa_gt(ctx, x, y);
   if (e->aux & 4) ors[n++] = Z3_mk_fpa_lt(ctx, x, y);
   r = n ? Z3_mk_or(ctx, n, ors) : Z3_mk_false(ctx);
   break;
  }
  default: r = Z3_mk_eq(ctx, to_z3(e), num(1, 1));
 }
 e->z3bool = r;
 return r;
}

struct CacheEntry {Sat r; std::vector<std::pair<uint32_t, uint64_t>> model;};
static std::unordered_map<std::string, CacheEntry> cache;

static void flatten(Expr *e, std::vector<Expr *> &out)
{
 if (e->width == 1 && e->op == Op::And) {flatten(e->k[0], out); flatten(e->k[1], out);}
 else if (e->op == Op::Const && e->val == 1) {}
 else out.push_back(e);
}

static Sat run_z3(const std::vector<Expr *> &slice, std::vector<std::pair<uint32_t, uint64_t>> &model, const std::vector<uint32_t> &vars)
{
 auto t0 = std::chrono::steady_clock::now();
 Sat result = Sat::unknown;
 for (int attempt = 0; attempt < 2 && result == Sat::unknown; attempt++)
 {
  unsigned timeout = attempt == 0 ? 1500 : g_solver_timeout_ms;
  if (g_solver_deadline > 0)
  {
   const double left = g_solver_deadline - std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
   if (left < 0.1) break;
   if (left * 1000 < timeout) timeout = unsigned(left * 1000);
  }
  Z3_solver s;
  has_error = false;
  if (attempt == 0)
  {
   s = inc;
   Z3_solver_push(ctx, s);
  }
  else
  {
   s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
   bool hasfp = false; (void)hasfp;
   Z3_solver_inc_ref(ctx, s);
  }
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  for (Expr *e: slice) Z3_solver_assert(ctx, s, to_bool(e));
  Z3_lbool r = Z3_solver_check(ctx, s);
  if (has_error) r = Z3_L_UNDEF;
  if (r == Z3_L_TRUE)
  {
   result = Sat::sat;
   Z3_model m = Z3_solver_get_model(ctx, s);
   Z3_model_inc_ref(ctx, m);
   model.clear();
   for (uint32_t v: vars)
   {
    char name[32]; snprintf(name, sizeof name, "v%u", v);
    Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, name), bv(g_vars[v].width));
    Z3_ast val;
    uint64_t x = 0;
    if (Z3_model_eval(ctx, m, c, true, &val)) Z3_get_numeral_uint64(ctx, val, &x);
    model.push_back({v, x});
   }
   Z3_model_dec_ref(ctx, m);
  }
  else if (r == Z3_L_FALSE) result = Sat::unsat;
  if (attempt == 0) Z3_solver_pop(ctx, s, 1);
  else Z3_solver_dec_ref(ctx, s);
 }
 double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
 g_solver_stats.seconds += dt;
 if (dt > g_solver_stats.slowest) g_solver_stats.slowest = dt;
 g_solver_stats.queries++;
 if (result == Sat::sat) g_solver_stats.sat++;
 else if (result == Sat::unsat) g_solver_stats.unsat++;
 else g_solver_stats.unknown++;
 return result;
}

Sat solve(const std::vector<Expr *> &constraints, Expr *cond, const Model &base, Model &out)
{
 if (cond->op == Op::Const)
 {
  if (!cond->val) return Sat::unsat;
  out = base;
  return Sat::sat;
 }
 // slice: constraints transitively sharing variables with cond
 std::vector<Expr *> slice;
 flatten(cond, slice);
 static std::vector<uint8_t> marked;
 marked.assign(g_vars.size(), 0);
 std::vector<uint32_t> vars(cond->vars->begin(), cond->vars->end());
 for (uint32_t v: vars) marked[v] = 1;
 static std::vector<uint8_t> used;
 used.assign(constraints.size(), 0);
 for (bool progress = true; progress;)
 {
  progress = false;
  for (size_t i = 0; i < constraints.size(); i++)
  {
   if (used[i]) continue;
   bool hit = false;
   for (uint32_t v: *constraints[i]->vars) if (marked[v]) {hit = true; break;}
   if (!hit) continue;
   used[i] = 1;
   slice.push_back(constraints[i]);
   for (uint32_t v: *constraints[i]->vars) if (!marked[v]) {marked[v] = 1; vars.push_back(v); progress = true;}
  }
 }
 std::sort(slice.begin(), slice.end(), [](Expr *a, Expr *b) {return a->id < b->id;});
 slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
 std::sort(vars.begin(), vars.end());
 std::string key;
 key.reserve(slice.size() * 4);
 for (Expr *e: slice) key.append((const char *)&e->id, 4);
 auto it = cache.find(key);
 if (it != cache.end()) g_solver_stats.cache_hits++;
 else
 {
  CacheEntry ce;
  ce.r = run_z3(slice, ce.model, vars);
  it = cache.emplace(std::move(key), std::move(ce)).first;
 }
 if (it->second.r == Sat::sat)
 {
  out = base;
  for (auto &p: it->second.model) out.set(p.first, p.second);
 }
 return it->second.r;
}

std::string to_smt2(const std::vector<Expr *> &constraints)
{
 Z3_solver s = Z3_mk_simple_solver(ctx);
 Z3_solver_inc_ref(ctx, s);
 for (Expr *e: constraints) Z3_solver_assert(ctx, s, to_bool(e));
 std::string r = Z3_solver_to_string(ctx, s);
 Z3_solver_dec_ref(ctx, s);
 return r;
}
