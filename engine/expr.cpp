#include "expr.h"
#include <cstring>
#include <cmath>
#include <unordered_set>
#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <set>

std::vector<VarInfo> g_vars;
std::vector<TableInfo> g_tables;

static inline uint64_t mix(uint64_t h, uint64_t x)
{
 h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
 h *= 0xff51afd7ed558ccdull;
 h ^= h >> 33;
 return h;
}

struct Hash {size_t operator()(const Expr *e) const {return e->hash;}};
struct Same
{
 bool operator()(const Expr *a, const Expr *b) const
 {
  return a->op == b->op && a->width == b->width && a->aux == b->aux && a->nk == b->nk &&
   a->val == b->val && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
 }
};
static std::unordered_set<Expr *, Hash, Same> table;
static std::set<std::vector<uint32_t>> varsets;
static const std::vector<uint32_t> *empty_set = &*varsets.insert(std::vector<uint32_t>()).first;

static std::vector<Expr *> slabs;
static size_t slab_used = 1u << 14;
static Expr *alloc_expr()
{
 if (slab_used == (1u << 14)) {slabs.push_back((Expr *)calloc(1u << 14, sizeof(Expr))); slab_used = 0;}
 return &slabs.back()[slab_used++];
}
static uint32_t next_id = 0;
size_t expr_count() {return next_id;}

static const std::vector<uint32_t> *merge_sets(const std::vector<uint32_t> *a, const std::vector<uint32_t> *b)
{
 if (a == b || b->empty()) return a;
 if (a->empty()) return b;
 static std::unordered_map<uint64_t, std::vector<std::pair<std::pair<const void *, const void *>, const std::vector<uint32_t> *>>> cache;
 if (a > b) std::swap(a, b);
 auto &bucket = cache[mix((uint64_t)a, (uint64_t)b)];
 for (auto &x: bucket) if (x.first.first == a && x.first.second == b) return x.second;
 std::vector<uint32_t> r;
 std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
 const std::vector<uint32_t> *res = &*varsets.insert(std::move(r)).first;
 bucket.push_back({{a, b}, res});
 return res;
}

static Expr *intern(Op op, unsigned width, uint32_t aux, u128 val, Expr *a, Expr *b, Expr *c)
{
 Expr t;
 memset(&t, 0, sizeof t);
 t.op = op; t.width = width; t.aux = aux; t.val = val; t.k[0] = a; t.k[1] = b; t.k[2] = c;
 t.nk = (a != 0) + (b != 0) + (c != 0);
 uint64_t h = mix((uint64_t)op * 1315423911u + width, aux);
 h = mix(h, (uint64_t)val); h = mix(h, (uint64_t)(val >> 64));
 h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
 t.hash = h;
 auto it = table.find(&t);
 if (it != table.end()) return *it;
 Expr *e = alloc_expr();
 *e = t;
 e->id = next_id++;
 {
  uint64_t n = 1;
  for (int i = 0; i < 3; i++) if (e->k[i]) n += e->k[i]->tree;
  e->tree = n > 1000000 ? 1000000 : (uint32_t)n;
 }
 if (op == Op::Var)
 {
  std::vector<uint32_t> s(1, aux);
  e->vars = &*varsets.insert(s).first;
 }
 else
 {
  const std::vector<uint32_t> *s = empty_set;
  for (int i = 0; i < 3; i++) if (e->k[i]) s = merge_sets(s, e->k[i]->vars);
  e->vars = s;
 }
 table.insert(e);
 return e;
}

static Expr *small_consts[4][256];
Expr *mk_const(u128 v, unsigned width)
{
 v &= mask_of(width);
 if (v < 256)
 {
  int slot = width == 1 ? 0 : width == 8 ? 1 : width == 32 ? 2 : width == 64 ? 3 : -1;
  if (slot >= 0)
  {
   Expr *&e = small_consts[slot][(unsigned)v];
   if (!e) e = intern(Op::Const, width, 0, v, 0, 0, 0);
   return e;
  }
 }
 return intern(Op::Const, width, 0, v, 0, 0, 0);
}

Expr *mk_var(const std::string &name, unsigned width)
{
 g_vars.push_back({name, width});
 return intern(Op::Var, width, (uint32_t)g_vars.size() - 1, 0, 0, 0, 0);
}

uint32_t add_table(unsigned elem_width, const std::vector<u128> &elems)
{
 for (size_t i = 0; i < g_tables.size(); i++)
  if (g_tables[i].elem_width == elem_width && g_tables[i].elems == elems) return i;
 g_tables.push_back({elem_width, elems});
 return g_tables.size() - 1;
}

u128 const_bin(Op op, u128 a, u128 b, unsigned w)
{
 const u128 m = mask_of(w);
 a &= m; b &= m;
 u128 r = 0;
 switch (op)
 {
  case Op::Add: r = a + b; break;
  case Op::Sub: r = a - b; break;
  case Op::Mul: r = a * b; break;
  case Op::UDiv: r = b ? a / b : m; break;
  case Op::URem: r = b ? a % b : a; break;
  case Op::SDiv:
  {
   i128 x = sext128(a, w), y = sext128(b, w);
   if (y == 0) r = x >= 0 ? m : 1; else if (y == -1) r = (u128)0 - a; else r = (u128)(x / y);
   break;
  }
  case Op::SRem:
  {
   i128 x = sext128(a, w), y = sext128(b, w);
   if (y == 0) r = a; else if (y == -1) r = 0; else r = (u128)(x % y);
   break;
  }
  case Op::And: r = a & b; break;
  case Op::Or: r = a | b; break;
  case Op::Xor: r = a ^ b; break;
  case Op::Shl: r = b >= w ? 0 : a << (unsigned)b; break;
  case Op::LShr: r = b >= w ? 0 : a >> (unsigned)b; break;
  case Op::AShr: {i128 x = sext128(a, w); r = (u128)(x >> (b >= w ? (w - 1) : (unsigned)b)); break;}
  default: abort();
 }
 return r & m;
}

bool const_cmp(Op op, u128 a, u128 b, unsigned w)
{
 const u128 m = mask_of(w);
 a &= m; b &= m;
 switch (op)
 {
  case Op::Eq: return a == b;
  case Op::Ult: return a < b;
  case Op::Ule: return a <= b;
  case Op::Slt: return sext128(a, w) < sext128(b, w);
  case Op::Sle: return sext128(a, w) <= sext128(b, w);
  default: abort();
 }
}

static double to_d(u128 a, unsigned w)
{
 if (w == 32) {uint32_t x = (uint32_t)a; float f; memcpy(&f, &x, 4); return f;}
 uint64_t x = (uint64_t)a; double d; memcpy(&d, &x, 8); return d;
}

bool const_fcmp(unsigned pred, u128 a, u128 b, unsigned w)
{
 double x = to_d(a, w), y = to_d(b, w);
 bool uno = std::isnan(x) || std::isnan(y);
 // llvm: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,...,15 true
 bool r = false;
 if (uno) return pred & 8;
 if ((pred & 1) && x == y) r = true;
 if ((pred & 2) && x > y) r = true;
 if ((pred & 4) && x < y) r = true;
 return r;
}

static bool is_const(Expr *e) {return e->op == Op::Const;}
static bool all_ones(Expr *e) {return is_const(e) && e->val == mask_of(e->width);}
static bool is_zero(Expr *e) {return is_const(e) && e->val == 0;}

Expr *mk_not(Expr *a)
{
 if (is_const(a)) return mk_const(~a->val, a->width);
 return mk_bin(Op::Xor, a, mk_const(mask_of(a->width), a->width));
}

Expr *mk_extract(Expr *a, unsigned lo, unsigned width)
{
 if (lo == 0 && width == a->width) return a;
 switch (a->op)
 {
  case Op::Const: return mk_const(a->val >> lo, width);
  case Op::Extract: return mk_extract(a->k[0], lo + a->aux, width);
  case Op::Concat:
  {
   unsigned lw = a->k[1]->width;
   if (lo + width <= lw) return mk_extract(a->k[1], lo, width);
   if (lo >= lw) return mk_extract(a->k[0], lo - lw, width);
   return mk_concat(mk_extract(a->k[0], 0, lo + width - lw), mk_extract(a->k[1], lo, lw - lo));
  }
  case Op::ZExt:
  {
   unsigned w0 = a->k[0]->width;
   if (lo >= w0) return mk_const(0, width);
   if (lo + width <= w0) return mk_extract(a->k[0], lo, width);
   return mk_zext(mk_extract(a->k[0], lo, w0 - lo), width);
  }
  case Op::SExt:
  {
   unsigned w0 = a->k[0]->width;
   if (lo + width <= w0) return mk_extract(a->k[0], lo, width);
   if (lo == 0) return mk_sext(a->k[0], width);
   break;
  }
  case Op::And: case Op::Or: case Op::Xor:
   if (a->tree > 64) break; // shared sub-expressions: distributing would be exponential
   return mk_bin(a->op, mk_extract(a->k[0], lo, width), mk_extract(a->k[1], lo, width));
  case Op::Add: case Op::Sub: case Op::Mul:
   if (lo == 0 && a->tree <= 64) return mk_bin(a->op, mk_extract(a->k[0], 0, width), mk_extract(a->k[1], 0, width));
   break;
  case Op::Ite:
   if (is_const(a->k[1]) || is_const(a->k[2]))
    return mk_ite(a->k[0], mk_extract(a->k[1], lo, width), mk_extract(a->k[2], lo, width));
   break;
  default: break;
 }
 return intern(Op::Extract, width, lo, 0, a, 0, 0);
}

Expr *mk_concat(Expr *hi, Expr *lo)
{
 unsigned w = hi->width + lo->width;
 if (w > 65000) abort();
 if (is_const(hi) && is_const(lo) && w <= 128) return mk_const((hi->val << lo->width) | lo->val, w);
 if (is_zero(hi)) return mk_zext(lo, w);
 if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->width)
  return mk_extract(hi->k[0], lo->aux, w);
 if (hi->op == Op::Extract && hi->k[0] == lo && hi->aux == lo->width) return mk_extract(lo, 0, w); // cannot happen (width)
 // (zext x) where hi is the zero part: concat(extract(zext..)) handled by zext folding
 if (hi->op == Op::ZExt) return mk_zext(mk_concat(hi->k[0], lo), w);
 if (lo->op == Op::Concat) // right-assoc normalisation: keep hi:(a:b) as (hi:a):b
  return mk_concat(mk_concat(hi, lo->k[0]), lo->k[1]);
 // merge adjacent constants / extracts: (x : c1) : c2
 if (hi->op == Op::Concat)
 {
  Expr *m = hi->k[1];
  if (is_const(m) && is_const(lo) && m->width + lo->width <= 128)
   return mk_concat(hi->k[0], mk_const((m->val << lo->width) | lo->val, m->width + lo->width));
  if (m->op == Op::Extract && lo->op == Op::Extract && m->k[0] == lo->k[0] && m->aux == lo->aux + lo->width)
   return mk_concat(hi->k[0], mk_extract(m->k[0], lo->aux, m->width + lo->width));
 }
 return intern(Op::Concat, w, 0, 0, hi, lo, 0);
}

Expr *mk_zext(Expr *a, unsigned width)
{
 if (width == a->width) return a;
 if (is_const(a)) return mk_const(a->val, width);
 if (a->op == Op::ZExt) return mk_zext(a->k[0], width);
 return intern(Op::ZExt, width, 0, 0, a, 0, 0);
}

Expr *mk_sext(Expr *a, unsigned width)
{
 if (width == a->width) return a;
 if (is_const(a)) return mk_const((u128)sext128(a->val, a->width), width);
 if (a->op == Op::SExt) return mk_sext(a->k[0], width);
 if (a->op == Op::ZExt) return mk_zext(a->k[0], width);
 if (a->width == 1 && width <= 128) return mk_ite(a, mk_const(mask_of(width), width), mk_const(0, width));
 return intern(Op::SExt, width, 0, 0, a, 0, 0);
}

Expr *mk_ite(Expr *c, Expr *a, Expr *b)
{
 if (is_const(c)) return c->val ? a : b;
 if (a == b) return a;
 if (a->width == 1)
 {
  if (is_const(a) && is_const(b)) return a->val ? c : mk_not(c);
  if (is_const(a)) return a->val ? mk_bin(Op::Or, c, b) : mk_bin(Op::And, mk_not(c), b);
  if (is_const(b)) return b->val ? mk_bin(Op::Or, mk_not(c), a) : mk_bin(Op::And, c, a);
 }
 if (c->op == Op::Xor && all_ones(c->k[1])) return mk_ite(c->k[0], b, a);
 if (a->op == Op::Ite && a->k[0] == c) return mk_ite(c, a->k[1], b);
 if (b->op == Op::Ite && b->k[0] == c) return mk_ite(c, a, b->k[2]);
 return intern(Op::Ite, a->width, 0, 0, c, a, b);
}

// known-zero high bits count of e (for cheap range reasoning)
static unsigned leading_zeros(Expr *e)
{
 if (e->tree > 256) return e->op == Op::ZExt ? e->width - e->k[0]->width : 0;
 switch (e->op)
 {
  case Op::Const: {unsigned n = 0; while (n < e->width && !((e->val >> (e->width - 1 - n)) & 1)) n++; return n;}
  case Op::ZExt: return e->width - e->k[0]->width + leading_zeros(e->k[0]);
  case Op::And: return std::max(leading_zeros(e->k[0]), leading_zeros(e->k[1]));
  case Op::Or: case Op::Xor: return std::min(leading_zeros(e->k[0]), leading_zeros(e->k[1]));
  case Op::Ite: return std::min(leading_zeros(e->k[1]), leading_zeros(e->k[2]));
  case Op::Add: {unsigned n = std::min(leading_zeros(e->k[0]), leading_zeros(e->k[1])); return n ? n - 1 : 0;}
  default: return 0;
 }
}

// a small tree of choices between constants
static bool choice_of_constants(const Expr *e, unsigned depth = 6)
{
 if (e->op == Op::Const) return true;
 return depth && e->op == Op::Ite && choice_of_constants(e->k[1], depth - 1) && choice_of_constants(e->k[2], depth - 1);
}

Expr *mk_bin(Op op, Expr *a, Expr *b)
{
 const unsigned w = a->width;
 if (is_const(a) && is_const(b)) return mk_const(const_bin(op, a->val, b->val, w), w);
 if (w == 64 && (op == Op::Add || op == Op::Sub))
 {
  if (is_const(b) && a->op == Op::Ite && choice_of_constants(a)) return mk_ite(a->k[0], mk_bin(op, a->k[1], b), mk_bin(op, a->k[2], b));
  if (is_const(a) && b->op == Op::Ite && choice_of_constants(b)) return mk_ite(b->k[0], mk_bin(op, a, b->k[1]), mk_bin(op, a, b->k[2]));
 }
 const bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor;
 if (comm && (is_const(a) || (!is_const(b) && a->id > b->id))) std::swap(a, b);
 switch (op)
 {
  case Op::Add:
   if (is_zero(b)) return a;
   if (is_const(b) && a->op == Op::Add && is_const(a->k[1])) return mk_bin(Op::Add, a->k[0], mk_const(a->k[1]->val + b->val, w));
   if (w == 1) return mk_bin(Op::Xor, a, b);
   break;
  case Op::Sub:
   if (a == b) return mk_const(0, w);
   if (is_const(b)) return mk_bin(Op::Add, a, mk_const((u128)0 - b->val, w));
   if (a->op == Op::Add)
   {
    if (a->k[0] == b) return a->k[1];
    if (a->k[1] == b) return a->k[0];
    if (is_const(a->k[1])) return mk_bin(Op::Add, mk_bin(Op::Sub, a->k[0], b), a->k[1]);
   }
   if (b->op == Op::Add && is_const(b->k[1]))
    return mk_bin(Op::Add, mk_bin(Op::Sub, a, b->k[0]), mk_const((u128)0 - b->k[1]->val, w));
   break;
  case Op::Mul:
   if (is_zero(b)) return b;
   if (is_const(b) && b->val == 1) return a;
   if (is_const(b) && (b->val & (b->val - 1)) == 0)
   {
    unsigned s = 0; while (!((b->val >> s) & 1)) s++;
    return mk_bin(Op::Shl, a, mk_const(s, w));
   }
   break;
  case Op::UDiv:
   if (is_const(b) && b->val && (b->val & (b->val - 1)) == 0)
   {
    unsigned s = 0; while (!((b->val >> s) & 1)) s++;
    return mk_bin(Op::LShr, a, mk_const(s, w));
   }
   break;
  case Op::URem:
   if (is_const(b) && b->val && (b->val & (b->val - 1)) == 0)
    return mk_bin(Op::And, a, mk_const(b->val - 1, w));
   break;
  case Op::And:
   if (a == b) return a;
   if (is_zero(b)) return b;
   if (all_ones(b)) return a;
   if (is_const(b))
   {
    if (a->op == Op::And && is_const(a->k[1])) return mk_bin(Op::And, a->k[0], mk_const(a->k[1]->val & b->val, w));
    // contiguous low mask
    u128 v = b->val;
    if ((v & (v + 1)) == 0)
    {
     unsigned n = 0; while ((v >> n) & 1) n++;
     return mk_zext(mk_extract(a, 0, n), w);
    }
    // contiguous shifted mask
    unsigned s = 0; while (!((v >> s) & 1)) s++;
    u128 t = v >> s;
    if ((t & (t + 1)) == 0 && w <= 128)
    {
     unsigned n = 0; while ((t >> n) & 1) n++;
     Expr *mid = mk_concat(mk_extract(a, s, n), mk_const(0, s));
     return mk_zext(mid, w);
    }
   }
   if (b->op == Op::Xor && all_ones(b->k[1]) && b->k[0] == a) return mk_const(0, w);
   if (a->op == Op::Xor && all_ones(a->k[1]) && a->k[0] == b) return mk_const(0, w);
   break;
  case Op::Or:
   if (a == b) return a;
   if (is_zero(b)) return a;
   if (all_ones(b)) return b;
   if (b->op == Op::Xor && all_ones(b->k[1]) && b->k[0] == a) return mk_const(mask_of(w), w);
   if (a->op == Op::Xor && all_ones(a->k[1]) && a->k[0] == b) return mk_const(mask_of(w), w);
   // disjoint pieces: zext(lo) | (hi << n)
   for (int swap = 0; swap < 2; swap++)
   {
    Expr *x = swap ? b : a, *y = swap ? a : b;
    if (x->op == Op::ZExt)
    {
     unsigned n = x->k[0]->width;
     // y must have n low zero bits
     Expr *ylow = mk_extract(y, 0, n);
     if (is_zero(ylow)) return mk_concat(mk_extract(y, n, w - n), x->k[0]);
    }
   }
   break;
  case Op::Xor:
   if (a == b) return mk_const(0, w);
   if (is_zero(b)) return a;
   if (is_const(b) && a->op == Op::Xor && is_const(a->k[1])) return mk_bin(Op::Xor, a->k[0], mk_const(a->k[1]->val ^ b->val, w));
   if (all_ones(b) && w == 1)
   {
    // push negation into comparisons
    if (a->op == Op::Ult) return mk_cmp(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mk_cmp(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mk_cmp(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mk_cmp(Op::Slt, a->k[1], a->k[0]);
   }
   break;
  case Op::Shl:
   if (is_const(b))
   {
    if (b->val == 0) return a;
    if (b->val >= w) return mk_const(0, w);
    unsigned s = (unsigned)b->val;
    return mk_concat(mk_extract(a, 0, w - s), mk_const(0, s));
   }
   if (is_zero(a)) return a;
   break;
  case Op::LShr:
   if (is_const(b))
   {
    if (b->val == 0) return a;
    if (b->val >= w) return mk_const(0, w);
    unsigned s = (unsigned)b->val;
    return mk_zext(mk_extract(a, s, w - s), w);
   }
   if (is_zero(a)) return a;
   break;
  case Op::AShr:
   if (is_const(b))
   {
    if (b->val == 0) return a;
    unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
    return mk_sext(mk_extract(a, s, w - s), w);
   }
   break;
  default: break;
 }
 return intern(op, w, 0, 0, a, b, 0);
}

Expr *mk_cmp(Op op, Expr *a, Expr *b)
{
 const unsigned w = a->width;
 if (is_const(a) && is_const(b)) return mk_const(const_cmp(op, a->val, b->val, w), 1);
 if (a == b) return mk_const(op == Op::Eq || op == Op::Ule || op == Op::Sle, 1);
 if (w == 64)
 {
  if (is_const(b) && a->op == Op::Ite && choice_of_constants(a)) return mk_ite(a->k[0], mk_cmp(op, a->k[1], b), mk_cmp(op, a->k[2], b));
  if (is_const(a) && b->op == Op::Ite && choice_of_constants(b)) return mk_ite(b->k[0], mk_cmp(op, a, b->k[1]), mk_cmp(op, a, b->k[2]));
 }
 if (op == Op::Eq)
 {
  if (is_const(a) || (!is_const(b) && a->id > b->id)) std::swap(a, b);
  if (w == 1)
  {
   if (is_const(b)) return b->val ? a : mk_not(a);
   return mk_not(mk_bin(Op::Xor, a, b));
  }
  if (is_const(b))
  {
   if (a->op == Op::ZExt)
   {
    unsigned w0 = a->k[0]->width;
    if (b->val >> w0) return mk_const(0, 1);
    return mk_cmp(Op::Eq, a->k[0], mk_const(b->val, w0));
   }
   if (a->op == Op::SExt)
   {
    unsigned w0 = a->k[0]->width;
    u128 t = b->val & mask_of(w0);
    if (((u128)sext128(t, w0) & mask_of(w)) != b->val) return mk_const(0, 1);
    return mk_cmp(Op::Eq, a->k[0], mk_const(t, w0));
   }
   if (a->op == Op::Concat && w <= 128)
   {
    unsigned lw = a->k[1]->width;
    return mk_bin(Op::And,
     mk_cmp(Op::Eq, a->k[0], mk_const(b->val >> lw, a->k[0]->width)),
     mk_cmp(Op::Eq, a->k[1], mk_const(b->val, lw)));
   }
   if (a->op == Op::Add && is_const(a->k[1])) return mk_cmp(Op::Eq, a->k[0], mk_const(b->val - a->k[1]->val, w));
   if (a->op == Op::Xor && is_const(a->k[1])) return mk_cmp(Op::Eq, a->k[0], mk_const(b->val ^ a->k[1]->val, w));
   if (a->op == Op::Ite)
   {
    if (is_const(a->k[1]) && is_const(a->k[2]))
    {
     bool x = a->k[1]->val == b->val, y = a->k[2]->val == b->val;
     if (x && y) return mk_const(1, 1);
     if (x) return a->k[0];
     if (y) return mk_not(a->k[0]);
     return mk_const(0, 1);
    }
    if (is_const(a->k[1]) || is_const(a->k[2]))
     return mk_ite(a->k[0], mk_cmp(Op::Eq, a->k[1], b), mk_cmp(Op::Eq, a->k[2], b));
   }
  }
  else
  {
   if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mk_cmp(Op::Eq, a->k[0], b->k[0]);
   if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mk_cmp(Op::Eq, a->k[0], b->k[0]);
   if (a->op == Op::Add && is_const(a->k[1]) && a->k[0] == b) return mk_const(0, 1);
   if (b->op == Op::Add && is_const(b->k[1]) && b->k[0] == a) return mk_const(0, 1);
   if (a->op == Op::Concat && b->op == Op::Concat && a->k[1]->width == b->k[1]->width)
    return mk_bin(Op::And, mk_cmp(Op::Eq, a->k[0], b->k[0]), mk_cmp(Op::Eq, a->k[1], b->k[1]));
  }
 }
 else
 {
  if (op == Op::Slt || op == Op::Sle)
  {
   // both non-negative: unsigned comparison
   if (leading_zeros(a) > 0 && leading_zeros(b) > 0) return mk_cmp(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
   if (leading_zeros(a) > 0 && is_const(b) && sext128(b->val, w) < 0) return mk_const(0, 1);
   if (leading_zeros(b) > 0 && is_const(a) && sext128(a->val, w) < 0) return mk_const(1, 1);
  }
  if (op == Op::Ult)
  {
   if (is_zero(b)) return mk_const(0, 1);
   if (all_ones(a)) return mk_const(0, 1);
   if (is_zero(a)) return mk_not(mk_cmp(Op::Eq, b, a));
   if (is_const(b) && b->val == 1) return mk_cmp(Op::Eq, a, mk_const(0, w));
  }
  if (op == Op::Ule)
  {
   if (is_zero(a)) return mk_const(1, 1);
   if (all_ones(b)) return mk_const(1, 1);
   if (is_zero(b)) return mk_cmp(Op::Eq, a, b);
  }
  if (op == Op::Ult || op == Op::Ule)
  {
   if (a->op == Op::ZExt && is_const(b))
   {
    unsigned w0 = a->k[0]->width;
    if (b->val >> w0) return mk_const(1, 1);
    return mk_cmp(op, a->k[0], mk_const(b->val, w0));
   }
   if (b->op == Op::ZExt && is_const(a))
   {
    unsigned w0 = b->k[0]->width;
    if (a->val >> w0) return mk_const(0, 1);
    return mk_cmp(op, mk_const(a->val, w0), b->k[0]);
   }
   if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mk_cmp(op, a->k[0], b->k[0]);
   if (is_const(b) && w <= 128)
   {
    unsigned lz = leading_zeros(a);
    if (lz && lz < w && (b->val >> (w - lz))) return mk_const(1, 1);
   }
  }
 }
 return intern(op, 1, 0, 0, a, b, 0);
}

Expr *mk_table(uint32_t t, Expr *index)
{
 const TableInfo &ti = g_tables[t];
 if (is_const(index)) return mk_const(index->val < ti.elems.size() ? ti.elems[(size_t)index->val] : 0, ti.elem_width);
 return intern(Op::Table, ti.elem_width, t, 0, index, 0, 0);
}

Expr *mk_fcmp(unsigned pred, Expr *a, Expr *b)
{
 if (is_const(a) && is_const(b)) return mk_const(const_fcmp(pred, a->val, b->val, a->width), 1);
 return intern(Op::FCmp, 1, pred, 0, a, b, 0);
}

static u128 const_fconv(Op op, u128 v)
{
 if (op == Op::FExt) {uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); double d = f; uint64_t r; memcpy(&r, &d, 8); return r;}
 uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); float f = (float)d; uint32_t r; memcpy(&r, &f, 4); return r;
}

Expr *mk_fconv(Op op, Expr *a)
{
 unsigned w = op == Op::FExt ? 64 : 32;
 if (is_const(a)) return mk_const(const_fconv(op, a->val), w);
 return intern(op, w, 0, 0, a, 0, 0);
}

static uint32_t epoch = 0;
static const Model *eval_model;
void eval_begin(const Model *m) {epoch++; eval_model = m;}

// wide values (> 128 bits) are only ever created through Concat of bytes for
// comparisons; the engine compares byte-wise, so widths stay <= 128.
u128 eval_expr(Expr *e)
{
 if (e->op == Op::Const) return e->val;
 if (e->eval_epoch == epoch) return e->eval_value;
 u128 r = 0;
 switch (e->op)
 {
  case Op::Var: r = eval_model->get(e->aux); r &= mask_of(e->width); break;
  case Op::Ite: r = eval_expr(e->k[0]) ? eval_expr(e->k[1]) : eval_expr(e->k[2]); break;
  case Op::Concat: r = (eval_expr(e->k[0]) << e->k[1]->width) | eval_expr(e->k[1]); break;
  case Op::Extract: r = (eval_expr(e->k[0]) >> e->aux) & mask_of(e->width); break;
  case Op::ZExt: r = eval_expr(e->k[0]); break;
  case Op::SExt: r = (u128)sext128(eval_expr(e->k[0]), e->k[0]->width) & mask_of(e->width); break;
  case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle:
   r = const_cmp(e->op, eval_expr(e->k[0]), eval_expr(e->k[1]), e->k[0]->width); break;
  case Op::Table:
  {
   u128 i = eval_expr(e->k[0]);
   const TableInfo &t = g_tables[e->aux];
   r = i < t.elems.size() ? t.elems[(size_t)i] : 0;
   break;
  }
  case Op::FCmp: r = const_fcmp(e->aux, eval_expr(e->k[0]), eval_expr(e->k[1]), e->k[0]->width); break;
  case Op::FExt: case Op::FTrunc: r = const_fconv(e->op, eval_expr(e->k[0])); break;
  default: r = const_bin(e->op, eval_expr(e->k[0]), eval_expr(e->k[1]), e->width);
 }
 e->eval_epoch = epoch;
 e->eval_value = r;
 return r;
}

std::string expr_str(Expr *e, int depth)
{
 static const char *names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","<u","<=u","<s","<=s","ite","concat","extract","zext","sext","table","fcmp","fext","ftrunc"};
 if (e->op == Op::Const) {char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)e->val); return b;}
 if (e->op == Op::Var) return g_vars[e->aux].name;
 if (depth == 0) return "...";
 std::string s = "(" + std::string(names[(int)e->op]);
 if (e->op == Op::Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
 for (int i = 0; i < e->nk; i++) s += " " + expr_str(e->k[i], depth - 1);
 return s + ")";
}
