// Hash-consed bit-vector expressions with construction-time simplification.
#ifndef SYM_EXPR_H
#define SYM_EXPR_H
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class Op: uint8_t
{
 Const, Var,
 Add, Sub, Mul, UDiv, SDiv, URem, SRem,
 And, Or, Xor, Shl, LShr, AShr,
 Eq, Ult, Ule, Slt, Sle,
 Ite, Concat, Extract, ZExt, SExt,
 Table, // aux = table id, k[0] = index (zero-based element index)
 FCmp,  // aux = llvm predicate, operands of width 32 or 64
 FExt, FTrunc // float<->double
};

struct Expr
{
 Op op;
 uint8_t nk;
 uint16_t width;
 uint32_t id;
 uint32_t aux;     // Extract: low bit; Var: variable index; Table: table id
 uint64_t hash;
 uint32_t tree;    // size as a tree, saturated
 u128 val;         // Const
 Expr *k[3];
 const std::vector<uint32_t> *vars; // sorted variable indices
 uint32_t eval_epoch;
 u128 eval_value;
 void *z3ast;      // cached translation
 void *z3bool;
};

struct VarInfo {std::string name; unsigned width;};
struct TableInfo {unsigned elem_width; std::vector<u128> elems;};

extern std::vector<VarInfo> g_vars;
extern std::vector<TableInfo> g_tables;

inline u128 mask_of(unsigned w) {return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1);}
inline i128 sext128(u128 v, unsigned w)
{
 if (w >= 128) return (i128)v;
 v &= mask_of(w);
 if ((v >> (w - 1)) & 1) v |= ~mask_of(w);
 return (i128)v;
}

Expr *mk_const(u128 v, unsigned width);
Expr *mk_var(const std::string &name, unsigned width);
Expr *mk_bin(Op op, Expr *a, Expr *b);
Expr *mk_cmp(Op op, Expr *a, Expr *b); // Eq Ult Ule Slt Sle -> width 1
Expr *mk_not(Expr *a);                 // width-1 or bitwise not
Expr *mk_ite(Expr *c, Expr *a, Expr *b);
Expr *mk_concat(Expr *hi, Expr *lo);
Expr *mk_extract(Expr *a, unsigned lo, unsigned width);
Expr *mk_zext(Expr *a, unsigned width);
Expr *mk_sext(Expr *a, unsigned width);
Expr *mk_table(uint32_t table, Expr *index);
Expr *mk_fcmp(unsigned pred, Expr *a, Expr *b);
Expr *mk_fconv(Op op, Expr *a);
uint32_t add_table(unsigned elem_width, const std::vector<u128> &elems);

u128 const_bin(Op op, u128 a, u128 b, unsigned w);
bool const_cmp(Op op, u128 a, u128 b, unsigned w);
bool const_fcmp(unsigned pred, u128 a, u128 b, unsigned w);

// A model: values of variables. Missing = 0.
struct Model
{
 std::vector<uint64_t> v;
 uint64_t get(uint32_t i) const {return i < v.size() ? v[i] : 0;}
 void set(uint32_t i, uint64_t x) {if (i >= v.size()) v.resize(i + 1); v[i] = x;}
};
void eval_begin(const Model *m); // new epoch
u128 eval_expr(Expr *e);
inline u128 eval_with(Expr *e, const Model &m) {if (e->op == Op::Const) return e->val; eval_begin(&m); return eval_expr(e);}
std::string expr_str(Expr *e, int depth = 4);
size_t expr_count();
#endif
