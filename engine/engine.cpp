#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <random>
#include <unistd.h>

using namespace llvm;

static double now() {return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}

std::string demangle(const std::string &s) {return llvm::demangle(s);}

// ---------------------------------------------------------------- memory
uint32_t Engine::new_obj(State &s, uint64_t size, uint8_t kind, uint8_t fill)
{
 uint32_t id = s.next_obj++;
 size_t c = id >> 6;
 if (c >= s.mem.size()) s.mem.resize(c + 1);
 if (!s.mem[c]) s.mem[c] = std::make_shared<Chunk>();
 else if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
 ObjP o = std::make_shared<Obj>();
 o->size = size;
 o->data.assign(size, fill);
 o->kind = kind;
 s.mem[c]->o[id & 63] = o;
 return id;
}

Obj *Engine::wr_obj(State &s, uint32_t id)
{
 size_t c = id >> 6;
 if (c >= s.mem.size() || !s.mem[c]) return nullptr;
 if (!s.mem[c]->o[id & 63]) return nullptr;
 if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
 ObjP &p = s.mem[c]->o[id & 63];
 if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
 return p.get();
}

void Engine::free_obj(State &s, uint32_t id)
{
 size_t c = id >> 6;
 if (c >= s.mem.size() || !s.mem[c]) return;
 if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
 s.mem[c]->o[id & 63].reset();
 if (c < (s.next_obj >> 6))
 {
  bool any = false;
  for (auto &o: s.mem[c]->o) if (o) {any = true; break;}
  if (!any) s.mem[c].reset();
 }
}

void Engine::check_access(State &s, uint64_t addr, uint64_t n, bool write)
{
 uint32_t id = (uint32_t)(addr >> 32);
 uint64_t off = addr & 0xffffffffu;
 Obj *o = get_obj(s, id);
 if (!o)
 {
  char b[100];
  snprintf(b, sizeof b, "%s of %llu bytes at invalid or freed memory%s", write ? "write" : "read", (unsigned long long)n, id == 0 ? " (null pointer)" : "");
  violation(s, "memory", b);
 }
 if (off + n > o->size)
 {
  char b[200];
  snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of an object of %llu bytes", write ? "write" : "read", (unsigned long long)n, (long long)(int32_t)off, (unsigned long long)o->size);
  violation(s, "memory", b);
 }
 if (o->kind == 5) violation(s, "memory", "data access to a function");
 if (write && o->readonly) violation(s, "memory", "write to constant memory");
}

uint8_t *Engine::raw(State &s, uint64_t addr, uint64_t n)
{
 check_access(s, addr, n, true);
 Obj *o = wr_obj(s, addr >> 32);
 uint64_t off = addr & 0xffffffffu;
 if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i] = nullptr;
 return o->data.data() + off;
}

Expr *Engine::load_byte(State &s, uint64_t addr)
{
 Obj *o = get_obj(s, addr >> 32);
 uint64_t off = addr & 0xffffffffu;
 if (!o->sym.empty() && o->sym[off]) return o->sym[off];
 return mk_const(o->data[off], 8);
}

Val Engine::load(State &s, uint64_t addr, unsigned n)
{
 check_access(s, addr, n, false);
 Obj *o = get_obj(s, addr >> 32);
 uint64_t off = addr & 0xffffffffu;
 bool symbolic = false;
 if (!o->sym.empty())
  for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) {symbolic = true; break;}
 if (!symbolic)
 {
  if (n <= 8) {uint64_t c = 0; memcpy(&c, o->data.data() + off, n); return V(c);}
  if (n <= 16) {u128 c = 0; memcpy(&c, o->data.data() + off, n); return Val{0, mk_const(c, n * 8)};}
 }
 Expr *e = nullptr;
 for (unsigned i = n; i-- > 0;)
 {
  Expr *b = o->sym.empty() || !o->sym[off + i] ? mk_const(o->data[off + i], 8) : o->sym[off + i];
  e = e ? mk_concat(e, b) : b;
 }
 return mk(e);
}

void Engine::store(State &s, uint64_t addr, unsigned n, Val v)
{
 check_access(s, addr, n, true);
 Obj *o = wr_obj(s, addr >> 32);
 uint64_t off = addr & 0xffffffffu;
 if (!v.e && n <= 8)
 {
  memcpy(o->data.data() + off, &v.c, n);
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
  return;
 }
 Expr *e = ex(v, n * 8);
 for (unsigned i = 0; i < n; i++)
 {
  Expr *b = mk_extract(e, i * 8, 8);
  if (b->op == Op::Const) {o->data[off + i] = (uint8_t)b->val; if (!o->sym.empty()) o->sym[off + i] = nullptr;}
  else
  {
   if (o->sym.empty()) o->sym.assign(o->size, nullptr);
   o->sym[off + i] = b;
  }
 }
}

void Engine::mem_copy(State &s, uint64_t dst, uint64_t src, uint64_t n)
{
 if (!n) return;
 check_access(s, src, n, false);
 check_access(s, dst, n, true);
 Obj *d = wr_obj(s, dst >> 32);
 Obj *o = get_obj(s, src >> 32);
 uint64_t so = src & 0xffffffffu, doff = dst & 0xffffffffu;
 memmove(d->data.data() + doff, o->data.data() + so, n);
 bool any = false;
 if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) if (o->sym[so + i]) {any = true; break;}
 if (any && d->sym.empty()) d->sym.assign(d->size, nullptr);
 if (!d->sym.empty())
 {
  if (o->sym.empty()) for (uint64_t i = 0; i < n; i++) d->sym[doff + i] = nullptr;
  else memmove(d->sym.data() + doff, o->sym.data() + so, n * sizeof(Expr *));
 }
}

std::string Engine::read_cstr(State &s, uint64_t addr)
{
 std::string r;
 for (;; addr++)
 {
  check_access(s, addr, 1, false);
  Expr *b = load_byte(s, addr);
  uint8_t c = b->op == Op::Const ? (uint8_t)b->val : (uint8_t)eval_with(b, *s.model);
  if (!c || r.size() > 4000) return r;
  r += (char)c;
 }
}

// ---------------------------------------------------------------- path conditions
void Engine::add_constraint(State &s, Expr *c)
{
 if (c->op == Op::Const) return;
 if (c->op == Op::And && c->width == 1)
 {
  add_constraint(s, c->k[0]);
  add_constraint(s, c->k[1]);
  return;
 }
 s.pc.push_back(c);
}

static int known_bool(State &s, Expr *c)
{
 // most recent constraints first
 Expr *n = mk_not(c);
 size_t k = 0;
 for (size_t i = s.pc.size(); i-- > 0 && k < 400; k++)
 {
  if (s.pc[i] == c) return 1;
  if (s.pc[i] == n) return 0;
 }
 return -1;
}

bool Engine::feasible(State &s, Expr *c, Model &m)
{
 Sat r = solve(s.pc, c, *s.model, m);
 if (r == Sat::unknown)
 {
  incomplete["solver timeout at " + where(s)]++;
  return false;
 }
 return r == Sat::sat;
}

State *Engine::fork_state(State &s)
{
 State *t = new State(s);
 t->depth++;
 forks++;
 return t;
}

bool Engine::branch(State &s, Expr *cond)
{
 if (cond->op == Op::Const) return cond->val != 0;
 int k = known_bool(s, cond);
 if (k >= 0) return k;
 bool side = eval_with(cond, *s.model) != 0;
 g_solver_stats.model_hits++;
 Expr *here = side ? cond : mk_not(cond);
 Expr *there = side ? mk_not(cond) : cond;
 Model m;
 if (feasible(s, there, m))
 {
  State *t = fork_state(s);
  add_constraint(*t, there);
  t->model = std::make_shared<Model>(std::move(m));
  pending.push_back(t);
  add_constraint(s, here);
  s.depth++;
 }
 return side;
}

// ite (plus a constant): choose an arm by branching on the condition
Expr *Engine::choose_arm(State &s, Expr *e)
{
 while (true)
 {
  if (e->op == Op::Ite) e = branch(s, e->k[0]) ? e->k[1] : e->k[2];
  else if (e->op == Op::Add && e->k[1]->op == Op::Const && e->k[0]->op == Op::Ite)
   e = mk_bin(Op::Add, branch(s, e->k[0]->k[0]) ? e->k[0]->k[1] : e->k[0]->k[2], e->k[1]);
  else if (e->op == Op::Add && e->k[0]->op == Op::Const && e->k[1]->op == Op::Ite)
   e = mk_bin(Op::Add, branch(s, e->k[1]->k[0]) ? e->k[1]->k[1] : e->k[1]->k[2], e->k[0]);
  else return e;
 }
}

static bool several_objects(Expr *e, uint64_t &object, bool &first, unsigned &budget)
{
 if (!budget) return false;
 budget--;
 if (e->op == Op::Ite) return several_objects(e->k[1], object, first, budget) || several_objects(e->k[2], object, first, budget);
 if (e->op == Op::Add && e->k[1]->op == Op::Const) return several_objects(e->k[0], object, first, budget);
 if (e->op == Op::Add && e->k[0]->op == Op::Const) return several_objects(e->k[1], object, first, budget);
 if (e->op != Op::Const) return false;
 const uint64_t o = (uint64_t)e->val >> 32;
 if (first) {first = false; object = o; return false;}
 return o != object;
}

// a pointer into one of several objects: one path per object
void Engine::split_pointer(State &s, Val &v)
{
 if (!v.e || v.e->width != 64) return;
 uint64_t object = 0;
 bool first = true;
 unsigned budget = 32;
 if (!several_objects(v.e, object, first, budget)) return;
 v = mk(choose_arm(s, v.e));
}

uint64_t Engine::concrete(State &s, Val &v, unsigned w, const char *what)
{
 if (!v.e) return v.c;
 if (v.e->op == Op::Ite || v.e->op == Op::Add) v.e = choose_arm(s, v.e);
 if (v.e->op == Op::Const) {v = V((uint64_t)v.e->val); return v.c;}
 if (w > 64) give_up(s, std::string("wide concretisation of ") + what);
 Expr *e = v.e;
 // already pinned?
 unsigned excluded = 0;
 for (size_t i = s.pc.size(); i-- > 0;)
 {
  Expr *c = s.pc[i];
  if (c->op == Op::Eq && c->k[0] == e && c->k[1]->op == Op::Const) {v = V((uint64_t)c->k[1]->val); return v.c;}
  if (c->op == Op::Xor && c->k[0]->op == Op::Eq && c->k[0]->k[0] == e) excluded++;
 }
 uint64_t x = (uint64_t)eval_with(e, *s.model);
 Expr *eq = mk_cmp(Op::Eq, e, mk_const(x, w));
 Model m;
 if (excluded >= concretize_limit) incomplete[std::string("concretisation limit for ") + what + " at " + where(s)]++;
 else if (feasible(s, mk_not(eq), m))
 {
  State *t = fork_state(s);
  add_constraint(*t, mk_not(eq));
  t->model = std::make_shared<Model>(std::move(m));
  pending.push_back(t);
 }
 s.pc.push_back(eq);
 v = V(x);
 return x;
}

// ---------------------------------------------------------------- reports
static std::string location(const Instruction *i)
{
 if (!i) return "?";
 if (DILocation *d = i->getDebugLoc())
 {
  // outermost meaningful: innermost scope's file:line
  return d->getFilename().str() + ":" + std::to_string(d->getLine());
 }
 return i->getFunction()->getName().str();
}

static const CInst *cur_inst(const Frame &f) {return f.pc < f.f->code.size() ? &f.f->code[f.pc] : nullptr;}

static std::string full_location(const Instruction *i)
{
 if (!i) return "?";
 std::string r;
 for (DILocation *d = i->getDebugLoc(); d; d = d->getInlinedAt())
 {
  std::string fn;
  if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
  if (!r.empty()) r += " < ";
  r += fn + "@" + d->getFilename().str() + ":" + std::to_string(d->getLine());
 }
 if (r.empty()) r = i->getFunction()->getName().str();
 return r;
}

std::string Engine::where(State &s)
{
 // innermost frame located in the repository or the harness
 auto &st = th(s).stack;
 for (size_t i = st.size(); i-- > 0;)
 {
  const CInst *c = cur_inst(st[i]);
  if (!c || !c->src) continue;
  for (DILocation *d = c->src->getDebugLoc(); d; d = d->getInlinedAt())
  {
   std::string f = d->getFilename().str();
   if (f.find("/usr/") == std::string::npos && f.find("rt/") == std::string::npos)
    return f + ":" + std::to_string(d->getLine());
  }
 }
 if (!st.empty()) {const CInst *c = cur_inst(st.back()); if (c) return location(c->src);}
 return "?";
}

std::vector<std::string> Engine::backtrace(State &s)
{
 std::vector<std::string> r;
 auto &st = th(s).stack;
 for (size_t i = st.size(); i-- > 0 && r.size() < 40;)
 {
  const CInst *c = cur_inst(st[i]);
  r.push_back(demangle(st[i].f->name) + " : " + (c ? full_location(c->src) : "?"));
 }
 return r;
}

std::vector<std::string> Engine::dump_inputs(State &s, const Model &m)
{
 std::vector<std::string> r;
 eval_begin(&m);
 for (const Input &in: s.inputs)
 {
  std::string l = in.name + " " + std::to_string(in.width) + " " + std::to_string(in.bytes.size());
  for (Expr *e: in.bytes)
  {
   char b[40];
   snprintf(b, sizeof b, " %llx", (unsigned long long)eval_expr(e));
   l += b;
  }
  r.push_back(l);
 }
 return r;
}

void Engine::record_violation(State &s, const std::string &kind, const std::string &msg, const Model &m)
{
 std::string w = where(s);
 std::string key = kind + "|" + msg + "|" + w;
 if (!violation_keys.insert(key).second) return;
 Violation v;
 v.kind = kind;
 v.message = msg;
 v.where = w;
 v.stack = backtrace(s);
 v.inputs = dump_inputs(s, m);
 v.log = s.log;
 violations.push_back(v);
}

void Engine::violation(State &s, const std::string &kind, const std::string &msg, const Model *m, bool)
{
 record_violation(s, kind, msg, m ? *m : *s.model);
 paths_violated++;
 throw PathEnd();
}

void Engine::give_up(State &s, const std::string &reason)
{
 incomplete[reason]++;
 if (getenv("SYM_DEBUG")) {fprintf(stderr, "give up: %s\n", reason.c_str()); for (auto &l: backtrace(s)) fprintf(stderr, "   %s\n", l.c_str());}
 throw PathEnd();
}

uint64_t Engine::trace_hash(State &s, const Model &m)
{
 uint64_t h = 1469598103934665603ull;
 eval_begin(&m);
 for (Expr *e: s.trace_vals)
 {
  uint64_t x = (uint64_t)eval_expr(e);
  for (int i = 0; i < 8; i++) {h ^= (x >> (8 * i)) & 0xff; h *= 1099511628211ull;}
 }
 return h;
}

void Engine::assume(State &s, Expr *c)
{
 if (c->op == Op::Const) {if (c->val) return; paths_assumed_away++; throw PathEnd();}
 if (known_bool(s, c) == 1) return;
 if (eval_with(c, *s.model)) {add_constraint(s, c); return;}
 Model m;
 if (!feasible(s, c, m)) {paths_assumed_away++; throw PathEnd();}
 add_constraint(s, c);
 s.model = std::make_shared<Model>(std::move(m));
}

void Engine::check_assert(State &s, Expr *c, const std::string &msg)
{
 assert_hits[msg]++;
 asserts_checked++;
 if (c->op == Op::Const)
 {
  asserts_trivial++;
  if (!c->val) violation(s, "assert", msg);
  return;
 }
 Expr *n = mk_not(c);
 if (!eval_with(c, *s.model)) record_violation(s, "assert", msg, *s.model);
 else
 {
  Model m;
  int k = known_bool(s, c);
  if (k == 1) return;
  if (feasible(s, n, m)) record_violation(s, "assert", msg, m);
  else {add_constraint(s, c); return;}
 }
 // go on with the inputs for which it holds
 paths_violated++;
 assume(s, c);
}

void Engine::end_path(State &s)
{
 paths_completed++;
 if (samples.size() < max_samples || (paths_completed % 97 == 0 && samples.size() < max_samples * 4))
 {
  // a less regular witness than the solver's: randomise what the path leaves free
  Model m = *s.model;
  static uint64_t r = 88172645463325252ull;
  int budget = 64;
  for (const Input &in: s.inputs)
   for (Expr *e: in.bytes)
   {
    if (e->op != Op::Var || budget-- <= 0) continue;
    uint64_t old = m.get(e->aux);
    r ^= r << 13; r ^= r >> 7; r ^= r << 17;
    m.set(e->aux, r & mask64(in.width));
    bool ok = true;
    eval_begin(&m);
    for (Expr *c: s.pc) if (!eval_expr(c)) {ok = false; break;}
    if (!ok) m.set(e->aux, old);
   }
  Sample sm;
  sm.inputs = dump_inputs(s, m);
  sm.trace = trace_hash(s, m);
  samples.push_back(sm);
 }
}

// ---------------------------------------------------------------- types and constants
void Engine::flatten(Type *t, uint64_t off, std::vector<FlatElem> &out)
{
 if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy() || !t->isSized()) return;
 if (auto *st = dyn_cast<StructType>(t))
 {
  const StructLayout *sl = dl->getStructLayout(st);
  for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
  return;
 }
 if (auto *at = dyn_cast<ArrayType>(t))
 {
  uint64_t es = dl->getTypeAllocSize(at->getElementType());
  for (uint64_t i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, out);
  return;
 }
 if (auto *vt = dyn_cast<FixedVectorType>(t))
 {
  uint64_t es = dl->getTypeSizeInBits(vt->getElementType()) / 8;
  if (es == 0) es = 1; // i1 vectors: never in memory
  for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), off + i * es, out);
  return;
 }
 unsigned w = dl->getTypeSizeInBits(t).getFixedValue();
 unsigned bytes = dl->getTypeStoreSize(t).getFixedValue();
 out.push_back(FlatElem{(uint16_t)w, (uint16_t)bytes, off});
}

uint64_t Engine::addr_of(const Constant *c)
{
 c = cast<Constant>(c->stripPointerCasts());
 if (isa<ConstantPointerNull>(c)) return 0;
 if (auto *gv = dyn_cast<GlobalValue>(c))
 {
  if (auto *ga = dyn_cast<GlobalAlias>(gv)) return addr_of(ga->getAliasee());
  auto it = global_addr.find(gv);
  if (it == global_addr.end()) return 0;
  return it->second;
 }
 Val v = const_val(c);
 return v.c;
}

Val Engine::const_val(const Constant *c)
{
 if (auto *ci = dyn_cast<ConstantInt>(c))
 {
  unsigned w = ci->getBitWidth();
  if (w <= 64) return V(ci->getZExtValue());
  const APInt &a = ci->getValue();
  u128 v = a.getRawData()[0];
  if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
  return Val{0, mk_const(v, w)};
 }
 if (isa<ConstantPointerNull>(c)) return V(0);
 if (auto *cf = dyn_cast<ConstantFP>(c))
 {
  APInt a = cf->getValueAPF().bitcastToAPInt();
  if (a.getBitWidth() <= 64) return V(a.getZExtValue());
  u128 v = a.getRawData()[0];
  if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
  return Val{0, mk_const(v, a.getBitWidth())};
 }
 if (isa<UndefValue>(c))
 {
  unsigned w = dl->getTypeSizeInBits(c->getType());
  if (w > 64) return Val{0, mk_const(0, w)};
  return V(0);
 }
 if (isa<GlobalValue>(c)) return V(addr_of(c));
 if (auto *ce = dyn_cast<ConstantExpr>(c))
 {
  switch (ce->getOpcode())
  {
   case Instruction::GetElementPtr:
   {
    APInt off(64, 0);
    const auto *gep = cast<GEPOperator>(ce);
    gep->accumulateConstantOffset(*dl, off);
    return V(const_val(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue());
   }
   case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
   {
    Val v = const_val(ce->getOperand(0));
    unsigned w = dl->getTypeSizeInBits(ce->getType());
    if (w < 64) v.c &= mask64(w);
    return v;
   }
   case Instruction::Trunc: {Val v = const_val(ce->getOperand(0)); v.c &= mask64(dl->getTypeSizeInBits(ce->getType())); return v;}
   case Instruction::Sub: return V(const_val(ce->getOperand(0)).c - const_val(ce->getOperand(1)).c);
   case Instruction::Add: return V(const_val(ce->getOperand(0)).c + const_val(ce->getOperand(1)).c);
   case Instruction::Xor: return V(const_val(ce->getOperand(0)).c ^ const_val(ce->getOperand(1)).c);
   case Instruction::ICmp:
   {
    Val a = const_val(ce->getOperand(0)), b = const_val(ce->getOperand(1));
    bool r = false;
    switch (ce->getPredicate())
    {
     case CmpInst::ICMP_EQ: r = a.c == b.c; break;
     case CmpInst::ICMP_NE: r = a.c != b.c; break;
     case CmpInst::ICMP_ULT: r = a.c < b.c; break;
     case CmpInst::ICMP_UGT: r = a.c > b.c; break;
     default: break;
    }
    return V(r);
   }
   default:
    fprintf(stderr, "unsupported constant expression %s\n", ce->getOpcodeName());
    return V(0);
  }
 }
 if (auto *dso = dyn_cast<DSOLocalEquivalent>(c)) return V(addr_of(dso->getGlobalValue()));
 fprintf(stderr, "unsupported constant\n");
 return V(0);
}

void Engine::const_slots(const Constant *c, std::vector<Val> &out)
{
 Type *t = c->getType();
 if (t->isAggregateType() || t->isVectorTy())
 {
  unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
  for (unsigned i = 0; i < n; i++)
  {
   Constant *e = c->getAggregateElement(i);
   if (e) const_slots(e, out);
   else out.push_back(V(0));
  }
  return;
 }
 out.push_back(const_val(c));
}

void Engine::init_global(State &s, const Constant *c, std::vector<uint8_t> &data, uint64_t off)
{
 if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
 if (auto *cds = dyn_cast<ConstantDataSequential>(c))
 {
  StringRef r = cds->getRawDataValues();
  memcpy(data.data() + off, r.data(), r.size());
  return;
 }
 if (auto *ca = dyn_cast<ConstantArray>(c))
 {
  uint64_t es = dl->getTypeAllocSize(ca->getType()->getElementType());
  for (unsigned i = 0; i < ca->getNumOperands(); i++) init_global(s, ca->getOperand(i), data, off + i * es);
  return;
 }
 if (auto *cs = dyn_cast<ConstantStruct>(c))
 {
  const StructLayout *sl = dl->getStructLayout(cs->getType());
  for (unsigned i = 0; i < cs->getNumOperands(); i++) init_global(s, cs->getOperand(i), data, off + sl->getElementOffset(i));
  return;
 }
 if (auto *cv = dyn_cast<ConstantVector>(c))
 {
  uint64_t es = dl->getTypeSizeInBits(cv->getType()->getElementType()) / 8;
  for (unsigned i = 0; i < cv->getNumOperands(); i++) init_global(s, cv->getOperand(i), data, off + i * es);
  return;
 }
 Val v = const_val(c);
 uint64_t n = dl->getTypeStoreSize(c->getType());
 if (v.e) {u128 x = v.e->val; memcpy(data.data() + off, &x, std::min<uint64_t>(n, 16));}
 else memcpy(data.data() + off, &v.c, std::min<uint64_t>(n, 8));
}

CFunc *Engine::get_func(const Function *f)
{
 auto it = funcs.find(f);
 if (it != funcs.end()) return it->second;
 CFunc *c = new CFunc;
 c->fn = f;
 c->name = f->getName().str();
 funcs[f] = c;
 Builtin b = find_builtin(c->name);
 if (b) {c->builtin = b; c->builtin_name = c->name;}
 for (auto &a: f->args())
 {
  size_t n = c->args.size();
  flatten(a.getType(), 0, c->args);
  c->nargslots.push_back(c->args.size() - n);
 }
 if (auto *sp = f->getSubprogram())
 {
  std::string file = sp->getFilename().str();
  if (file.find("/repo/") != std::string::npos || file.find("joedb/") != std::string::npos) c->is_repo = true;
 }
 return c;
}

State *Engine::initial()
{
 State *s = new State;
 s->model = std::make_shared<Model>();
 s->next_obj = 16; // low addresses are invalid
 // functions
 for (Function &f: *module)
 {
  uint64_t a = alloc(*s, 16, 5, 0);
  global_addr[&f] = a;
  addr_of_name[f.getName().str()] = a;
  name_of_obj[a >> 32] = f.getName().str();
  func_of_obj[a >> 32] = get_func(&f);
 }
 for (GlobalVariable &g: module->globals())
 {
  uint64_t size = g.getValueType()->isSized() ? dl->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
  bool ext = !g.hasInitializer();
  if (ext && size < 128) size = 128;
  uint64_t a = alloc(*s, size, ext ? 7 : 3, 0);
  global_addr[&g] = a;
  addr_of_name[g.getName().str()] = a;
  name_of_obj[a >> 32] = g.getName().str();
 }
 for (GlobalVariable &g: module->globals())
  if (g.hasInitializer())
  {
   Obj *o = wr_obj(*s, global_addr[&g] >> 32);
   init_global(*s, g.getInitializer(), o->data, 0);
   if (g.isConstant()) o->readonly = true;
  }
 s->threads.resize(1);
 return s;
}

void Engine::load(Module *m)
{
 module = m;
 dl = &m->getDataLayout();
}

// ---------------------------------------------------------------- compilation to slots
void Engine::compile(CFunc *cf)
{
 cf->compiled = true;
 const Function *f = cf->fn;
 std::unordered_map<const Value *, uint32_t> slot;
 std::unordered_map<const Value *, uint32_t> nslots;
 uint32_t next = 0;
 auto assign = [&](const Value *v)
 {
  std::vector<FlatElem> fl;
  flatten(v->getType(), 0, fl);
  slot[v] = next;
  nslots[v] = fl.size();
  next += fl.size();
 };
 for (auto &a: f->args()) assign(&a);
 for (auto &bb: *f) for (auto &i: bb) if (!i.getType()->isVoidTy()) assign(&i);
 cf->nregs = next;

 auto operands = [&](const Value *v, std::vector<Operand> &out)
 {
  std::vector<FlatElem> fl;
  flatten(v->getType(), 0, fl);
  if (auto *c = dyn_cast<Constant>(v))
  {
   std::vector<Val> vals;
   const_slots(c, vals);
   for (size_t i = 0; i < vals.size(); i++) out.push_back(Operand{-1, vals[i], fl[i].width});
   return;
  }
  auto it = slot.find(v);
  if (it == slot.end()) {out.push_back(Operand{-1, V(0), 64}); return;} // metadata, inline asm...
  for (size_t i = 0; i < fl.size(); i++) out.push_back(Operand{(int32_t)(it->second + i), V(0), fl[i].width});
 };
 auto operand = [&](const Value *v) {std::vector<Operand> o; operands(v, o); return o.empty() ? Operand{-1, V(0), 64} : o[0];};

 std::unordered_map<const BasicBlock *, uint32_t> block_pc;
 struct Fix {uint32_t inst; uint32_t edge; const BasicBlock *from, *to;};
 std::vector<Fix> fixes;

 for (auto &bb: *f)
 {
  block_pc[&bb] = cf->code.size();
  for (auto &ii: bb)
  {
   const Instruction *in = &ii;
   if (isa<PHINode>(in)) continue;
   if (isa<DbgInfoIntrinsic>(in)) continue;
   CInst c;
   c.src = in;
   c.op = I::Unsupported;
   if (!in->getType()->isVoidTy()) {c.dst = slot[in]; c.ndst = nslots[in];}
   auto add_edge = [&](const BasicBlock *to)
   {
    c.edges.emplace_back();
    fixes.push_back({(uint32_t)cf->code.size(), (uint32_t)c.edges.size() - 1, &bb, to});
    return (uint32_t)c.edges.size() - 1;
   };
   auto elem_width = [&](Type *t) {return (uint16_t)dl->getTypeSizeInBits(t->getScalarType()).getFixedValue();};
   switch (in->getOpcode())
   {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    {
     c.op = I::Bin;
     Op o = Op::Add;
     switch (in->getOpcode())
     {
      case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break;
      case Instruction::UDiv: o = Op::UDiv; break; case Instruction::SDiv: o = Op::SDiv; break;
      case Instruction::URem: o = Op::URem; break; case Instruction::SRem: o = Op::SRem; break;
      case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break;
      case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break;
     }
     c.sub = (uint16_t)o;
     c.w = elem_width(in->getType());
     operands(in->getOperand(0), c.ops);
     operands(in->getOperand(1), c.ops);
     break;
    }
    case Instruction::ICmp:
     c.op = I::Cmp;
     c.sub = cast<ICmpInst>(in)->getPredicate();
     c.w = elem_width(in->getOperand(0)->getType());
     operands(in->getOperand(0), c.ops);
     operands(in->getOperand(1), c.ops);
     break;
    case Instruction::FCmp:
     c.op = I::FCmp;
     c.sub = cast<FCmpInst>(in)->getPredicate();
     c.w = elem_width(in->getOperand(0)->getType());
     operands(in->getOperand(0), c.ops);
     operands(in->getOperand(1), c.ops);
     break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
     c.op = I::FBin;
     c.sub = in->getOpcode();
     c.w = elem_width(in->getType());
     operands(in->getOperand(0), c.ops);
     operands(in->getOperand(1), c.ops);
     break;
    case Instruction::FNeg:
     c.op = I::FNeg;
     c.w = elem_width(in->getType());
     operands(in->getOperand(0), c.ops);
     break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToUI: case Instruction::FPToSI:
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
     c.op = I::Cast;
     c.sub = in->getOpcode();
     c.w = elem_width(in->getType());
     c.w2 = elem_width(in->getOperand(0)->getType());
     operands(in->getOperand(0), c.ops);
     if (in->getOpcode() == Instruction::BitCast && c.ops.size() != c.ndst) c.op = I::Unsupported;
     break;
    case Instruction::Freeze:
     c.op = I::Copy;
     operands(in->getOperand(0), c.ops);
     break;
    case Instruction::Load:
    {
     c.op = I::Load;
     c.ops.push_back(operand(in->getOperand(0)));
     flatten(in->getType(), 0, c.flat);
     break;
    }
    case Instruction::Store:
    {
     c.op = I::Store;
     c.ops.push_back(operand(in->getOperand(1)));
     operands(in->getOperand(0), c.ops);
     flatten(in->getOperand(0)->getType(), 0, c.flat);
     break;
    }
    case Instruction::GetElementPtr:
    {
     auto *g = cast<GetElementPtrInst>(in);
     if (g->getType()->isVectorTy()) break;
     c.op = I::Gep;
     c.ops.push_back(operand(g->getPointerOperand()));
     int64_t off = 0;
     for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
     {
      if (StructType *st = it.getStructTypeOrNull())
       off += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
      else
      {
       uint64_t sz = dl->getTypeAllocSize(it.getIndexedType());
       if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) off += ci->getSExtValue() * (int64_t)sz;
       else {c.ops.push_back(operand(it.getOperand())); c.scales.push_back(sz);}
      }
     }
     c.imm = off;
     break;
    }
    case Instruction::Alloca:
    {
     auto *a = cast<AllocaInst>(in);
     c.op = I::Alloca;
     c.imm = dl->getTypeAllocSize(a->getAllocatedType());
     c.ops.push_back(operand(a->getArraySize()));
     break;
    }
    case Instruction::Br:
    {
     auto *b = cast<BranchInst>(in);
     if (b->isConditional())
     {
      c.op = I::CondBr;
      c.ops.push_back(operand(b->getCondition()));
      add_edge(b->getSuccessor(0));
      add_edge(b->getSuccessor(1));
     }
     else {c.op = I::Br; add_edge(b->getSuccessor(0));}
     break;
    }
    case Instruction::Switch:
    {
     auto *sw = cast<SwitchInst>(in);
     c.op = I::Switch;
     c.ops.push_back(operand(sw->getCondition()));
     c.w = sw->getCondition()->getType()->getIntegerBitWidth();
     add_edge(sw->getDefaultDest());
     for (auto &cs: sw->cases())
     {
      uint32_t e = add_edge(cs.getCaseSuccessor());
      c.cases.push_back({cs.getCaseValue()->getZExtValue(), e});
     }
     break;
    }
    case Instruction::Ret:
     c.op = I::Ret;
     if (in->getNumOperands()) operands(in->getOperand(0), c.ops);
     break;
    case Instruction::Unreachable: c.op = I::Unreachable; break;
    case Instruction::Select:
     c.op = I::Select;
     operands(in->getOperand(0), c.ops);
     c.imm = c.ops.size(); // number of condition slots
     operands(in->getOperand(1), c.ops);
     operands(in->getOperand(2), c.ops);
     break;
    case Instruction::ExtractValue:
    {
     auto *ev = cast<ExtractValueInst>(in);
     // slot offset of the indices
     std::vector<Operand> all;
     operands(ev->getAggregateOperand(), all);
     Type *t = ev->getAggregateOperand()->getType();
     uint64_t pos = 0;
     for (unsigned idx: ev->indices())
     {
      for (unsigned k = 0; k < idx; k++)
      {
       Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(k) : cast<ArrayType>(t)->getElementType();
       std::vector<FlatElem> fl; flatten(et, 0, fl); pos += fl.size();
      }
      t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(idx) : cast<ArrayType>(t)->getElementType();
     }
     c.op = I::Copy;
     for (uint32_t k = 0; k < c.ndst; k++) c.ops.push_back(all[pos + k]);
     break;
    }
    case Instruction::InsertValue:
    {
     auto *iv = cast<InsertValueInst>(in);
     std::vector<Operand> all, val;
     operands(iv->getAggregateOperand(), all);
     operands(iv->getInsertedValueOperand(), val);
     Type *t = iv->getAggregateOperand()->getType();
     uint64_t pos = 0;
     for (unsigned idx: iv->indices())
     {
      for (unsigned k = 0; k < idx; k++)
      {
       Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(k) : cast<ArrayType>(t)->getElementType();
       std::vector<FlatElem> fl; flatten(et, 0, fl); pos += fl.size();
      }
      t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(idx) : cast<ArrayType>(t)->getElementType();
     }
     for (size_t k = 0; k < val.size(); k++) all[pos + k] = val[k];
     c.op = I::Copy;
     c.ops = all;
     break;
    }
    case Instruction::ExtractElement:
    {
     std::vector<Operand> all;
     operands(in->getOperand(0), all);
     if (auto *ci = dyn_cast<ConstantInt>(in->getOperand(1)))
     {
      c.op = I::Copy;
      c.ops.push_back(all[ci->getZExtValue() % all.size()]);
     }
     break;
    }
    case Instruction::InsertElement:
    {
     std::vector<Operand> all;
     operands(in->getOperand(0), all);
     if (auto *ci = dyn_cast<ConstantInt>(in->getOperand(2)))
     {
      c.op = I::Copy;
      all[ci->getZExtValue() % all.size()] = operand(in->getOperand(1));
      c.ops = all;
     }
     break;
    }
    case Instruction::ShuffleVector:
    {
     auto *sv = cast<ShuffleVectorInst>(in);
     std::vector<Operand> all;
     operands(in->getOperand(0), all);
     operands(in->getOperand(1), all);
     c.op = I::Copy;
     for (int m: sv->getShuffleMask()) c.ops.push_back(m < 0 ? Operand{-1, V(0), all[0].width} : all[m]);
     break;
    }
    case Instruction::Call: case Instruction::Invoke:
    {
     auto *cb = cast<CallBase>(in);
     c.op = I::Call;
     c.is_invoke = isa<InvokeInst>(in);
     if (cb->isInlineAsm()) {c.op = I::Nop; break;}
     const Value *cv = cb->getCalledOperand()->stripPointerCasts();
     if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
     if (auto *fn = dyn_cast<Function>(cv))
     {
      c.callee_fn = fn;
      c.callee = get_func(fn);
      if (fn->isIntrinsic())
      {
       auto id = fn->getIntrinsicID();
       if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
           id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end ||
           id == Intrinsic::prefetch || id == Intrinsic::donothing || id == Intrinsic::sideeffect || id == Intrinsic::var_annotation)
       {
        c.op = I::Nop;
        if (c.ndst == 0) {} 
        break;
       }
      }
     }
     else c.ops.push_back(operand(cv));
     for (auto &a: cb->args())
     {
      if (a->getType()->isMetadataTy()) {c.ops.push_back(Operand{-1, V(0), 64}); continue;}
      size_t n = c.ops.size();
      operands(a.get(), c.ops);
      if (c.ops.size() == n) {} // empty aggregate
     }
     // byval arguments: remember (copy made at call time)
     for (unsigned i = 0; i < cb->arg_size(); i++)
      if (cb->isByValArgument(i)) c.scales.push_back(((uint64_t)i << 32) | dl->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue());
     flatten(in->getType(), 0, c.flat);
     if (c.is_invoke)
     {
      auto *iv = cast<InvokeInst>(in);
      add_edge(iv->getNormalDest());
      add_edge(iv->getUnwindDest());
     }
     break;
    }
    case Instruction::LandingPad:
    {
     auto *lp = cast<LandingPadInst>(in);
     c.op = I::LandingPad;
     c.cleanup = lp->isCleanup();
     for (unsigned i = 0; i < lp->getNumClauses(); i++)
     {
      if (lp->isCatch(i)) c.clauses.push_back({0, {addr_of(lp->getClause(i))}});
      else
      {
       std::vector<uint64_t> tis;
       if (auto *ca = dyn_cast<ConstantArray>(lp->getClause(i)))
        for (unsigned k = 0; k < ca->getNumOperands(); k++) tis.push_back(addr_of(ca->getOperand(k)));
       c.clauses.push_back({1, tis});
      }
     }
     break;
    }
    case Instruction::Resume:
     c.op = I::Resume;
     operands(in->getOperand(0), c.ops);
     break;
    case Instruction::AtomicRMW:
    {
     auto *a = cast<AtomicRMWInst>(in);
     c.op = I::AtomicRMW;
     c.sub = a->getOperation();
     c.w = elem_width(a->getValOperand()->getType());
     c.ops.push_back(operand(a->getPointerOperand()));
     c.ops.push_back(operand(a->getValOperand()));
     break;
    }
    case Instruction::AtomicCmpXchg:
    {
     auto *a = cast<AtomicCmpXchgInst>(in);
     c.op = I::CmpXchg;
     c.w = elem_width(a->getNewValOperand()->getType());
     c.ops.push_back(operand(a->getPointerOperand()));
     c.ops.push_back(operand(a->getCompareOperand()));
     c.ops.push_back(operand(a->getNewValOperand()));
     break;
    }
    case Instruction::Fence: c.op = I::Nop; break;
    default: break;
   }
   cf->code.push_back(std::move(c));
  }
 }
 for (auto &fx: fixes)
 {
  Edge &e = cf->code[fx.inst].edges[fx.edge];
  e.target = block_pc[fx.to];
  for (auto &phi: fx.to->phis())
  {
   std::vector<Operand> o;
   operands(phi.getIncomingValueForBlock(fx.from), o);
   for (size_t k = 0; k < o.size(); k++) e.copies.push_back({(uint32_t)(slot[&phi] + k), o[k]});
  }
 }
}

// ---------------------------------------------------------------- execution
void Engine::take_edge(State &, Frame &fr, const Edge &e)
{
 size_t n = e.copies.size();
 if (n == 1) fr.regs[e.copies[0].first] = get(fr, e.copies[0].second);
 else if (n)
 {
  Val tmp[16];
  std::vector<Val> big;
  Val *t = tmp;
  if (n > 16) {big.resize(n); t = big.data();}
  for (size_t i = 0; i < n; i++) t[i] = get(fr, e.copies[i].second);
  for (size_t i = 0; i < n; i++) fr.regs[e.copies[i].first] = t[i];
 }
 fr.pc = e.target;
}

uint64_t Engine::resolve_ptr(State &s, Frame &fr, const Operand &p, uint64_t bytes, bool write)
{
 Val v = get(fr, p);
 split_pointer(s, v);
 if (!v.e) return v.c;
 // a symbolic pointer: first make sure that it cannot leave its object
 uint64_t a0 = (uint64_t)eval_with(v.e, *s.model);
 Obj *o = get_obj(s, a0 >> 32);
 if (o)
 {
  uint64_t base = a0 & ~0xffffffffull;
  if (o->size >= bytes)
  {
   Expr *in = mk_cmp(Op::Ule, mk_bin(Op::Sub, v.e, mk_const(base, 64)), mk_const(o->size - bytes, 64));
   if (!branch(s, in)) {Val w = v; return concrete(s, w, 64, "pointer");}
  }
 }
 Val w = v;
 return concrete(s, w, 64, write ? "write address" : "read address");
}

// load through a choice of constant addresses that all stay in one object
static bool small_choice(const Expr *e, unsigned &budget)
{
 if (!budget) return false;
 budget--;
 if (e->op == Op::Const) return true;
 return e->op == Op::Ite && small_choice(e->k[1], budget) && small_choice(e->k[2], budget);
}

Expr *Engine::load_choice(State &s, Expr *p, unsigned bytes)
{
 if (p->op == Op::Const) {Val x = load(s, (uint64_t)p->val, bytes); return ex(x, bytes * 8);}
 Expr *a = load_choice(s, p->k[1], bytes);
 return mk_ite(p->k[0], a, load_choice(s, p->k[2], bytes));
}

static bool choice_inside(const Expr *e, uint64_t base, uint64_t limit)
{
 if (e->op == Op::Const) return (uint64_t)e->val - base <= limit;
 return choice_inside(e->k[1], base, limit) && choice_inside(e->k[2], base, limit);
}

bool Engine::sym_read(State &s, Expr *p, unsigned bytes, Val &out)
{
 if (bytes <= 16)
 {
  unsigned budget = 24;
  if (p->op == Op::Ite && small_choice(p, budget))
  {
   uint64_t a0 = (uint64_t)eval_with(p, *s.model);
   Obj *o = get_obj(s, a0 >> 32);
   if (o && o->size >= bytes && o->kind != 5 && choice_inside(p, a0 & ~0xffffffffull, o->size - bytes))
   {
    out = mk(load_choice(s, p, bytes));
    return true;
   }
  }
 }
 uint64_t a0 = (uint64_t)eval_with(p, *s.model);
 Obj *o = get_obj(s, a0 >> 32);
 if (!o || o->size < bytes || o->kind == 5) return false;
 uint64_t base = a0 & ~0xffffffffull;
 Expr *off = mk_bin(Op::Sub, p, mk_const(base, 64));
 if (o->size > 2048 || bytes > 8) return false;
 bool allconc = true;
 if (!o->sym.empty()) for (Expr *b: o->sym) if (b) {allconc = false; break;}
 if (!allconc && o->size > 64) return false;
 Expr *in = mk_cmp(Op::Ule, off, mk_const(o->size - bytes, 64));
 if (!branch(s, in)) return false; // model moved out of the object: caller reports
 if (allconc)
 {
  std::vector<u128> el;
  for (uint64_t i = 0; i + bytes <= o->size; i++) {uint64_t c = 0; memcpy(&c, o->data.data() + i, bytes); el.push_back(c);}
  out = mk(mk_table(add_table(bytes * 8, el), off));
  return true;
 }
 Expr *e = nullptr;
 for (uint64_t i = 0; i + bytes <= o->size; i++)
 {
  Val x = load(s, base + i, bytes);
  Expr *xe = ex(x, bytes * 8);
  e = e ? mk_ite(mk_cmp(Op::Eq, off, mk_const(i, 64)), xe, e) : xe;
 }
 out = mk(e);
 return true;
}

Val Engine::exec_load(State &s, Frame &fr, const Operand &p, uint64_t extra, unsigned bytes)
{
 Val v = get(fr, p);
 split_pointer(s, v);
 if (v.e)
 {
  Val out;
  Expr *pe = extra ? mk_bin(Op::Add, v.e, mk_const(extra, 64)) : v.e;
  if (sym_read(s, pe, bytes, out)) return out;
  uint64_t a = resolve_ptr(s, fr, p, bytes, false);
  return load(s, a + extra, bytes);
 }
 return load(s, v.c + extra, bytes);
}

CFunc *Engine::resolve_func(State &s, uint64_t addr)
{
 auto it = func_of_obj.find(addr >> 32);
 if (it == func_of_obj.end() || (addr & 0xffffffffu)) violation(s, "memory", addr ? "call through an invalid function pointer" : "call through a null function pointer");
 return it->second;
}

void Engine::call_function(State &s, CFunc *f, const std::vector<Val> &args, Frame::Kind kind, uint32_t after)
{
 if (!f->compiled) compile(f);
 if (th(s).stack.size() > 3000) give_up(s, "stack depth");
 f->executed++;
 th(s).stack.emplace_back();
 Frame &fr = th(s).stack.back();
 fr.f = f;
 fr.kind = kind;
 fr.after = after;
 fr.regs.resize(f->nregs, V(0));
 for (size_t i = 0; i < f->args.size() && i < args.size(); i++) fr.regs[i] = args[i];
}

void Engine::finish_call(State &s, const CInst &ci, const std::vector<Val> &ret)
{
 Frame &fr = th(s).stack.back();
 for (uint32_t i = 0; i < ci.ndst; i++) fr.regs[ci.dst + i] = i < ret.size() ? ret[i] : V(0);
 if (ci.is_invoke) take_edge(s, fr, ci.edges[0]);
 else fr.pc++;
}

void Engine::return_from(State &s, const std::vector<Val> &ret)
{
 Thread &t = th(s);
 Frame fr = std::move(t.stack.back());
 t.stack.pop_back();
 for (uint32_t a: fr.allocas) free_obj(s, a);
 if (fr.kind == Frame::Kind::boundary || t.stack.empty()) return; // handled by the caller of step_loop
 Frame &c = t.stack.back();
 const CInst &ci = c.f->code[c.pc];
 finish_call(s, ci, ret);
}

// ---------------------------------------------------------------- exceptions
std::string Engine::ti_kind(State &s, uint64_t ti)
{
 Val v = load(s, ti, 8);
 auto it = name_of_obj.find(v.c >> 32);
 return it == name_of_obj.end() ? "" : it->second;
}

bool Engine::find_base(State &s, uint64_t ti, uint64_t target, uint64_t obj, int64_t &off, int &count)
{
 if (ti == target) {count++; return true;}
 std::string k = ti_kind(s, ti);
 if (k.find("__si_class_type_info") != std::string::npos)
 {
  uint64_t b = load(s, ti + 16, 8).c;
  return find_base(s, b, target, obj, off, count);
 }
 if (k.find("__vmi_class_type_info") != std::string::npos)
 {
  uint32_t n = (uint32_t)load(s, ti + 20, 4).c;
  bool found = false;
  for (uint32_t i = 0; i < n; i++)
  {
   uint64_t b = load(s, ti + 24 + i * 16, 8).c;
   int64_t of = (int64_t)load(s, ti + 32 + i * 16, 8).c;
   int64_t bo = of >> 8;
   if (!(of & 2)) continue; // not public
   if (of & 1) // virtual base: offset stored in the vtable
   {
    uint64_t vt = load(s, obj + off, 8).c;
    bo = (int64_t)load(s, vt + bo, 8).c;
   }
   int64_t o2 = off + bo;
   if (find_base(s, b, target, obj, o2, count)) {if (!found) {off = o2; found = true;}}
   if (found) return true;
  }
  return found;
 }
 return false;
}

bool Engine::type_matches(State &s, uint64_t thrown, uint64_t catcher, uint64_t obj, int64_t &off)
{
 off = 0;
 if (catcher == 0) return true;
 int count = 0;
 return find_base(s, thrown, catcher, obj, off, count);
}

void Engine::throw_exception(State &s, uint64_t obj)
{
 th(s).exc = obj;
 // search phase
 Thread &t = th(s);
 uint64_t ti = s.excs[obj].tinfo;
 bool found = false;
 for (size_t i = t.stack.size(); i-- > 0 && !found;)
 {
  const CInst *ci = cur_inst(t.stack[i]);
  if (ci && ci->op == I::Call && ci->is_invoke)
  {
   const CInst &lp = t.stack[i].f->code[ci->edges[1].target];
   for (auto &cl: lp.clauses)
   {
    int64_t off;
    if (cl.first == 0) {if (type_matches(s, ti, cl.second[0], obj, off)) found = true;}
    else
    {
     bool m = false;
     for (uint64_t x: cl.second) if (type_matches(s, ti, x, obj, off)) m = true;
     if (!m) found = true;
    }
   }
  }
  if (t.stack[i].kind == Frame::Kind::boundary) break;
 }
 if (!found)
 {
  std::string n = name_of_obj[ti >> 32];
  std::string what;
  // objects with a what() are exceptions: try to show the message for joedb/std types
  violation(s, "uncaught", "uncaught exception of type " + demangle(n.substr(0, 4) == "_ZTI" ? n : n));
 }
 unwind(s);
}

void Engine::unwind(State &s)
{
 Thread &t = th(s);
 uint64_t obj = t.exc;
 uint64_t ti = s.excs[obj].tinfo;
 while (true)
 {
  if (t.stack.empty()) violation(s, "uncaught", "uncaught exception");
  Frame &fr = t.stack.back();
  const CInst *ci = cur_inst(fr);
  if (ci && ci->op == I::Call && ci->is_invoke)
  {
   const CInst &lp = fr.f->code[ci->edges[1].target];
   if (lp.op == I::LandingPad)
   {
    bool enter = false;
    int64_t sel = 0, adj = 0;
    for (auto &cl: lp.clauses)
    {
     int64_t off;
     if (cl.first == 0)
     {
      if (type_matches(s, ti, cl.second[0], obj, off)) {enter = true; adj = off; sel = cl.second[0] ? (int64_t)(cl.second[0] >> 32) : 0x3fffffff; break;}
     }
     else
     {
      bool m = false;
      for (uint64_t x: cl.second) if (type_matches(s, ti, x, obj, off)) m = true;
      if (!m) {enter = true; sel = -1; break;}
     }
    }
    if (!enter && lp.cleanup) {enter = true; sel = 0;}
    if (enter)
    {
     t.selector = sel;
     t.adjust = adj;
     take_edge(s, fr, ci->edges[1]);
     return;
    }
   }
  }
  if (fr.kind == Frame::Kind::boundary) violation(s, "uncaught", "exception leaves a thread");
  for (uint32_t a: fr.allocas) free_obj(s, a);
  t.stack.pop_back();
 }
}

// ---------------------------------------------------------------- threads
bool Engine::thread_enabled(State &s, int i)
{
 Thread &t = s.threads[i];
 if (t.finished) return false;
 if (t.waiting_mutex && s.mutex_owner[t.waiting_mutex]) return false;
 if (t.waiting_cond) return t.timed;
 if (t.wait_addr && load(s, t.wait_addr, 8).c == t.wait_value) return false;
 if (t.waiting_join >= 0 && !s.threads[t.waiting_join].finished) return false;
 if (t.blocked_custom) return false;
 return true;
}

void Engine::schedule(State &s, bool current_enabled, const char *why)
{
 std::vector<int> en;
 for (int i = 0; i < (int)s.threads.size(); i++) if (thread_enabled(s, i)) en.push_back(i);
 if (en.empty())
 {
  bool all = true;
  for (auto &t: s.threads) if (!t.finished) all = false;
  if (all) return;
  violation(s, "deadlock", std::string("every thread is blocked (") + why + ")");
 }
 bool cur_in = false;
 for (int i: en) if (i == s.cur) cur_in = true;
 if (en.size() == 1) {s.cur = en[0]; return;}
 if (cur_in && current_enabled && preemption_bound >= 0 && s.preemptions >= preemption_bound) return;
 // symbolic scheduling decision: one choice variable per point
 if (cur_in) {std::swap(en[0], *std::find(en.begin(), en.end(), s.cur));}
 Val c = make_input(s, "schedule", 8);
 {
  auto nm = std::make_shared<Model>(*s.model);
  nm->set(c.e->aux, 0);
  s.model = nm;
 }
 for (size_t k = 1; k < en.size(); k++)
 {
  State *t = fork_state(s);
  add_constraint(*t, mk_cmp(Op::Eq, c.e, mk_const(k, 8)));
  auto nm = std::make_shared<Model>(*s.model);
  nm->set(c.e->aux, k);
  t->model = nm;
  t->cur = en[k];
  if (cur_in) t->preemptions++;
  pending.push_back(t);
 }
 add_constraint(s, mk_cmp(Op::Eq, c.e, mk_const(0, 8)));
 s.cur = en[0];
}

Val Engine::make_input(State &s, const std::string &name, unsigned width)
{
 // the same input of the same path prefix must be the same variable in sibling paths
 unsigned n = s.name_count[name]++;
 std::string full = name + "#" + std::to_string(n) + ":" + std::to_string(width);
 static std::unordered_map<std::string, Expr *> vars;
 auto it = vars.find(full);
 if (it == vars.end()) it = vars.emplace(full, mk_var(full, width)).first;
 Input in;
 in.name = name;
 in.width = width;
 in.bytes.push_back(it->second);
 s.inputs.push_back(in);
 return Val{0, it->second};
}

// ---------------------------------------------------------------- instruction semantics
static double bits_to_double(uint64_t c, unsigned w)
{
 if (w == 32) {uint32_t x = c; float f; memcpy(&f, &x, 4); return f;}
 double d; memcpy(&d, &c, 8); return d;
}
static uint64_t double_to_bits(double d, unsigned w)
{
 if (w == 32) {float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x;}
 uint64_t c; memcpy(&c, &d, 8); return c;
}

void Engine::exec(State &s, Frame &fr, const CInst &ci)
{
 switch (ci.op)
 {
  case I::Bin:
  {
   size_t n = ci.ndst;
   Op op = (Op)ci.sub;
   for (size_t i = 0; i < n; i++)
   {
    Val a = get(fr, ci.ops[i]), b = get(fr, ci.ops[n + i]);
    if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem)
    {
     Expr *z = mk_cmp(Op::Eq, ex(b, ci.w), mk_const(0, ci.w));
     if (branch(s, z)) violation(s, "arithmetic", "division by zero");
    }
    if (!a.e && !b.e && ci.w <= 64)
    {
     uint64_t r;
     uint64_t m = mask64(ci.w);
     switch (op)
     {
      case Op::Add: r = (a.c + b.c) & m; break;
      case Op::Sub: r = (a.c - b.c) & m; break;
      case Op::Mul: r = (a.c * b.c) & m; break;
      case Op::And: r = a.c & b.c; break;
      case Op::Or: r = a.c | b.c; break;
      case Op::Xor: r = a.c ^ b.c; break;
      default: r = (uint64_t)const_bin(op, a.c, b.c, ci.w);
     }
     fr.regs[ci.dst + i] = V(r);
    }
    else fr.regs[ci.dst + i] = mk(mk_bin(op, ex(a, ci.w), ex(b, ci.w)));
   }
   fr.pc++;
   return;
  }
  case I::Cmp:
  {
   size_t n = ci.ndst;
   for (size_t i = 0; i < n; i++)
   {
    Val a = get(fr, ci.ops[i]), b = get(fr, ci.ops[n + i]);
    if (!a.e && !b.e)
    {
     bool r;
     uint64_t m = mask64(ci.w);
     uint64_t x = a.c & m, y = b.c & m;
     int64_t sx = (int64_t)(x << (64 - ci.w)) >> (64 - ci.w), sy = (int64_t)(y << (64 - ci.w)) >> (64 - ci.w);
     switch (ci.sub)
     {
      case CmpInst::ICMP_EQ: r = x == y; break;
      case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_UGT: r = x > y; break;
      case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break;
      case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break;
      case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break;
      default: r = sx <= sy; break;
     }
     fr.regs[ci.dst + i] = V(r);
     continue;
    }
    Expr *x = ex(a, ci.w), *y = ex(b, ci.w), *r;
    switch (ci.sub)
    {
     case CmpInst::ICMP_EQ: r = mk_cmp(Op::Eq, x, y); break;
     case CmpInst::ICMP_NE: r = mk_not(mk_cmp(Op::Eq, x, y)); break;
     case CmpInst::ICMP_UGT: r = mk_cmp(Op::Ult, y, x); break;
     case CmpInst::ICMP_UGE: r = mk_cmp(Op::Ule, y, x); break;
     case CmpInst::ICMP_ULT: r = mk_cmp(Op::Ult, x, y); break;
     case CmpInst::ICMP_ULE: r = mk_cmp(Op::Ule, x, y); break;
     case CmpInst::ICMP_SGT: r = mk_cmp(Op::Slt, y, x); break;
     case CmpInst::ICMP_SGE: r = mk_cmp(Op::Sle, y, x); break;
     case CmpInst::ICMP_SLT: r = mk_cmp(Op::Slt, x, y); break;
     default: r = mk_cmp(Op::Sle, x, y); break;
    }
    fr.regs[ci.dst + i] = mk(r);
   }
   fr.pc++;
   return;
  }
  case I::FCmp:
  {
   size_t n = ci.ndst;
   if (ci.w > 64) give_up(s, "long double");
   for (size_t i = 0; i < n; i++)
   {
    Val a = get(fr, ci.ops[i]), b = get(fr, ci.ops[n + i]);
    fr.regs[ci.dst + i] = mk(mk_fcmp(ci.sub, ex(a, ci.w), ex(b, ci.w)));
   }
   fr.pc++;
   return;
  }
  case I::FBin:
  {
   size_t n = ci.ndst;
   if (ci.w > 64) give_up(s, "long double");
   for (size_t i = 0; i < n; i++)
   {
    Val a = get(fr, ci.ops[i]), b = get(fr, ci.ops[n + i]);
    double x = bits_to_double(concrete(s, a, ci.w, "float"), ci.w), y = bits_to_double(concrete(s, b, ci.w, "float"), ci.w), r = 0;
    switch (ci.sub)
    {
     case Instruction::FAdd: r = x + y; break;
     case Instruction::FSub: r = x - y; break;
     case Instruction::FMul: r = x * y; break;
     case Instruction::FDiv: r = x / y; break;
     default: r = fmod(x, y);
    }
    fr.regs[ci.dst + i] = V(double_to_bits(r, ci.w));
   }
   fr.pc++;
   return;
  }
  case I::FNeg:
   for (uint32_t i = 0; i < ci.ndst; i++)
    fr.regs[ci.dst + i] = mk(mk_bin(Op::Xor, ex(get(fr, ci.ops[i]), ci.w), mk_const((u128)1 << (ci.w - 1), ci.w)));
   fr.pc++;
   return;
  case I::Cast:
  {
   for (uint32_t i = 0; i < ci.ndst; i++)
   {
    Val a = get(fr, ci.ops[i]);
    Val r;
    switch (ci.sub)
    {
     case Instruction::Trunc:
      r = !a.e ? V(a.c & mask64(ci.w)) : mk(mk_extract(a.e, 0, ci.w)); break;
     case Instruction::ZExt:
      r = !a.e && ci.w <= 64 ? V(a.c) : mk(mk_zext(ex(a, ci.w2), ci.w));
      if (r.e == nullptr && ci.w > 64) r = Val{0, mk_const(r.c, ci.w)};
      break;
     case Instruction::SExt:
      if (!a.e && ci.w <= 64) r = V((uint64_t)((int64_t)(a.c << (64 - ci.w2)) >> (64 - ci.w2)) & mask64(ci.w));
      else r = mk(mk_sext(ex(a, ci.w2), ci.w));
      break;
     case Instruction::PtrToInt: case Instruction::IntToPtr:
      if (ci.w < ci.w2) r = !a.e ? V(a.c & mask64(ci.w)) : mk(mk_extract(a.e, 0, ci.w));
      else if (ci.w > ci.w2) r = mk(mk_zext(ex(a, ci.w2), ci.w));
      else r = a;
      break;
     case Instruction::BitCast: case Instruction::AddrSpaceCast: r = a; break;
     case Instruction::FPExt:
      if (ci.w > 64) give_up(s, "long double");
      r = ci.w == ci.w2 ? a : mk(mk_fconv(Op::FExt, ex(a, ci.w2))); break;
     case Instruction::FPTrunc:
      if (ci.w2 > 64) give_up(s, "long double");
      r = ci.w == ci.w2 ? a : mk(mk_fconv(Op::FTrunc, ex(a, ci.w2))); break;
     default:
     {
      if (ci.w > 64 || ci.w2 > 64) give_up(s, "long double");
      uint64_t x = concrete(s, a, ci.w2, "float conversion");
      switch (ci.sub)
      {
       case Instruction::FPToUI: {double d = bits_to_double(x, ci.w2); r = V((uint64_t)d & mask64(ci.w)); break;}
       case Instruction::FPToSI: {double d = bits_to_double(x, ci.w2); r = V((uint64_t)(int64_t)d & mask64(ci.w)); break;}
       case Instruction::UIToFP: if (ci.w == 32) {float f = (float)x; uint32_t y; memcpy(&y, &f, 4); r = V(y);} else r = V(double_to_bits((double)x, ci.w)); break;
       case Instruction::SIToFP:
       {
        int64_t y = (int64_t)(x << (64 - ci.w2)) >> (64 - ci.w2);
        if (ci.w == 32) {float f = (float)y; uint32_t z; memcpy(&z, &f, 4); r = V(z);} else r = V(double_to_bits((double)y, ci.w));
        break;
       }
       default: give_up(s, "cast");
      }
     }
    }
    fr.regs[ci.dst + i] = r;
   }
   fr.pc++;
   return;
  }
  case I::Copy:
  {
   size_t n = ci.ndst;
   if (n == 1) fr.regs[ci.dst] = get(fr, ci.ops[0]);
   else
   {
    std::vector<Val> t(n);
    for (size_t i = 0; i < n; i++) t[i] = get(fr, ci.ops[i]);
    for (size_t i = 0; i < n; i++) fr.regs[ci.dst + i] = t[i];
   }
   fr.pc++;
   return;
  }
  case I::Load:
  {
   std::vector<Val> t;
   for (size_t i = 0; i < ci.flat.size(); i++)
   {
    const FlatElem &fe = ci.flat[i];
    Val v = exec_load(s, fr, ci.ops[0], fe.offset, fe.bytes);
    if (fe.width != fe.bytes * 8)
    {
     if (v.e) v = mk(mk_extract(v.e, 0, fe.width));
     else v.c &= mask64(fe.width);
    }
    fr.regs[ci.dst + i] = v;
   }
   fr.pc++;
   return;
  }
  case I::Store:
  {
   uint64_t total = 0;
   for (auto &fe: ci.flat) total = std::max<uint64_t>(total, fe.offset + fe.bytes);
   uint64_t a = resolve_ptr(s, fr, ci.ops[0], total, true);
   for (size_t i = 0; i < ci.flat.size(); i++)
   {
    const FlatElem &fe = ci.flat[i];
    Val v = get(fr, ci.ops[1 + i]);
    if (fe.width != fe.bytes * 8)
    {
     if (v.e) v = mk(mk_zext(v.e, fe.bytes * 8));
     else if (fe.bytes > 8) v = Val{0, mk_const(v.c, fe.bytes * 8)};
    }
    store(s, a + fe.offset, fe.bytes, v);
   }
   fr.pc++;
   return;
  }
  case I::Gep:
  {
   Val b = get(fr, ci.ops[0]);
   bool conc = !b.e;
   for (size_t i = 1; conc && i < ci.ops.size(); i++) if (get(fr, ci.ops[i]).e) conc = false;
   if (conc)
   {
    uint64_t a = b.c + ci.imm;
    for (size_t i = 1; i < ci.ops.size(); i++)
    {
     Val x = get(fr, ci.ops[i]);
     unsigned w = ci.ops[i].width;
     int64_t y = w < 64 ? (int64_t)(x.c << (64 - w)) >> (64 - w) : (int64_t)x.c;
     a += (uint64_t)y * ci.scales[i - 1];
    }
    fr.regs[ci.dst] = V(a);
   }
   else
   {
    Expr *e = mk_bin(Op::Add, ex(b, 64), mk_const(ci.imm, 64));
    for (size_t i = 1; i < ci.ops.size(); i++)
    {
     Expr *x = ex(get(fr, ci.ops[i]), ci.ops[i].width);
     if (x->width < 64) x = mk_sext(x, 64);
     else if (x->width > 64) x = mk_extract(x, 0, 64);
     e = mk_bin(Op::Add, e, mk_bin(Op::Mul, x, mk_const(ci.scales[i - 1], 64)));
    }
    fr.regs[ci.dst] = mk(e);
   }
   fr.pc++;
   return;
  }
  case I::Alloca:
  {
   Val n = get(fr, ci.ops[0]);
   uint64_t k = concrete(s, n, ci.ops[0].width, "alloca size");
   uint32_t id = new_obj(s, ci.imm * k, 4);
   fr.allocas.push_back(id);
   fr.regs[ci.dst] = V((uint64_t)id << 32);
   fr.pc++;
   return;
  }
  case I::Br: take_edge(s, fr, ci.edges[0]); return;
  case I::CondBr:
  {
   Val c = get(fr, ci.ops[0]);
   bool side = c.e ? branch(s, c.e) : (c.c & 1);
   take_edge(s, fr, ci.edges[side ? 0 : 1]);
   return;
  }
  case I::Switch:
  {
   Val v = get(fr, ci.ops[0]);
   if (!v.e)
   {
    uint64_t x = v.c & mask64(ci.w);
    for (auto &cs: ci.cases) if (cs.first == x) {take_edge(s, fr, ci.edges[cs.second]); return;}
    take_edge(s, fr, ci.edges[0]);
    return;
   }
   // group the cases by destination: one decision per distinct target
   std::map<uint32_t, Expr *> by; // key: index of first edge with this target
   std::map<std::pair<uint32_t, std::string>, uint32_t> first;
   std::vector<std::pair<uint32_t, Expr *>> order;
   Expr *def = mk_const(1, 1);
   for (auto &cs: ci.cases)
   {
    Expr *eq = mk_cmp(Op::Eq, v.e, mk_const(cs.first, ci.w));
    def = mk_bin(Op::And, def, mk_not(eq));
    const Edge &e = ci.edges[cs.second];
    std::string sig;
    for (auto &cp: e.copies) {sig.append((const char *)&cp.first, 4); sig.append((const char *)&cp.second.reg, 4); sig.append((const char *)&cp.second.c, sizeof(Val));}
    auto key = std::make_pair(e.target, sig);
    auto it = first.find(key);
    if (it == first.end()) {first[key] = order.size(); order.push_back({cs.second, eq});}
    else order[it->second].second = mk_bin(Op::Or, order[it->second].second, eq);
   }
   for (auto &o: order)
    if (branch(s, o.second)) {take_edge(s, fr, ci.edges[o.first]); return;}
   take_edge(s, fr, ci.edges[0]);
   return;
  }
  case I::Ret:
  {
   std::vector<Val> ret;
   for (auto &o: ci.ops) ret.push_back(get(fr, o));
   return_from(s, ret);
   return;
  }
  case I::Unreachable: violation(s, "unreachable", "execution reaches undefined behaviour (unreachable code)");
  case I::Select:
  {
   size_t nc = ci.imm, n = ci.ndst;
   std::vector<Val> t(n);
   for (size_t i = 0; i < n; i++)
   {
    Val c = get(fr, ci.ops[nc == 1 ? 0 : i]);
    Val a = get(fr, ci.ops[nc + i]), b = get(fr, ci.ops[nc + n + i]);
    if (!c.e) t[i] = (c.c & 1) ? a : b;
    else t[i] = mk(mk_ite(c.e, ex(a, ci.ops[nc + i].width), ex(b, ci.ops[nc + i].width)));
   }
   for (size_t i = 0; i < n; i++) fr.regs[ci.dst + i] = t[i];
   fr.pc++;
   return;
  }
  case I::Nop:
   for (uint32_t i = 0; i < ci.ndst; i++) fr.regs[ci.dst + i] = V(0);
   if (ci.is_invoke) take_edge(s, fr, ci.edges[0]); else fr.pc++;
   return;
  case I::LandingPad:
  {
   Thread &t = th(s);
   fr.regs[ci.dst] = V(t.exc);
   if (ci.ndst > 1) fr.regs[ci.dst + 1] = V((uint32_t)t.selector);
   fr.pc++;
   return;
  }
  case I::Resume:
  {
   Val v = get(fr, ci.ops[0]);
   th(s).exc = v.c;
   // leave this frame
   Thread &t = th(s);
   if (fr.kind == Frame::Kind::boundary || t.stack.size() == 1) violation(s, "uncaught", "exception leaves a thread");
   for (uint32_t a: fr.allocas) free_obj(s, a);
   t.stack.pop_back();
   unwind(s);
   return;
  }
  case I::AtomicRMW:
  {
   uint64_t a = resolve_ptr(s, fr, ci.ops[0], ci.w / 8, true);
   Val old = load(s, a, ci.w / 8), v = get(fr, ci.ops[1]);
   Expr *x = ex(old, ci.w), *y = ex(v, ci.w), *r = nullptr;
   switch (ci.sub)
   {
    case AtomicRMWInst::Xchg: r = y; break;
    case AtomicRMWInst::Add: r = mk_bin(Op::Add, x, y); break;
    case AtomicRMWInst::Sub: r = mk_bin(Op::Sub, x, y); break;
    case AtomicRMWInst::And: r = mk_bin(Op::And, x, y); break;
    case AtomicRMWInst::Or: r = mk_bin(Op::Or, x, y); break;
    case AtomicRMWInst::Xor: r = mk_bin(Op::Xor, x, y); break;
    default: give_up(s, "atomicrmw");
   }
   store(s, a, ci.w / 8, mk(r));
   fr.regs[ci.dst] = old;
   fr.pc++;
   return;
  }
  case I::CmpXchg:
  {
   uint64_t a = resolve_ptr(s, fr, ci.ops[0], ci.w / 8, true);
   Val old = load(s, a, ci.w / 8);
   Expr *eq = mk_cmp(Op::Eq, ex(old, ci.w), ex(get(fr, ci.ops[1]), ci.w));
   bool r = branch(s, eq);
   if (r) store(s, a, ci.w / 8, get(fr, ci.ops[2]));
   fr.regs[ci.dst] = old;
   fr.regs[ci.dst + 1] = V(r);
   fr.pc++;
   return;
  }
  case I::Call:
  {
   CFunc *f = ci.callee;
   size_t first = 0;
   if (!f)
   {
    Val p = get(fr, ci.ops[0]);
    uint64_t a = concrete(s, p, 64, "function pointer");
    f = resolve_func(s, a);
    first = 1;
   }
   std::vector<Val> args;
   args.reserve(ci.ops.size());
   for (size_t i = first; i < ci.ops.size(); i++) args.push_back(get(fr, ci.ops[i]));
   if (f->builtin)
   {
    std::vector<Val> ret;
    // remember the instruction: the builtin may fork copies of s that re-execute it
    if (f->builtin(*this, s, ci, args, ret)) finish_call(s, ci, ret);
    return;
   }
   if (f->fn->isDeclaration()) give_up(s, "external function " + demangle(f->name));
   for (uint64_t bv: ci.scales) // byval copies
   {
    uint64_t idx = bv >> 32, sz = bv & 0xffffffffu;
    uint32_t id = new_obj(s, sz, 4);
    mem_copy(s, (uint64_t)id << 32, args[idx].c, sz);
    args[idx] = V((uint64_t)id << 32);
   }
   if (trace_calls) fprintf(stderr, "%*s%s\n", (int)th(s).stack.size(), "", demangle(f->name).c_str());
   call_function(s, f, args);
   return;
  }
  default:
  {
   std::string str;
   raw_string_ostream os(str);
   ci.src->print(os);
   give_up(s, "instruction " + str.substr(0, 100));
  }
 }
}

struct InitList {std::vector<const Function *> f;};
static InitList init_list;

void Engine::step_loop(State &s)
{
 const double deadline = start_time + time_limit;
 while (true)
 {
  Thread &t = th(s);
  if (t.stack.empty())
  {
   if (s.cur == 0)
   {
    size_t &idx = s.init_index;
    if (idx < init_list.f.size())
    {
     const Function *f = init_list.f[idx++];
     call_function(s, get_func(f), {}, Frame::Kind::normal);
     continue;
    }
    end_path(s);
    return;
   }
   t.finished = true;
   schedule(s, false, "thread end");
   continue;
  }
  Frame &fr = t.stack.back();
  const CInst &ci = fr.f->code[fr.pc];
  instructions++;
  if (++s.steps > max_steps) {if (getenv("SYMX_DEBUG_STEPS")) violation(s, "steps", "step limit"); give_up(s, "step limit at " + where(s));}
  if ((s.steps & 0x3fff) == 0 && now() > deadline) give_up(s, "time limit");
  exec(s, fr, ci);
 }
}

void Engine::explore()
{
 std::mt19937_64 rng(seed);
 while (!pending.empty())
 {
  if (now() - start_time > time_limit)
  {
   incomplete["time limit (pending paths)"] += pending.size();
   break;
  }
  if (violations.size() >= max_violations) break;
  if (max_paths && paths_completed >= max_paths) {incomplete["path limit"] += pending.size(); break;}
  if (split_hook && pending.size() >= 2) split_hook();
  size_t k = pending.size() - 1;
  if (random_search) k = rng() % pending.size();
  State *s = pending[k];
  pending[k] = pending.back();
  pending.pop_back();
  try {step_loop(*s);}
  catch (PathEnd &) {}
  delete s;
 }
}

void Engine::run(const std::string &entry)
{
 start_time = now();
 g_solver_deadline = start_time + time_limit + 5;
 State *s = initial();
 init_list.f.clear();
 if (GlobalVariable *g = module->getNamedGlobal("llvm.global_ctors"))
  if (auto *ca = dyn_cast_or_null<ConstantArray>(g->getInitializer()))
  {
   std::vector<std::pair<uint64_t, const Function *>> v;
   for (unsigned i = 0; i < ca->getNumOperands(); i++)
   {
    auto *cs = cast<ConstantStruct>(ca->getOperand(i));
    auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
    if (f) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
   }
   std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) {return a.first < b.first;});
   for (auto &p: v) init_list.f.push_back(p.second);
  }
 const Function *f = module->getFunction(entry);
 if (!f) {fprintf(stderr, "no function %s\n", entry.c_str()); exit(3);}
 init_list.f.push_back(f);
 pending.push_back(s);
 explore();
}
