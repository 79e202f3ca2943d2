// Harness API, C/C++ runtime entry points and LLVM intrinsics.
#include "engine.h"
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>

typedef std::vector<Val> Vals;
#define B(name) static bool name(Engine &E, State &s, const CInst &ci, Vals &a, Vals &r)
#define UNUSED (void)E; (void)s; (void)ci; (void)a; (void)r

static const uint64_t ALLOC_CAP = 1ull << 26;

static std::string cstr(Engine &E, State &s, const Val &p) {return p.c ? E.read_cstr(s, p.c) : std::string("?");}

// make sure that the register an operand comes from is concrete (forking), keeping the choice in this state
static uint64_t conc(Engine &E, State &s, Val &v, unsigned w, const char *what) {return E.concrete(s, v, w, what);}

// ---------------------------------------------------------------- harness API
template<unsigned W> B(b_sym_int) {UNUSED; r.push_back(E.make_input(s, cstr(E, s, a[0]), W)); return true;}

B(b_sym_range)
{
 UNUSED;
 uint64_t lo = conc(E, s, a[1], 64, "range"), hi = conc(E, s, a[2], 64, "range");
 if (lo > hi) {E.paths_assumed_away++; throw PathEnd();}
 if (lo == hi) {Val v = E.make_input(s, cstr(E, s, a[0]), 64); E.assume(s, mk_cmp(Op::Eq, v.e, mk_const(lo, 64))); r.push_back(V(lo)); return true;}
 Val v = E.make_input(s, cstr(E, s, a[0]), 64);
 {
  // keep the representation narrow: only the low bits can be set
  E.assume(s, mk_cmp(Op::Ule, mk_const(lo, 64), v.e));
  E.assume(s, mk_cmp(Op::Ule, v.e, mk_const(hi, 64)));
 }
 r.push_back(v);
 return true;
}

B(b_sym_choice)
{
 UNUSED;
 // the whole choice is made here: one state per value
 uint64_t n = conc(E, s, a[1], 32, "choice");
 Val v = E.make_input(s, cstr(E, s, a[0]), 32);
 uint32_t idx = v.e->aux;
 {
  auto nm = std::make_shared<Model>(*s.model);
  nm->set(idx, 0);
  s.model = nm;
 }
 for (uint64_t k = n; k-- > 1;)
 {
  State *t = E.fork_state(s);
  E.add_constraint(*t, mk_cmp(Op::Eq, v.e, mk_const(k, 32)));
  auto nm = std::make_shared<Model>(*s.model);
  nm->set(idx, k);
  t->model = nm;
  E.finish_call(*t, ci, {V(k)});
  E.pending.push_back(t);
 }
 E.add_constraint(s, mk_cmp(Op::Eq, v.e, mk_const(0, 32)));
 r.push_back(V(0));
 return true;
}

B(b_sym_bytes)
{
 UNUSED;
 uint64_t p = conc(E, s, a[1], 64, "buffer"), n = conc(E, s, a[2], 64, "length");
 std::string name = cstr(E, s, a[0]);
 Input in;
 in.name = name;
 in.width = 8;
 unsigned k = s.name_count[name]++;
 static std::unordered_map<std::string, Expr *> vars;
 for (uint64_t i = 0; i < n; i++)
 {
  std::string full = name + "#" + std::to_string(k) + "[" + std::to_string(i) + "]";
  auto it = vars.find(full);
  if (it == vars.end()) it = vars.emplace(full, mk_var(full, 8)).first;
  in.bytes.push_back(it->second);
  E.store(s, p + i, 1, Val{0, it->second});
 }
 s.inputs.push_back(in);
 return true;
}

B(b_sym_concretize) {UNUSED; Val v = a[0]; uint64_t c = conc(E, s, v, 64, "sym_concretize"); r.push_back(V(c)); return true;}
B(b_sym_assume) {UNUSED; E.assume(s, ex(a[0], 1)); return true;}
B(b_sym_assert) {UNUSED; E.check_assert(s, ex(a[0], 1), cstr(E, s, a[1])); return true;}
B(b_sym_fail) {UNUSED; E.assert_hits[cstr(E, s, a[0])]++; E.violation(s, "assert", cstr(E, s, a[0]));}
B(b_sym_reach) {UNUSED; std::string l = cstr(E, s, a[0]); E.reach_hits[l]++; return true;}
B(b_sym_trace) {UNUSED; s.trace_vals.push_back(ex(a[0], 64)); return true;}
B(b_sym_log) {UNUSED; if (s.log.size() < 200) s.log.push_back(cstr(E, s, a[0])); if (getenv("SYM_LOG")) fprintf(stderr, "log: %s\n", cstr(E, s, a[0]).c_str()); return true;}
B(b_sym_is_engine) {UNUSED; r.push_back(V(1)); return true;}
B(b_sym_stop) {UNUSED; E.end_path(s); throw PathEnd();}
B(b_sym_giveup) {UNUSED; E.give_up(s, cstr(E, s, a[0]));}
B(b_sym_is_symbolic) {UNUSED; r.push_back(V(a[0].e ? 1 : 0)); return true;}

B(b_sym_param)
{
 UNUSED;
 std::string n = "SYM_PARAM_" + cstr(E, s, a[0]);
 const char *e = getenv(n.c_str());
 int64_t x = (int64_t)a[1].c;
 r.push_back(V(e ? (uint64_t)strtoll(e, nullptr, 0) : (uint64_t)x));
 return true;
}

B(b_sym_thread)
{
 UNUSED;
 CFunc *f = E.resolve_func(s, conc(E, s, a[0], 64, "thread function"));
 int id = s.threads.size();
 s.threads.emplace_back();
 int cur = s.cur;
 s.cur = id;
 E.call_function(s, f, {a[1]});
 s.cur = cur;
 r.push_back(V(id));
 return true;
}

B(b_sym_yield)
{
 UNUSED;
 E.finish_call(s, ci, {});
 E.schedule(s, true, "yield");
 return false;
}

B(b_sym_join)
{
 UNUSED;
 int t = (int)conc(E, s, a[0], 32, "thread");
 if (s.threads[t].finished) {E.th(s).waiting_join = -1; return true;}
 E.th(s).waiting_join = t;
 E.schedule(s, false, "join");
 return false; // re-executed when it becomes runnable
}

B(b_sym_wait_change)
{
 UNUSED;
 uint64_t p = conc(E, s, a[0], 64, "wait"), v = conc(E, s, a[1], 64, "wait value");
 if (E.load(s, p, 8).c != v) {E.th(s).wait_addr = 0; return true;}
 E.th(s).wait_addr = p;
 E.th(s).wait_value = v;
 E.schedule(s, false, "wait");
 return false;
}

static bool lock_mutex(Engine &E, State &s, uint64_t m)
{
 if (s.mutex_owner[m] == 0) {s.mutex_owner[m] = s.cur + 1; E.th(s).waiting_mutex = 0; return true;}
 if (s.mutex_owner[m] == s.cur + 1) E.violation(s, "deadlock", "a thread locks a mutex that it already holds");
 E.th(s).waiting_mutex = m;
 E.schedule(s, false, "mutex");
 return false;
}
B(b_mutex_lock) {UNUSED; if (lock_mutex(E, s, conc(E, s, a[0], 64, "mutex"))) {r.push_back(V(0)); return true;} return false;}
B(b_mutex_trylock)
{
 UNUSED;
 uint64_t m = conc(E, s, a[0], 64, "mutex");
 if (s.mutex_owner[m] == 0) {s.mutex_owner[m] = s.cur + 1; r.push_back(V(0));} else r.push_back(V(16));
 return true;
}
B(b_mutex_unlock)
{
 UNUSED;
 uint64_t m = conc(E, s, a[0], 64, "mutex");
 if (s.mutex_owner[m] != s.cur + 1) E.violation(s, "mutex", "a thread unlocks a mutex that it does not hold");
 s.mutex_owner[m] = 0;
 E.finish_call(s, ci, {V(0)});
 E.schedule(s, true, "unlock");
 return false;
}
// condition variables: waiting_cond while waiting; then the mutex is re-acquired
static bool cond_wait(Engine &E, State &s, uint64_t c, uint64_t m, bool timed, Vals &r)
{
 Thread &t = E.th(s);
 if (t.block_fn == c && !t.waiting_cond)
 {
  // woken up (or timed out): take the mutex again
  if (!lock_mutex(E, s, m)) return false;
  E.th(s).block_fn = 0;
  r.push_back(V(E.th(s).timed_out ? 110 : 0));
  return true;
 }
 if (t.block_fn == c && t.waiting_cond && t.timed) // scheduled while waiting: the timeout expired
 {
  t.waiting_cond = 0; t.timed = false; t.timed_out = true;
  return cond_wait(E, s, c, m, timed, r);
 }
 t.block_fn = c;
 t.waiting_cond = c;
 t.timed = timed;
 t.timed_out = false;
 s.mutex_owner[m] = 0;
 E.schedule(s, false, "condition variable");
 return false;
}
B(b_cond_wait) {UNUSED; return cond_wait(E, s, a[0].c, a[1].c, false, r);}
B(b_cond_timedwait) {UNUSED; return cond_wait(E, s, a[0].c, a[1].c, true, r);}
B(b_cond_signal)
{
 UNUSED;
 for (auto &t: s.threads) if (t.waiting_cond == a[0].c && t.block_fn) {t.waiting_cond = 0; t.timed = false; break;}
 r.push_back(V(0));
 return true;
}
B(b_cond_broadcast)
{
 UNUSED;
 for (auto &t: s.threads) if (t.waiting_cond == a[0].c && t.block_fn) {t.waiting_cond = 0; t.timed = false;}
 r.push_back(V(0));
 return true;
}
B(b_self) {UNUSED; r.push_back(V(s.cur + 1)); return true;}

// ---------------------------------------------------------------- allocation
static bool throw_bad_alloc(Engine &E, State &s)
{
 const llvm::Function *f = E.module->getFunction("rt_throw_bad_alloc");
 if (!f) E.give_up(s, "allocation too large");
 E.call_function(s, E.get_func(f), {});
 return false;
}

static bool alloc_size(Engine &E, State &s, Val &v, uint64_t &n)
{
 if (v.e)
 {
  // a negative or huge size cannot be allocated
  Expr *big = mk_cmp(Op::Ult, mk_const(ALLOC_CAP, 64), v.e);
  if (E.branch(s, big)) return false;
 }
 n = conc(E, s, v, 64, "allocation size");
 return n <= ALLOC_CAP;
}

template<int KIND> B(b_new)
{
 UNUSED;
 uint64_t n;
 if (!alloc_size(E, s, a[0], n)) return throw_bad_alloc(E, s);
 r.push_back(V(E.alloc(s, n, KIND)));
 return true;
}
template<int KIND> B(b_new_nothrow)
{
 UNUSED;
 uint64_t n;
 if (!alloc_size(E, s, a[0], n)) {r.push_back(V(0)); return true;}
 r.push_back(V(E.alloc(s, n, KIND)));
 return true;
}
B(b_calloc)
{
 UNUSED;
 Val v = mk(mk_bin(Op::Mul, ex(a[0], 64), ex(a[1], 64)));
 uint64_t n;
 if (!alloc_size(E, s, v, n)) {r.push_back(V(0)); return true;}
 r.push_back(V(E.alloc(s, n, 2, 0)));
 return true;
}
template<int KIND> B(b_delete)
{
 UNUSED;
 uint64_t p = conc(E, s, a[0], 64, "freed pointer");
 if (!p) return true;
 Obj *o = E.get_obj(s, p >> 32);
 if (!o) E.violation(s, "memory", "double free or free of an invalid pointer");
 if (p & 0xffffffffu) E.violation(s, "memory", "free of an interior pointer");
 if (o->kind != KIND) E.violation(s, "memory", "mismatched deallocation");
 E.free_obj(s, p >> 32);
 return true;
}
B(b_realloc)
{
 UNUSED;
 uint64_t p = conc(E, s, a[0], 64, "pointer");
 uint64_t n;
 if (!alloc_size(E, s, a[1], n)) {r.push_back(V(0)); return true;}
 uint64_t q = E.alloc(s, n, 2);
 if (p)
 {
  Obj *o = E.get_obj(s, p >> 32);
  if (!o) E.violation(s, "memory", "realloc of an invalid pointer");
  E.mem_copy(s, q, p, std::min<uint64_t>(n, o->size));
  E.free_obj(s, p >> 32);
 }
 r.push_back(V(q));
 return true;
}

// ---------------------------------------------------------------- memory functions
B(b_memcpy)
{
 UNUSED;
 unsigned wl = a[2].e ? a[2].e->width : 64;
 uint64_t n = conc(E, s, a[2], wl, "copy length");
 uint64_t d = 0, src = 0;
 if (n) {d = conc(E, s, a[0], 64, "copy destination"); src = conc(E, s, a[1], 64, "copy source"); E.mem_copy(s, d, src, n);}
 r.push_back(a[0]);
 return true;
}
B(b_memset)
{
 UNUSED;
 unsigned wl = a[2].e ? a[2].e->width : 64;
 uint64_t n = conc(E, s, a[2], wl, "memset length");
 if (n)
 {
  uint64_t d = conc(E, s, a[0], 64, "memset destination");
  E.check_access(s, d, n, true);
  if (!a[1].e) memset(E.raw(s, d, n), (int)a[1].c, n);
  else
  {
   Expr *b = mk_extract(a[1].e, 0, 8);
   for (uint64_t i = 0; i < n; i++) E.store(s, d + i, 1, mk(b));
  }
 }
 r.push_back(a[0]);
 return true;
}
B(b_memcmp)
{
 UNUSED;
 uint64_t n = conc(E, s, a[2], 64, "memcmp length");
 if (!n) {r.push_back(V(0)); return true;}
 uint64_t p = conc(E, s, a[0], 64, "memcmp"), q = conc(E, s, a[1], 64, "memcmp");
 E.check_access(s, p, n, false);
 E.check_access(s, q, n, false);
 Expr *e = mk_const(0, 32);
 for (uint64_t i = n; i-- > 0;)
 {
  Expr *x = E.load_byte(s, p + i), *y = E.load_byte(s, q + i);
  if (x == y) continue;
  e = mk_ite(mk_cmp(Op::Eq, x, y), e, mk_ite(mk_cmp(Op::Ult, x, y), mk_const(0xffffffffu, 32), mk_const(1, 32)));
 }
 r.push_back(mk(e));
 return true;
}
B(b_bcmp)
{
 UNUSED;
 uint64_t n = conc(E, s, a[2], 64, "bcmp length");
 if (!n) {r.push_back(V(0)); return true;}
 uint64_t p = conc(E, s, a[0], 64, "bcmp"), q = conc(E, s, a[1], 64, "bcmp");
 E.check_access(s, p, n, false);
 E.check_access(s, q, n, false);
 Expr *e = mk_const(1, 1);
 for (uint64_t i = n; i-- > 0;)
  e = mk_bin(Op::And, e, mk_cmp(Op::Eq, E.load_byte(s, p + i), E.load_byte(s, q + i)));
 r.push_back(mk(mk_zext(mk_not(e), 32)));
 return true;
}

// ---------------------------------------------------------------- C++ ABI
B(b_allocate_exception) {UNUSED; r.push_back(V(E.alloc(s, conc(E, s, a[0], 64, "exception size"), 6))); return true;}
B(b_free_exception) {UNUSED; return true;}
B(b_throw)
{
 UNUSED;
 uint64_t obj = a[0].c;
 ExcInfo &x = s.excs[obj];
 x.tinfo = a[1].c;
 x.dtor = a[2].c;
 x.refs = 1;
 E.th(s).uncaught++;
 E.throw_exception(s, obj);
 return false;
}
B(b_begin_catch)
{
 UNUSED;
 uint64_t obj = a[0].c;
 Thread &t = E.th(s);
 t.caught.push_back(obj);
 s.excs[obj].handlers++;
 if (t.uncaught) t.uncaught--;
 r.push_back(V(obj + t.adjust));
 return true;
}
B(b_end_catch)
{
 UNUSED;
 Thread &t = E.th(s);
 if (!t.caught.empty()) {s.excs[t.caught.back()].handlers--; t.caught.pop_back();}
 return true;
}
B(b_get_exception_ptr) {UNUSED; r.push_back(V(a[0].c + E.th(s).adjust)); return true;}
B(b_rethrow)
{
 UNUSED;
 Thread &t = E.th(s);
 if (t.caught.empty()) E.violation(s, "terminate", "rethrow without a current exception");
 t.uncaught++;
 E.throw_exception(s, t.caught.back());
 return false;
}
B(b_uncaught) {UNUSED; r.push_back(V(E.th(s).uncaught)); return true;}
B(b_uncaught_bool) {UNUSED; r.push_back(V(E.th(s).uncaught > 0)); return true;}
B(b_current_exception)
{
 UNUSED;
 Thread &t = E.th(s);
 E.store(s, a[0].c, 8, V(t.caught.empty() ? 0 : t.caught.back()));
 return true;
}
B(b_rethrow_exception)
{
 UNUSED;
 uint64_t obj = E.load(s, a[0].c, 8).c;
 E.th(s).uncaught++;
 E.throw_exception(s, obj);
 return false;
}
B(b_nothing) {UNUSED; for (uint32_t i = 0; i < ci.ndst; i++) r.push_back(V(0)); return true;}
B(b_guard_acquire)
{
 UNUSED;
 Val v = E.load(s, a[0].c, 1);
 r.push_back(V(v.c ? 0 : 1));
 return true;
}
B(b_guard_release) {UNUSED; E.store(s, a[0].c, 1, V(1)); return true;}
B(b_pure_virtual) {UNUSED; E.violation(s, "abort", "pure virtual function called");}
B(b_terminate) {UNUSED; E.violation(s, "terminate", "std::terminate (exception escapes a noexcept function)");}
B(b_abort) {UNUSED; E.violation(s, "abort", "abort() called");}
B(b_exit) {UNUSED; E.violation(s, "abort", "exit() called");}
B(b_assert_fail) {UNUSED; E.violation(s, "assertion", "assertion failed in the code: " + cstr(E, s, a[0]));}
B(b_dynamic_cast)
{
 UNUSED;
 uint64_t src = conc(E, s, a[0], 64, "dynamic_cast");
 if (!src) {r.push_back(V(0)); return true;}
 uint64_t vt = E.load(s, src, 8).c;
 int64_t top = (int64_t)E.load(s, vt - 16, 8).c;
 uint64_t ti = E.load(s, vt - 8, 8).c;
 uint64_t whole = src + top;
 int64_t off = 0;
 int count = 0;
 if (E.find_base(s, ti, a[2].c, whole, off, count)) r.push_back(V(whole + off));
 else r.push_back(V(0));
 return true;
}
// ---------------------------------------------------------------- intrinsics
B(i_first) {UNUSED; for (uint32_t i = 0; i < ci.ndst; i++) r.push_back(a[i]); return true;}
static unsigned argw(const CInst &ci, size_t i) {return ci.ops[i].width;}

template<int K> B(i_minmax)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  unsigned w = argw(ci, i);
  Expr *x = ex(a[i], w), *y = ex(a[ci.ndst + i], w);
  Expr *c = K == 0 ? mk_cmp(Op::Ult, x, y) : K == 1 ? mk_cmp(Op::Ult, y, x) : K == 2 ? mk_cmp(Op::Slt, x, y) : mk_cmp(Op::Slt, y, x);
  r.push_back(mk(mk_ite(c, x, y)));
 }
 return true;
}
B(i_abs)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  unsigned w = argw(ci, i);
  Expr *x = ex(a[i], w);
  r.push_back(mk(mk_ite(mk_cmp(Op::Slt, x, mk_const(0, w)), mk_bin(Op::Sub, mk_const(0, w), x), x)));
 }
 return true;
}
B(i_bswap)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  unsigned w = argw(ci, i);
  Expr *x = ex(a[i], w), *e = nullptr;
  for (unsigned b = 0; b < w; b += 8) {Expr *y = mk_extract(x, b, 8); e = e ? mk_concat(e, y) : y;}
  r.push_back(mk(e));
 }
 return true;
}
B(i_ctpop)
{
 UNUSED;
 unsigned w = argw(ci, 0);
 Expr *x = ex(a[0], w), *e = mk_const(0, w);
 for (unsigned b = 0; b < w; b++) e = mk_bin(Op::Add, e, mk_zext(mk_extract(x, b, 1), w));
 r.push_back(mk(e));
 return true;
}
template<bool LEAD> B(i_cz)
{
 UNUSED;
 unsigned w = argw(ci, 0);
 Expr *x = ex(a[0], w), *e = mk_const(w, w);
 for (unsigned k = 0; k < w; k++)
 {
  unsigned b = LEAD ? k : w - 1 - k; // innermost test first
  unsigned v = LEAD ? w - 1 - k : w - 1 - k;
  e = mk_ite(mk_extract(x, b, 1), mk_const(LEAD ? v : b, w), e);
 }
 r.push_back(mk(e));
 return true;
}
template<bool LEFT> B(i_fsh)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  unsigned w = argw(ci, i);
  Expr *x = ex(a[i], w), *y = ex(a[ci.ndst + i], w), *z = ex(a[2 * ci.ndst + i], w);
  if (z->op == Op::Const)
  {
   unsigned k = (unsigned)((uint64_t)z->val % w);
   if (k == 0) {r.push_back(mk(LEFT ? x : y)); continue;}
   unsigned l = LEFT ? k : w - k;
   r.push_back(mk(mk_concat(mk_extract(x, 0, w - l), mk_extract(y, w - l, l))));
   continue;
  }
  Expr *c = mk_zext(mk_bin(Op::URem, z, mk_const(w, w)), 2 * w);
  Expr *d = mk_concat(x, y);
  if (LEFT) r.push_back(mk(mk_extract(mk_bin(Op::Shl, d, c), w, w)));
  else r.push_back(mk(mk_extract(mk_bin(Op::LShr, d, c), 0, w)));
 }
 return true;
}
enum {OADD, OSUB, OMUL};
template<int K, bool SIGNED> B(i_overflow)
{
 UNUSED;
 unsigned w = argw(ci, 0);
 if (w > 64) E.give_up(s, "wide overflow intrinsic");
 Expr *x = ex(a[0], w), *y = ex(a[1], w);
 unsigned W = K == OMUL ? 2 * w : w + 1;
 Op op = K == OADD ? Op::Add : K == OSUB ? Op::Sub : Op::Mul;
 Expr *X = SIGNED ? mk_sext(x, W) : mk_zext(x, W), *Y = SIGNED ? mk_sext(y, W) : mk_zext(y, W);
 Expr *R = mk_bin(op, X, Y);
 Expr *t = mk_bin(op, x, y);
 Expr *T = SIGNED ? mk_sext(t, W) : mk_zext(t, W);
 r.push_back(mk(t));
 r.push_back(mk(mk_not(mk_cmp(Op::Eq, R, T))));
 return true;
}
template<int K, bool SIGNED> B(i_sat)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  unsigned w = argw(ci, i);
  Expr *x = ex(a[i], w), *y = ex(a[ci.ndst + i], w);
  if (SIGNED) E.give_up(s, "signed saturation");
  if (K == OSUB) r.push_back(mk(mk_ite(mk_cmp(Op::Ult, x, y), mk_const(0, w), mk_bin(Op::Sub, x, y))));
  else {Expr *t = mk_bin(Op::Add, x, y); r.push_back(mk(mk_ite(mk_cmp(Op::Ult, t, x), mk_const(mask_of(w), w), t)));}
 }
 return true;
}
B(i_objectsize) {UNUSED; r.push_back(V(a.size() > 1 && (a[1].c & 1) ? 0 : mask64(ci.w ? ci.w : 64))); return true;}
B(i_zero) {UNUSED; for (uint32_t i = 0; i < ci.ndst; i++) r.push_back(V(0)); return true;}
B(i_typeid_for) {UNUSED; r.push_back(V(a[0].c ? (uint32_t)(a[0].c >> 32) : 0x3fffffff)); return true;}
B(i_trap) {UNUSED; E.violation(s, "trap", "undefined behaviour trap");}
B(i_ubsantrap)
{
 UNUSED;
 static const char *names[] = {"add overflow", "builtin unreachable", "cfi check", "divrem overflow", "dynamic type cache miss", "float cast overflow",
  "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "mul overflow",
  "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of bounds",
  "sub overflow", "type mismatch", "alignment assumption", "vla bound"};
 E.violation(s, "ub", std::string("undefined behaviour: ") + (a[0].c < 25 ? names[a[0].c] : "?"));
}
B(i_fabs)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  unsigned w = argw(ci, i);
  r.push_back(mk(mk_bin(Op::And, ex(a[i], w), mk_const(mask_of(w - 1), w))));
 }
 return true;
}
B(i_is_fpclass)
{
 UNUSED;
 unsigned w = argw(ci, 0);
 uint32_t m = (uint32_t)a[1].c;
 Expr *x = ex(a[0], w);
 unsigned mb = w == 64 ? 52 : 23;
 if (w > 64) E.give_up(s, "long double");
 Expr *exp = mk_extract(x, mb, w - 1 - mb), *man = mk_extract(x, 0, mb), *sg = mk_extract(x, w - 1, 1);
 Expr *ones = mk_cmp(Op::Eq, exp, mk_const(mask_of(w - 1 - mb), w - 1 - mb)), *ez = mk_cmp(Op::Eq, exp, mk_const(0, w - 1 - mb)), *mz = mk_cmp(Op::Eq, man, mk_const(0, mb));
 Expr *quiet = mk_extract(man, mb - 1, 1);
 auto And = [](Expr *p, Expr *q) {return mk_bin(Op::And, p, q);};
 Expr *res = mk_const(0, 1);
 auto add = [&](int bit, Expr *c) {if (m & (1 << bit)) res = mk_bin(Op::Or, res, c);};
 Expr *nan = And(ones, mk_not(mz));
 add(0, And(nan, mk_not(quiet)));
 add(1, And(nan, quiet));
 add(2, And(And(ones, mz), sg));
 add(9, And(And(ones, mz), mk_not(sg)));
 Expr *normal = And(mk_not(ones), mk_not(ez)), *sub = And(ez, mk_not(mz)), *zero = And(ez, mz);
 add(3, And(normal, sg)); add(8, And(normal, mk_not(sg)));
 add(4, And(sub, sg)); add(7, And(sub, mk_not(sg)));
 add(5, And(zero, sg)); add(6, And(zero, mk_not(sg)));
 r.push_back(mk(res));
 return true;
}
B(i_ptrmask) {UNUSED; r.push_back(mk(mk_bin(Op::And, ex(a[0], 64), ex(a[1], 64)))); return true;}
template<int K> B(i_reduce)
{
 UNUSED;
 size_t n = a.size();
 unsigned w = argw(ci, 0);
 Expr *e = ex(a[0], w);
 for (size_t i = 1; i < n; i++)
 {
  Expr *y = ex(a[i], w);
  switch (K)
  {
   case 0: e = mk_bin(Op::Add, e, y); break;
   case 1: e = mk_bin(Op::Or, e, y); break;
   case 2: e = mk_bin(Op::And, e, y); break;
   default: e = mk_bin(Op::Xor, e, y); break;
  }
 }
 r.push_back(mk(e));
 return true;
}
static double b2d(uint64_t c) {double d; memcpy(&d, &c, 8); return d;}
static uint64_t d2b(double d) {uint64_t c; memcpy(&c, &d, 8); return c;}
template<double (*F)(double)> B(i_math)
{
 UNUSED;
 for (uint32_t i = 0; i < ci.ndst; i++)
 {
  if (argw(ci, i) != 64) E.give_up(s, "float math");
  r.push_back(V(d2b(F(b2d(conc(E, s, a[i], 64, "float math"))))));
 }
 return true;
}
B(b_log2) {UNUSED; r.push_back(V(d2b(log2(b2d(conc(E, s, a[0], 64, "log2")))))); return true;}
B(b_ceil) {UNUSED; r.push_back(V(d2b(ceil(b2d(conc(E, s, a[0], 64, "ceil")))))); return true;}
B(b_time) {UNUSED; s.clock++; r.push_back(V(1000000000ull + s.clock)); return true;}
B(b_clock_ns) {UNUSED; s.clock++; r.push_back(V((1000000000ull + s.clock) * 1000000ull)); return true;}

// host formatting of concrete doubles: int sym_format_double(char *buf, double d, int precision, char format)
B(b_format_double)
{
 UNUSED;
 uint64_t p = a[0].c;
 double d = b2d(conc(E, s, a[1], 64, "double"));
 int prec = (int)conc(E, s, a[2], 32, "precision");
 char buf[128];
 int n = snprintf(buf, sizeof buf, "%.*g", prec, d);
 uint8_t *q = E.raw(s, p, n + 1);
 memcpy(q, buf, n + 1);
 r.push_back(V(n));
 return true;
}
// double sym_parse_double(const char *buf): concrete characters only (forks otherwise)
B(b_parse_double)
{
 UNUSED;
 std::string t;
 for (uint64_t p = a[0].c;; p++)
 {
  Val v = E.load(s, p, 1);
  uint8_t c = (uint8_t)conc(E, s, v, 8, "character of a number");
  if (!c) break;
  t += (char)c;
 }
 char *end;
 double d = strtod(t.c_str(), &end);
 E.store(s, a[1].c, 8, V(end - t.c_str()));
 r.push_back(V(d2b(d)));
 return true;
}
B(b_strtof)
{
 UNUSED;
 std::string t;
 for (uint64_t p = a[0].c;; p++)
 {
  Val v = E.load(s, p, 1);
  uint8_t c = (uint8_t)conc(E, s, v, 8, "character of a number");
  if (!c) break;
  t += (char)c;
 }
 char *end;
 float d = strtof(t.c_str(), &end);
 E.store(s, a[1].c, 8, V(end - t.c_str()));
 uint32_t c;
 memcpy(&c, &d, 4);
 r.push_back(V(c));
 return true;
}

static const std::map<std::string, Builtin> &table()
{
 static const std::map<std::string, Builtin> t = {
  {"sym_u8", b_sym_int<8>}, {"sym_u16", b_sym_int<16>}, {"sym_u32", b_sym_int<32>}, {"sym_u64", b_sym_int<64>},
  {"sym_range", b_sym_range}, {"sym_choice", b_sym_choice}, {"sym_bytes", b_sym_bytes}, {"sym_concretize", b_sym_concretize},
  {"sym_assume", b_sym_assume}, {"sym_assert", b_sym_assert}, {"sym_fail", b_sym_fail}, {"sym_reach", b_sym_reach},
  {"sym_trace", b_sym_trace}, {"sym_log", b_sym_log}, {"sym_is_engine", b_sym_is_engine}, {"sym_stop", b_sym_stop}, {"sym_giveup", b_sym_giveup},
  {"sym_is_symbolic", b_sym_is_symbolic}, {"sym_param", b_sym_param},
  {"sym_thread", b_sym_thread}, {"sym_yield", b_sym_yield}, {"sym_join", b_sym_join}, {"sym_wait_change", b_sym_wait_change},
  {"sym_format_double", b_format_double}, {"sym_parse_double", b_parse_double}, {"sym_parse_float", b_strtof},
  {"pthread_mutex_lock", b_mutex_lock}, {"pthread_mutex_trylock", b_mutex_trylock}, {"pthread_mutex_unlock", b_mutex_unlock},
  {"pthread_mutex_init", b_nothing}, {"pthread_mutex_destroy", b_nothing}, {"pthread_cond_init", b_nothing}, {"pthread_cond_destroy", b_nothing},
  {"pthread_cond_wait", b_cond_wait}, {"pthread_cond_timedwait", b_cond_timedwait}, {"pthread_cond_clockwait", b_cond_timedwait},
  {"pthread_cond_signal", b_cond_signal}, {"pthread_cond_broadcast", b_cond_broadcast}, {"pthread_self", b_self},
  {"_Znwm", b_new<0>}, {"_Znam", b_new<1>}, {"_ZnwmSt11align_val_t", b_new<0>}, {"_ZnamSt11align_val_t", b_new<1>},
  {"_ZnwmRKSt9nothrow_t", b_new_nothrow<0>}, {"_ZnamRKSt9nothrow_t", b_new_nothrow<1>},
  {"malloc", b_new_nothrow<2>}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_delete<2>},
  {"_ZdlPv", b_delete<0>}, {"_ZdlPvm", b_delete<0>}, {"_ZdaPv", b_delete<1>}, {"_ZdaPvm", b_delete<1>}, {"_ZdlPvSt11align_val_t", b_delete<0>}, {"_ZdlPvmSt11align_val_t", b_delete<0>}, {"_ZdlPvRKSt9nothrow_t", b_delete<0>},
  {"_ZdaPvSt11align_val_t", b_delete<1>}, {"_ZdaPvmSt11align_val_t", b_delete<1>},
  {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp},
  {"__cxa_allocate_exception", b_allocate_exception}, {"__cxa_free_exception", b_free_exception}, {"__cxa_throw", b_throw},
  {"__cxa_begin_catch", b_begin_catch}, {"__cxa_end_catch", b_end_catch}, {"__cxa_rethrow", b_rethrow}, {"__cxa_get_exception_ptr", b_get_exception_ptr},
  {"_ZSt19uncaught_exceptionsv", b_uncaught}, {"_ZSt18uncaught_exceptionv", b_uncaught_bool},
  {"_ZSt17current_exceptionv", b_current_exception}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exception},
  {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_nothing}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_nothing},
  {"__cxa_guard_acquire", b_guard_acquire}, {"__cxa_guard_release", b_guard_release}, {"__cxa_guard_abort", b_nothing},
  {"__cxa_atexit", b_nothing}, {"atexit", b_nothing}, {"__cxa_thread_atexit", b_nothing}, {"__cxa_thread_atexit_impl", b_nothing},
  {"__cxa_pure_virtual", b_pure_virtual}, {"_ZSt9terminatev", b_terminate}, {"abort", b_abort}, {"exit", b_exit}, {"_exit", b_exit}, {"__assert_fail", b_assert_fail},
  {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort},
  {"__dynamic_cast", b_dynamic_cast},
  {"remove", b_nothing}, {"nanosleep", b_nothing}, {"time", b_time}, {"_ZNSt6chrono3_V212steady_clock3nowEv", b_clock_ns}, {"_ZNSt6chrono3_V212system_clock3nowEv", b_clock_ns},
  {"log2", b_log2}, {"ceil", b_ceil},
  {"llvm.bswap", i_bswap}, {"llvm.umin", i_minmax<0>}, {"llvm.umax", i_minmax<1>}, {"llvm.smin", i_minmax<2>}, {"llvm.smax", i_minmax<3>},
  {"llvm.abs", i_abs}, {"llvm.ctpop", i_ctpop}, {"llvm.ctlz", i_cz<true>}, {"llvm.cttz", i_cz<false>}, {"llvm.fshl", i_fsh<true>}, {"llvm.fshr", i_fsh<false>},
  {"llvm.uadd.with.overflow", i_overflow<OADD, false>}, {"llvm.sadd.with.overflow", i_overflow<OADD, true>},
  {"llvm.usub.with.overflow", i_overflow<OSUB, false>}, {"llvm.ssub.with.overflow", i_overflow<OSUB, true>},
  {"llvm.umul.with.overflow", i_overflow<OMUL, false>}, {"llvm.smul.with.overflow", i_overflow<OMUL, true>},
  {"llvm.usub.sat", i_sat<OSUB, false>}, {"llvm.uadd.sat", i_sat<OADD, false>},
  {"llvm.objectsize", i_objectsize}, {"llvm.is.constant", i_zero}, {"llvm.expect", i_first}, {"llvm.eh.typeid.for", i_typeid_for},
  {"llvm.memcpy", b_memcpy}, {"llvm.memmove", b_memcpy}, {"llvm.memset", b_memset},
  {"llvm.stacksave", i_zero}, {"llvm.stackrestore", b_nothing}, {"llvm.va_start", b_nothing}, {"llvm.va_end", b_nothing}, {"llvm.trap", i_trap}, {"llvm.ubsantrap", i_ubsantrap},
  {"llvm.fabs", i_fabs}, {"llvm.is.fpclass", i_is_fpclass}, {"llvm.threadlocal.address", i_first}, {"llvm.ptrmask", i_ptrmask}, {"llvm.launder.invariant.group", i_first}, {"llvm.strip.invariant.group", i_first},
  {"llvm.vector.reduce.add", i_reduce<0>}, {"llvm.vector.reduce.or", i_reduce<1>}, {"llvm.vector.reduce.and", i_reduce<2>}, {"llvm.vector.reduce.xor", i_reduce<3>},
  {"llvm.floor", i_math<floor>}, {"llvm.ceil", i_math<ceil>}, {"llvm.sqrt", i_math<sqrt>}, {"llvm.rint", i_math<rint>}, {"llvm.trunc", i_math<trunc>}, {"llvm.round", i_math<round>},
 };
 return t;
}

Builtin find_builtin(const std::string &name)
{
 auto &t = table();
 auto it = t.find(name);
 if (it != t.end()) return it->second;
 if (name.compare(0, 5, "llvm.") == 0)
 {
  // strip the type suffixes one component at a time
  std::string n = name;
  while (true)
  {
   size_t p = n.rfind('.');
   if (p == std::string::npos || p <= 4) break;
   n.resize(p);
   it = t.find(n);
   if (it != t.end()) return it->second;
  }
 }
 return nullptr;
}
