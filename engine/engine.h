// Symbolic executor for LLVM IR: data structures.
#ifndef SYM_ENGINE_H
#define SYM_ENGINE_H
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <array>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <functional>

struct Val
{
 uint64_t c;
 Expr *e; // null: concrete
};
inline Val V(uint64_t c) {return Val{c, nullptr};}
inline Expr *ex(const Val &v, unsigned w) {return v.e ? v.e : mk_const(v.c, w);}
inline Val mk(Expr *e)
{
 if (e->op == Op::Const && e->width <= 64) return Val{(uint64_t)e->val, nullptr};
 return Val{0, e};
}
inline uint64_t mask64(unsigned w) {return w >= 64 ? ~0ull : ((1ull << w) - 1);}

struct Operand {int32_t reg; Val c; uint16_t width;};

enum class I: uint16_t
{
 Bin, Cmp, Cast, Copy, Not, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Unreachable,
 Call, Resume, LandingPad, Select, FNeg, FBin, FCmp, AtomicRMW, CmpXchg, Nop, Unsupported, VecExtract, VecInsert
};

struct FlatElem {uint16_t width; uint16_t bytes; uint64_t offset;};

struct Edge
{
 uint32_t target = 0;                // pc of first non-phi instruction
 std::vector<std::pair<uint32_t, Operand>> copies;
};

struct CFunc;

struct CInst
{
 I op;
 uint16_t sub = 0;         // Op / llvm opcode / predicate
 uint16_t w = 0, w2 = 0;   // result width / source width
 int32_t dst = -1;
 uint32_t ndst = 0;
 std::vector<Operand> ops;
 std::vector<FlatElem> flat;
 std::vector<Edge> edges;
 std::vector<std::pair<uint64_t, uint32_t>> cases; // switch value -> edge
 std::vector<uint64_t> scales; // gep
 uint64_t imm = 0;
 CFunc *callee = nullptr;
 const llvm::Function *callee_fn = nullptr;
 bool is_invoke = false;
 bool cleanup = false;
 std::vector<std::pair<int, std::vector<uint64_t>>> clauses; // 0 catch (typeinfo addr), 1 filter
 const llvm::Instruction *src = nullptr;
};

struct State;
class Engine;
typedef bool (*Builtin)(Engine &, State &, const CInst &, std::vector<Val> &args, std::vector<Val> &ret);

struct CFunc
{
 const llvm::Function *fn = nullptr;
 std::string name;
 uint32_t nregs = 0;
 std::vector<FlatElem> args;   // flattened argument slots
 std::vector<unsigned> nargslots;
 std::vector<CInst> code;
 bool compiled = false;
 bool is_repo = false;
 uint64_t executed = 0;
 Builtin builtin = nullptr;
 std::string builtin_name;
};

struct Obj
{
 uint64_t size = 0;
 std::vector<uint8_t> data;
 std::vector<Expr *> sym; // empty: all concrete
 uint8_t kind = 0;  // 0 heap(new) 1 heap(new[]) 2 malloc 3 global 4 stack 5 function 6 exception 7 extern
 bool readonly = false;
 uint32_t tag = 0;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk {std::array<ObjP, 64> o;};

struct Frame
{
 CFunc *f = nullptr;
 uint32_t pc = 0;
 std::vector<Val> regs;
 std::vector<uint32_t> allocas;
 // how to return: the caller's pc points to its call instruction
 enum class Kind: uint8_t {normal, boundary} kind = Kind::normal; // boundary: return to engine action
 uint32_t after = 0; // action code for boundary frames
};

struct ExcInfo {uint64_t tinfo = 0, dtor = 0; int handlers = 0; int refs = 0;};

struct Thread
{
 std::vector<Frame> stack;
 bool finished = false;
 uint64_t exc = 0;      // in-flight exception object address (0: none)
 int64_t selector = 0;
 std::vector<uint64_t> caught;
 uint64_t waiting_mutex = 0; // blocked on this mutex
 uint64_t waiting_cond = 0;
 int waiting_join = -1;
 bool blocked_custom = false;
 uint64_t block_fn = 0, block_arg = 0;
 bool timed = false;
 bool timed_out = false;
 int64_t adjust = 0;     // pointer adjustment of the handler being entered
 int uncaught = 0;
 uint64_t wait_addr = 0, wait_value = 0; // blocked while *wait_addr == wait_value
};

struct Input
{
 std::string name;
 std::vector<Expr *> bytes; // little-endian bytes (or single expr)
 unsigned width;            // width of each
};

struct State
{
 std::vector<std::shared_ptr<Chunk>> mem;
 uint32_t next_obj = 0;
 std::vector<Thread> threads;
 int cur = 0;
 std::vector<Expr *> pc;  // path constraints
 std::shared_ptr<Model> model;
 std::vector<Input> inputs;
 std::map<uint64_t, ExcInfo> excs;
 std::map<uint64_t, int> mutex_owner; // mutex address -> thread+1
 std::map<uint64_t, int> mutex_count;
 std::map<std::string, unsigned> name_count;
 uint64_t steps = 0;
 uint64_t trace = 1469598103934665603ull;
 std::vector<std::string> log;
 int preemptions = 0;
 unsigned depth = 0;
 size_t init_index = 0;
 uint64_t clock = 0;
 std::vector<Expr *> trace_vals;
 std::vector<std::string> reached;
};

struct Violation
{
 std::string kind, message, where;
 std::vector<std::string> stack;
 std::vector<std::string> inputs; // "name width hex hex hex"
 std::vector<std::string> log;
};

struct Sample
{
 std::vector<std::string> inputs;
 uint64_t trace;
 std::string label;
};

struct PathEnd {};      // thrown to terminate the current state
struct Retry {};        // thrown after a fork changed a register: re-execute

class Engine
{
 public:
  llvm::Module *module = nullptr;
  const llvm::DataLayout *dl = nullptr;
  std::unordered_map<const llvm::Function *, CFunc *> funcs;
  std::unordered_map<uint32_t, CFunc *> func_of_obj;
  std::unordered_map<const llvm::GlobalValue *, uint64_t> global_addr;
  std::unordered_map<std::string, uint64_t> addr_of_name;
  std::unordered_map<uint32_t, std::string> name_of_obj;
  std::vector<State *> pending;

  // limits
  double time_limit = 60;
  uint64_t max_steps = 20000000;
  uint64_t max_paths = 0;
  unsigned concretize_limit = 600;
  int preemption_bound = -1;
  uint64_t seed = 1;
  bool random_search = false;
  unsigned max_violations = 10;
  unsigned max_samples = 6;
  bool trace_calls = false;
  unsigned jobs = 1;

  // results
  uint64_t paths_completed = 0, paths_assumed_away = 0, paths_violated = 0, forks = 0, instructions = 0;
  uint64_t asserts_checked = 0, asserts_trivial = 0;
  std::map<std::string, uint64_t> incomplete; // reason -> count
  std::map<std::string, uint64_t> assert_hits, reach_hits;
  std::vector<Violation> violations;
  std::set<std::string> violation_keys;
  std::vector<Sample> samples;
  std::map<std::string, uint64_t> executed_functions;
 uint64_t workers = 1;
  double start_time = 0;

  State *initial();
  void load(llvm::Module *m);
  void run(const std::string &entry);
  void explore();

  // helpers used by builtins
  uint32_t new_obj(State &s, uint64_t size, uint8_t kind, uint8_t fill = 0xaa);
  uint64_t alloc(State &s, uint64_t size, uint8_t kind, uint8_t fill = 0xaa) {return (uint64_t)new_obj(s, size, kind, fill) << 32;}
  Obj *get_obj(State &s, uint32_t id) {size_t c = id >> 6; if (c >= s.mem.size() || !s.mem[c]) return nullptr; return s.mem[c]->o[id & 63].get();}
  Obj *wr_obj(State &s, uint32_t id);
  void free_obj(State &s, uint32_t id);
  Val load(State &s, uint64_t addr, unsigned bytes);
  void store(State &s, uint64_t addr, unsigned bytes, Val v);
  uint8_t *raw(State &s, uint64_t addr, uint64_t n); // writable concrete view (must be in bounds)
  void check_access(State &s, uint64_t addr, uint64_t n, bool write);
  void mem_copy(State &s, uint64_t dst, uint64_t src, uint64_t n);
  Expr *load_byte(State &s, uint64_t addr);
  std::string read_cstr(State &s, uint64_t addr);
  uint64_t concrete(State &s, Val &v, unsigned w, const char *what); // forks; may throw Retry
  bool branch(State &s, Expr *cond); // decides/forks; returns the side taken in s (other side pushed)
  State *fork_state(State &s);
  void add_constraint(State &s, Expr *c);
  bool feasible(State &s, Expr *c, Model &m);
  [[noreturn]] void violation(State &s, const std::string &kind, const std::string &msg, const Model *m = nullptr, bool end = true);
  void record_violation(State &s, const std::string &kind, const std::string &msg, const Model &m);
  [[noreturn]] void give_up(State &s, const std::string &reason);
  void throw_exception(State &s, uint64_t obj);
  void unwind(State &s);
  bool type_matches(State &s, uint64_t thrown, uint64_t catcher, uint64_t obj, int64_t &off);
  bool find_base(State &s, uint64_t ti, uint64_t target, uint64_t obj, int64_t &off, int &count);
  std::string ti_kind(State &s, uint64_t ti);
  void call_function(State &s, CFunc *f, const std::vector<Val> &args, Frame::Kind kind = Frame::Kind::normal, uint32_t after = 0);
  void return_from(State &s, const std::vector<Val> &ret);
  CFunc *resolve_func(State &s, uint64_t addr);
  void schedule(State &s, bool current_enabled, const char *why);
  bool thread_enabled(State &s, int t);
  void finish_call(State &s, const CInst &ci, const std::vector<Val> &ret);
  Thread &th(State &s) {return s.threads[s.cur];}
  std::string where(State &s);
  std::vector<std::string> backtrace(State &s);
  std::vector<std::string> dump_inputs(State &s, const Model &m);
  CFunc *get_func(const llvm::Function *f);
  Val make_input(State &s, const std::string &name, unsigned width);
  uint64_t addr_of(const llvm::Constant *c);
  void end_path(State &s);
 void assume(State &s, Expr *c); // ends the path when infeasible
 void check_assert(State &s, Expr *c, const std::string &msg);
 uint64_t trace_hash(State &s, const Model &m);
 std::function<void()> split_hook; // called between paths, may fork the process

 private:
  void compile(CFunc *f);
  void step_loop(State &s);
  void exec(State &s, Frame &fr, const CInst &ci);
  Val get(Frame &fr, const Operand &o) {return o.reg >= 0 ? fr.regs[o.reg] : o.c;}
  void take_edge(State &s, Frame &fr, const Edge &e);
  void init_global(State &s, const llvm::Constant *c, std::vector<uint8_t> &data, uint64_t off);
  void flatten(llvm::Type *t, uint64_t off, std::vector<FlatElem> &out);
  void const_slots(const llvm::Constant *c, std::vector<Val> &out);
  Val const_val(const llvm::Constant *c);
  Val exec_load(State &s, Frame &fr, const Operand &p, uint64_t extra, unsigned bytes);
  Expr *load_choice(State &s, Expr *p, unsigned bytes);
  Expr *choose_arm(State &s, Expr *e);
  void split_pointer(State &s, Val &v);
  uint64_t resolve_ptr(State &s, Frame &fr, const Operand &p, uint64_t bytes, bool write);
  bool sym_read(State &s, Expr *p, unsigned bytes, Val &out);
};

Builtin find_builtin(const std::string &name);
std::string demangle(const std::string &s);
#endif
