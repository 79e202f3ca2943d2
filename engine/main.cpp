// symx: symbolic execution of LLVM bitcode.
//  symx --entry NAME [--time S] [--jobs N] [--out result.json] [--preempt K] ... main.bc --lib a.bc b.bc ...
// The first bitcode files are linked entirely; the ones after --lib are linked only if they define a needed symbol.
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Object/IRSymtab.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <dirent.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>

using namespace llvm;

static std::string jstr(const std::string &s)
{
 std::string r = "\"";
 for (unsigned char c: s)
 {
  if (c == '"' || c == '\\') {r += '\\'; r += (char)c;}
  else if (c < 0x20 || c >= 0x7f) {char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;}
  else r += (char)c;
 }
 return r + "\"";
}

template<class M> static std::string jmap(const M &m)
{
 std::string r = "{";
 bool first = true;
 for (auto &p: m) {if (!first) r += ","; first = false; r += jstr(p.first) + ":" + std::to_string(p.second);}
 return r + "}";
}
static std::string jlist(const std::vector<std::string> &v)
{
 std::string r = "[";
 for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + jstr(v[i]);
 return r + "]";
}

struct Shared
{
 std::atomic<int> active;
 std::atomic<int> violations;
 std::atomic<long> spawned;
};

static void write_result(Engine &e, const std::string &path)
{
 for (auto &p: e.funcs) if (p.second->is_repo && p.second->executed) e.executed_functions[demangle(p.second->name)] += p.second->executed;
 std::ofstream o(path);
 o << "{\"paths_completed\":" << e.paths_completed << ",\"paths_assumed_away\":" << e.paths_assumed_away << ",\"paths_violated\":" << e.paths_violated
   << ",\"forks\":" << e.forks << ",\"instructions\":" << e.instructions << ",\"asserts_checked\":" << e.asserts_checked << ",\"asserts_trivial\":" << e.asserts_trivial
   << ",\"incomplete\":" << jmap(e.incomplete) << ",\"assert_hits\":" << jmap(e.assert_hits) << ",\"reach_hits\":" << jmap(e.reach_hits)
   << ",\"functions\":" << jmap(e.executed_functions)
   << ",\"solver\":{\"queries\":" << g_solver_stats.queries << ",\"sat\":" << g_solver_stats.sat << ",\"unsat\":" << g_solver_stats.unsat << ",\"unknown\":" << g_solver_stats.unknown
   << ",\"cache_hits\":" << g_solver_stats.cache_hits << ",\"model_hits\":" << g_solver_stats.model_hits << ",\"seconds\":" << g_solver_stats.seconds << ",\"slowest\":" << g_solver_stats.slowest << "}"
   << ",\"violations\":[";
 for (size_t i = 0; i < e.violations.size(); i++)
 {
  auto &v = e.violations[i];
  o << (i ? "," : "") << "{\"kind\":" << jstr(v.kind) << ",\"message\":" << jstr(v.message) << ",\"where\":" << jstr(v.where) << ",\"stack\":" << jlist(v.stack)
    << ",\"inputs\":" << jlist(v.inputs) << ",\"log\":" << jlist(v.log) << "}";
 }
 o << "],\"samples\":[";
 for (size_t i = 0; i < e.samples.size(); i++)
  o << (i ? "," : "") << "{\"trace\":" << jstr(std::to_string(e.samples[i].trace)) << ",\"inputs\":" << jlist(e.samples[i].inputs) << "}";
 o << "]}\n";
}

static std::unique_ptr<Module> load_file(const std::string &f, LLVMContext &ctx)
{
 SMDiagnostic err;
 auto m = parseIRFile(f, err, ctx);
 if (!m) {err.print("symx", errs()); exit(3);}
 return m;
}

int real_main(int argc, char **argv)
{
 std::string entry = "harness", out, save;
 std::vector<std::string> mains, libs;
 bool lib = false;
 static Engine e;
 for (int i = 1; i < argc; i++)
 {
  std::string a = argv[i];
  auto next = [&] {return std::string(argv[++i]);};
  if (a == "--entry") entry = next();
  else if (a == "--time") e.time_limit = atof(next().c_str());
  else if (a == "--jobs") e.jobs = atoi(next().c_str());
  else if (a == "--out") out = next();
  else if (a == "--preempt") e.preemption_bound = atoi(next().c_str());
  else if (a == "--seed") e.seed = atoll(next().c_str());
  else if (a == "--random") e.random_search = true;
  else if (a == "--max-violations") e.max_violations = atoi(next().c_str());
  else if (a == "--max-paths") e.max_paths = atoll(next().c_str());
  else if (a == "--max-steps") e.max_steps = atoll(next().c_str());
  else if (a == "--samples") e.max_samples = atoi(next().c_str());
  else if (a == "--concretize") e.concretize_limit = atoi(next().c_str());
  else if (a == "--solver-timeout") g_solver_timeout_ms = atoi(next().c_str());
  else if (a == "--trace-calls") e.trace_calls = true;
  else if (a == "--save") save = next();
  else if (a == "--lib") lib = true;
  else if (a[0] == '@') {std::ifstream in(a.substr(1)); std::string l; while (std::getline(in, l)) if (!l.empty()) (lib ? libs : mains).push_back(l);}
  else (lib ? libs : mains).push_back(a);
 }
 LLVMContext ctx;
 auto m = load_file(mains[0], ctx);
 {
  Linker linker(*m);
  for (size_t i = 1; i < mains.size(); i++)
   if (linker.linkInModule(load_file(mains[i], ctx))) {fprintf(stderr, "link error %s\n", mains[i].c_str()); return 3;}
  // archive semantics
  struct Lib {std::string file; std::unique_ptr<Module> m; std::set<std::string> defs; bool used = false;};
  std::vector<Lib> L;
  for (auto &f: libs)
  {
   // lazily loaded: only the symbols are read
   SMDiagnostic err;
   auto lm = getLazyIRFileModule(f, err, ctx);
   if (!lm) {err.print("symx", errs()); return 3;}
   Lib x;
   x.file = f;
   for (auto &gv: lm->global_values())
    if (!gv.isDeclaration() && !gv.hasLocalLinkage() && !gv.hasLinkOnceLinkage() && !gv.hasAvailableExternallyLinkage() && !gv.hasAppendingLinkage())
     if (!gv.isWeakForLinker()) x.defs.insert(gv.getName().str());
   x.m = std::move(lm);
   L.push_back(std::move(x));
  }
  bool changed = true;
  while (changed)
  {
   changed = false;
   std::set<std::string> undef;
   for (auto &gv: m->global_values())
    if (gv.isDeclaration() && !gv.getName().starts_with("llvm.") && !find_builtin(gv.getName().str())) undef.insert(gv.getName().str());
   for (auto &x: L)
   {
    if (x.used) continue;
    bool need = false;
    for (auto &d: x.defs) if (undef.count(d)) {need = true; break;}
    if (!need) continue;
    x.used = true;
    changed = true;
    x.m.reset();
    if (linker.linkInModule(load_file(x.file, ctx))) {fprintf(stderr, "link error %s\n", x.file.c_str()); return 3;}
   }
  }
  if (getenv("SYM_DEBUG")) for (auto &x: L) if (x.used) fprintf(stderr, "linked %s\n", x.file.c_str());
 }
 if (getenv("SYM_UNDEF"))
  for (auto &f: *m) if (f.isDeclaration() && !f.isIntrinsic() && !find_builtin(f.getName().str()) && !f.use_empty()) fprintf(stderr, "undefined: %s  %s\n", f.getName().str().c_str(), demangle(f.getName().str()).c_str());
 if (!save.empty())
 {
  std::error_code ec;
  raw_fd_ostream os(save, ec);
  WriteBitcodeToFile(*m, os);
  os.flush();
 }
 e.load(m.get());
 solver_init();

 Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
 new(sh) Shared;
 sh->active = 1;
 sh->violations = 0;
 sh->spawned = 0;
 std::string dir;
 bool root = true;
 pid_t rootpid = getpid();
 if (e.jobs > 1)
 {
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  char t[] = "/tmp/symx.XXXXXX";
  dir = mkdtemp(t);
  size_t seen = 0;
  e.split_hook = [&]
  {
   if (e.violations.size() > seen) {sh->violations += (int)(e.violations.size() - seen); seen = e.violations.size();}
   if (sh->violations >= (int)e.max_violations) {e.max_violations = 0; return;}
   while (e.pending.size() >= 2 && sh->active < (int)e.jobs)
   {
    int n = sh->active.fetch_add(1);
    if (n >= (int)e.jobs) {sh->active--; return;}
    pid_t p = fork();
    if (p < 0) {sh->active--; return;}
    std::vector<State *> keep, give;
    if (p == 0)
    {
     sh->spawned++;
     root = false;
     for (size_t i = 0; i < e.pending.size(); i++) (i % 2 == 0 ? keep : give).push_back(e.pending[i]);
     for (auto *s: give) delete s;
     e.pending = keep;
     e.paths_completed = e.paths_assumed_away = e.paths_violated = e.forks = e.instructions = e.asserts_checked = e.asserts_trivial = 0;
     e.incomplete.clear(); e.assert_hits.clear(); e.reach_hits.clear(); e.violations.clear(); e.violation_keys.clear(); e.samples.clear(); e.executed_functions.clear();
     seen = 0;
     for (auto &f: e.funcs) f.second->executed = 0;
     g_solver_stats = SolverStats();
     return;
    }
    for (size_t i = 0; i < e.pending.size(); i++) (i % 2 == 1 ? keep : give).push_back(e.pending[i]);
    for (auto *s: give) delete s;
    e.pending = keep;
   }
  };
 }
 e.run(entry);
 if (!root)
 {
  write_result(e, dir + "/" + std::to_string(getpid()) + ".json");
  sh->active--;
  fflush(nullptr);
  _exit(0);
 }
 (void)rootpid;
 if (e.jobs > 1)
 {
  sh->active--;
  write_result(e, dir + "/root.json");
  bool crash = false;
  int st;
  pid_t w;
  while ((w = wait(&st)) > 0) if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crash = true;
  // concatenate
  std::ofstream o(out);
  o << "[";
  bool first = true;
  DIR *d = opendir(dir.c_str());
  while (dirent *de = readdir(d))
  {
   std::string n = de->d_name;
   if (n.size() < 5) continue;
   std::ifstream in(dir + "/" + n);
   std::stringstream ss;
   ss << in.rdbuf();
   if (!first) o << ",";
   first = false;
   o << ss.str();
   unlink((dir + "/" + n).c_str());
  }
  closedir(d);
  rmdir(dir.c_str());
  if (crash) {o << (first ? "" : ",") << "{\"crash\":1}"; }
  o << "]\n";
  return 0;
 }
 write_result(e, out.empty() ? "/dev/stdout" : out + ".part");
 if (!out.empty())
 {
  std::ifstream in(out + ".part");
  std::stringstream ss; ss << in.rdbuf();
  std::ofstream o(out);
  o << "[" << ss.str() << "]\n";
  unlink((out + ".part").c_str());
 }
 return 0;
}

int main(int argc, char **argv)
{
 // deep expressions are processed recursively: run on a big stack
 struct rlimit rl;
 getrlimit(RLIMIT_STACK, &rl);
 rlim_t want = 1ull << 30;
 if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("SYMX_CHILD"))
 {
  if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < want) want = rl.rlim_max;
  rl.rlim_cur = want;
  setrlimit(RLIMIT_STACK, &rl);
  setenv("SYMX_CHILD", "1", 1);
  execv("/proc/self/exe", argv);
 }
 int rc = real_main(argc, argv);
 fflush(nullptr);
 _exit(rc);
}
