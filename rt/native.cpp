// Replay runtime: the harness API over recorded input values, for natively compiled code.
//  replay <input file> <entry>; prints TRACE/REACH lines; exit code 0 held, 10 assertion, 11 uncaught exception,
//  12 deadlock, 13 assumption not satisfied, 14 input mismatch, other: crash (signal, sanitizer).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <new>
#include <exception>
#define private public
#include <thread>
#undef private
#include <mutex>
#include <condition_variable>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>

struct In {std::string name; unsigned width; std::vector<uint64_t> v;};
static std::vector<In> inputs;
static size_t pos = 0;
static uint64_t trace_h = 1469598103934665603ull;
static bool started = false;

static void finish(int code)
{
 printf("TRACE %llu\n", (unsigned long long)trace_h);
 fflush(stdout);
 _exit(code);
}

static const In &next_input(const char *name, unsigned width)
{
 if (pos >= inputs.size())
 {
  // a path that ended at a violation has no more inputs
  printf("END-OF-INPUTS at %s\n", name);
  finish(14);
 }
 const In &in = inputs[pos++];
 if (in.name != name || in.width != width) {printf("INPUT-MISMATCH expected %s/%u got %s/%u\n", name, width, in.name.c_str(), in.width); finish(14);}
 return in;
}

extern "C" void harness_dispatch(const char *name);

// ---------------------------------------------------------------- cooperative threads
// One real thread per symbolic thread; only the one that holds the baton runs.
struct T
{
 bool finished = false;
 void *waiting_mutex = nullptr;
 void *waiting_cond = nullptr;
 bool timed = false, timed_out = false;
 int waiting_join = -1;
 const uint64_t *wait_addr = nullptr;
 uint64_t wait_value = 0;
 pthread_t th;
};
static std::vector<T *> threads;
static int cur = 0;
static bool multi = false;
static int preemption_bound = -1, preemptions = 0;
static std::map<void *, int> owner;

typedef int (*lockfn)(pthread_mutex_t *);
typedef int (*waitfn)(pthread_cond_t *, pthread_mutex_t *);
typedef int (*condfn)(pthread_cond_t *);
static pthread_mutex_t baton_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t baton_c = PTHREAD_COND_INITIALIZER;
static lockfn real_lock, real_unlock;
static waitfn real_wait;
static condfn real_broadcast;
static void init_real()
{
 if (real_lock) return;
 real_lock = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_lock");
 real_unlock = (lockfn)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
 real_wait = (waitfn)dlsym(RTLD_NEXT, "pthread_cond_wait");
 real_broadcast = (condfn)dlsym(RTLD_NEXT, "pthread_cond_broadcast");
}
static void wait_for(int me)
{
 real_lock(&baton_m);
 while (cur != me) real_wait(&baton_c, &baton_m);
 real_unlock(&baton_m);
}
static void give_to(int t)
{
 real_lock(&baton_m);
 cur = t;
 real_broadcast(&baton_c);
 real_unlock(&baton_m);
}
static bool enabled(int i)
{
 T &t = *threads[i];
 if (t.finished) return false;
 if (t.waiting_mutex && owner[t.waiting_mutex]) return false;
 if (t.waiting_cond) return t.timed;
 if (t.wait_addr && *t.wait_addr == t.wait_value) return false;
 if (t.waiting_join >= 0 && !threads[t.waiting_join]->finished) return false;
 return true;
}
static void schedule(bool current_enabled)
{
 int me = cur;
 std::vector<int> en;
 for (int i = 0; i < (int)threads.size(); i++) if (enabled(i)) en.push_back(i);
 if (en.empty())
 {
  for (T *t: threads) if (!t->finished) {printf("DEADLOCK\n"); finish(12);}
  return;
 }
 bool cur_in = false;
 for (int i: en) if (i == me) cur_in = true;
 int next;
 if (en.size() == 1) next = en[0];
 else if (cur_in && current_enabled && preemption_bound >= 0 && preemptions >= preemption_bound) return;
 else
 {
  if (cur_in) for (int &i: en) if (i == me) {std::swap(en[0], i); break;}
  uint64_t k = next_input("schedule", 8).v[0];
  next = en[k % en.size()];
  if (cur_in && k) preemptions++;
 }
 if (next == me) return;
 bool done = threads[me]->finished;
 give_to(next);
 if (!done) wait_for(me);
}

struct Start {void (*f)(void *); void *arg; int id;};
static void terminate_handler();
static void *thread_main(void *p)
{
 Start s = *(Start *)p;
 delete (Start *)p;
 wait_for(s.id);
 std::set_terminate(terminate_handler);
 s.f(s.arg);
 threads[s.id]->finished = true;
 schedule(false);
 return nullptr;
}

extern "C"
{
 int sym_thread(void (*f)(void *), void *arg)
 {
  init_real();
  multi = true;
  int id = (int)threads.size();
  threads.push_back(new T);
  Start *s = new Start{f, arg, id};
  pthread_create(&threads[id]->th, nullptr, thread_main, s);
  return id;
 }
 void sym_yield() {if (multi) schedule(true);}
 void sym_join(int t)
 {
  while (!threads[t]->finished) {threads[cur]->waiting_join = t; schedule(false);}
  threads[cur]->waiting_join = -1;
 }
 void sym_wait_change(const uint64_t *p, uint64_t v)
 {
  init_real();
  while (*p == v) {threads[cur]->wait_addr = p; threads[cur]->wait_value = v; schedule(false);}
  threads[cur]->wait_addr = nullptr;
 }

 int pthread_mutex_lock(pthread_mutex_t *m)
 {
  init_real();
  if (!started || !multi) return real_lock(m);
  int me = cur;
  if (owner[m] == me + 1) {printf("DEADLOCK relock\n"); finish(12);}
  while (owner[m]) {threads[me]->waiting_mutex = m; schedule(false);}
  threads[me]->waiting_mutex = nullptr;
  owner[m] = me + 1;
  return 0;
 }
 int pthread_mutex_unlock(pthread_mutex_t *m)
 {
  init_real();
  if (!started || !multi || !owner[m]) return real_unlock(m);
  owner[m] = 0;
  schedule(true);
  return 0;
 }
 static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
 {
  int me = cur;
  T &t = *threads[me];
  t.waiting_cond = c; t.timed = timed; t.timed_out = false;
  owner[m] = 0;
  schedule(false);
  if (t.waiting_cond) {t.waiting_cond = nullptr; t.timed = false; t.timed_out = true;}
  while (owner[m]) {t.waiting_mutex = m; schedule(false);}
  t.waiting_mutex = nullptr;
  owner[m] = me + 1;
  return t.timed_out ? 110 : 0;
 }
 int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
 {
  init_real();
  if (!started || !multi) return real_wait(c, m);
  return cond_wait(c, m, false);
 }
 int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {init_real(); return cond_wait(c, m, true);}
 int nanosleep(const struct timespec *, struct timespec *) {return 0;}
 int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) {init_real(); return cond_wait(c, m, true);}
 int pthread_cond_signal(pthread_cond_t *c)
 {
  init_real();
  if (!started || !multi) return real_broadcast(c);
  for (T *t: threads) if (t->waiting_cond == c) {t->waiting_cond = nullptr; t->timed = false; break;}
  return 0;
 }
 int pthread_cond_broadcast(pthread_cond_t *c)
 {
  init_real();
  if (!started || !multi) return real_broadcast(c);
  for (T *t: threads) if (t->waiting_cond == c) {t->waiting_cond = nullptr; t->timed = false;}
  return 0;
 }

 uint8_t sym_u8(const char *n) {return (uint8_t)next_input(n, 8).v[0];}
 uint16_t sym_u16(const char *n) {return (uint16_t)next_input(n, 16).v[0];}
 uint32_t sym_u32(const char *n) {return (uint32_t)next_input(n, 32).v[0];}
 uint64_t sym_u64(const char *n) {return next_input(n, 64).v[0];}
 uint64_t sym_range(const char *n, uint64_t lo, uint64_t hi)
 {
  uint64_t x = next_input(n, 64).v[0];
  if (x < lo || x > hi) {printf("OUT-OF-RANGE %s\n", n); finish(13);}
  return x;
 }
 uint32_t sym_choice(const char *n, uint32_t) {return (uint32_t)next_input(n, 32).v[0];}
 void sym_bytes(const char *name, void *p, size_t n)
 {
  const In &in = next_input(name, 8);
  if (in.v.size() != n) {printf("INPUT-MISMATCH size of %s\n", name); finish(14);}
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)in.v[i];
 }
 uint64_t sym_concretize(uint64_t x) {return x;}
 void sym_assume(bool c) {if (!c) {printf("ASSUMPTION-FAILED\n"); finish(13);}}
 void sym_assert(bool c, const char *m) {if (!c) {printf("ASSERT-FAIL %s\n", m); finish(10);}}
 void sym_fail(const char *m) {printf("ASSERT-FAIL %s\n", m); finish(10); __builtin_unreachable();}
 void sym_reach(const char *l) {printf("REACH %s\n", l);}
 void sym_trace(uint64_t x) {for (int i = 0; i < 8; i++) {trace_h ^= (x >> (8 * i)) & 0xff; trace_h *= 1099511628211ull;}}
 void sym_log(const char *t) {printf("LOG %s\n", t);}
 int sym_is_engine() {return 0;}
 void sym_stop() {finish(0); __builtin_unreachable();}
 void sym_giveup(const char *why) {printf("GIVEUP %s\n", why); finish(14); __builtin_unreachable();}
 int sym_is_symbolic(uint64_t) {return 0;}
 int64_t sym_param(const char *name, int64_t d)
 {
  std::string n = std::string("SYM_PARAM_") + name;
  const char *e = getenv(n.c_str());
  return e ? strtoll(e, nullptr, 0) : d;
 }
 int sym_format_double(char *buf, double d, int precision) {return sprintf(buf, "%.*g", precision, d);}
 double sym_parse_double(const char *s, size_t *used) {char *e; double d = strtod(s, &e); *used = e - s; return d;}
 float sym_parse_float(const char *s, size_t *used) {char *e; float d = strtof(s, &e); *used = e - s; return d;}
}

// threads of the code under check
namespace std
{
 static void run_state(void *p)
 {
  thread::_State *st = (thread::_State *)p;
  st->_M_run();
  delete st;
 }
 void thread::_M_start_thread(_State_ptr st, void (*)())
 {
  unsigned long t = (unsigned long)sym_thread(run_state, st.release()) + 1;
  memcpy((void *)&_M_id, &t, 8);
 }
 void thread::join() {unsigned long h; memcpy(&h, &_M_id, 8); sym_join((int)h - 1); _M_id = id();}
 void thread::detach() {_M_id = id();}
}

// The executor refuses allocations above 64 MB: so does the replay.
static const size_t ALLOC_CAP = 1ul << 26;
void *operator new(size_t n) {if (n > ALLOC_CAP) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (started) memset(p, 0xaa, n); return p;}
void *operator new[](size_t n) {if (n > ALLOC_CAP) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (started) memset(p, 0xaa, n); return p;}
void operator delete(void *p) noexcept {free(p);}
void operator delete[](void *p) noexcept {free(p);}
void operator delete(void *p, size_t) noexcept {free(p);}
void operator delete[](void *p, size_t) noexcept {free(p);}

static void terminate_handler()
{
 if (auto e = std::current_exception())
 {
  try {std::rethrow_exception(e);}
  catch (const std::exception &x) {printf("TERMINATE exception %s\n", x.what());}
  catch (...) {printf("TERMINATE unknown exception\n");}
 }
 else printf("TERMINATE\n");
 finish(11);
}

int main(int argc, char **argv)
{
 if (argc < 3) return 2;
 init_real();
 std::ifstream in(argv[1]);
 std::string line;
 while (std::getline(in, line))
 {
  if (line.empty() || line[0] == '#') continue;
  std::istringstream ss(line);
  In x;
  size_t n;
  ss >> x.name >> x.width >> n;
  for (size_t i = 0; i < n; i++) {std::string h; ss >> h; x.v.push_back(strtoull(h.c_str(), nullptr, 16));}
  inputs.push_back(x);
 }
 if (const char *p = getenv("SYM_PREEMPT")) preemption_bound = atoi(p);
 setvbuf(stdout, nullptr, _IOLBF, 0);
 void *h = dlopen(nullptr, RTLD_NOW);
 void (*f)() = (void (*)())dlsym(h, argv[2]);
 if (!f) {printf("no entry %s\n", argv[2]); return 2;}
 threads.push_back(new T);
 std::set_terminate(terminate_handler);
 alarm(60);
 started = true;
 f();
 printf("DONE\n");
 finish(0);
}
