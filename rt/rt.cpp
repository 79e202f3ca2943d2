// The out-of-line parts of the C and C++ runtime that the code under check needs, as bitcode.
// This is the environment model: it is not the code being verified.
#include "sym.h"
#include <sstream>
#define private public
#include <thread>
#undef private
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <system_error>
#include <functional>
#include <future>
#include <string>
#include <sstream>
#include <iostream>
#include <optional>
#include <variant>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <unordered_map>
#include <list>
#include <map>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <memory>
#include <memory_resource>

// ---------------------------------------------------------------- C library
extern "C"
{
 size_t strlen(const char *s) {size_t n = 0; while (s[n]) n++; return n;}
 char *strncpy(char *d, const char *s, size_t n) {size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d;}
 int strcmp(const char *a, const char *b)
 {
  size_t i = 0;
  for (; a[i] && a[i] == b[i]; i++) {}
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
 }
 int strncmp(const char *a, const char *b, size_t n)
 {
  for (size_t i = 0; i < n; i++)
  {
   if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
   if (!a[i]) return 0;
  }
  return 0;
 }
 char *strcpy(char *d, const char *s) {size_t i = 0; do d[i] = s[i]; while (s[i++]); return d;}
 static const void *memchr_(const void *p, int c, size_t n)
 {
  const unsigned char *q = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return q + i;
  return nullptr;
 }
 int isspace(int c) {return c == ' ' || (c >= 9 && c <= 13);}
 int isdigit(int c) {return c >= '0' && c <= '9';}
 int isupper(int c) {return c >= 'A' && c <= 'Z';}
 int islower(int c) {return c >= 'a' && c <= 'z';}
 int isalpha(int c) {return isupper(c) || islower(c);}
 int isalnum(int c) {return isalpha(c) || isdigit(c);}
 int isxdigit(int c) {return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');}
 int isprint(int c) {return c >= 32 && c < 127;}
 int iscntrl(int c) {return (c >= 0 && c < 32) || c == 127;}
 int ispunct(int c) {return isprint(c) && c != ' ' && !isalnum(c);}
 int toupper(int c) {return islower(c) ? c - 32 : c;}
 int tolower(int c) {return isupper(c) ? c + 32 : c;}
 static int rt_errno;
 int *__errno_location() {return &rt_errno;}
 // the classic locale table behind the ctype macros
 void rt_throw_bad_alloc() {throw std::bad_alloc();}
 char *strerror(int) {static char t[] = "error"; return t;}
 char *getenv(const char *) {return nullptr;}
 void *__dso_handle = nullptr;

 unsigned long strtoul(const char *s, char **end, int base)
 {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '-' || *p == '+') {neg = *p == '-'; p++;}
  if (base == 0) base = 10;
  unsigned long v = 0;
  bool any = false, over = false;
  for (;; p++)
  {
   unsigned d;
   if (*p >= '0' && *p <= '9') d = *p - '0';
   else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
   else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
   else break;
   if (d >= (unsigned)base) break;
   any = true;
   if (v > (~0ul - d) / base) over = true;
   v = v * base + d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  if (over) {rt_errno = 34; return ~0ul;}
  return neg ? 0 - v : v;
 }
 long strtol(const char *s, char **end, int base)
 {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '-' || *p == '+') {neg = *p == '-'; p++;}
  if (base == 0) base = 10;
  unsigned long v = 0;
  bool any = false, over = false;
  const unsigned long limit = neg ? 1ul << 63 : ~0ul >> 1;
  for (;; p++)
  {
   unsigned d;
   if (*p >= '0' && *p <= '9') d = *p - '0';
   else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
   else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
   else break;
   if (d >= (unsigned)base) break;
   any = true;
   if (over || v > (limit - d) / base) over = true;
   else v = v * base + d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  if (over) {rt_errno = 34; return neg ? (long)(1ul << 63) : (long)(~0ul >> 1);}
  return neg ? (long)(0 - v) : (long)v;
 }
 long long strtoll(const char *s, char **end, int base) {return strtol(s, end, base);}
 unsigned long long strtoull(const char *s, char **end, int base) {return strtoul(s, end, base);}
 double strtod(const char *s, char **end) {size_t n; double d = sym_parse_double(s, &n); if (end) *end = const_cast<char *>(s + n); return d;}
 float strtof(const char *s, char **end) {size_t n; float d = sym_parse_float(s, &n); if (end) *end = const_cast<char *>(s + n); return d;}
}
#include <ctime>
extern "C" struct tm *gmtime_r(const time_t *t, struct tm *r)
{
 const int64_t limit = 67767976233532799ll, low = -67768040609740800ll; // year fits in int
 if (*t > limit || *t < low) {rt_errno = 75; return nullptr;}
 int64_t days = *t / 86400, rem = *t % 86400;
 if (rem < 0) {rem += 86400; days--;}
 std::memset(r, 0, sizeof(*r));
 r->tm_hour = int(rem / 3600); r->tm_min = int(rem % 3600 / 60); r->tm_sec = int(rem % 60);
 r->tm_wday = int(((days % 7) + 11) % 7);
 const int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
 const uint64_t doe = uint64_t(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
 const uint64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
 r->tm_mday = int(doy - (153 * mp + 2) / 5 + 1);
 r->tm_mon = int(mp < 10 ? mp + 2 : mp - 10);
 r->tm_year = int(int64_t(yoe) + era * 400 + (r->tm_mon <= 1) - 1900);
 return r;
}
extern "C" size_t strftime(char *out, size_t max, const char *f, const struct tm *tm)
{
 std::string s;
 auto two = [&](int x) {s.push_back(char('0' + x / 10 % 10)); s.push_back(char('0' + x % 10));};
 for (; *f; f++)
 {
  if (*f != '%') {s.push_back(*f); continue;}
  switch (*++f)
  {
   case 'Y': s += std::to_string(int64_t(tm->tm_year) + 1900); break;
   case 'm': two(tm->tm_mon + 1); break;
   case 'd': two(tm->tm_mday); break;
   case 'H': two(tm->tm_hour); break;
   case 'M': two(tm->tm_min); break;
   case 'S': two(tm->tm_sec); break;
   default: sym_giveup("strftime format");
  }
 }
 if (s.size() + 1 > max) {for (size_t i = 0; i < max; i++) out[i] = '?'; return 0;} // contents unspecified
 std::memcpy(out, s.c_str(), s.size() + 1);
 return s.size();
}
// only the text of log messages comes through here (std::to_string of a duration)
extern "C" int vsnprintf(char *b, size_t n, const char *, __builtin_va_list)
{
 if (n > 1) {b[0] = '0'; b[1] = 0;}
 return 1;
}

extern "C" const void *rt_memchr(const void *p, int c, size_t n) asm("memchr");
const void *rt_memchr(const void *p, int c, size_t n) {return memchr_(p, c, n);}
extern "C" const char *rt_strchr(const char *p, int c) asm("strchr");
const char *rt_strchr(const char *p, int c) {for (;; p++) {if (*p == (char)c) return p; if (!*p) return nullptr;}}

// ---------------------------------------------------------------- exceptions
namespace std
{
 exception::~exception() noexcept {}
 const char *exception::what() const noexcept {return "std::exception";}
 bad_exception::~bad_exception() noexcept {}
 const char *bad_exception::what() const noexcept {return "std::bad_exception";}
 bad_alloc::~bad_alloc() noexcept {}
 const char *bad_alloc::what() const noexcept {return "std::bad_alloc";}
 bad_array_new_length::~bad_array_new_length() noexcept {}
 const char *bad_array_new_length::what() const noexcept {return "std::bad_array_new_length";}
 bad_cast::~bad_cast() noexcept {}
 const char *bad_cast::what() const noexcept {return "std::bad_cast";}
 bad_typeid::~bad_typeid() noexcept {}
 const char *bad_typeid::what() const noexcept {return "std::bad_typeid";}
 bad_function_call::~bad_function_call() noexcept {}
 const char *bad_function_call::what() const noexcept {return "bad_function_call";}

 static char *dup(const char *s)
 {
  size_t n = strlen(s);
  char *p = (char *)malloc(n + 1);
  memcpy(p, s, n + 1);
  return p;
 }
 __cow_string::__cow_string() {_M_p = dup("");}
 __cow_string::__cow_string(const std::string &s) {_M_p = dup(s.c_str());}
 __cow_string::__cow_string(const char *s, size_t n) {char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p;}
 __cow_string::__cow_string(const __cow_string &s) noexcept {_M_p = dup(s._M_p);}
 __cow_string &__cow_string::operator=(const __cow_string &s) noexcept {_M_p = dup(s._M_p); return *this;}
 __cow_string::~__cow_string() {}
 __cow_string::__cow_string(__cow_string &&s) noexcept {_M_p = s._M_p; s._M_p = dup("");}
 __cow_string &__cow_string::operator=(__cow_string &&s) noexcept {_M_p = s._M_p; s._M_p = dup(""); return *this;}

 logic_error::logic_error(const string &s): _M_msg(s) {}
 logic_error::logic_error(const char *s): _M_msg(s, strlen(s)) {}
 logic_error::logic_error(const logic_error &e) noexcept: exception(e), _M_msg(e._M_msg) {}
 logic_error &logic_error::operator=(const logic_error &e) noexcept {_M_msg = e._M_msg; return *this;}
 logic_error::logic_error(logic_error &&e) noexcept: exception(e), _M_msg(e._M_msg) {}
 logic_error::~logic_error() noexcept {}
 const char *logic_error::what() const noexcept {return _M_msg._M_p;}
 runtime_error::runtime_error(const string &s): _M_msg(s) {}
 runtime_error::runtime_error(const char *s): _M_msg(s, strlen(s)) {}
 runtime_error::runtime_error(const runtime_error &e) noexcept: exception(e), _M_msg(e._M_msg) {}
 runtime_error &runtime_error::operator=(const runtime_error &e) noexcept {_M_msg = e._M_msg; return *this;}
 runtime_error::runtime_error(runtime_error &&e) noexcept: exception(e), _M_msg(e._M_msg) {}
 runtime_error::~runtime_error() noexcept {}
 const char *runtime_error::what() const noexcept {return _M_msg._M_p;}
#define SIMPLE(name, base) name::name(const string &s): base(s) {} name::name(const char *s): base(s) {} name::~name() noexcept {}
 SIMPLE(invalid_argument, logic_error)
 SIMPLE(domain_error, logic_error)
 SIMPLE(length_error, logic_error)
 SIMPLE(out_of_range, logic_error)
 SIMPLE(range_error, runtime_error)
 SIMPLE(overflow_error, runtime_error)
 SIMPLE(underflow_error, runtime_error)

 void __throw_bad_exception() {throw bad_exception();}
 void __throw_bad_alloc() {throw bad_alloc();}
 void __throw_bad_array_new_length() {throw bad_array_new_length();}
 void __throw_bad_cast() {throw bad_cast();}
 void __throw_logic_error(const char *s) {throw logic_error(s);}
 void __throw_invalid_argument(const char *s) {throw invalid_argument(s);}
 void __throw_length_error(const char *s) {throw length_error(s);}
 void __throw_out_of_range(const char *s) {throw out_of_range(s);}
 void __throw_out_of_range_fmt(const char *s, ...) {throw out_of_range(s);}
 void __throw_runtime_error(const char *s) {throw runtime_error(s);}
 void __throw_bad_function_call() {throw bad_function_call();}
 void __throw_ios_failure(const char *s) {throw runtime_error(s);}
 void __throw_ios_failure(const char *s, int) {throw runtime_error(s);}
 void __throw_system_error(int) {throw runtime_error("system_error");}
 void __throw_bad_optional_access() ;

 type_info::~type_info() {}
}

// ---------------------------------------------------------------- containers
namespace std
{
 static _Rb_tree_node_base *rb_inc(_Rb_tree_node_base *x) throw()
 {
  if (x->_M_right) {x = x->_M_right; while (x->_M_left) x = x->_M_left;}
  else
  {
   _Rb_tree_node_base *y = x->_M_parent;
   while (x == y->_M_right) {x = y; y = y->_M_parent;}
   if (x->_M_right != y) x = y;
  }
  return x;
 }
 static _Rb_tree_node_base *rb_dec(_Rb_tree_node_base *x) throw()
 {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {_Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y;}
  else
  {
   _Rb_tree_node_base *y = x->_M_parent;
   while (x == y->_M_left) {x = y; y = y->_M_parent;}
   x = y;
  }
  return x;
 }
 _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {return rb_inc(x);}
 const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {return rb_inc(const_cast<_Rb_tree_node_base *>(x));}
 _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {return rb_dec(x);}
 const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {return rb_dec(const_cast<_Rb_tree_node_base *>(x));}

 // A plain (unbalanced) binary search tree with the header conventions of libstdc++: the order
 // of the elements and the iterators are the same.
 void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
 {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left)
  {
   p->_M_left = x;
   if (p == &h) {h._M_parent = x; h._M_right = x;}
   else if (p == h._M_left) h._M_left = x;
  }
  else
  {
   p->_M_right = x;
   if (p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red;
 }
 _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
 {
  auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b)
  {
   if (h._M_parent == a) h._M_parent = b;
   else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
   else a->_M_parent->_M_right = b;
   if (b) b->_M_parent = a->_M_parent;
  };
  _Rb_tree_node_base *next = rb_inc(z), *prev = h._M_left == z ? nullptr : rb_dec(z);
  bool first = h._M_left == z, last = h._M_right == z;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else
  {
   _Rb_tree_node_base *y = z->_M_right;
   while (y->_M_left) y = y->_M_left;
   if (y->_M_parent != z) {replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y;}
   replace(z, y);
   y->_M_left = z->_M_left;
   y->_M_left->_M_parent = y;
  }
  if (first) h._M_left = next;
  if (last) h._M_right = prev ? prev : &h;
  if (!h._M_parent) {h._M_left = &h; h._M_right = &h;}
  return z;
 }

 namespace __detail
 {
  void _List_node_base::_M_hook(_List_node_base *const p) noexcept {_M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;}
  void _List_node_base::_M_unhook() noexcept {_M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev;}
  void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
  {
   if (this != last)
   {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
   }
  }
  std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
  {
   static const std::size_t p[] = {2, 5, 11, 23, 47, 97, 197, 397, 797, 1597, 3203, 6421, 12853, 25717, 51437, 102877};
   for (std::size_t x: p) if (x >= n) {_M_next_resize = x; return x;}
   _M_next_resize = n | 1;
   return n | 1;
  }
  std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const
  {
   if (n_elt + n_ins > n_bkt) return {true, _M_next_bkt(std::max(n_bkt * 2, n_elt + n_ins))};
   return {false, 0};
  }
 }
 size_t _Hash_bytes(const void *p, size_t n, size_t seed)
 {
  // FNV-like; the iteration order of hash tables is not part of any property
  const unsigned char *q = (const unsigned char *)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
  return h;
 }
}

// ---------------------------------------------------------------- locale and streams
namespace std
{
 locale::locale() noexcept: _M_impl(nullptr) {}
 locale::locale(const locale &) noexcept: _M_impl(nullptr) {}
 locale::~locale() noexcept {}
 const locale &locale::operator=(const locale &) noexcept {return *this;}
 const locale &locale::classic() {static locale l; return l;}

 ios_base::ios_base() noexcept: _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
 ios_base::~ios_base() {}
 void ios_base::_M_init() noexcept {_M_precision = 6; _M_width = 0; _M_flags = skipws | dec;}
 void ios_base::_M_call_callbacks(event) noexcept {}
 ios_base::Init::Init() {}
 ios_base::Init::~Init() {}
 void ios_base::_M_move(ios_base &b) noexcept {_M_precision = b._M_precision; _M_width = b._M_width; _M_flags = b._M_flags; _M_exception = b._M_exception; _M_streambuf_state = b._M_streambuf_state;}
 void ios_base::_M_swap(ios_base &) noexcept {}

 template<> void basic_ios<char>::_M_cache_locale(const locale &) {_M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr;}
 template<> char basic_ios<char>::widen(char c) const {return c;}
 template<> char basic_ios<char>::narrow(char c, char) const {return c;}
 template<> locale basic_ios<char>::imbue(const locale &l) {return l;}

 static void put_padded(ostream &o, const char *s, size_t n)
 {
  ostream::sentry ok(o);
  if (ok)
  {
   streamsize w = o.width();
   o.width(0);
   bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
   streambuf *b = o.rdbuf();
   bool fail = false;
   if (!left) for (streamsize i = n; i < w; i++) if (b->sputc(o.fill()) == EOF) fail = true;
   if (b->sputn(s, n) != (streamsize)n) fail = true;
   if (left) for (streamsize i = n; i < w; i++) if (b->sputc(o.fill()) == EOF) fail = true;
   if (fail) o.setstate(ios_base::badbit);
  }
 }
 static ostream &put_unsigned(ostream &o, unsigned long v, bool neg)
 {
  char t[32];
  int i = 32;
  auto base = o.flags() & ios_base::basefield;
  if (base == ios_base::hex)
  {
   const char *d = (o.flags() & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
   do {t[--i] = d[v & 15]; v >>= 4;} while (v);
   if (o.flags() & ios_base::showbase) {t[--i] = 'x'; t[--i] = '0';}
  }
  else if (base == ios_base::oct) do {t[--i] = '0' + (v & 7); v >>= 3;} while (v);
  else
  {
   do {t[--i] = '0' + v % 10; v /= 10;} while (v);
   if (neg) t[--i] = '-';
  }
  put_padded(o, t + i, 32 - i);
  return o;
 }
 static ostream &put_signed(ostream &o, long v)
 {
  auto base = o.flags() & ios_base::basefield;
  if (base == ios_base::hex || base == ios_base::oct || v >= 0) return put_unsigned(o, (unsigned long)v, false);
  return put_unsigned(o, 0 - (unsigned long)v, true);
 }
 template<> template<> ostream &ostream::_M_insert(long v) {return put_signed(*this, v);}
 template<> template<> ostream &ostream::_M_insert(unsigned long v) {return put_unsigned(*this, v, false);}
 template<> template<> ostream &ostream::_M_insert(long long v) {return put_signed(*this, v);}
 template<> template<> ostream &ostream::_M_insert(unsigned long long v) {return put_unsigned(*this, v, false);}
 template<> template<> ostream &ostream::_M_insert(bool v)
 {
  if (flags() & ios_base::boolalpha) {if (v) put_padded(*this, "true", 4); else put_padded(*this, "false", 5); return *this;}
  return put_unsigned(*this, v, false);
 }
 template<> template<> ostream &ostream::_M_insert(double v)
 {
  char t[128];
  int n = sym_format_double(t, v, (int)precision());
  put_padded(*this, t, n);
  return *this;
 }
 template<> template<> ostream &ostream::_M_insert(long double) {sym_giveup("long double output");}
 template<> template<> ostream &ostream::_M_insert(const void *v) {return put_unsigned(*this, (unsigned long)v, false);}
 template<> ostream &ostream::operator<<(short v)
 {
  auto base = flags() & ios_base::basefield;
  if (base == ios_base::hex || base == ios_base::oct) return put_unsigned(*this, (unsigned short)v, false);
  return put_signed(*this, v);
 }
 template<> ostream &ostream::operator<<(int v)
 {
  auto base = flags() & ios_base::basefield;
  if (base == ios_base::hex || base == ios_base::oct) return put_unsigned(*this, (unsigned int)v, false);
  return put_signed(*this, v);
 }

 template<> istream::sentry::sentry(istream &in, bool noskip): _M_ok(false)
 {
  if (in.good())
  {
   if (in.tie()) in.tie()->flush();
   if (!noskip && (in.flags() & ios_base::skipws))
   {
    streambuf *b = in.rdbuf();
    int c = b->sgetc();
    while (c != EOF && isspace(c)) c = b->snextc();
    if (c == EOF) {in.setstate(ios_base::eofbit | ios_base::failbit); return;}
   }
  }
  if (in.good()) _M_ok = true;
  else in.setstate(ios_base::failbit);
 }

 // num_get for integers in the C locale: accumulate [+-]digits, stop at the first other character
 static bool get_int(istream &in, bool &neg, unsigned long &v, bool &over)
 {
  streambuf *b = in.rdbuf();
  neg = false; v = 0; over = false;
  int c = b->sgetc();
  unsigned base = 10;
  auto bf = in.flags() & ios_base::basefield;
  if (bf == ios_base::hex) base = 16;
  else if (bf == ios_base::oct) base = 8;
  if (c == '-' || c == '+') {neg = c == '-'; c = b->snextc();}
  bool any = false;
  while (c != EOF)
  {
   unsigned d;
   if (c >= '0' && c <= '9') d = c - '0';
   else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10;
   else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10;
   else break;
   if (d >= base) break;
   any = true;
   if (over || v > (~0ul - d) / base) over = true;
   else v = v * base + d;
   c = b->snextc();
  }
  if (c == EOF) in.setstate(ios_base::eofbit);
  return any;
 }
 template<class T> static istream &extract_signed(istream &in, T &x)
 {
  istream::sentry ok(in, false);
  if (ok)
  {
   bool neg, over;
   unsigned long v;
   if (!get_int(in, neg, v, over)) {x = 0; in.setstate(ios_base::failbit);}
   else
   {
    const unsigned long maxv = (unsigned long)std::numeric_limits<T>::max();
    const unsigned long limit = neg ? maxv + 1 : maxv;
    if (over || v > limit) {x = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); in.setstate(ios_base::failbit);}
    else x = neg ? (T)(0 - v) : (T)v;
   }
  }
  return in;
 }
 template<class T> static istream &extract_unsigned(istream &in, T &x)
 {
  istream::sentry ok(in, false);
  if (ok)
  {
   bool neg, over;
   unsigned long v;
   if (!get_int(in, neg, v, over)) {x = 0; in.setstate(ios_base::failbit);}
   else
   {
    if (over || v > std::numeric_limits<T>::max()) {x = std::numeric_limits<T>::max(); in.setstate(ios_base::failbit);}
    else x = neg ? (T)(0 - (T)v) : (T)v;
   }
  }
  return in;
 }
 template<> template<> istream &istream::_M_extract(unsigned short &x) {return extract_unsigned(*this, x);}
 template<> template<> istream &istream::_M_extract(unsigned int &x) {return extract_unsigned(*this, x);}
 template<> template<> istream &istream::_M_extract(unsigned long &x) {return extract_unsigned(*this, x);}
 template<> template<> istream &istream::_M_extract(unsigned long long &x) {return extract_unsigned(*this, x);}
 template<> template<> istream &istream::_M_extract(long &x) {return extract_signed(*this, x);}
 template<> template<> istream &istream::_M_extract(long long &x) {return extract_signed(*this, x);}
 template<> istream &istream::operator>>(short &x) {return extract_signed(*this, x);}
 template<> istream &istream::operator>>(int &x) {return extract_signed(*this, x);}
 template<> template<> istream &istream::_M_extract(bool &x)
 {
  istream::sentry ok(*this, false);
  if (ok)
  {
   bool neg, over;
   unsigned long v;
   if (!get_int(*this, neg, v, over)) {x = false; setstate(ios_base::failbit);}
   else if (over || neg || v > 1) {x = true; setstate(ios_base::failbit);}
   else x = v == 1;
  }
  return *this;
 }
 static size_t get_float_chars(istream &in, char *t, size_t max)
 {
  // the characters num_get accumulates for a floating-point number
  streambuf *b = in.rdbuf();
  size_t n = 0;
  bool point = false, e = false, digits = false;
  int c = b->sgetc();
  if (c == '+' || c == '-') {t[n++] = (char)c; c = b->snextc();}
  while (c != EOF && n + 1 < max)
  {
   if (c >= '0' && c <= '9') {digits = true; t[n++] = (char)c;}
   else if (c == '.' && !point && !e) {point = true; t[n++] = '.';}
   else if ((c == 'e' || c == 'E') && !e && digits)
   {
    e = true;
    t[n++] = 'e';
    c = b->snextc();
    if (c == '+' || c == '-') {t[n++] = (char)c; c = b->snextc();}
    continue;
   }
   else break;
   c = b->snextc();
  }
  if (c == EOF) in.setstate(ios_base::eofbit);
  t[n] = 0;
  return n;
 }
 template<> template<> istream &istream::_M_extract(double &x)
 {
  istream::sentry ok(*this, false);
  if (ok)
  {
   char t[64];
   size_t n = get_float_chars(*this, t, 64), used;
   double d = n ? sym_parse_double(t, &used) : 0;
   if (!n || used != n) {x = 0; setstate(ios_base::failbit);}
   else if (std::isinf(d)) {x = d > 0 ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::max(); setstate(ios_base::failbit);}
   else x = d;
  }
  return *this;
 }
 template<> template<> istream &istream::_M_extract(float &x)
 {
  istream::sentry ok(*this, false);
  if (ok)
  {
   char t[64];
   size_t n = get_float_chars(*this, t, 64), used;
   float d = n ? sym_parse_float(t, &used) : 0;
   if (!n || used != n) {x = 0; setstate(ios_base::failbit);}
   else if (std::isinf(d)) {x = d > 0 ? std::numeric_limits<float>::max() : -std::numeric_limits<float>::max(); setstate(ios_base::failbit);}
   else x = d;
  }
  return *this;
 }

 template<> istream &operator>>(istream &in, string &s)
 {
  size_t n = 0;
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok(in, false);
  if (ok)
  {
   s.erase();
   streambuf *b = in.rdbuf();
   const streamsize w = in.width();
   const size_t max = w > 0 ? (size_t)w : s.max_size();
   int c = b->sgetc();
   while (n < max && c != EOF && !isspace(c)) {s.push_back((char)c); n++; c = b->snextc();}
   if (n < max && c == EOF) err |= ios_base::eofbit;
   in.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
 }
 template<> istream &getline(istream &in, string &s, char delim)
 {
  size_t n = 0;
  ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok(in, true);
  if (ok)
  {
   s.erase();
   streambuf *b = in.rdbuf();
   int c = b->sgetc();
   while (c != EOF && c != (unsigned char)delim) {s.push_back((char)c); n++; c = b->snextc();}
   if (c == EOF) err |= ios_base::eofbit;
   else {n++; b->sbumpc();}
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
 }
 template<> istream &ws(istream &in)
 {
  istream::sentry ok(in, true);
  if (ok)
  {
   streambuf *b = in.rdbuf();
   int c = b->sgetc();
   while (c != EOF && isspace(c)) c = b->snextc();
   if (c == EOF) in.setstate(ios_base::eofbit);
  }
  return in;
 }
 template<> istream &istream::ignore(streamsize n, int_type delim)
 {
  _M_gcount = 0;
  sentry ok(*this, true);
  if (ok)
  {
   streambuf *b = rdbuf();
   while (_M_gcount < n)
   {
    int c = b->sgetc();
    if (c == EOF) {setstate(ios_base::eofbit); break;}
    _M_gcount++;
    b->sbumpc();
    if (c == delim) break;
   }
  }
  return *this;
 }
 template<> istream &istream::ignore(streamsize n) {return ignore(n, EOF);}
}

// std::cin and friends: a sink and an empty source
namespace
{
 struct Null_Buf: public std::streambuf
 {
  int overflow(int c) override {return c == EOF ? 0 : c;}
  std::streamsize xsputn(const char *, std::streamsize n) override {return n;}
 };
}
extern "C" __attribute__((constructor(101))) void rt_init_streams()
{
 Null_Buf *b = new Null_Buf;
 new (&std::cout) std::ostream(b);
 new (&std::cerr) std::ostream(b);
 new (&std::clog) std::ostream(b);
 new (&std::cin) std::istream(b);
}

// ---------------------------------------------------------------- threads
namespace std
{
 thread::_State::~_State() = default;
 static void run_thread(void *p)
 {
  thread::_State *s = (thread::_State *)p;
  s->_M_run();
  delete s;
 }
 void thread::_M_start_thread(_State_ptr s, void (*)())
 {
  int t = sym_thread(run_thread, s.release());
  _M_id = id((unsigned long)(t + 1));
 }
 void thread::join() {unsigned long h; memcpy(&h, &_M_id, 8); sym_join((int)h - 1); _M_id = id();}
 void thread::detach() {_M_id = id();}
 condition_variable::condition_variable() noexcept {}
 condition_variable::~condition_variable() noexcept {}
 void condition_variable::wait(unique_lock<mutex> &l) {pthread_cond_wait((pthread_cond_t *)native_handle(), l.mutex()->native_handle());}
 void condition_variable::notify_one() noexcept {pthread_cond_signal((pthread_cond_t *)native_handle());}
 void condition_variable::notify_all() noexcept {pthread_cond_broadcast((pthread_cond_t *)native_handle());}
 void __throw_bad_variant_access_(const char *);
}
