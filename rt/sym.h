// Harness API: implemented by the symbolic executor, and by native.cpp for replays.
#ifndef SYM_H
#define SYM_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
extern "C"
{
 uint8_t sym_u8(const char *name);
 uint16_t sym_u16(const char *name);
 uint32_t sym_u32(const char *name);
 uint64_t sym_u64(const char *name);
 uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi); // symbolic, lo <= x <= hi
 uint32_t sym_choice(const char *name, uint32_t n);               // one path per value 0..n-1
 void sym_bytes(const char *name, void *p, size_t n);
 uint64_t sym_concretize(uint64_t x);                             // one path per feasible value
 void sym_assume(bool c);
 void sym_assert(bool c, const char *message);
 [[noreturn]] void sym_fail(const char *message);
 void sym_reach(const char *label);
 void sym_trace(uint64_t x);  // observable compared with the native execution
 void sym_log(const char *text);
 int sym_is_engine();
 [[noreturn]] void sym_stop();
 [[noreturn]] void sym_giveup(const char *why);
 int sym_is_symbolic(uint64_t x);
 int64_t sym_param(const char *name, int64_t default_value);      // bound, set by the driver
 int sym_thread(void (*f)(void *), void *arg);
 void sym_yield();
 void sym_join(int thread);
 void sym_wait_change(const uint64_t *p, uint64_t value);         // block while *p == value
 int sym_format_double(char *buf, double d, int precision);
 double sym_parse_double(const char *s, size_t *used);
 float sym_parse_float(const char *s, size_t *used);
}
static inline std::string sym_string(const char *name, size_t n)
{
 std::string s(n, 'x');
 if (n) sym_bytes(name, &s[0], n);
 return s;
}
static inline void sym_trace_str(const std::string &s)
{
 sym_trace(s.size());
 for (char c: s) sym_trace((unsigned char)c);
}
#define SYM_CHECK(c, m) sym_assert((c), m)
#endif
