#include "sym.h"
#include "joedb/ui/base64.h"
extern "C" void harness()
{
 size_t n = sym_choice("n", 7);
 std::string s = sym_string("s", n);
 std::string e = joedb::base64_encode(s);
 std::string d = joedb::base64_decode(e);
 sym_trace_str(e);
 SYM_CHECK(d == s, "base64 decode(encode(s)) == s");
 sym_reach("end");
}
