// Text encodings of values
#include "common.h"
#include "joedb/ui/type_io.h"
#include "joedb/ui/base64.h"
#include "joedb/ui/json.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
using namespace joedb;

// RFC 3629
static bool valid_utf8(const std::string &s)
{
 for (size_t i = 0; i < s.size();)
 {
  const uint8_t c = uint8_t(s[i]);
  auto next = [&](size_t k, uint8_t lo, uint8_t hi) {return i + k < s.size() && uint8_t(s[i + k]) >= lo && uint8_t(s[i + k]) <= hi;};
  if (c < 0x80) i++;
  else if (c >= 0xc2 && c <= 0xdf) {if (!next(1, 0x80, 0xbf)) return false; i += 2;}
  else if (c >= 0xe0 && c <= 0xef)
  {
   if (!next(1, c == 0xe0 ? 0xa0 : 0x80, c == 0xed ? 0x9f : 0xbf) || !next(2, 0x80, 0xbf)) return false;
   i += 3;
  }
  else if (c >= 0xf0 && c <= 0xf4)
  {
   if (!next(1, c == 0xf0 ? 0x90 : 0x80, c == 0xf4 ? 0x8f : 0xbf) || !next(2, 0x80, 0xbf) || !next(3, 0x80, 0xbf)) return false;
   i += 4;
  }
  else return false;
 }
 return true;
}

static int hex_digit(char c)
{
 if (c >= '0' && c <= '9') return c - '0';
 if (c >= 'a' && c <= 'f') return c - 'a' + 10;
 if (c >= 'A' && c <= 'F') return c - 'A' + 10;
 return -1;
}

// RFC 8259 string at position i: its value
static std::string parse_json_string(const std::string &t, size_t &i)
{
 sym_assert(i < t.size() && t[i] == '"', "a JSON string starts with a quote");
 i++;
 std::string raw, value;
 while (true)
 {
  sym_assert(i < t.size(), "a JSON string ends with a quote");
  const uint8_t c = uint8_t(t[i++]);
  if (c == '"') break;
  sym_assert(c >= 0x20, "no control character in a JSON string");
  if (c == '\\')
  {
   sym_assert(i < t.size(), "an escaped character follows");
   const char e = t[i++];
   switch (e)
   {
    case '"': value.push_back('"'); break;
    case '\\': value.push_back('\\'); break;
    case '/': value.push_back('/'); break;
    case 'b': value.push_back('\b'); break;
    case 'f': value.push_back('\f'); break;
    case 'n': value.push_back('\n'); break;
    case 'r': value.push_back('\r'); break;
    case 't': value.push_back('\t'); break;
    case 'u':
    {
     int x = 0;
     for (int k = 0; k < 4; k++)
     {
      sym_assert(i < t.size() && hex_digit(t[i]) >= 0, "four hexadecimal digits");
      x = x * 16 + hex_digit(t[i++]);
     }
     sym_assert(x < 0x80, "only ASCII characters are escaped");
     value.push_back(char(x));
    }
    break;
    default: sym_fail("unknown JSON escape");
   }
  }
  else
   value.push_back(char(c));
 }
 return value;
}

static bool same(const std::string &a, const std::string &b) {return h::same_string(a, b);}

// what is quoted is read back, and stays on one line
extern "C" void quote()
{
 const std::string s = sym_string("s", sym_choice("n", uint32_t(sym_param("size", 3)) + 1));
 std::ostringstream out;
 write_string(out, s);
 const std::string t = out.str();
 for (char c: t) sym_assert(uint8_t(c) >= 0x20 && c != 0x7f, "no control character in a quoted string");
 std::istringstream in((sym_choice("space", 2) ? "  " : "") + t + " 17");
 const std::string r = read_string(in);
 sym_assert(same(r, s), "a quoted string is read back");
 int x = 0;
 in >> x;
 sym_assert(x == 17, "what follows a quoted string is read next");
 sym_trace_str(t);
 sym_reach("end");
}

// JSON: exactly the valid UTF-8 strings
extern "C" void json()
{
 const std::string s = sym_string("s", sym_choice("n", uint32_t(sym_param("size", 4)) + 1));
 std::ostringstream out;
 const int result = write_json_string(out, s, false);
 const std::string t = out.str();
 size_t i = 0;
 sym_assert(valid_utf8(t), "JSON is UTF-8");
 const std::string r = parse_json_string(t, i);
 sym_assert(i == t.size(), "one JSON string");
 if (valid_utf8(s))
 {
  sym_assert(result == 0, "UTF-8 strings are accepted");
  sym_assert(same(r, s), "a JSON string is read back");
  sym_reach("utf8");
 }
 else
 {
  sym_assert(result == JSON_Error::utf8, "a string that is not UTF-8 is reported");
  sym_reach("refused");
 }
 sym_trace_str(t);
 sym_reach("end");
}

// base64 and SQL hexadecimal literals
extern "C" void binary()
{
 const std::string s = sym_string("s", sym_choice("n", uint32_t(sym_param("size", 4)) + 1));
 const std::string e = base64_encode(s);
 static const char digits[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 sym_assert(e.size() == (s.size() + 2) / 3 * 4, "size of base64 text");
 for (size_t i = 0; i < e.size(); i++)
 {
  // RFC 4648, bit by bit
  const size_t bit = i * 6;
  if (bit >= s.size() * 8) {sym_assert(e[i] == '=', "base64 padding"); continue;}
  unsigned x = 0;
  for (size_t k = bit; k < bit + 6; k++)
   x = x * 2 + (k < s.size() * 8 ? (uint8_t(s[k / 8]) >> (7 - k % 8)) & 1u : 0u);
  sym_assert(uint8_t(e[i]) == uint8_t(digits[x]), "base64 digit");
 }
 sym_assert(same(base64_decode(e), s), "base64 text is decoded");
 std::ostringstream j;
 sym_assert(write_json_string(j, s, true) == 0, "any string has a base64 encoding");
 sym_assert(same(j.str(), '"' + e + '"'), "base64 text in JSON");
 std::ostringstream out;
 write_sql_string(out, s);
 const std::string t = out.str();
 sym_assert(t.size() == 3 + 2 * s.size() && t[0] == 'X' && t[1] == '\'' && t.back() == '\'', "SQL hexadecimal literal");
 for (size_t i = 0; i < s.size(); i++)
  sym_assert(hex_digit(t[2 + 2 * i]) * 16 + hex_digit(t[3 + 2 * i]) == uint8_t(s[i]), "SQL hexadecimal digits");
 sym_trace_str(e);
 sym_reach("end");
}

// anything can be read
extern "C" void read_any()
{
 const std::string t = sym_string("t", sym_choice("n", uint32_t(sym_param("size", 4)) + 1));
 if (sym_choice("base64", 2))
 {
  try {const std::string s = base64_decode(t); sym_trace_str(s); sym_assert(s.size() <= t.size(), "base64 decoding does not grow");}
  catch (const std::exception &) {sym_reach("refused");}
 }
 else
 {
  std::istringstream in(t);
  const std::string s = read_string(in);
  sym_assert(s.size() <= t.size() + 1, "a string is no longer than its text");
  sym_trace_str(s);
 }
 sym_reach("end");
}

// comments and names stay in their comment or quotes
extern "C" void sql_comment()
{
 const std::string s = sym_string("s", sym_choice("n", uint32_t(sym_param("size", 3)) + 1));
 std::ostringstream out;
 SQL_Dump_Writable w(out);
 if (sym_choice("custom", 2)) w.custom(s); else w.comment(s);
 const std::string t = out.str();
 sym_assert(!t.empty() && t.back() == '\n', "a comment ends its line");
 bool start = true;
 for (size_t i = 0; i < t.size(); i++)
 {
  if (start) sym_assert(t[i] == '-' && i + 1 < t.size() && t[i + 1] == '-', "every line of a comment is a comment");
  start = t[i] == '\n' || t[i] == '\r';
 }
 sym_trace_str(t);
 sym_reach("end");
}
