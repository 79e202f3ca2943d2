// Hashing: against the text of FIPS 180-4, over all contents
#include "sym.h"
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Writable_Journal.h"
#include <cstring>
using namespace joedb;

// a read does not cross a cut
class Cut_File: public Memory_File
{
 public:
  int64_t cut[2] = {-1, -1};
  size_t pread(char *buffer, size_t size, int64_t offset) const override
  {
   if (offset < 0 || size_t(offset) >= data.size()) return 0;
   size_t n = std::min(size, data.size() - size_t(offset));
   for (int64_t c: cut) if (c > offset && c < offset + int64_t(n)) n = size_t(c - offset);
   std::memcpy(buffer, data.data() + offset, n);
   return n;
  }
};

static uint32_t rot(uint32_t x, int n) {return (x >> n) | (x << (32 - n));}

// primes, by their definition: fractional parts of square and cube roots
static uint32_t root_bits(int p, int k)
{
 // floor(frac(p^(1/k)) * 2^32), by integer bisection
 unsigned __int128 lo = 0, hi = (unsigned __int128)1 << 38;
 while (hi - lo > 1)
 {
  const unsigned __int128 m = (lo + hi) / 2;
  bool below;
  if (k == 2) below = m * m <= ((unsigned __int128)p << 64);
  else
  {
   // m^3 <= p * 2^96: compare m^2 <= p * 2^96 / m
   below = m == 0 || m * m <= (((unsigned __int128)p << 96) / m);
  }
  if (below) lo = m; else hi = m;
 }
 return uint32_t(lo);
}

static const uint32_t *constants()
{
 static uint32_t t[72];
 int n = 0;
 for (int p = 2; n < 64; p++)
 {
  bool prime = true;
  for (int d = 2; d * d <= p; d++) if (p % d == 0) prime = false;
  if (!prime) continue;
  if (n < 8) t[64 + n] = root_bits(p, 2);
  t[n++] = root_bits(p, 3);
 }
 return t;
}

static std::array<uint32_t, 8> reference(const std::string &s)
{
 const uint32_t *K = constants();
 std::array<uint32_t, 8> h;
 for (size_t i = 0; i < 8; i++) h[i] = K[64 + i];
 std::string m = s;
 m += char(0x80);
 while (m.size() % 64 != 56) m += char(0);
 const uint64_t bits = uint64_t(s.size()) * 8;
 for (int i = 7; i >= 0; i--) m += char(uint8_t(bits >> (8 * i)));
 for (size_t at = 0; at < m.size(); at += 64)
 {
  uint32_t w[64];
  for (size_t i = 0; i < 16; i++)
  {
   const uint8_t *p = reinterpret_cast<const uint8_t *>(&m[at + 4 * i]);
   w[i] = (uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | uint32_t(p[3]);
  }
  for (size_t i = 16; i < 64; i++)
  {
   const uint32_t s0 = rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ (w[i - 15] >> 3);
   const uint32_t s1 = rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ (w[i - 2] >> 10);
   w[i] = w[i - 16] + s0 + w[i - 7] + s1;
  }
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], x = h[7];
  for (size_t i = 0; i < 64; i++)
  {
   const uint32_t t1 = x + (rot(e, 6) ^ rot(e, 11) ^ rot(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
   const uint32_t t2 = (rot(a, 2) ^ rot(a, 13) ^ rot(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
   x = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += x;
 }
 return h;
}

static void check_same(const std::array<uint32_t, 8> &a, const std::array<uint32_t, 8> &b, const char *m)
{
 for (size_t i = 0; i < 8; i++) sym_assert(a[i] == b[i], m);
}

// the hash of a file is SHA-256 of its bytes; content: how many bytes are symbolic
extern "C" void sha()
{
 static const size_t sizes[] = {0, 1, 3, 54, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 183, 184, 192};
 const size_t n = sizes[sym_choice("size", sizeof sizes / sizeof *sizes)];
 std::string s(n, 0);
 for (size_t i = 0; i < n; i++) s[i] = char(uint8_t(i * 7 + 3));
 const size_t symbolic = std::min(n, size_t(sym_param("symbolic", 0)));
 const size_t where = symbolic < n ? (n - symbolic) : 0;
 if (symbolic) {const std::string d = sym_string("data", symbolic); for (size_t i = 0; i < symbolic; i++) s[where + i] = d[i];}
 check_same(File_Hasher::get_hash(std::string_view(s)), reference(s), "the hash is SHA-256");
 sym_reach("end");
}

// the hash depends on the bytes of the range, not on how they are read, nor on what surrounds them
extern "C" void ranges()
{
 const size_t n = 1 + sym_choice("size", 3) * 64 + sym_choice("more", 2) * 62;
 const size_t start = sym_choice("start", 2) * 5;
 const std::string d = sym_string("data", start + n + 3);
 Cut_File file;
 file.pwrite(d.data(), d.size(), 0);
 file.cut[0] = int64_t(sym_choice("cut", uint32_t(d.size() + 1)));
 if (sym_choice("second", 2)) file.cut[1] = file.cut[0] + 1 + int64_t(sym_choice("after", 2)) * 63;
 const auto expected = File_Hasher::get_hash(std::string_view(d).substr(start, n));
 check_same(File_Hasher::get_hash(file, int64_t(start), int64_t(n)), expected, "the hash depends on the bytes of the range only");
 check_same(File_Hasher::get_fast_hash(file, int64_t(start), int64_t(n)), expected, "the fast hash of a small range is its hash");
 sym_reach("end");
}
