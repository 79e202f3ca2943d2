// Content checks over the network. Hash functions are stand-ins that keep all of what they are given:
// the full one keeps the whole history, the fast one its first and last bytes.
// asio
#include "joedb/journal/File_Hasher.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Abstract_File.h"
#include <cstring>
namespace joedb
{
 class Stand_In
 {
  static SHA_256::Hash pack(const char *bytes, size_t n, uint32_t tag)
  {
   SHA_256::Hash h{};
   std::memcpy((char *)h.data(), bytes, n);
   h[7] = tag;
   return h;
  }
  public:
   static SHA_256::Hash get_full_hash(const Readonly_Journal &journal, int64_t checkpoint)
   {
    char b[28] = {};
    const int64_t n = checkpoint - 41;
    if (n < 0 || n > 26) return pack(b, 0, 99);
    journal.get_file().pread(b, size_t(n), 41);
    return pack(b, 28, uint32_t(n) + 100);
   }
   static SHA_256::Hash get_fast_hash(const Readonly_Journal &journal, int64_t checkpoint)
   {
    char b[2] = {};
    const int64_t n = checkpoint - 41;
    if (n > 0)
    {
     journal.get_file().pread(b, 1, 41);
     journal.get_file().pread(b + 1, 1, checkpoint - 1);
    }
    return pack(b, 2, uint32_t(n) + 1000);
   }
 };
}
#define Journal_Hasher Stand_In
#define WITH_CLIENT
#include "server.h"
#include "link.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
using namespace joedb;

extern "C" void network_check()
{
 faults = 0;
 fragments = 0;
 const int64_t size_a = 41 + int64_t(sym_choice("size_a", 4)) * 3;
 const int64_t size_b = 41 + int64_t(sym_choice("size_b", 4)) * 3;
 const int64_t min = std::min(size_a, size_b);
 Memory_File files[2];
 for (int i = 0; i < 2; i++)
 {
  Writable_Journal j(files[i]);
  while (j.get_position() < (i ? size_b : size_a)) j.valid_data();
  j.soft_checkpoint();
 }
 // one byte of the local history may differ
 bool same = true, in_window = false;
 if (size_a > 41)
 {
  const int64_t place = 41 + int64_t(sym_choice("place", 9));
  if (place >= size_a) sym_stop();
  const uint8_t value = sym_u8("value");
  files[0].pwrite((const char *)&value, 1, place);
  same = place >= min || value == 0x0e;
  in_window = place == 41 || place == min - 1;
 }
 const Content_Check check = Content_Check(sym_choice("check", 3));
 {
  mock::Loop loop;
  mock::loop = &loop;
  Writable_Journal_Client server_client(files[1]);
  Server server(Logger::dummy_logger, 0, 1, "", server_client, std::chrono::milliseconds(0));
  {
   Links links;
   Link link;
   std::unique_ptr<Connection> connection;
   if (sym_choice("robust", 2)) connection = std::make_unique<Robust_Connection>(links, Logger::dummy_logger);
   else connection = std::make_unique<Server_Connection>(link);
   Writable_Journal client(files[0]);
   bool mismatch = false;
   int64_t result = 0;
   try {result = connection->handshake(client, check);}
   catch (const Content_Mismatch &) {mismatch = true;}
   if (!mismatch) sym_assert(result == size_b, "the handshake tells how far the server is");
   if (check == Content_Check::none) sym_assert(!mismatch, "no check, no mismatch");
   else if (check == Content_Check::full) sym_assert(mismatch == !same, "a full check detects exactly the differing histories");
   else if (same) sym_assert(!mismatch, "a fast check accepts matching histories");
   else if (in_window) sym_assert(mismatch, "a fast check detects what its hash sees");
   sym_reach(mismatch ? "mismatch" : "match");
  }
  server.stop();
 }
 sym_reach("end");
}
