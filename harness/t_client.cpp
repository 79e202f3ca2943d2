// Clients synchronised through a connection to a server journal
#include "shared.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/interpreted/Database.h"
using namespace joedb;

static std::string bytes_of(const Abstract_File &f, int64_t until)
{
 std::string s(size_t(until - Header::ssize), 0);
 size_t done = 0;
 while (done < s.size())
 {
  const size_t n = f.pread(&s[done], s.size() - done, Header::ssize + int64_t(done));
  if (!n) sym_fail("journal shorter than its checkpoint");
  done += n;
 }
 return s;
}

// every history that was ever committed on the server
static std::string server_history;

static void check_server(const Writable_Journal &server, const Memory_File &file)
{
 const std::string now = bytes_of(file, server.get_checkpoint());
 sym_assert(now.size() >= server_history.size(), "the server never loses a transaction");
 sym_assert(h::same_string(now.substr(0, server_history.size()), server_history), "the server never rewrites its history");
 server_history = now;
 // whole operations only
 Memory_File copy;
 file.copy_to(copy);
 h::Recorder r;
 Readonly_Journal j(copy);
 bool ok = true;
 try {j.replay_log(r);} catch (const Exception &) {ok = false;}
 sym_assert(ok, "the server's journal is well formed");
 sym_trace(r.events.size());
}

static const char *const check_names[] = {"none", "fast", "full"};

struct Abort {};

struct Peer
{
 Memory_File file;
 std::unique_ptr<Connection> connection;
 std::unique_ptr<Writable_Journal_Client> client;
 bool online = false;
 Recovery recovery = Recovery::none;
};

static void transact(Peer &p, int size)
{
 p.client->transaction([&](Writable_Journal &j)
 {
  if (size == 0)
   j.timestamp(int64_t(sym_u64("stamp")));
  else if (size == 1)
   j.valid_data();
  else
   j.comment(sym_string("text", 3));
 });
}

static void check_synchronised(Peer &p, const Memory_File &server_file, const Writable_Journal &server)
{
 const int64_t n = std::min(p.client->get_journal_checkpoint(), server.get_checkpoint());
 sym_assert(h::same_string(bytes_of(p.file, n), bytes_of(server_file, n)), "a synchronised replica agrees with the server");
}

extern "C" void sync()
{
 server_history.clear();
 Memory_File server_file;
 Writable_Journal server(server_file);
 std::vector<Peer> peers(2);
 const int steps = int(sym_param("steps", 4));
 const int sizes = int(sym_param("sizes", 2));

 for (int i = 0; i < steps; i++)
 {
  Peer &p = peers[sym_choice("peer", 2)];
  const uint32_t action = sym_choice("action", uint32_t(sym_param("actions", 6)));
  const int64_t before = server.get_checkpoint();
  if (action == 0) // connect
  {
   if (p.online) {sym_stop();}
   p.client.reset();
   p.connection = std::make_unique<Journal_Connection>(server);
   try
   {
    p.client = std::make_unique<Writable_Journal_Client>(p.file, *p.connection, Content_Check::full, p.recovery);
    p.online = true;
    check_synchronised(p, server_file, server);
   }
   catch (const Content_Mismatch &)
   {
    sym_reach("diverged");
    p.connection.reset();
    Readonly_Journal j(p.file);
    const int64_t n = std::min(j.get_checkpoint(), server.get_checkpoint());
    sym_assert(!h::same_string(bytes_of(p.file, n), bytes_of(server_file, n)), "a mismatch is reported only when contents differ");
    sym_stop();
   }
  }
  else if (action == 1) // local transaction without a connection
  {
   if (p.online || !p.client)
   {
    p.client.reset();
    p.connection.reset();
    p.online = false;
    p.client = std::make_unique<Writable_Journal_Client>(p.file, Connection::dummy, Content_Check::fast, p.recovery);
   }
   transact(p, int(sym_choice("size", sizes)));
   sym_assert(server.get_checkpoint() == before, "an offline transaction does not touch the server");
  }
  else if (action == 6) // a transaction that throws
  {
   if (!p.client) sym_stop();
   const int64_t committed = p.client->get_journal_checkpoint();
   const int n = int(sym_choice("aborted_operations", 3));
   const bool flush = sym_choice("flush", 2);
   bool thrown = false;
   try
   {
    p.client->transaction([&](Writable_Journal &j)
    {
     for (int k = 0; k < n; k++) j.timestamp(0x7777777777777777);
     if (flush) j.flush();
     throw Abort();
    });
   }
   catch (const Abort &) {thrown = true;}
   catch (const std::exception &)
   {
    sym_assert(server.get_checkpoint() == before, "a refused operation leaves the server alone");
    sym_stop();
   }
   sym_assert(thrown, "the exception of a transaction reaches the caller");
   sym_assert(server.get_checkpoint() == before || p.client->get_journal_checkpoint() == server.get_checkpoint(), "an aborted transaction pushes nothing of its own");
   check_server(server, server_file);
   if (n == 0)
    sym_reach("nothing to undo");
   else
   {
    bool refused = false;
    try {transact(p, 0);} catch (const std::exception &) {refused = true;}
    sym_assert(refused, "a client with half a transaction refuses to go on");
    check_server(server, server_file);
    const int64_t reached = p.client->get_journal_checkpoint();
    sym_assert(reached >= committed, "checkpoint after an aborted transaction");
    const std::string kept = bytes_of(p.file, reached);
    // start again from the last committed state
    p.recovery = Recovery::overwrite;
    p.client.reset();
    p.connection.reset();
    check_server(server, server_file);
    p.online = false;
    bool default_open = true;
    try {Writable_Journal j(p.file);}
    catch (const Exception &) {default_open = false;}
    sym_assert(!default_open, "an aborted tail is reported when opening again");
    p.client = std::make_unique<Writable_Journal_Client>(p.file, Connection::dummy, Content_Check::fast, p.recovery);
    sym_assert(p.client->get_journal_checkpoint() == reached, "recovery keeps exactly what was committed");
    sym_assert(h::same_string(bytes_of(p.file, reached), kept), "recovery keeps exactly what was committed");
    sym_reach("recovered");
   }
  }
  else
  {
   if (!p.online) sym_stop();
   bool ok = true;
   try
   {
    if (action == 2) transact(p, int(sym_choice("size", sizes)));
    else if (action == 3) p.client->pull();
    else if (action == 4) p.client->push_if_ahead();
    else p.client->pull_push();
   }
   catch (const std::exception &)
   {
    ok = false;
    sym_reach("refused");
   }
   check_server(server, server_file);
   if (ok)
   {
    check_synchronised(p, server_file, server);
    if (action == 2 || action == 5)
     sym_assert(p.client->get_journal_checkpoint() == server.get_checkpoint(), "a transaction is on the server when it returns");
    if (action == 3)
     sym_assert(p.client->get_journal_checkpoint() >= server.get_checkpoint(), "pulling brings everything the server has");
    if (action == 4)
     sym_assert(p.client->get_journal_checkpoint() <= server.get_checkpoint(), "pushing sends everything");
   }
   else
   {
    sym_assert(server.get_checkpoint() == before, "a refused operation leaves the server alone");
    sym_stop(); // the client is lost
   }
  }
  check_server(server, server_file);
 }
 sym_reach("end");
}

// Content check when connecting: a byte of one journal changes at a place chosen by the solver
extern "C" void handshake()
{
 static const int64_t sizes[] = {60, 4096, 4097, 6000};
 const int64_t size_a = sizes[sym_choice("size_a", 4)];
 const int64_t size_b = sizes[sym_choice("size_b", 4)];
 const int64_t min = std::min(size_a, size_b);
 Memory_File files[2];
 for (int i = 0; i < 2; i++)
 {
  Writable_Journal j(files[i]);
  const int64_t n = i ? size_b : size_a;
  // single byte operations: any position is an operation boundary
  while (j.get_position() < n) j.valid_data();
  j.soft_checkpoint();
 }
 const int64_t places[] = {41, 42, 59, 2047, 2048, 3000, min - 2049, min - 2048, min - 1, min};
 const int64_t place = places[sym_choice("place", 10)];
 if (place < 41 || place >= std::max(size_a, size_b)) sym_stop();
 Memory_File &changed = files[place < size_a && (place >= size_b || sym_choice("changed", 2) == 0) ? 0 : 1];
 const uint8_t value = sym_u8("value");
 changed.pwrite((const char *)&value, 1, place);
 const bool same = place >= min || value == 0x0e;
 const bool in_window = min <= 4096 || place < 2048 || place >= min - 2048;
 const Content_Check check = Content_Check(sym_choice("check", 3));

 Writable_Journal server(files[1]);
 Journal_Connection connection(server);
 Writable_Journal client(files[0]);
 bool mismatch = false;
 int64_t result = 0;
 try {result = connection.handshake(client, check);}
 catch (const Content_Mismatch &) {mismatch = true;}
 if (!mismatch) sym_assert(result == size_b, "the handshake tells how far the server is");
 if (check == Content_Check::none)
  sym_assert(!mismatch, "no check, no mismatch");
 else if (check == Content_Check::full)
  sym_assert(mismatch == !same, "a full check detects exactly the differing histories");
 else
 {
  if (same) sym_assert(!mismatch, "a fast check accepts matching histories");
  else if (in_window) sym_assert(mismatch, "a fast check detects any difference near the start or near the end");
 }
 sym_trace(mismatch);
 sym_reach("end");
}

// A read-only client that pushes a file which another process keeps writing
extern "C" void push_growing()
{
 h::Store store;
 h::Shared_File writer_file(store, Open_Mode::shared_write);
 Writable_Journal writer(writer_file);
 Memory_File server_file;
 Writable_Journal server(server_file);
 Journal_Connection connection(server);
 h::Shared_File reader_file(store, Open_Mode::read_existing);
 std::unique_ptr<Readonly_Client> client;
 server_history.clear();
 const int steps = int(sym_param("steps", 5));
 for (int i = 0; i < steps; i++)
 {
  switch (sym_choice("action", 5))
  {
   case 0: writer.timestamp(int64_t(sym_u64("stamp"))); break;
   case 1: writer.soft_checkpoint(); break;
   case 2: writer.hard_checkpoint(); break;
   case 3:
    try
    {
     client = std::make_unique<Readonly_Client>(reader_file, connection, Content_Check::full);
     sym_reach("connected");
    }
    catch (const Content_Mismatch &)
    {
     sym_fail("a file that only grows always matches what was pushed from it");
    }
    break;
   case 4:
    if (!client) sym_stop();
    client->push_if_ahead(INT64_MAX);
    sym_assert(server.get_checkpoint() == writer.get_checkpoint(), "everything that is checkpointed is pushed");
    break;
  }
  check_server(server, server_file);
  const int64_t n = server.get_checkpoint();
  sym_assert(n <= writer.get_checkpoint(), "nothing that is not checkpointed is pushed");
  sym_assert(h::same_string(bytes_of(server_file, n), bytes_of(writer_file, n)), "the server has a copy");
 }
 sym_reach("end");
}
