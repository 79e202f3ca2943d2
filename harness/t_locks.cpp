// Locks taken by a client on its connection and on its own file, whatever fails during a transaction
#include "shared.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/interpreted/Database.h"
using namespace joedb;

struct Fault: public std::runtime_error {Fault(): std::runtime_error("fault") {}};

// the fault happens at the chosen step
static uint32_t fault_at, step;
static bool fault_done;
static void maybe_fail()
{
 if (step++ == fault_at) {fault_done = true; throw Fault();}
}

// a local file shared with other processes
struct Client_File: public h::Shared_File
{
 using h::Shared_File::Shared_File;
 bool faulty = false;
 size_t pread(char *buffer, size_t size, int64_t offset) const override
 {
  if (faulty) maybe_fail();
  return h::Shared_File::pread(buffer, size, offset);
 }
 void pwrite(const char *buffer, size_t size, int64_t offset) override
 {
  if (faulty) maybe_fail();
  h::Shared_File::pwrite(buffer, size, offset);
 }
 void sync() override {if (faulty) maybe_fail();}
};

// a server with an exclusive lock
struct Server_Model: public Journal_Connection
{
 bool locked = false;
 bool faulty = false;
 bool lost = false; // a request that did not reach the server
 Server_Model(Writable_Journal &j): Journal_Connection(j) {}

 int64_t handshake(const Readonly_Journal &j, Content_Check c) override
 {
  if (faulty) maybe_fail();
  return Journal_Connection::handshake(j, c);
 }
 int64_t pull(Lock_Action lock_action, Data_Transfer data_transfer, Writable_Journal &j, std::chrono::milliseconds wait) override
 {
  if (faulty) maybe_fail();
  if (bool(lock_action))
  {
   sym_assert(!locked, "a client does not wait for a lock that it holds");
   locked = true;
  }
  // what fails inside the connection is the business of the connection
  try {return Journal_Connection::pull(Lock_Action::no_locking, data_transfer, j, wait);}
  catch (...) {if (bool(lock_action)) locked = false; throw;}
 }
 int64_t push(const Readonly_Journal &j, int64_t from, int64_t until, Unlock_Action unlock_action) override
 {
  sym_assert(locked, "a client of a lock pushes under the lock");
  lost = true;
  if (faulty) maybe_fail(); // before it reaches the server
  lost = false;
  if (bool(unlock_action)) locked = false;
  if (faulty) maybe_fail(); // the reply is lost
  return Journal_Connection::push(j, from, until, Unlock_Action::keep_locked);
 }
 void unlock() override {locked = false;}
};

static void make_server(Writable_Journal &server, int kind)
{
 if (kind == 0)
 {
  server.create_table("t");
  server.add_field(Table_Id{1}, "x", Type::int8());
  server.insert_into(Table_Id{1}, Record_Id{0});
 }
 // later on: a value, an operation that no table accepts, bytes that are not an operation
 if (kind == 1) server.update_int8(Table_Id{1}, Record_Id{0}, Field_Id{1}, int8_t(sym_u8("value")));
 if (kind == 2) server.insert_into(Table_Id{7}, Record_Id{0});
 if (kind == 3) server.drop_field(Table_Id{1}, Field_Id{9});
 server.soft_checkpoint();
}

template<class Client, class Lock> struct Api;
template<> struct Api<Writable_Database_Client, Writable_Database_Client_Lock>
{
 template<class C> static void transact(C &c, int writes, bool abort)
 {
  c.transaction([&](const Readable &, Writable &w)
  {
   for (int i = 0; i < writes; i++) w.update_int8(Table_Id{1}, Record_Id{0}, Field_Id{1}, 7);
   if (abort) {fault_done = true; throw Fault();}
  });
 }
 static void write(Writable_Database_Client_Lock &l) {l.get_writable().update_int8(Table_Id{1}, Record_Id{0}, Field_Id{1}, 7);}
};
template<> struct Api<Writable_Journal_Client, Writable_Journal_Client_Lock>
{
 template<class C> static void transact(C &c, int writes, bool abort)
 {
  c.transaction([&](Writable_Journal &w)
  {
   for (int i = 0; i < writes; i++) w.update_int8(Table_Id{1}, Record_Id{0}, Field_Id{1}, 7);
   if (abort) {fault_done = true; throw Fault();}
  });
 }
 static void write(Writable_Journal_Client_Lock &l) {l.get_journal().update_int8(Table_Id{1}, Record_Id{0}, Field_Id{1}, 7);}
};

template<class Client, class Lock> static void run()
{
 typedef Api<Client, Lock> A;
 Memory_File server_file;
 Writable_Journal server(server_file);
 make_server(server, 0);
 Server_Model connection(server);
 h::Store store;
 Client_File file(store, sym_choice("shared", 2) ? Open_Mode::shared_write : Open_Mode::create_new);
 fault_at = 1000; step = 0; fault_done = false;
 auto client = std::make_unique<Client>(file, connection);
 client->pull();
 client->set_hard_checkpoint(sym_choice("hard", 2));
 sym_assert(!connection.locked, "a pull does not keep the server locked");
 // the server moves on, and something may fail during what comes next
 const int kind = int(sym_choice("server_news", 4));
 if (kind) make_server(server, kind);
 const int64_t before = server.get_checkpoint();
 fault_at = sym_u8("fault_at"); // the number of the access that fails: any, or none
 step = 0;
 file.faulty = connection.faulty = true;
 bool thrown = false;
 const int writes = int(sym_choice("writes", 2));
 const uint32_t api = sym_choice("api", 5);
 bool pushes = true;
 try
 {
  if (api == 0) A::transact(*client, writes, false);
  else if (api == 1) {A::transact(*client, writes, true);}
  else if (api == 2) {client->pull(); pushes = false;}
  else
  {
   Lock lock(*client);
   sym_assert(connection.locked, "a lock is held while the lock object lives");
   for (int i = 0; i < writes; i++) A::write(lock);
   if (api == 3)
    lock.checkpoint_and_push_unlock();
   else
   {
    lock.checkpoint_and_push();
    sym_assert(connection.locked, "a push that keeps the lock keeps it");
    A::write(lock);
    lock.do_checkpoint();
    lock.push_if_ahead();
    lock.unlock();
   }
  }
 }
 catch (const std::exception &) {thrown = true;}
 file.faulty = connection.faulty = false;
 sym_assert(thrown || !fault_done, "a failure is reported to the caller");
 if (kind < 2 && !fault_done) sym_assert(!thrown, "a transaction succeeds when nothing fails");
 // a server unlocks when a connection is lost, but a lock object does not wait for this
 if (connection.lost && api < 3) {sym_reach("lost"); connection.unlock();}
 sym_assert(!connection.locked, "the server is unlocked after a transaction, however it ends");
 for (const auto &l: store.locks)
  sym_assert(l.owner != file.id, "the file of the client is unlocked after a transaction, however it ends");
 if (!thrown && pushes)
  sym_assert(server.get_checkpoint() == client->get_journal_checkpoint(), "a transaction is on the server when it returns");
 if (api == 1) sym_assert(server.get_checkpoint() == before, "an aborted transaction pushes nothing");
 if (thrown) sym_reach("failed"); else sym_reach("succeeded");
 if (fault_done) sym_reach("fault");
 // the client can still be closed
 client.reset();
 sym_assert(!connection.locked, "closing the client leaves the server unlocked");
 sym_trace(thrown);
 sym_reach("end");
}

extern "C" void journal_locks() {run<Writable_Journal_Client, Writable_Journal_Client_Lock>();}
extern "C" void database_locks() {run<Writable_Database_Client, Writable_Database_Client_Lock>();}
