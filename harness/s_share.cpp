// Several processes on one shared file
#include "shared.h"
#include "ops.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/interpreted/Database.h"
using namespace joedb;
using h::Store; using h::Shared_File;

static Store *store;
static std::vector<uint64_t> committed; // transaction values, in commit order
static int transactions;
static bool use_hard;

// each transaction writes its value twice
static void commit(Writable_Journal_Client &client, int64_t v)
{
 client.transaction([v](Writable_Journal &j)
 {
  j.timestamp(v);
  j.flush();
  j.timestamp(v);
  committed.push_back(uint64_t(v)); // still under the lock
 });
}

static bool aborted;

static std::unique_ptr<Writable_Journal_Client> open_client(Shared_File &file)
{
 try
 {
  return std::make_unique<Writable_Journal_Client>(file);
 }
 catch (const Exception &)
 {
  // documented: the tail of an aborted transaction must be removed explicitly
  sym_assert(aborted, "opening a shared database for writing succeeds");
  sym_reach("aborted tail");
  return nullptr;
 }
}

static void writer(void *)
{
 Shared_File file(*store, Open_Mode::shared_write);
 auto opened = open_client(file);
 if (!opened) return;
 Writable_Journal_Client &client = *opened;
 client.set_hard_checkpoint(use_hard);
 for (int i = 0; i < transactions; i++)
  commit(client, int64_t(sym_u64("stamp")));
}

static void check_journal(const h::Recorder &r, bool final)
{
 sym_assert(r.events.size() % 2 == 0, "no partial transaction is visible");
 sym_assert(r.events.size() <= 2 * committed.size(), "nothing but committed transactions");
 if (final)
  sym_assert(r.events.size() == 2 * committed.size(), "no committed transaction is lost");
 for (size_t i = 0; i < r.events.size() && i < 2 * committed.size(); i++)
 {
  sym_assert(r.events[i].kind == h::k_timestamp, "operation kind");
  sym_assert(r.events[i].a == committed[i / 2], "transactions appear in commit order");
 }
}

static void reader(void *)
{
 Shared_File file(*store, Open_Mode::read_existing);
 h::Recorder r;
 const bool existed = store->content.size() > 0;
 try
 {
  Readonly_Journal j(file);
  int64_t last = 0;
  for (int i = 0; i < int(sym_param("pulls", 2)); i++)
  {
   j.play_until_checkpoint(r);
   check_journal(r, false);
   sym_assert(j.get_checkpoint() >= last, "a reader never goes back in time");
   last = j.get_checkpoint();
   j.pull();
  }
  j.play_until_checkpoint(r);
  check_journal(r, false);
  sym_reach("read");
 }
 catch (const Exception &)
 {
  sym_assert(!existed, "opening an existing database for reading succeeds");
  sym_reach("nothing to read");
 }
}

static void final_check()
{
 Shared_File file(*store, Open_Mode::read_existing);
 Readonly_Journal j(file);
 h::Recorder r;
 j.replay_log(r);
 check_journal(r, true);
 sym_assert(j.get_checkpoint() == int64_t(store->content.size()), "file ends at the checkpoint");
 sym_trace(r.events.size());
}

static void start()
{
 store = new Store;
 transactions = int(sym_param("transactions", 2));
 use_hard = sym_choice("hard", 2);
 committed.clear();
 aborted = false;
 if (sym_param("create", 1))
 {
  Shared_File file(*store, Open_Mode::shared_write);
  Writable_Journal j(file);
 }
}

// one writer, one reader
extern "C" void read_while_writing()
{
 start();
 const int a = sym_thread(writer, nullptr);
 const int b = sym_thread(reader, nullptr);
 sym_join(a);
 sym_join(b);
 final_check();
 sym_assert(committed.size() == size_t(transactions), "all transactions ran");
 sym_reach("end");
}

// two writers
extern "C" void two_writers()
{
 start();
 const int a = sym_thread(writer, nullptr);
 const int b = sym_thread(writer, nullptr);
 sym_join(a);
 sym_join(b);
 final_check();
 sym_assert(committed.size() == 2 * size_t(transactions), "all transactions ran");
 sym_reach("end");
}

// read-modify-write through database clients
static const Table_Id table{1};
static const Field_Id field{1};

static uint64_t step(uint64_t x, uint64_t delta) {return ((x << 1) | (x >> 63)) ^ delta;}

static void increment(void *)
{
 Shared_File file(*store, Open_Mode::shared_write);
 Writable_Database_Client client(file);
 client.set_hard_checkpoint(use_hard);
 for (int i = 0; i < transactions; i++)
 {
  const uint64_t delta = sym_u64("delta");
  client.transaction([delta](const Readable &r, Writable &w)
  {
   const uint64_t x = uint64_t(r.get_int64(table, Record_Id(0), field));
   w.update_int64(table, Record_Id(0), field, int64_t(step(x, delta)));
   committed.push_back(delta);
  });
 }
}

static void watch(void *)
{
 Shared_File file(*store, Open_Mode::read_existing);
 Readonly_Database_Client client(file);
 for (int i = 0; i < int(sym_param("pulls", 2)); i++)
 {
  const uint64_t x = uint64_t(client.get_database().get_int64(table, Record_Id(0), field));
  // some prefix of the updates
  bool found = false;
  uint64_t y = 0;
  found = found | (y == x);
  for (uint64_t d: committed) {y = step(y, d); found = found | (y == x);}
  sym_assert(found, "a reader sees the state after some prefix of the transactions");
  client.pull();
 }
}

extern "C" void counter()
{
 start();
 {
  Shared_File file(*store, Open_Mode::shared_write);
  Writable_Database_Client client(file);
  client.transaction([](const Readable &r, Writable &w)
  {
   w.create_table("t");
   w.add_field(table, "f", Type::int64());
   w.insert_into(table, Record_Id(0));
  });
 }
 const int a = sym_thread(increment, nullptr);
 const int b = sym_thread(sym_param("watch", 0) ? watch : increment, nullptr);
 sym_join(a);
 sym_join(b);
 Shared_File file(*store, Open_Mode::read_existing);
 Database db;
 Readonly_Journal j(file);
 j.replay_log(db);
 uint64_t sum = 0;
 for (uint64_t d: committed) sum = step(sum, d);
 sym_assert(uint64_t(db.get_int64(table, Record_Id(0), field)) == sum, "no update is lost");
 sym_reach("end");
}

// A transaction that throws half-way in one process, while another process commits
struct Abort {};

static void aborter(void *)
{
 Shared_File file(*store, Open_Mode::shared_write);
 Writable_Journal_Client client(file);
 client.set_hard_checkpoint(use_hard);
 commit(client, int64_t(sym_u64("stamp")));
 const int n = int(sym_choice("aborted_operations", uint32_t(sym_param("ops", 3))));
 const bool flush = sym_choice("flush", 2);
 bool thrown = false;
 try
 {
  client.transaction([&](Writable_Journal &j)
  {
   for (int i = 0; i < n; i++)
    j.timestamp(int64_t(0x7777777777777777));
   if (flush && n) {aborted = true; j.flush();}
   throw Abort();
  });
 }
 catch (const Abort &) {thrown = true;}
 sym_assert(thrown, "the exception of a transaction reaches the caller");
 sym_assert(!file.holds(0, false), "no lock is left behind (head)");
 sym_assert(!file.holds(INT64_MAX, false), "no lock is left behind (tail)");
 if (sym_choice("retry", 2))
 {
  // either refused, or a clean commit
  try {commit(client, int64_t(sym_u64("stamp")));}
  catch (const Exception &) {sym_reach("refused after abort");}
  sym_assert(!file.holds(INT64_MAX, false), "no lock is left behind (tail)");
 }
}

extern "C" void abort_transaction()
{
 start();
 const int a = sym_thread(aborter, nullptr);
 const int b = sym_thread(writer, nullptr);
 sym_join(a);
 sym_join(b);
 {
  Shared_File file(*store, Open_Mode::read_existing);
  Readonly_Journal j(file);
  h::Recorder r;
  j.replay_log(r);
  check_journal(r, true);
 }
 sym_reach("end");
}

// Clients write records and values by turns: what one wrote last must not change the meaning of what another writes
extern "C" void take_turns()
{
 store = new Store;
 const int turns = int(sym_param("turns", 3));
 h::Recorder expected;
 Shared_File file0(*store, Open_Mode::shared_write), file1(*store, Open_Mode::shared_write);
 Writable_Journal_Client client0(file0), client1(file1);
 for (int i = 0; i < turns; i++)
 {
  // the first turn belongs to the first client: the other case is symmetric
  Writable_Journal_Client &client = i > 0 && sym_choice("client", 2) ? client1 : client0;
  const int ops = i == turns - 1 ? int(sym_param("ops", 2)) : 1;
  client.transaction([&](Writable_Journal &j)
  {
   for (int k = 0; k < ops; k++)
   {
    const int kind = sym_choice("kind", 2) ? h::op_update : h::op_insert;
    const h::Op o = h::make_op(kind, h::t_int8);
    h::apply(o, j);
    h::apply(o, expected);
   }
  });
 }
 Shared_File file(*store, Open_Mode::read_existing);
 Readonly_Journal j(file);
 h::Recorder got;
 j.replay_log(got);
 h::check_events(expected.events, got.events);
 sym_reach("end");
}
