// Files in text format
#include "shared.h"
#include "ops.h"
#include "joedb/journal/Interpreted_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/concurrency/Writable_Database_Client.h"
using namespace joedb;
using h::Shared_File; using h::Store;

namespace
{
 struct Failure {};

 // a session: opens the text, as a process would do
 struct Session
 {
  std::unique_ptr<Shared_File> file;
  std::unique_ptr<Abstract_Interpreted_File> text;
  std::unique_ptr<Writable_Database_Client> client;
  void open(Store &store, bool shared)
  {
   close();
   file = std::make_unique<Shared_File>(store, shared ? Open_Mode::shared_write : Open_Mode::write_existing);
   text = std::make_unique<Abstract_Interpreted_File>(*file);
   client = std::make_unique<Writable_Database_Client>(*text);
  }
  void close() {client.reset(); text.reset(); file.reset();}
 };

 std::string any_text()
 {
  if (!sym_param("text", 1)) return "a\"\\ \n";
  return sym_string("text", sym_choice("len", 2));
 }

 // a valid operation in this database
 h::Op any_op(const Readable &db)
 {
  h::Op o;
  const Table_Id person{1};
  if (db.get_tables().find(person) == db.get_tables().end())
  {
   o.kind = h::op_create_table; o.s = "person";
   return o;
  }
  if (db.get_fields(person).empty())
  {
   o.kind = h::op_add_field; o.table = 1; o.s = "name"; o.type = h::t_string;
   return o;
  }
  o.table = 1;
  const auto field = *db.get_fields(person).begin();
  o.field = uint16_t(to_underlying(field.first));
  const Freedom_Keeper &freedom = db.get_freedom(person);
  uint64_t used = ~0ULL, unused = 0;
  for (uint64_t i = 0; i < 10; i++)
   if (freedom.is_used(Record_Id(index_t(i)))) used = i; else {unused = i; break;}
  switch (sym_choice("op", uint32_t(sym_param("kinds", 12))))
  {
   case 0: o.kind = h::op_insert; o.record = unused; break;
   case 1: if (used == ~0ULL) sym_stop(); o.kind = h::op_update; o.type = h::t_string; o.record = used; o.s = any_text(); break;
   case 2: if (used == ~0ULL) sym_stop(); o.kind = h::op_delete; o.record = used; break;
   case 3: o.kind = h::op_comment; o.s = any_text(); break;
   case 4: o.kind = h::op_valid; break;
   case 5: o.kind = h::op_timestamp; o.value = sym_choice("time", 2) ? 0 : 1700000000; break;
   case 6: o.kind = h::op_insert_vector; o.record = unused; o.n = 2; break;
   case 7: if (used == ~0ULL) sym_stop(); o.kind = h::op_update_vector; o.type = h::t_string; o.record = used; o.n = 1; o.s = any_text(); break;
   case 8: o.kind = h::op_custom; o.s = "up"; break;
   case 9: o.kind = h::op_rename_table; o.s = db.get_table_name(person) == "person" ? "people" : "person"; break;
   case 10: o.kind = h::op_drop_field; break;
   default: o.kind = h::op_rename_field; o.s = field.second == "name" ? "title" : "name"; break;
  }
  return o;
 }

 h::Recorder read(Store &store)
 {
  Shared_File file(store, Open_Mode::read_existing);
  Abstract_Interpreted_File text(file);
  Readonly_Journal journal(text);
  h::Recorder r;
  journal.replay_log(r);
  return r;
 }
}

// transactions by one or two sessions, and reopening
extern "C" void history()
{
 Store store;
 const bool shared = sym_param("shared", 0);
 const int transactions = int(sym_param("transactions", 3));
 h::Recorder expected;
 Session s[2];
 s[0].open(store, shared);
 if (shared) s[1].open(store, shared);
 for (int i = 0; i < transactions; i++)
 {
  // the first is always the first session: the other case is the same
  const int k = shared && i > 0 ? int(sym_choice("session", 2)) : 0;
  if (!shared && i > 0 && sym_choice("reopen", 2)) {s[0].open(store, shared); sym_reach("reopened");}
  s[k].client->set_hard_checkpoint(i == 1 && sym_choice("hard", 2));
  std::vector<h::Op> done;
  const int ops = i == 0 ? 2 : i == transactions - 1 ? int(sym_param("ops", 2)) : 1;
  const bool fail = i == transactions - 1 && sym_choice("fail", 2);
  bool failed = false;
  try
  {
   s[k].client->transaction([&](const Readable &db, Writable &w)
   {
    for (int j = 0; j < ops; j++)
    {
     done.push_back(any_op(db));
     h::apply(done.back(), w);
    }
    if (fail) throw Failure();
   });
  }
  catch (const Failure &) {failed = true;}
  sym_assert(failed == fail, "transaction ended as the user asked");
  if (failed) sym_reach("aborted");
  else for (const h::Op &o: done) h::apply(o, expected);
  sym_assert(store.locks.empty() || !shared, "nothing is locked between transactions");
 }
 if (sym_choice("close", 2)) {s[0].close(); s[1].close();}
 const h::Recorder got = read(store);
 h::check_events(expected.events, got.events);
 h::trace_events(got.events);
 sym_reach("end");
}

// a text that was not written to its end: it shows whole transactions, or it is refused
extern "C" void cut()
{
 Store store;
 const int transactions = int(sym_param("transactions", 2));
 h::Recorder expected;
 std::vector<size_t> events;
 {
  Session s;
  s.open(store, false);
  events.push_back(0);
  for (int i = 0; i < transactions; i++)
  {
   s.client->transaction([&](const Readable &db, Writable &w)
   {
    for (int j = 0; j < 2; j++)
    {
     const h::Op o = any_op(db);
     h::apply(o, w);
     h::apply(o, expected);
    }
   });
   events.push_back(expected.events.size());
  }
 }
 store.content.resize(size_t(sym_choice("size", uint32_t(store.content.size()))));
 h::Recorder got;
 try {got = read(store);}
 catch (const Exception &) {sym_reach("refused"); return;}
 bool whole = false;
 for (size_t n: events) whole |= n == got.events.size();
 sym_assert(whole, "only whole transactions are visible");
 for (size_t i = 0; i < got.events.size() && i < expected.events.size(); i++)
  h::check_event(expected.events[i], got.events[i]);
 sym_reach("end");
}

static Store *store_of_all;
static Session *sessions;
static std::vector<int> committed;

static void add_records(void *session)
{
 const int k = int(intptr_t(session));
 for (int i = 0; i < int(sym_param("each", 1)); i++)
  sessions[k].client->transaction([&](const Readable &db, Writable &w)
  {
   const Record_Id r = db.get_size(Table_Id(1));
   sym_assert(uint64_t(to_underlying(r)) == committed.size(), "a transaction sees everything that was committed before it");
   w.insert_into(Table_Id(1), r);
   w.update_string(Table_Id(1), r, Field_Id(1), k ? "b" : "a");
   committed.push_back(k);
  });
}

static void check_records(const h::Recorder &r, bool final)
{
 const size_t n = r.events.size();
 sym_assert(n >= 2 && n % 2 == 0, "whole transactions are visible");
 sym_assert(final ? n == 2 + 2 * committed.size() : n <= 2 + 2 * committed.size(), "committed transactions are visible, and nothing else");
 for (size_t i = 2; i + 1 < n; i += 2)
 {
  sym_assert(r.events[i].kind == h::k_insert && uint64_t(r.events[i].b) == i / 2 - 1, "records are inserted in order");
  sym_assert(r.events[i + 1].s == (committed[i / 2 - 1] ? "b" : "a"), "values are in commit order");
 }
}

static void look(void *journal)
{
 Readonly_Journal &j = *(Readonly_Journal *)journal;
 h::Recorder r;
 for (int i = 0; i < int(sym_param("pulls", 2)); i++)
 {
  j.play_until_checkpoint(r);
  check_records(r, false);
  j.pull();
 }
 sym_reach("looked");
}

// two processes on one shared text
extern "C" void share()
{
 Store store;
 store_of_all = &store;
 Session s[2];
 sessions = s;
 s[0].open(store, true);
 s[0].client->transaction([](const Readable &, Writable &w)
 {
  w.create_table("person");
  w.add_field(Table_Id(1), "name", Type::string());
 });
 const bool watch = sym_param("watch", 0);
 Shared_File file(store, Open_Mode::read_existing);
 Abstract_Interpreted_File text(file);
 Readonly_Journal journal(text);
 if (!watch) s[1].open(store, true);
 const int a = sym_thread(add_records, nullptr);
 const int b = watch ? sym_thread(look, &journal) : sym_thread(add_records, (void *)1);
 sym_join(a);
 sym_join(b);
 sym_assert(store.locks.empty(), "every lock is released");
 const h::Recorder got = read(store);
 check_records(got, true);
 sym_reach("end");
}
