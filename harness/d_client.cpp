// Clients generated by joedbc, on one server
// generated: store
#include "shared.h"
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/concurrency/File_Connection.h"
#include "store/Client.h"
#include "store/Readonly_Client.h"
#include "store/Readable.h"
using namespace joedb;
using namespace store;

struct Abort {};

// what the server says
static void replay(const Memory_File &file, joedb::Database &db)
{
 Memory_File copy;
 file.copy_to(copy);
 Readonly_Journal j(copy);
 j.replay_log(db);
}

static void check_client(const store::Database &db, const joedb::Database &server)
{
 store::Readable r(db);
 h::check_same_db(server, r);
}

struct Peer
{
 Memory_File file;
 std::unique_ptr<Connection> connection;
 std::unique_ptr<store::Client> client;
 bool aborted = false;
};

extern "C" void clients()
{
 Memory_File server_file;
 Writable_Journal server(server_file);
 std::vector<Peer> peers(2);
 bool upgraded = false;
 std::vector<std::string> cities; // committed
 const int steps = int(sym_param("steps", 3));
 for (size_t k = 0; k < 2; k++)
 {
  peers[k].connection = std::make_unique<Journal_Connection>(server);
  peers[k].client = std::make_unique<store::Client>(peers[k].file, *peers[k].connection);
  sym_assert(peers[k].client->get_journal_checkpoint() == server.get_checkpoint(), "a new client is synchronised");
 }
 for (int i = 0; i < steps; i++)
 {
  Peer &p = peers[sym_choice("peer", 2)];
  const uint32_t action = sym_choice("action", uint32_t(sym_param("actions", 7)));
  const int64_t before = server.get_checkpoint();
  const std::string name = action == 0 || action == 3 || action == 5 ? sym_string("name", 1) : "";
  bool taken = false;
  for (const auto &c: cities) if (h::same_string(c, name)) taken = true;
  bool ok = true;
  try
  {
   switch (action)
   {
    case 0: // a city
     p.client->transaction([&](Writable_Database &db) {db.new_city(name);});
     break;
    case 1: // a person in the first city, read back inside the transaction
     p.client->transaction([&](Writable_Database &db)
     {
      sym_assert(size_t(db.get_city_table().get_size()) == cities.size(), "a transaction starts from everything that is committed");
      const auto person = db.new_person();
      if (!db.get_city_table().is_empty()) db.set_home(person, db.get_city_table().first());
      db.set_level(int16_t(sym_u16("level")));
     });
     break;
    case 2:
     p.client->pull();
     break;
    case 3: // aborted, after a change that other transactions must not see
     p.client->transaction([&](Writable_Database &db)
     {
      if (sym_choice("changed", 2)) {db.new_city(); p.aborted = true;}
      throw Abort();
     });
     break;
    case 4: // another version of the program
     if (upgraded) sym_stop();
     upgraded = true;
     {
      Memory_File f;
      server_file.copy_to(f);
      {
       Writable_Journal j{Journal_Construction_Lock(f, Recovery::overwrite)};
       Dummy_Writable w;
       j.replay_log(w);
       j.create_table("added");
       j.soft_checkpoint();
       server.pull_from(j);
      }
     }
     continue;
    case 5: // with a lock object
     {
      store::Client_Lock lock(*p.client);
      lock.get_database().new_city(name);
      lock.checkpoint_and_push_unlock();
     }
     break;
    case 6: // nothing
     p.client->push_if_ahead();
     break;
   }
  }
  catch (const Abort &)
  {
   sym_reach("aborted");
   sym_assert(server.get_checkpoint() == before, "an aborted transaction stays local");
   continue;
  }
  catch (const std::exception &)
  {
   ok = false;
  }
  if (!ok)
  {
   const bool duplicate = (action == 0 || action == 5) && taken;
   sym_assert(p.aborted || upgraded || duplicate, "a valid transaction succeeds");
   if (duplicate) {p.aborted = true; sym_reach("duplicate");}
   if (upgraded) sym_reach("upgraded");
   sym_assert(server.get_checkpoint() == before, "a transaction that fails stays local");
   continue;
  }
  if (action == 6) continue;
  if (action == 2) sym_assert(!p.aborted, "a client with half a transaction refuses to pull");
  else sym_assert(!p.aborted, "a client with half a transaction refuses other transactions");
  sym_assert(!upgraded, "a client does not go on with a schema that it was not compiled for");
  sym_assert(!((action == 0 || action == 5) && taken), "a duplicate is refused");
  if (action == 0 || action == 5) cities.push_back(name);
  sym_assert(p.client->get_journal_checkpoint() == server.get_checkpoint(), "a client is synchronised after a transaction");
  joedb::Database reference;
  replay(server_file, reference);
  check_client(p.client->get_database(), reference);
  const store::Database &db = p.client->get_database();
  size_t n = 0;
  for (const auto c: db.get_city_table())
  {
   sym_assert(n < cities.size() && h::same_string(db.get_name(c), cities[n]), "a client has what was committed");
   sym_assert(db.find_city_by_name(cities[n]) == c, "the indexes of a client follow what it pulls");
   n++;
  }
  sym_assert(n == cities.size(), "a client has what was committed");
 }
 // nothing of what failed is on the server
 joedb::Database reference;
 replay(server_file, reference);
 const Table_Id t = reference.find_table("city");
 sym_assert(to_underlying(reference.get_freedom(t).get_used_count()) == int64_t(cities.size()), "the server has exactly what was committed");
 sym_reach("end");
}

// a program that only reads, while another one writes to the same file
extern "C" void reader()
{
 h::Store store;
 h::Shared_File writer_file(store, Open_Mode::shared_write);
 store::Client writer(writer_file);
 h::Shared_File reader_file(store, Open_Mode::read_existing);
 store::Readonly_Client reader(reader_file);
 std::vector<std::string> committed, seen;
 bool upgraded = false;
 const int steps = int(sym_param("steps", 4));
 for (int i = 0; i < steps; i++)
 {
  switch (sym_choice("action", 4))
  {
   case 0:
   {
    if (upgraded) sym_stop();
    const std::string name = sym_string("name", 1);
    for (const auto &c: committed) sym_assume(!h::same_string(c, name));
    writer.transaction([&](Writable_Database &db) {db.new_city(name);});
    committed.push_back(name);
    break;
   }
   case 1: // deletes the first one
    if (upgraded || committed.empty()) sym_stop();
    writer.transaction([&](Writable_Database &db) {db.delete_city(db.get_city_table().first());});
    committed.erase(committed.begin());
    break;
   case 2:
   {
    bool ok = true;
    try {reader.pull();} catch (const Exception &) {ok = false;}
    sym_assert(ok == !upgraded, "a reader refuses a schema that it was not compiled for, and nothing else");
    if (!ok) {sym_reach("upgraded"); sym_stop();}
    seen = committed;
    break;
   }
   case 3:
   {
    if (upgraded) sym_stop();
    h::Shared_File other(store, Open_Mode::shared_write);
    Writable_Journal j(other);
    Tail_Exclusive_Lock lock(j);
    Dummy_Writable w;
    j.replay_log(w);
    j.create_table("added");
    j.soft_checkpoint();
    upgraded = true;
    break;
   }
  }
  const store::Database &db = reader.get_database();
  size_t n = 0;
  for (const auto c: db.get_city_table())
  {
   bool found = false;
   for (const auto &s: seen) if (h::same_string(s, db.get_name(c))) found = true;
   sym_assert(found, "a reader shows what was committed when it last pulled");
   sym_assert(db.find_city_by_name(db.get_name(c)) == c, "the indexes of a reader follow what it pulls");
   n++;
  }
  sym_assert(n == seen.size(), "a reader shows what was committed when it last pulled");
 }
 sym_reach("end");
}
