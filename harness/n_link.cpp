// Real clients talking to the real server over a link that fragments data and may break at any point
// asio
#define WITH_CLIENT
#include "server.h"
#include "link.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Server_File.h"
using namespace joedb;

namespace
{
 // history of the server, as whole transactions
 struct Transactions: public h::Recorder
 {
  std::vector<int> tags;
  void timestamp(int64_t t) override {tags.push_back(int(t));}
 };

 std::vector<int> tags_of(const Memory_File &file)
 {
  Memory_File copy;
  copy.get_data() = file.get_data();
  Transactions t;
  Readonly_Journal j{Journal_Construction_Lock(copy, Recovery::overwrite)};
  bool ok = true;
  try {j.replay_log(t);} catch (const Exception &) {ok = false;}
  sym_assert(ok, "a journal is always well formed");
  return t.tags;
 }

 struct Site
 {
  Memory_File file;
  std::unique_ptr<Link> link;
  std::unique_ptr<Connection> connection;
  std::unique_ptr<Writable_Journal_Client> client;
  void drop()
  {
   client.reset();
   connection.reset();
   link.reset();
  }
 };

 struct Net
 {
  Memory_File file;
  mock::Loop loop;
  std::unique_ptr<Writable_Journal_Client> client;
  std::unique_ptr<Server> server;
  std::string known_bytes;
  std::vector<int> known; // tags in the server after the last step
  Links links;

  Net()
  {
   mock::loop = &loop;
   client = std::make_unique<Writable_Journal_Client>(file);
   server = std::make_unique<Server>(Logger::dummy_logger, 0, 1, "", *client, std::chrono::milliseconds(0));
  }
  ~Net() {mock::loop = &loop; server->stop();}

  // tag: transaction attempted in this step, 0 if none
  void check(int tag, bool success)
  {
   const auto now = tags_of(file);
   sym_assert(now.size() >= known.size(), "the server loses nothing");
   for (size_t i = 0; i < known.size(); i++) sym_assert(now[i] == known[i], "the server changes nothing");
   for (size_t i = 0; i < now.size(); i++)
    for (size_t k = 0; k < i; k++) sym_assert(now[i] != now[k], "no transaction is committed twice");
   if (success && tag)
   {
    sym_assert(std::find(now.begin(), now.end(), tag) != now.end(), "a transaction that returns is committed");
   }
   known = now;
   const std::string bytes = file.get_data().substr(41, size_t(client->get_journal_checkpoint() - 41));
   sym_assert(bytes.size() >= known_bytes.size() && h::same_string(bytes.substr(0, known_bytes.size()), known_bytes), "the server changes no byte");
   known_bytes = bytes;
   sym_trace(now.size());
  }
  void check_replica(const Site &s)
  {
   const int64_t n = std::min(s.client->get_journal_checkpoint(), client->get_journal_checkpoint());
   sym_assert(h::same_string(s.file.get_data().substr(41, size_t(n - 41)), file.get_data().substr(41, size_t(n - 41))), "a synchronised replica agrees with the server");
  }
 };

 void transact(Site &s, int tag)
 {
  // two events, so that a half received transaction would show
  s.client->transaction([tag](Writable_Journal &j)
  {
   j.timestamp(tag);
   const size_t n = size_t(sym_param("size", 3));
  j.comment(sym_param("symbolic", 0) ? sym_string("text", n) : std::string(n, char('a' + tag)));
  });
 }
}

// Two sites take turns; links break anywhere
extern "C" void broken_link()
{
 faults = 0;
 fragments = int(sym_param("fragments", 0));
 Net net;
 std::vector<Site> sites(2);
 const bool robust = sym_param("robust", 0) != 0;
 int tag = 0;
 faults = int(sym_param("faults", 1));
 for (int i = int(sym_param("steps", 3)); --i >= 0;)
 {
  Site &s = sites[sym_choice("site", 2)];
  bool ok = true;
  int attempted = 0;
  try
  {
   if (!s.client)
   {
    if (robust)
    {
     s.connection = std::make_unique<Robust_Connection>(net.links, Logger::dummy_logger);
    }
    else
    {
     s.link = std::make_unique<Link>();
     s.connection = std::make_unique<Server_Connection>(*s.link);
    }
    s.client = std::make_unique<Writable_Journal_Client>(s.file, *s.connection, sym_param("symbolic", 0) ? Content_Check::none : sym_choice("full", 2) ? Content_Check::full : Content_Check::fast);
   }
   else switch (sym_choice("action", 4))
   {
    case 0: attempted = ++tag; transact(s, tag); break;
    case 1: s.client->pull(); break;
    case 2: s.client->push_if_ahead(); break;
    case 3: s.drop(); break;
   }
  }
  catch (const Content_Mismatch &)
  {
   sym_reach("diverged");
   const auto mine = tags_of(s.file);
   const auto all = tags_of(net.file);
   bool prefix = true;
   for (size_t k = 0; k < mine.size() && k < all.size(); k++) if (mine[k] != all[k]) prefix = false;
   sym_assert(!prefix, "histories are refused only when they diverge");
   ok = false;
  }
  catch (const std::exception &)
  {
   ok = false;
   sym_assert(faults < sym_param("faults", 1), "without a broken link nothing fails");
  }
  net.check(attempted, ok);
  if (ok) {if (s.client) net.check_replica(s);}
  else s.drop();
 }
 // whatever happened, a new client can work
 faults = 0;
 {
  Site fresh;
  fresh.link = std::make_unique<Link>();
  fresh.connection = std::make_unique<Server_Connection>(*fresh.link);
  fresh.client = std::make_unique<Writable_Journal_Client>(fresh.file, *fresh.connection, sym_param("symbolic", 0) ? Content_Check::none : Content_Check::fast);
  transact(fresh, ++tag);
  net.check(tag, true);
  sym_assert(fresh.client->get_journal_checkpoint() == net.client->get_journal_checkpoint(), "a new client gets everything");
  net.check_replica(fresh);
  fresh.drop();
 }
 sym_reach("end");
 for (Site &s: sites) s.drop();
}

// A robust connection rides out broken links; others commit while it reconnects
extern "C" void robust()
{
 faults = 0;
 fragments = 0;
 Net net;
 int tag = 0;
 Site other;
 other.link = std::make_unique<Link>();
 other.connection = std::make_unique<Server_Connection>(*other.link);
 other.client = std::make_unique<Writable_Journal_Client>(other.file, *other.connection);
 int intruders = int(sym_param("intruders", 1));
 bool intruded = false;
 Site s;
 s.connection = std::make_unique<Robust_Connection>(net.links, Logger::dummy_logger);
 s.client = std::make_unique<Writable_Journal_Client>(s.file, *s.connection);
 net.links.before = [&]()
 {
  if (intruders > 0 && sym_choice("intruder", 2))
  {
   intruders--;
   intruded = true;
   const int f = faults;
   faults = 0;
   transact(other, ++tag);
   faults = f;
  }
 };
 for (int i = int(sym_param("steps", 2)); --i >= 0;)
 {
  faults = int(sym_param("faults", 1));
  const int attempted = ++tag;
  const auto before = tags_of(net.file);
  bool ok = true;
  intruded = false;
  try {transact(s, attempted);}
  catch (const std::exception &) {ok = false;}
  faults = 0;
  net.check(attempted, ok);
  const bool in = std::find(net.known.begin(), net.known.end(), attempted) != net.known.end();
  if (!ok)
  {
   // it cannot know whether a push that got no answer was accepted; any other refusal comes from somebody else's commit
   sym_assert(in || intruded, "a broken link alone does not lose a transaction");
   sym_reach(in ? "conflict with its own push" : "conflict with another client");
   break;
  }
  net.check_replica(s);
  sym_assert(s.client->get_journal_checkpoint() == net.client->get_journal_checkpoint(), "a robust client is up to date after a transaction");
 }
 net.links.before = nullptr;
 sym_reach("end");
 s.drop();
 other.drop();
}

// A server that answers anything
namespace
{
 class Liar: public Channel
 {
  public:
   int budget;
   bool polite = true; // greets as it should
   explicit Liar(int budget): budget(budget) {}
   size_t write_some(const char *, size_t size) override {return size;}
   size_t read_some(char *data, size_t size) override
   {
    if (int64_t(size) > budget) size = size_t(budget);
    if (size == 0) throw Broken();
    budget -= int(size);
    sym_bytes("reply", data, size);
    return size;
   }
 };
}

extern "C" void liar()
{
 mock::Loop loop;
 mock::loop = &loop;
 Memory_File file;
 {
  Writable_Journal j(file);
  j.timestamp(1);
  j.soft_checkpoint();
 }
 const std::string before = file.get_data();
 int64_t checkpoint = int64_t(before.size());
 const int action = int(sym_choice("action", 5));
 Liar liar(30 + int(sym_param("budget", 24)));
 {
  std::unique_ptr<Server_Connection> connection;
  std::unique_ptr<Writable_Journal_Client> client;
  bool refused = false;
  try
  {
   connection = std::make_unique<Server_Connection>(liar);
   sym_reach("connected");
   if (action == 0)
   {
    char buffer[4] = {1, 2, 3, 4};
    const int64_t offset = int64_t(sym_u64("offset"));
    sym_assume(offset >= 0 && offset < (int64_t(1) << 62));
    const size_t n = size_t(sym_range("size", 0, 3));
    const size_t got = connection->pread(buffer, n, offset);
    sym_assert(got <= n, "a read returns no more than asked");
    sym_assert(buffer[3] == 4, "a read stays in its buffer");
   }
   else
   {
    client = std::make_unique<Writable_Journal_Client>(file, *connection, action == 4 ? Content_Check::fast : Content_Check::none);
    if (action == 1) client->pull();
    else if (action == 2) client->transaction([](Writable_Journal &j){j.timestamp(2);});
    else if (action == 3) client->push_if_ahead();
   }
  }
  catch (const std::exception &) {refused = true;}
  if (!refused) sym_reach("believed");
  if (client) checkpoint = client->get_journal_checkpoint();
 }
 const std::string &after = file.get_data();
 sym_assert(after.size() >= before.size(), "nothing committed is lost");
 sym_assert(h::same_string(after.substr(41, before.size() - 41), before.substr(41)), "nothing committed is changed");
 sym_assert(checkpoint >= int64_t(before.size()), "the checkpoint does not go back");
 Readonly_Journal j{Journal_Construction_Lock(file, Recovery::overwrite)};
 sym_assert(j.get_checkpoint() >= int64_t(before.size()), "the file can be opened");
 sym_reach("end");
}

// Pings of the keep-alive thread at any moment change nothing for the client
extern "C" void keep_alive()
{
 Net net;
 int64_t end = 0;
 {
  Site first;
  first.link = std::make_unique<Link>();
  first.connection = std::make_unique<Server_Connection>(*first.link);
  first.client = std::make_unique<Writable_Journal_Client>(first.file, *first.connection, Content_Check::none);
  transact(first, 1);
  end = first.client->get_journal_checkpoint();
 }
 const std::string bytes = net.file.get_data();
 net.check(1, true);
 threads = true;
 const int action = int(sym_choice("action", 5));
 bool failed = false;
 {
  Site s;
  if (action == 4) // a history that conflicts with the server's
  {
   Writable_Journal j(s.file);
   j.timestamp(7);
   j.comment("zz");
   j.soft_checkpoint();
  }
  try
  {
   s.link = std::make_unique<Link>();
   auto c = std::make_unique<Server_Connection>(*s.link, Logger::dummy_logger, std::chrono::seconds(1));
   Server_Connection *p = c.get();
   s.connection = std::move(c);
   if (action == 0)
   {
    char b[8] = {};
    size_t n = p->pread(b, 5, end - 5);
    sym_assert(n == 5 && std::memcmp(b, &bytes[size_t(end - 5)], 5) == 0, "a read gets the data it asked for");
   }
   else
   {
    s.client = std::make_unique<Writable_Journal_Client>(s.file, *p, action == 3 ? Content_Check::none : Content_Check::full);
    if (action == 1)
    {
     transact(s, 2);
     net.check(2, true);
    }
    if (action == 2) s.client->pull();
    if (action == 1 || action == 2)
    {
     sym_assert(s.client->get_journal_checkpoint() == net.client->get_journal_checkpoint(), "the client is up to date");
     net.check_replica(s);
    }
    if (action == 3)
    {
     Writable_Journal_Client_Lock lock(*s.client);
     lock.unlock();
    }
   }
  }
  catch (const Content_Mismatch &) {failed = true;}
  catch (const std::exception &e)
  {
   sym_log(e.what());
   sym_fail("pings make no request fail");
  }
  sym_assert(failed == (action == 4), "a conflicting history is found, and nothing else");
  s.drop();
 }
 threads = false;
 // nobody holds the lock
 Site last;
 last.link = std::make_unique<Link>();
 last.connection = std::make_unique<Server_Connection>(*last.link);
 last.client = std::make_unique<Writable_Journal_Client>(last.file, *last.connection, Content_Check::none);
 transact(last, 3);
 net.check(3, true);
 last.drop();
 sym_reach("end");
}

// A file that lives on the server is read and written like a local copy
extern "C" void remote_file()
{
 faults = 0;
 fragments = int(sym_param("fragments", 0));
 const bool symbolic = sym_param("symbolic", 0) != 0;
 Net net;
 int tag = 0;
 struct Known {Blob blob; std::string text;};
 std::vector<Known> blobs;
 const auto text = [&]() {const size_t n = size_t(sym_param("size", 3)); return symbolic ? sym_string("text", n) : std::string(n, char('a' + tag));};
 Site other;
 {
  other.link = std::make_unique<Link>();
  other.connection = std::make_unique<Server_Connection>(*other.link);
  other.client = std::make_unique<Writable_Journal_Client>(other.file, *other.connection, Content_Check::none);
 }
 const auto others = [&]()
 {
  const int f = faults, g = fragments;
  faults = 0;
  fragments = 0;
  tag++;
  const std::string t = text();
  Blob b;
  other.client->transaction([&](Writable_Journal &j) {j.timestamp(tag); b = j.write_blob(t);});
  blobs.push_back({b, t});
  net.check(tag, true);
  faults = f;
  fragments = g;
 };
 others();
 std::unique_ptr<Server_File> file;
 std::unique_ptr<Writable_Journal_Client> client;
 const auto drop = [&]() {client.reset(); file.reset();};
 // every blob below the checkpoint, and any piece of the file
 const auto read = [&]()
 {
  const int64_t end = client->get_journal_checkpoint();
  for (const Known &k: blobs) if (k.blob.get_position() + k.blob.get_size() <= end)
   sym_assert(h::same_string(file->read_blob(k.blob), k.text), "a blob is read as it was written");
  const int64_t from = sym_choice("position", 2) ? 41 : std::max(int64_t(41), end - 4);
  char buffer[8];
  const size_t n = size_t(std::min(int64_t(sizeof buffer), end - from));
  size_t got = 0;
  while (got < n)
  {
   const size_t r = file->pread(buffer + got, n - got, from + int64_t(got));
   if (r == 0) break;
   got += r;
  }
  sym_assert(got == n, "nothing below the checkpoint is missing");
  sym_assert(h::same_string(std::string(buffer, n), net.file.get_data().substr(size_t(from), n)), "a piece of the file is the server's");
 };
 faults = int(sym_param("faults", 1));
 for (int i = int(sym_param("steps", 3)); --i >= 0;)
 {
  bool ok = true;
  int attempted = 0;
  const int64_t before = client ? client->get_journal_checkpoint() : 0;
  try
  {
   if (!client)
   {
    file = std::make_unique<Server_File>(net.links);
    client = std::make_unique<Writable_Journal_Client>(*file, *file, sym_choice("check", 2) ? Content_Check::fast : Content_Check::none);
    read();
   }
   else switch (sym_choice("action", 5))
   {
    case 0:
    {
     attempted = ++tag;
     const std::string t = text();
     Blob b;
     client->transaction([&](Writable_Journal &j)
     {
      j.timestamp(attempted);
      b = j.write_blob(t);
      j.flush();
      sym_assert(h::same_string(file->read_blob(b), t), "a blob can be read before it is pushed");
      for (const Known &k: blobs) if (k.blob.get_position() + k.blob.get_size() <= client->get_connection_checkpoint())
       sym_assert(h::same_string(file->read_blob(k.blob), k.text), "old blobs can be read in a transaction");
     });
     blobs.push_back({b, t});
     break;
    }
    case 1:
     client->pull();
     sym_assert(client->get_journal_checkpoint() == net.client->get_journal_checkpoint(), "a pull brings the file up to date");
     break;
    case 2: read(); break;
    case 3:
    {
     Writable_Journal_Client_Lock lock(*client);
     for (int k = 0; k < 2; k++)
     {
      attempted = ++tag;
      const std::string t = text();
      lock.get_journal().timestamp(attempted);
      const Blob b = lock.get_journal().write_blob(t);
      lock.checkpoint_and_push();
      blobs.push_back({b, t});
      sym_assert(h::same_string(file->read_blob(b), t), "a blob can be read after it is pushed");
     }
     lock.unlock();
     break;
    }
    case 4: others(); break;
   }
  }
  catch (const std::exception &)
  {
   ok = false;
   sym_assert(faults < sym_param("faults", 1), "without a broken link nothing fails");
  }
  net.check(attempted, ok);
  if (client) sym_assert(client->get_journal_checkpoint() >= before, "the checkpoint does not go back");
  if (ok) read();
  else drop();
 }
 faults = 0;
 drop();
 others(); // nobody holds the lock
 file = std::make_unique<Server_File>(net.links);
 client = std::make_unique<Writable_Journal_Client>(*file, *file);
 read();
 sym_reach("end");
 drop();
 other.drop();
}

// The server comes back with another history: the same, a shorter one, a longer one, or one that diverges
extern "C" void restart()
{
 faults = 0;
 fragments = 0;
 const auto write = [](Site &s, int tag, const char *text)
 {
  s.client->transaction([&](Writable_Journal &j) {j.timestamp(tag); j.comment(text);});
 };
 const auto fill = [&](Net &net, int n, int diverge)
 {
  Site first;
  first.link = std::make_unique<Link>();
  first.connection = std::make_unique<Server_Connection>(*first.link);
  first.client = std::make_unique<Writable_Journal_Client>(first.file, *first.connection);
  for (int i = 1; i <= n; i++) {write(first, i, i == diverge ? "xx" : "yy"); net.check(i, true);}
  first.drop();
 };
 Net old;
 fill(old, 2, 0);
 Site s;
 Content_Check check = sym_choice("full", 2) ? Content_Check::full : Content_Check::fast;
 s.connection = std::make_unique<Robust_Connection>(old.links, Logger::dummy_logger);
 s.client = std::make_unique<Writable_Journal_Client>(s.file, *s.connection, check);
 const bool ahead = sym_choice("transact", 2);
 if (ahead) {write(s, 3, "yy"); old.check(3, true);}
 else s.client->pull();
 const int mine = ahead ? 3 : 2;
 old.links.last->cut();
 {
  Net now;
  const int length = int(sym_range("length", 0, 5));
  const int diverge = length ? int(sym_range("diverge", 0, uint64_t(length))) : 0;
  fill(now, length, diverge);
  const bool diverged = diverge && diverge <= mine;
  const std::string before = s.file.get_data().substr(41);
  for (int step = 0; step < 2; step++)
  {
   int attempted = 0;
   bool ok = true;
   const auto last = now.known;
   try
   {
    switch (sym_choice("action", 3))
    {
     case 0: s.client->pull(); break;
     case 1: attempted = 10 + step; write(s, attempted, "zz"); break;
     case 2: s.client->push_if_ahead(); break;
    }
   }
   catch (const std::exception &) {ok = false;}
   now.check(attempted, ok);
   if (diverged)
   {
    sym_assert(now.known == last, "a client with another history publishes nothing");
    sym_assert(h::same_string(s.file.get_data().substr(41, before.size()), before), "a client with another history keeps its own");
    if (s.file.get_data().size() > 41 + before.size())
     sym_assert(s.client->get_journal_checkpoint() <= int64_t(41 + before.size()) || ok == false, "histories are not mixed");
    sym_reach("diverged");
   }
   else
   {
    if (length >= mine) {sym_assert(ok, "a server that lost nothing can be used again"); sym_reach("resumed");}
    if (ok) now.check_replica(s);
   }
   if (!ok) break;
  }
  s.drop();
  // the new server still works
  fill(now, 0, 0);
  Site fresh;
  fresh.link = std::make_unique<Link>();
  fresh.connection = std::make_unique<Server_Connection>(*fresh.link);
  fresh.client = std::make_unique<Writable_Journal_Client>(fresh.file, *fresh.connection);
  write(fresh, 20, "w");
  now.check(20, true);
  now.check_replica(fresh);
  fresh.drop();
 }
 sym_reach("end");
}
