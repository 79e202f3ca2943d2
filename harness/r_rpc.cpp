// Remote procedure calls, from a compiled client to a compiled server
// asio
// generated: remote
#define WITH_CLIENT
#include "server.h"
#include "link.h"
#define to_string number_in_log
#include "joedb/rpc/Server.h"
#undef to_string
#include "remote/rpc/Service.h"
#include "remote/rpc/Procedures.h"
#include "remote/rpc/Signatures.h"
#include "remote/rpc/Client.h"
#include "remote/rpc/msg/Memory_Database.h"
using namespace joedb;

namespace
{
 using Message = remote::rpc::msg::Memory_Database;

 struct Host
 {
  Memory_File file;
  remote::Client client{file};
  remote::rpc::Service service{client};
  remote::rpc::Procedures procedures{service};
 };

 struct Remote: public Host
 {
  mock::Loop loop;
  std::unique_ptr<rpc::Server> server;
  Remote()
  {
   mock::loop = &loop;
   server = std::make_unique<rpc::Server>(Logger::dummy_logger, 0, 1, "", remote::rpc::get_signatures(), procedures.procedures);
  }
  ~Remote() {mock::loop = &loop; server->stop();}
 };

 // the same procedures, called directly
 struct Local: public Host
 {
  std::string call(size_t id, Message &m)
  {
   m.soft_checkpoint();
   Message copy;
   copy.get_data() = m.get_data();
   try {static_cast<const rpc::Procedure *>(procedures.procedures[id])->execute(copy);}
   catch (const std::exception &e) {return e.what();}
   m.get_data() = copy.get_data();
   m.pull();
   return "";
  }
 };

 void fill(Message &m, int rows, size_t length)
 {
  for (int i = 0; i < rows; i++)
   m.new_row(int64_t(sym_u64("value")), sym_string("name", length), remote::id_of_item(0));
 }

 void same(const Message &a, const Message &b)
 {
  sym_assert(a.get_row_table().get_size() == b.get_row_table().get_size(), "as many rows as a local call");
  auto i = b.get_row_table().begin();
  for (const auto row: a.get_row_table())
  {
   sym_assert(a.get_value(row) == b.get_value(*i), "the values of a local call");
   sym_assert(h::same_string(a.get_name(row), b.get_name(*i)), "the strings of a local call");
   sym_assert(a.get_item(row) == b.get_item(*i), "the references of a local call");
   ++i;
  }
 }

 void same(const Host &a, const Host &b)
 {
  const auto &x = a.client.get_database().get_item_table();
  const auto &y = b.client.get_database().get_item_table();
  sym_assert(x.get_size() == y.get_size(), "the server has done what was asked");
  auto i = y.begin();
  for (const auto item: x)
  {
   sym_assert(a.client.get_database().get_value(item) == b.client.get_database().get_value(*i), "the server has the values of the request");
   sym_assert(h::same_string(a.client.get_database().get_name(item), b.client.get_database().get_name(*i)), "the server has the strings of the request");
   ++i;
  }
 }

 struct Caller
 {
  std::unique_ptr<Link> link;
  std::unique_ptr<remote::rpc::Client> client;
  Message remote_message, local_message;
  void connect(std::chrono::milliseconds keep_alive = std::chrono::milliseconds(0))
  {
   link = std::make_unique<Link>();
   client = std::make_unique<remote::rpc::Client>(*link, keep_alive);
  }
  void drop() {client.reset(); link.reset();}
 };
}

// A remote call gives what a local call gives
extern "C" void calls()
{
 faults = 0;
 fragments = 0;
 Remote remote;
 Local local;
 const size_t padding = size_t(sym_param("padding", 0));
 if (padding)
  remote.service.padding = local.service.padding = padding + sym_choice("padding", int(sym_param("spread", 3)));
 for (int i = int(sym_param("items", 0)); --i >= 0;)
 {
  const int64_t value = int64_t(sym_u64("value"));
  for (Host *host: {static_cast<Host *>(&remote), static_cast<Host *>(&local)})
   host->client.transaction([value](remote::Writable_Database &db) {db.new_item(value, "item");});
 }
 fragments = int(sym_param("fragments", 0));
 std::vector<Caller> callers(size_t(sym_param("callers", 2)));
 for (auto &c: callers) c.connect();
 for (int i = int(sym_param("steps", 2)); --i >= 0;)
 {
  Caller &c = callers[sym_choice("caller", uint32_t(callers.size()))];
  const int rows = int(sym_choice("rows", 2));
  for (int r = 0; r < rows; r++)
  {
   const int64_t value = int64_t(sym_u64("value"));
   const std::string name = sym_string("name", 1);
   c.remote_message.new_row(value, name, remote::id_of_item(0));
   c.local_message.new_row(value, name, remote::id_of_item(0));
  }
  const size_t id = sym_choice("procedure", 2);
  std::string error;
  const std::string expected = local.call(id, c.local_message);
  try
  {
   if (id == 0) c.client->add(c.remote_message);
   else c.client->list(c.remote_message);
   sym_reach("returned");
  }
  catch (const std::exception &e) {error = e.what(); sym_reach("error");}
  const size_t cut = std::min(expected.size(), (size_t(1) << 13) - 9);
  sym_assert(h::same_string(error, expected.substr(0, cut)), "the exception of a local call");
  same(c.remote_message, c.local_message);
  same(remote, local);
  fragments = int(sym_param("fragments", 0));
 }
 for (auto &c: callers) c.drop();
 sym_reach("end");
}

// Links break at any point: a call that fails leaves the message as it was, and the server goes on
extern "C" void broken_calls()
{
 faults = 0;
 fragments = 0;
 Remote remote;
 Local local;
 Caller c;
 faults = 1;
 bool failed = false;
 for (int i = int(sym_param("steps", 2)); --i >= 0;)
 {
  const int64_t size_before = int64_t(remote.client.get_database().get_item_table().get_size());
  const int rows_before = int(c.remote_message.get_row_table().get_size());
  bool connecting = false;
  try
  {
   if (!c.client)
   {
    connecting = true;
    c.connect();
    connecting = false;
   }
   c.remote_message.new_row(int64_t(i) + 5, "x", remote::id_of_item(0));
   const size_t id = sym_choice("procedure", 2);
   if (id == 0) c.client->add(c.remote_message);
   else c.client->list(c.remote_message);
  }
  catch (const std::exception &)
  {
   sym_assert(faults == 0 && !failed, "without a broken link nothing fails");
   failed = true;
   c.drop();
   if (!connecting)
   {
    sym_assert(int(c.remote_message.get_row_table().get_size()) == rows_before + 1, "a call that fails leaves the message as it was");
    // what it holds is still well formed
    Message copy;
    c.remote_message.soft_checkpoint();
    copy.get_data() = c.remote_message.get_data();
    copy.pull();
    Memory_File bytes;
    bytes.get_data() = c.remote_message.get_data();
    Readonly_Journal journal{Journal_Construction_Lock(bytes, Recovery::overwrite)};
    sym_assert(bytes.get_size() == journal.get_checkpoint(), "a call that fails leaves nothing behind the message");
    same(copy, c.remote_message);
    sym_reach("retry");
   }
  }
  const int64_t n = int64_t(remote.client.get_database().get_item_table().get_size());
  sym_assert(n == size_before || n == size_before + int(c.remote_message.get_row_table().get_size()), "a procedure runs once and whole, or not at all");
 }
 faults = 0;
 c.drop();
 Caller d;
 d.connect();
 d.client->list(d.remote_message);
 sym_assert(d.remote_message.get_row_table().get_size() == remote.client.get_database().get_item_table().get_size(), "a new client gets everything");
 // the message of the failed call can be sent again
 c.connect();
 const size_t before = remote.client.get_database().get_item_table().get_size();
 const size_t rows = c.remote_message.get_row_table().get_size();
 c.client->add(c.remote_message);
 sym_assert(remote.client.get_database().get_item_table().get_size() == before + rows, "a message can be sent again");
 c.drop();
 d.drop();
 sym_reach("end");
}

// A client that sends anything
extern "C" void hostile_call()
{
 faults = 0;
 fragments = 0;
 Remote remote;
 Caller good;
 good.connect();
 good.remote_message.new_row(1, "a", remote::id_of_item(0));
 good.client->add(good.remote_message);
 {
  Link link;
  const auto hash = rpc::get_hash(remote::rpc::get_signatures());
  std::string hello((const char *)hash.data(), sizeof hash);
  const bool greet = sym_choice("greeting", 2) == 0;
  if (!greet) hello[size_t(sym_range("where", 0, 31))] ^= char(1);
  try
  {
   link.write(hello.data(), hello.size());
   char b[9];
   link.read(b, 9);
   sym_assert((b[0] == 'H') == greet, "a client compiled for other procedures is refused");
   if (greet)
   {
    const bool call = sym_choice("call", 2) != 0;
    std::string request(call ? 17 : 2, 0);
    sym_bytes("request", &request[0], request.size());
    if (call)
    {
     request[0] = 'C';
     const int64_t prolog = int64_t(remote::rpc::get_signatures()[0].prolog.size());
     const int64_t tail = int64_t(sym_choice("tail", 2)) * 20;
     int64_t until;
     std::memcpy(&until, &request[9], 8);
     // too short, or followed by what it announces, less or more
     sym_assume(until < 2 || (until >= prolog - 2 && until < prolog + 24));
     request += std::string(size_t(tail), char(sym_param("byte", 0)));
    }
    link.write(request.data(), request.size());
    sym_reach("sent");
    may_block = true;
    link.read(b, 9);
    sym_reach("answered");
   }
  }
  catch (const std::exception &) {}
  may_block = false;
 }
 sym_assert(remote.client.get_database().get_item_table().get_size() == 1, "nothing is done that was not asked");
 good.client->list(good.remote_message);
 sym_assert(good.remote_message.get_row_table().get_size() == 2, "other clients are served");
 good.drop();
 sym_reach("end");
}

// A server that answers anything
namespace
{
 class Rpc_Liar: public Channel
 {
  public:
   int budget;
   bool polite = true;
   explicit Rpc_Liar(int budget): budget(budget) {}
   size_t write_some(const char *, size_t size) override {return size;}
   size_t read_some(char *data, size_t size) override
   {
    if (polite) {polite = false; sym_assert(size == 9, "greeting"); std::memset(data, 0, size); data[0] = 'H'; return size;}
    if (int64_t(size) > budget) size = size_t(budget);
    if (size == 0) throw Broken();
    budget -= int(size);
    sym_bytes("reply", data, size);
    if (size == 9)
    {
     int64_t until;
     std::memcpy(&until, data + 1, 8);
     sym_assume(until < 400); // not explored: a client that runs out of memory
    }
    return size;
   }
 };
}

extern "C" void lying_server()
{
 Rpc_Liar liar(int(sym_param("budget", 17)));
 Message m;
 m.new_row(1, "a", remote::id_of_item(0));
 m.soft_checkpoint();
 const std::string before = m.get_data();
 try
 {
  remote::rpc::Client client(liar);
  client.add(m);
  sym_reach("believed");
 }
 catch (const std::exception &) {sym_reach("refused");}
 sym_assert(m.get_data().size() >= before.size(), "the message of the client is not cut");
 sym_assert(h::same_string(m.get_data().substr(41, before.size() - 41), before.substr(41)), "the message of the client is not changed");
 sym_reach("end");
}

// Pings of the keep-alive thread at any moment change nothing
extern "C" void pinged_calls()
{
 faults = 0;
 fragments = 0;
 Remote remote;
 Local local;
 threads = true;
 requests = 0;
 {
  Caller c;
  try
  {
   c.connect(std::chrono::seconds(1));
   c.remote_message.new_row(5, "a", remote::id_of_item(0));
   c.local_message.new_row(5, "a", remote::id_of_item(0));
   for (size_t id = 0; id < 2; id++)
   {
    local.call(id, c.local_message);
    if (id == 0) c.client->add(c.remote_message);
    else c.client->list(c.remote_message);
    same(c.remote_message, c.local_message);
   }
  }
  catch (const std::exception &e)
  {
   sym_log(e.what());
   sym_fail("pings make no call fail");
  }
  c.drop();
 }
 threads = false;
 same(remote, local);
 sym_reach("end");
}
