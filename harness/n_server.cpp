// Sessions of the server against a model of the protocol
// asio
#include "server.h"
using namespace joedb;

namespace
{
 constexpr int max_clients = 3;

 struct Peer
 {
  std::shared_ptr<mock::Socket_State> s;
  bool connected = false;     // session alive in the server
  bool waiting_lock = false, waiting_pull = false;
  bool lock_after_pull = false;
  bool dead = false;          // the client went away while it was waiting
  char request = 0;
  int64_t session = -1;
  int64_t from = 0;           // of the request in progress
  std::string data, rest;     // push in progress
  bool pushing = false;
  char status = 0;
  std::string expected;       // bytes the client should have received
 };

 struct Model
 {
  int clients;
  bool timeout;
  bool pull_only = false;
  Peer p[max_clients];
  int owner = -1;
  std::vector<int> queue;
  std::string content;
  int64_t checkpoint() const {return 41 + int64_t(content.size());}

  void reply_pull(int c)
  {
   Peer &x = p[c];
   if (x.dead) {end(c); return;}
   x.expected += x.request;
   h::append(x.expected, checkpoint());
   if ((x.request == 'F' || x.request == 'G') && x.from < checkpoint()) x.expected += content.substr(size_t(x.from - 41));
  }
  void grant(int c)
  {
   owner = c;
   p[c].waiting_lock = false;
   reply_pull(c);
  }
  void release(int c)
  {
   if (owner != c) return;
   owner = -1;
   if (!queue.empty())
   {
    const int next = queue.front();
    queue.erase(queue.begin());
    grant(next);
   }
  }
  void end(int c)
  {
   p[c].connected = false;
   p[c].pushing = p[c].waiting_lock = p[c].waiting_pull = false;
   release(c);
  }
  void lock(int c)
  {
   if (owner == c) end(c);
   else if (owner < 0) grant(c);
   else {p[c].waiting_lock = true; queue.push_back(c);}
  }
  void after_wait(int c)
  {
   p[c].waiting_pull = false;
   for (size_t i = 0; i < pullers.size(); i++) if (pullers[i] == c) pullers.erase(pullers.begin() + ptrdiff_t(i));
   if (p[c].lock_after_pull) lock(c); else reply_pull(c);
  }
  void pull(int c, bool wait)
  {
   p[c].lock_after_pull = p[c].request == 'E' || p[c].request == 'G';
   if (wait && p[c].from == checkpoint()) {p[c].waiting_pull = true; pullers.push_back(c);}
   else after_wait(c);
  }
  void push_header(int c)
  {
   Peer &x = p[c];
   if (owner >= 0 && owner != c) {end(c); return;}
   owner = c;
   x.status = x.from == checkpoint() ? x.request : 'C';
   x.pushing = true;
  }
  void push_end(int c)
  {
   Peer &x = p[c];
   x.pushing = false;
   if (x.status == x.request) content += x.data;
   if (!pullers.empty() && (x.status != x.request || x.data.empty())) sym_stop(); // waking them or not are both fine
   if (x.request == 'O') release(c);
   x.expected += x.status;
   // everyone who was waiting for changes is told
   std::vector<int> woken;
   woken.swap(pullers);
   for (int i: woken) after_wait(i);
  }
  std::vector<int> pullers;
  void lock_expired(int c)
  {
   Peer &x = p[c];
   if (x.pushing && x.status == x.request) x.status = 't';
   release(c);
  }
 };

 struct World
 {
  Memory_File file;
  mock::Loop loop;
  std::unique_ptr<Writable_Journal_Client> client;
  std::unique_ptr<Server> server;
  Model m;

  World(int clients, bool timeout)
  {
   mock::loop = &loop;
   client = std::make_unique<Writable_Journal_Client>(file);
   server = std::make_unique<Server>(Logger::dummy_logger, 0, 1, "", *client, std::chrono::milliseconds(timeout ? 1000 : 0));
   m.clients = clients;
   m.timeout = timeout;
   for (int i = 0; i < clients; i++) connect(i);
   loop.drain();
   check();
  }

  void connect(int i)
  {
   Peer &x = m.p[i];
   x = Peer();
   x.s = loop.connect();
   x.connected = true;
   send(i, h::hello());
   x.expected = "joedb";
   h::append(x.expected, int64_t(protocol_version));
   x.session = sessions++;
   h::append(x.expected, x.session);
   h::append(x.expected, m.checkpoint());
   x.expected += m.pull_only ? 'R' : 'W';
  }
  int64_t sessions = 0;
  int used = 0;

  void send(int i, const std::string &s)
  {
   m.p[i].s->in += s;
   loop.arrived(*m.p[i].s);
  }
  void close(int i)
  {
   m.p[i].s->client_closed = true;
   loop.arrived(*m.p[i].s);
  }

  void check()
  {
   for (int i = 0; i < m.clients; i++)
   {
    Peer &x = m.p[i];
    if (!x.dead)
    {
     sym_assert(h::same_string(x.s->out, x.expected), "the server sends exactly the expected replies");
     x.s->out.clear();
     x.expected.clear();
    }
    sym_assert(x.s->server_closed == !x.connected, "a session ends exactly when it must");
   }
   sym_assert(client->get_journal_checkpoint() == m.checkpoint(), "the checkpoint moves exactly with accepted pushes");
   const std::string &d = file.get_data();
   sym_assert(d.size() >= 41 + m.content.size(), "the file holds everything up to the checkpoint");
   sym_assert(h::same_string(d.substr(41, m.content.size()), m.content), "contents are exactly the accepted pushes");
   // what another process would see
   Memory_File copy;
   copy.get_data() = d;
   Readonly_Journal r{Journal_Construction_Lock(copy, Recovery::overwrite)};
   sym_assert(r.get_checkpoint() == m.checkpoint(), "the checkpoint is in the file");
   sym_assert(int(loop.pending().size()) == expected_timers(), "timers run for the lock and for waiting pulls only");
  }

  int expected_timers() const
  {
   int n = 0;
   for (int i = 0; i < m.clients; i++) if (m.p[i].waiting_pull) n++;
   if (m.timeout && m.owner >= 0) n++;
   return n;
  }

  // a timer of this session expires
  void expire(int c, bool lock)
  {
   int index = 0;
   for (int64_t id = 0; id < sessions; id++)
    for (int i = 0; i < m.clients; i++)
     if (m.p[i].session == id && m.p[i].connected)
     {
      if (m.p[i].waiting_pull) {if (i == c && !lock) goto found; index++;}
      if (m.timeout && m.owner == i) {if (i == c && lock) goto found; index++;}
     }
   sym_fail("no such timer");
   found:
   loop.complete(*loop.pending()[size_t(index)], 0);
   if (lock) m.lock_expired(c); else m.after_wait(c);
  }

  void pull(int c, char kind, bool wait)
  {
   Peer &x = m.p[c];
   x.request = kind;
   const int64_t known[3] = {m.checkpoint(), 41, m.checkpoint() + 1};
   x.from = known[sym_choice("pull_from", wait || kind == 'D' || kind == 'E' ? 1 : m.content.empty() ? 2 : 3)];
   std::string s(1, kind);
   h::append(s, int64_t(wait ? 1000 : 0));
   h::append(s, x.from);
   send(c, s);
   m.pull(c, wait);
  }

  void push(int c, char kind, bool partial)
  {
   Peer &x = m.p[c];
   x.request = kind;
   x.from = m.checkpoint();
   if (sym_choice("conflict", 2))
   {
    x.from = int64_t(sym_u64("push_from"));
    sym_assume(x.from != m.checkpoint());
   }
   const size_t size = partial ? 2 : 2 * sym_choice("push_size", 2);
   x.data = sym_param("hashes", 0) ? std::string(size, 'x') : sym_string("data", size);
   std::string s(1, kind);
   h::append(s, x.from);
   h::append(s, int64_t(uint64_t(x.from) + size));
   const size_t now = partial ? sym_choice("sent", 2) : size;
   s += x.data.substr(0, now);
   x.rest = x.data.substr(now);
   send(c, s);
   m.push_header(c);
   if (m.p[c].connected && !partial) m.push_end(c);
  }

  void read(int c)
  {
   Peer &x = m.p[c];
   const int64_t from = int64_t(sym_concretize(sym_range("read_from", 41, uint64_t(m.checkpoint() + 1))));
   static const int64_t far[4] = {INT64_MIN, -1, 0, INT64_MAX};
   const int64_t until = sym_choice("far", 2) ? far[sym_choice("read_far", 4)] : int64_t(sym_concretize(sym_range("read_until", 40, uint64_t(m.checkpoint() + 1))));
   std::string s(1, 'r');
   h::append(s, from);
   h::append(s, until);
   send(c, s);
   const int64_t end = until > m.checkpoint() ? m.checkpoint() : until;
   x.expected += 'r';
   h::append(x.expected, end);
   if (end > from) x.expected += m.content.substr(size_t(from - 41), size_t(sym_concretize(uint64_t(end - from))));
  }

  // is what the client has up to a checkpoint what the server has?
  void hash(int c)
  {
   Peer &x = m.p[c];
   const char kind = sym_choice("full", 2) ? 'I' : 'H';
   const int64_t until = int64_t(sym_concretize(sym_range("hash_until", 41, uint64_t(m.checkpoint() + 1))));
   SHA_256::Hash good{};
   if (until <= m.checkpoint()) good = Journal_Hasher::get_full_hash(client->get_journal(), until);
   // one byte may be wrong
   std::string s(1, kind), bytes(reinterpret_cast<const char *>(&good), sizeof(good));
   const uint8_t change = sym_u8("hash_change");
   const size_t where[3] = {0, 13, 31};
   bytes[where[sym_choice("hash_byte", 3)]] ^= char(change);
   h::append(s, until);
   s += bytes;
   send(c, s);
   const bool difference = until > m.checkpoint() || change != 0;
   x.expected += difference ? 'h' : kind;
  }

  void step(uint32_t kinds)
  {
   const int c = int(sym_choice("client", uint32_t(std::min(m.clients, used + 1)))); // idle clients are alike
   if (c == used) used++;
   Peer &x = m.p[c];
   if (x.dead) sym_stop();
   if (!x.connected)
   {
    if (!sym_param("reconnect", 0)) sym_stop();
    connect(c);
    return;
   }
   if (m.timeout && m.owner == c && sym_choice("lock_expires", 2)) {expire(c, true); return;}
   if (x.waiting_lock || x.waiting_pull)
   {
    if (x.waiting_pull && sym_choice("wait_ends", 2)) expire(c, false);
    else {x.dead = true; close(c);}
    return;
   }
   if (x.pushing)
   {
    if (sym_choice("push_ends", 2)) {send(c, x.rest); m.push_end(c);}
    else {close(c); m.end(c);}
    return;
   }
   std::vector<int> kind;
   for (int i = 0; i < 16; i++) if (kinds >> i & 1) kind.push_back(i);
   switch (kind[sym_choice("request", uint32_t(kind.size()))])
   {
    case 0: pull(c, 'E', false); break;
    case 1: pull(c, 'G', false); break;
    case 2: send(c, "M"); x.expected += 'M'; m.release(c); break;
    case 3: push(c, 'N', false); break;
    case 4: push(c, 'O', false); break;
    case 5: push(c, 'N', true); break;
    case 6: push(c, 'O', true); break;
    case 7: pull(c, 'D', false); break;
    case 8: pull(c, 'F', false); break;
    case 9: pull(c, 'F', true); break;
    case 10: pull(c, 'G', true); break;
    case 11: read(c); break;
    case 12: close(c); m.end(c); break;
    case 14: hash(c); break;
    case 13:
    {
     const char b = char(sym_u8("code"));
     for (char known: std::string("HIrDEFGMNO")) sym_assume(b != known);
     send(c, std::string(1, b));
     m.end(c);
     break;
    }
   }
  }
 };
}

extern "C" void protocol()
{
 World w(int(sym_param("clients", 2)), sym_param("timeout", 0) != 0);
 for (int i = int(sym_param("steps", 3)); --i >= 0;)
 {
  w.step(uint32_t(sym_param("kinds", 0x3fff)));
  w.loop.drain();
  w.check();
 }
 w.server->stop();
 sym_reach("end");
 sym_stop();
}

// Requests of several clients in flight at the same time: what clients can conclude from the replies is true
namespace
{
 struct Push {int64_t from; std::string data;};
 struct Racer
 {
  std::shared_ptr<mock::Socket_State> s;
  bool closed = false, holds = false;
  std::vector<char> requests;       // not replied yet
  std::vector<Push> pushes;         // not replied yet
 };
}

extern "C" void races()
{
 const int clients = int(sym_param("clients", 2));
 Memory_File file;
 mock::Loop loop;
 mock::loop = &loop;
 Writable_Journal_Client client(file);
 const bool timeout = sym_param("timeout", 0) != 0;
 Server server(Logger::dummy_logger, 0, 1, "", client, std::chrono::milliseconds(timeout ? 1000 : 0));
 std::vector<Racer> r(static_cast<size_t>(clients));
 for (auto &x: r) {x.s = loop.connect(); x.s->in = h::hello(); loop.arrived(*x.s);}
 loop.drain();
 for (auto &x: r) x.s->out.clear();
 std::vector<Push> accepted;
 if (sym_param("queue", 0)) // the first client holds the lock, and the second one waits for it
 {
  for (size_t k = 0; k < 2; k++)
  {
   std::string m = "E";
   h::append(m, int64_t(0));
   h::append(m, int64_t(41));
   r[k].s->in += m;
   loop.arrived(*r[k].s);
   loop.drain();
  }
  sym_assert(r[0].s->out.size() == 9 && r[1].s->out.empty(), "the lock is taken by one client at a time");
  r[0].s->out.clear();
  r[0].holds = !timeout;
  r[1].requests.push_back('E');
 }
 for (int round = int(sym_param("rounds", 2)); --round >= 0;)
 {
  const int64_t checkpoint = client.get_journal_checkpoint();
  const int first = int(sym_choice("first", uint32_t(clients)));
  for (int k = 0; k < clients; k++)
  {
   Racer &x = r[size_t((first + k) % clients)];
   if (x.closed || !x.requests.empty()) continue; // waiting for a lock
   if (k) for (int i = int(sym_choice("handlers", uint32_t(sym_param("gap", 6)))); --i >= 0;) loop.run_one();
   std::string m;
   static const char codes[] = "EMNOFG";
   const uint32_t a = sym_choice("action", 8);
   if (a == 7) continue;
   if (a == 6) {x.closed = true; x.holds = false; x.s->client_closed = true; loop.arrived(*x.s); continue;}
   m += codes[a];
   x.requests.push_back(codes[a]);
   switch (codes[a])
   {
    case 'M': x.holds = false; break;
    case 'O': x.holds = false; // fall through
    case 'N':
     x.pushes.push_back({checkpoint, sym_string("data", 1)});
     h::append(m, checkpoint);
     h::append(m, checkpoint + 1);
     m += x.pushes[0].data;
     break;
    default:
     h::append(m, int64_t(0));
     h::append(m, int64_t(41));
   }
   x.s->in += m;
   loop.arrived(*x.s);
  }
  if (timeout)
  {
   for (int i = int(sym_choice("handlers", uint32_t(sym_param("gap", 6)))); --i >= 0;) loop.run_one();
   const auto timers = loop.pending();
   sym_assert(timers.size() <= 1, "at most one lock can expire");
   if (!timers.empty() && sym_choice("lock_expires", 2))
   {
    loop.complete(*timers[0], 0);
    sym_reach("expired");
    for (auto &x: r) x.holds = false; // of what was granted before
   }
  }
  loop.drain();
  // replies
  for (auto &x: r)
  {
   std::string &o = x.s->out;
   while (!o.empty() && !x.closed)
   {
    sym_assert(!x.requests.empty(), "no reply without a request");
    const char q = x.requests[0];
    x.requests.erase(x.requests.begin());
    switch (q)
    {
     case 'M':
      sym_assert(o[0] == 'M', "unlock is acknowledged");
      o.erase(0, 1);
      break;
     case 'N': case 'O':
      if (o[0] == q) {accepted.push_back(x.pushes[0]); sym_reach("push");}
      else if (o[0] == 't') sym_assert(timeout, "a push can only time out where there are timeouts");
      else {sym_assert(o[0] == 'C', "a push is accepted or conflicts"); sym_reach("conflict");}
      if (q == 'N') x.holds = o[0] != 't' && !timeout;
      x.pushes.clear();
      o.erase(0, 1);
      break;
     default:
     {
      sym_assert(o[0] == q && o.size() >= 9, "a pull is answered");
      int64_t until;
      std::memcpy(&until, &o[1], 8);
      sym_assert(until >= 41 && until <= client.get_journal_checkpoint(), "a pull ends at a committed position");
      const size_t n = q == 'E' ? 0 : size_t(until - 41);
      sym_assert(o.size() >= 9 + n, "all the data is sent");
      sym_assert(h::same_string(o.substr(9, n), file.get_data().substr(41, n)), "only committed data is sent, in order");
      o.erase(0, 9 + n);
      if (q != 'F') x.holds = !timeout;
     }
    }
   }
   if (x.s->server_closed && !x.closed) {x.closed = true; x.holds = false; x.requests.clear();}
  }
  int holders = 0;
  for (auto &x: r) if (x.holds) holders++;
  sym_assert(holders <= 1, "at most one client holds the lock");
  // accepted pushes are the history
  const int64_t end = client.get_journal_checkpoint();
  std::string history(size_t(end - 41), 0), known(size_t(end - 41), 0);
  for (const auto &a: accepted)
  {
   sym_assert(a.from >= 41 && a.from + int64_t(a.data.size()) <= end, "an accepted push is in the history");
   for (size_t i = 0; i < a.data.size(); i++)
   {
    const size_t at = size_t(a.from - 41) + i;
    if (at >= history.size()) break;
    sym_assert(!known[at], "an accepted push replaces nothing");
    known[at] = 1;
    history[at] = a.data[i];
   }
  }
  // a push may be accepted although its client left without waiting for the reply
  for (size_t i = 0; i < history.size(); i++) if (known[i]) sym_assert(history[i] == file.get_data()[41 + i], "an accepted push keeps its contents");
 }
 sym_reach("end");
 server.stop();
 sym_stop();
}

// A client that sends any bytes: the other clients, the file and the server's memory are safe
namespace
{
 class Strict_File: public Memory_File
 {
  public:
   // as the operating system does
   size_t pread(char *buffer, size_t size, int64_t offset) const override
   {
    if (offset < 0) throw Exception("negative offset");
    return Memory_File::pread(buffer, size, offset);
   }
   void pwrite(const char *buffer, size_t size, int64_t offset) override
   {
    if (offset < 0) throw Exception("negative offset");
    Memory_File::pwrite(buffer, size, offset);
   }
 };

 int64_t reply(mock::Socket_State &s, char code)
 {
  sym_assert(s.out.size() >= 9 && s.out[0] == code, "the other client is served");
  int64_t x;
  std::memcpy(&x, &s.out[1], 8);
  return x;
 }
}

extern "C" void hostile()
{
 Strict_File file;
 mock::Loop loop;
 mock::loop = &loop;
 Writable_Journal_Client client(file);
 Server server(Logger::dummy_logger, 0, 1, "", client, std::chrono::milliseconds(0));
 const bool greet = sym_choice("greet", 2) != 0;
 auto good = loop.connect();
 good->in = h::hello();
 loop.arrived(*good);
 loop.drain();
 good->out.clear();
 // something to read
 std::string m = "O";
 const std::string data(size_t(sym_param("data", 3)), 'd');
 h::append(m, int64_t(41));
 h::append(m, int64_t(41 + data.size()));
 good->in = m + data;
 loop.arrived(*good);
 loop.drain();
 sym_assert(good->out == "O", "push");
 good->out.clear();
 const int64_t checkpoint = 41 + int64_t(data.size());
 auto bad = loop.connect();
 if (greet)
 {
  bad->in = h::hello();
  loop.arrived(*bad);
  loop.drain();
  sym_assert(bad->out.size() == 30, "greeting");
  bad->out.clear();
 }
 else
 {
  const std::string first = sym_string("greeting", 13);
  bad->in = first;
  loop.arrived(*bad);
  loop.drain();
  if (bad->server_closed)
  {
   sym_assert(bad->out.empty(), "no reply to a bad greeting");
   sym_reach("bad greeting");
  }
  else
  {
   sym_assert(first.substr(0, 5) == "joedb", "only clients of this protocol get a reply");
   int64_t version, answer;
   std::memcpy(&version, &first[5], 8);
   std::memcpy(&answer, &bad->out[5], 8);
   sym_assert(bad->out.size() == 30 && answer == (version < protocol_version ? 0 : protocol_version), "old clients are told");
   sym_reach("greeting");
  }
 }
 std::string accepted = data;
 bool may_have_locked = false;
 if (greet) for (int i = int(sym_param("requests", 1)); --i >= 0 && !bad->server_closed;)
 {
  const int only = int(sym_param("code", -1));
  const char code = "HIrDEFGMNO?"[only >= 0 ? only : int(sym_choice("code", 11))];
  const size_t n = code == 'H' || code == 'I' ? 40 : code == 'M' || code == '?' ? 0 : 16;
  std::string q(1, code);
  int64_t x = 0, y = 0;
  if (n)
  {
   x = int64_t(sym_u64("x"));
   y = int64_t(sym_u64("y"));
   h::append(q, x);
   h::append(q, y);
   q.resize(n + 1);
   if (code == 'r') sym_assume((x <= 1 || x >= 40) && (y <= 1 || y >= 40)); // not every part of the header
  }
  const int64_t now = 41 + int64_t(accepted.size());
  std::string payload;
  if (code == 'N' || code == 'O')
  {
   sym_assume(y <= x || uint64_t(y - x) >= 4 || (x == now && y == now + 2)); // partial transfers, or a whole one
   payload = sym_string("payload", 2); // not hashed later
   if (sym_param("requests", 1) > 1) payload = "pp";
  }
  if ((code == 'D' || code == 'E' || code == 'F' || code == 'G') && sym_param("wait", 0) == 0) sym_assume(x <= 0);
  bad->in = q + payload;
  loop.arrived(*bad);
  loop.drain();
  if (code == 'E' || code == 'G' || code == 'N' || code == 'O') may_have_locked = true;
  if (!payload.empty() && x == now && y == now + 2) {accepted += payload; sym_reach("accepted");}
  bad->out.clear();
  if (!payload.empty() && int64_t(uint64_t(y) - uint64_t(x)) > 0 && !(x == now && y == now + 2)) break; // the rest would be data
 }
 if (may_have_locked || sym_choice("leave", 2))
 {
  bad->client_closed = true;
  loop.arrived(*bad);
  loop.drain();
  sym_assert(bad->server_closed, "a session ends with its client");
 }
 // the other client
 good->in = "G";
 h::append(good->in, int64_t(0));
 h::append(good->in, int64_t(41));
 loop.arrived(*good);
 loop.drain();
 const int64_t end = reply(*good, 'G');
 sym_assert(end == 41 + int64_t(accepted.size()), "only whole pushes at the right place are accepted");
 sym_assert(h::same_string(good->out.substr(9), accepted), "the history is what was accepted");
 sym_assert(h::same_string(file.get_data().substr(41, accepted.size()), accepted), "the file holds the history");
 sym_reach("end");
 server.stop();
 sym_stop();
}
