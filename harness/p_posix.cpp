// posix
// Posix_File over a model of the system calls
#include "kernel.h"
#include <optional>
#include "joedb/journal/Posix_File.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/journal/Readonly_Journal.h"
using namespace joedb;

// a sequence of reads and writes of symbolic content, compared with an array of bytes
extern "C" void file_io()
{
 k::reset();
 k::short_transfers = true;
 k::cuts = int(sym_param("cuts", 2));
 k::smallest_cut = 1;
 const int steps = int(sym_param("steps", 3));
 if (sym_param("errors", 0))
 {
  k::errors = true;
  k::error_at = sym_range("error_at", 0, uint64_t(3 * steps + 2));
  k::error_number = sym_choice("error", 2) ? EINTR : ENOSPC;
 }
 std::string expected;
 try
 {
  Posix_File file("a", Open_Mode::create_new);
  for (int i = 0; i < steps; i++)
  {
   const int64_t offset = int64_t(sym_choice("offset", 3));
   const size_t size = sym_choice("size", 4);
   switch (sym_choice("operation", 4))
   {
    case 0: case 1:
    {
     const std::string s = sym_string("data", size);
     if (size && expected.size() < size_t(offset) + size) expected.resize(size_t(offset) + size);
     std::string before = expected;
     for (size_t j = 0; j < size; j++) expected[size_t(offset) + j] = s[j];
     file.pwrite(s.data(), size, offset);
    }
    break;
    case 2:
    {
     std::string s(size + 1, '#');
     const size_t n = file.pread(&s[0], size, offset);
     sym_assert(n <= size, "no more bytes than asked");
     sym_assert(n > 0 || size == 0 || size_t(offset) >= expected.size(), "0 bytes only at the end of the file");
     for (size_t j = 0; j < n; j++)
     {
      sym_assert(size_t(offset) + j < expected.size(), "no byte past the end");
      sym_assert(s[j] == expected[size_t(offset) + j], "the bytes that were written");
     }
     for (size_t j = n; j <= size; j++) sym_assert(s[j] == '#', "the rest of the buffer is left alone");
     sym_reach("read");
    }
    break;
    case 3:
     if (sym_choice("data_only", 2))
     {
      file.sync();
      sym_assert(k::inode[0].durable == expected, "everything is durable after a sync");
      if (expected.size())
      {
       const char c = char(sym_u8("byte"));
       expected[0] = c;
       file.pwrite(&c, 1, 0);
      }
      file.datasync();
     }
     else
      file.sync();
     sym_assert(k::inode[0].durable == expected, "everything is durable after a sync");
     sym_reach("sync");
    break;
   }
   sym_assert(!k::failed, "an error is reported");
   sym_assert(file.get_size() == int64_t(expected.size()), "size");
   sym_assert(!k::failed, "an error is reported");
   sym_assert(k::inode[0].content == expected, "content");
  }
 }
 catch (const Exception &) {sym_assert(k::failed, "no error without a reason"); sym_reach("error");}
 sym_assert(k::open_descriptors() == 0, "the file is closed");
 sym_reach("end");
}

// every way to open a file
extern "C" void open_modes()
{
 k::reset();
 k::Inode &n = k::inode[0];
 const Open_Mode mode = Open_Mode(sym_choice("mode", uint32_t(Open_Mode::mode_count)));
 const uint32_t state = sym_choice("state", 4); // nothing, a file, a read-only file, a file that a writer holds
 if (state)
 {
  n.exists = true;
  n.content = n.durable = sym_string("old", 2);
 }
 n.read_only = state == 2;
 const std::string old = n.content;
 std::unique_ptr<Posix_File> other;
 Open_Mode other_mode = Open_Mode::shared_write;
 if (state == 3)
 {
  other_mode = Open_Mode(sym_choice("other", uint32_t(Open_Mode::mode_count)));
  if (other_mode == Open_Mode::create_new) sym_stop();
  other.reset(new Posix_File("a", other_mode));
 }
 const bool other_locks = other && other_mode != Open_Mode::read_existing && other_mode != Open_Mode::shared_write;
 const bool locks = mode != Open_Mode::read_existing && mode != Open_Mode::shared_write;
 if (mode == Open_Mode::write_lock && other_locks) sym_stop(); // waits: see two_writers
 bool expected;
 switch (mode)
 {
  case Open_Mode::read_existing: expected = state != 0; break;
  case Open_Mode::write_existing: expected = state == 1 || state == 3; break;
  case Open_Mode::create_new: expected = state == 0; break;
  default: expected = state != 2;
 }
 if (locks && other_locks) expected = false;
 const int before = k::open_descriptors();
 if (sym_param("errors", 0))
 {
  k::errors = true;
  k::error_at = sym_range("error_at", 0, 4);
  k::error_number = EIO;
 }
 try
 {
  Posix_File file("a", mode);
  sym_assert(expected, "a file that must not be opened is refused");
  sym_assert(n.content == old, "opening leaves the content alone");
  k::errors = false;
  sym_assert(file.get_size() == int64_t(old.size()), "size");
  sym_assert(file.get_mode() == mode, "mode");
  sym_assert(file.is_readonly() == (mode == Open_Mode::read_existing), "readonly");
  sym_assert(file.is_shared() == (mode == Open_Mode::shared_write), "shared");
  const char c = char(sym_u8("byte"));
  if (!file.is_readonly())
  {
   file.pwrite(&c, 1, 0);
   char d = 0;
   sym_assert(file.pread(&d, 1, 0) == 1 && d == c, "can be written and read");
   sym_reach("writable");
  }
  // exclusive while it is open
  if (locks)
  {
   for (Open_Mode m: {Open_Mode::write_existing, Open_Mode::write_existing_or_create_new})
   {
    bool refused = false;
    try {Posix_File second("a", m);}
    catch (const Exception &) {refused = true;}
    sym_assert(refused, "a second writer is refused while the file is open for writing");
   }
   Posix_File reader("a", Open_Mode::read_existing);
   Posix_File sharing("a", Open_Mode::shared_write);
   reader.shared_lock(0, 1);
   reader.unlock(0, 1);
   sym_reach("exclusive");
  }
 }
 catch (const Exception &)
 {
  sym_assert(!expected || k::failed, "a file that can be opened is opened");
  sym_assert(n.content == old, "failing to open leaves the content alone");
  sym_reach("refused");
 }
 k::errors = false;
 sym_assert(k::open_descriptors() == before, "no file is left open");
 other.reset();
 sym_assert(n.locks.empty(), "no lock is left behind");
 if (n.exists && !n.read_only)
 {
  Posix_File again("a", Open_Mode::write_existing);
  sym_reach("available again");
 }
 sym_reach("end");
}

// a journal over files whose transfers are short, and whose system calls may fail
extern "C" void journal()
{
 k::reset();
 k::short_transfers = true;
 k::cuts = int(sym_param("cuts", 2));
 const int steps = int(sym_param("steps", 2));
 if (sym_param("errors", 0))
 {
  k::errors = true;
  k::error_at = sym_range("error_at", 0, uint64_t(sym_param("calls", 24)));
  k::error_number = EIO;
 }
 std::vector<uint64_t> stamps;
 size_t done = 0, durable = 0;  // operations whose (hard) checkpoint returned
 std::string text;
 try
 {
  Posix_File file("a", Open_Mode::create_new);
  Writable_Journal j(file);
  for (int i = 0; i < steps; i++)
  {
   stamps.push_back(sym_u64("stamp"));
   j.timestamp(int64_t(stamps.back()));
   j.comment(std::string(size_t(50), char('a' + i)));
   if (sym_choice("hard", 2))
   {
    j.hard_checkpoint();
    sym_assert(!k::failed, "an error is reported");
    durable = done = stamps.size();
    sym_assert(k::inode[0].durable == k::inode[0].content, "everything is durable after a hard checkpoint");
   }
   else
   {
    j.soft_checkpoint();
    sym_assert(!k::failed, "an error is reported");
    done = stamps.size();
   }
  }
 }
 catch (const Exception &) {sym_assert(k::failed, "no error without a reason"); sym_reach("error");}
 k::errors = false;
 sym_assert(k::open_descriptors() == 0 && k::inode[0].locks.empty(), "the file is closed and unlocked");
 if (done == 0) {sym_reach("nothing done"); return;}
 for (int power = 0; power < (durable ? 2 : 1); power++)
 {
  if (power) k::inode[0].content = k::inode[0].durable;
  Posix_File file("a", Open_Mode::read_existing);
  Readonly_Journal j(file);
  h::Recorder r;
  j.replay_log(r);
  const size_t least = power ? durable : done;
  sym_assert(r.events.size() >= 2 * least, "nothing that was checkpointed is lost");
  sym_assert(r.events.size() <= 2 * stamps.size() && r.events.size() % 2 == 0, "whole transactions only");
  for (size_t i = 0; i < r.events.size(); i++)
   if (i % 2 == 0) sym_assert(r.events[i].a == stamps[i / 2], "time stamp");
   else sym_assert(r.events[i].s == std::string(50, char('a' + i / 2)), "comment");
 }
 sym_reach("end");
}

// processes that share a file
static std::vector<uint64_t> committed;
static int transactions;
static Open_Mode writer_mode;

static void run_writer()
{
 Posix_File file("a", writer_mode);
 if (writer_mode == Open_Mode::shared_write)
 {
  Writable_Journal_Client client(file);
  client.set_hard_checkpoint(false);
  for (int i = 0; i < transactions; i++)
  {
   const uint64_t v = sym_u64("stamp");
   client.transaction([v](Writable_Journal &j)
   {
    j.timestamp(int64_t(v));
    j.flush();
    j.timestamp(int64_t(v));
    committed.push_back(v);
   });
  }
 }
 else
 {
  Writable_Journal j(file);
  h::Recorder r;
  j.replay_log(r);
  sym_assert(r.events.size() == 2 * committed.size(), "a writer sees all that was committed before it got the file");
  for (int i = 0; i < transactions; i++)
  {
   const uint64_t v = sym_u64("stamp");
   j.timestamp(int64_t(v));
   j.flush();
   j.timestamp(int64_t(v));
   j.soft_checkpoint();
   committed.push_back(v);
  }
 }
}

static void check(const h::Recorder &r, bool final)
{
 sym_assert(r.events.size() % 2 == 0, "no partial transaction is visible");
 if (final) sym_assert(r.events.size() == 2 * committed.size(), "no committed transaction is lost");
 for (size_t i = 0; i < r.events.size() && i / 2 < committed.size(); i++)
  sym_assert(r.events[i].a == committed[i / 2], "transactions appear in commit order");
}

static void writer(void *)
{
 try {run_writer();}
 catch (const Exception &) {sym_fail("a transaction on a shared file succeeds");}
}

static void reader(void *)
{
 try
 {
  Posix_File file("a", Open_Mode::read_existing);
  Readonly_Journal j(file);
  h::Recorder r;
  for (int i = 0; i < 2; i++)
  {
   j.play_until_checkpoint(r);
   check(r, false);
   j.pull();
  }
  sym_reach("read");
 }
 catch (const Exception &) {sym_fail("an existing database can be read at any time");}
}

extern "C" void two_processes()
{
 k::reset();
 committed.clear();
 transactions = int(sym_param("transactions", 1));
 writer_mode = sym_choice("mode", 2) ? Open_Mode::write_lock : Open_Mode::shared_write;
 if (sym_param("create", 1))
 {
  Posix_File file("a", Open_Mode::create_new);
  Writable_Journal j(file);
 }
 k::threads = true;
 const bool reading = sym_param("reader", 0);
 const int a = sym_thread(writer, nullptr);
 const int b = sym_thread(reading ? reader : writer, nullptr);
 sym_join(a);
 sym_join(b);
 k::threads = false;
 sym_assert(k::open_descriptors() == 0 && k::inode[0].locks.empty(), "everything is closed and unlocked");
 Posix_File file("a", Open_Mode::read_existing);
 Readonly_Journal j(file);
 h::Recorder r;
 j.replay_log(r);
 check(r, true);
 sym_assert(committed.size() == size_t(transactions) * (reading ? 1 : 2), "all transactions ran");
 sym_trace(r.events.size());
 sym_reach("end");
}

// the contract of locks, whoever uses them
struct Holding {bool held = false, exclusive = false; int64_t start = 0, size = 0;};
static Holding holding[2];

static void locker(int me)
{
 try
 {
  Posix_File file("a", Open_Mode::shared_write);
  Posix_File reading("a", Open_Mode::read_existing);
  for (int i = 0; i < int(sym_param("rounds", 1)); i++)
  {
   Holding h;
   h.exclusive = sym_choice("exclusive", 2);
   h.start = sym_choice("start", 2) ? INT64_MAX : int64_t(sym_choice("at", 2));
   h.size = 1;
   Posix_File &f = !h.exclusive && sym_choice("readonly", 2) ? reading : file;
   if (h.exclusive) f.exclusive_lock(h.start, h.size); else f.shared_lock(h.start, h.size);
   bool taken = false;
   for (const auto &l: k::inode[0].locks)
    taken = taken || (int64_t(l.start) == h.start && int64_t(l.end - l.start) == h.size && l.exclusive == h.exclusive);
   sym_assert(taken, "a lock that could not be taken is reported");
   h.held = true;
   const Holding &o = holding[1 - me];
   sym_assert(!(o.held && (o.exclusive || h.exclusive) && o.start == h.start), "an exclusive lock excludes the others");
   struct Hold
   {
    const int me;
    Hold(int me, const Holding &h): me(me) {holding[me] = h;}
    ~Hold() {holding[me].held = false;}
   };
   std::optional<Hold> hold;
   hold.emplace(me, h);
   sym_yield();
   file.exclusive_lock(3, 1); // another range: releasing it leaves the first lock alone
   file.unlock(3, 1);
   sym_yield();
   hold.reset();
   f.unlock(h.start, h.size);
   sym_reach("locked");
  }
 }
 catch (const Exception &)
 {
  sym_assert(k::failed, "no error without a reason");
  sym_reach("error");
 }
}
static void locker0(void *) {locker(0);}
static void locker1(void *) {locker(1);}

extern "C" void locks()
{
 k::reset();
 k::inode[0].exists = true;
 holding[0] = holding[1] = Holding();
 if (sym_param("errors", 0))
 {
  k::errors = true;
  k::error_number = EINTR;
  k::error_at = sym_range("error_at", 4, 9);
 }
 k::threads = true;
 const int a = sym_thread(locker0, nullptr);
 const int b = sym_thread(locker1, nullptr);
 sym_join(a);
 sym_join(b);
 k::threads = false;
 sym_assert(k::open_descriptors() == 0 && k::inode[0].locks.empty(), "everything is closed and unlocked");
 sym_reach("end");
}
