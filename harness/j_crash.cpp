#include "crash.h"
#include "ops.h"
using namespace joedb;
using h::Crashed; using h::Crash_File; using h::Disk_File;

struct History
{
 std::vector<int64_t> stamps;      // timestamps written, 9 bytes each
 std::string bytes;                // journal contents so far, as written
 int64_t hard = 41, hard_try = 41; // last completed hard checkpoint, last attempted one
 int64_t mark = 41, mark_try = 41; // last completed checkpoint of either kind
 bool any_hard = false;
};


static void write_one(Writable_Journal &j, History &hist)
{
 const int64_t v = int64_t(sym_u64("stamp"));
 hist.stamps.push_back(v);
 j.timestamp(v);
}

static void soft(Writable_Journal &j, History &hist)
{
 if (j.get_position() > hist.mark_try) hist.mark_try = j.get_position();
 j.soft_checkpoint();
 hist.mark = hist.mark_try;
}

static void hard(Writable_Journal &j, History &hist)
{
 if (j.get_position() > hist.mark_try) hist.mark_try = j.get_position();
 if (j.get_position() > hist.hard_try) hist.hard_try = j.get_position();
 const bool real = hist.hard_try > hist.hard;
 j.hard_checkpoint();
 hist.mark = hist.mark_try;
 hist.hard = hist.hard_try;
 if (real) hist.any_hard = true;
}

static void step(Writable_Journal &j, History &hist)
{
 switch (sym_choice("step", 4))
 {
  case 0: write_one(j, hist); soft(j, hist); break;
  case 1: write_one(j, hist); hard(j, hist); break;
  case 2: write_one(j, hist); write_one(j, hist); j.flush(); break;
  case 3: hard(j, hist); break;
 }
}

// every stamp up to the position, in order
static void check_prefix(Readonly_Journal &r, const History &hist, int64_t until)
{
 h::Recorder got;
 r.rewind();
 r.play_until(got, until);
 const size_t n = size_t(until - 41) / 9;
 sym_assert(size_t(until - 41) % 9 == 0, "checkpoint at an operation boundary");
 sym_assert(got.events.size() == n, "all operations before the checkpoint");
 for (size_t i = 0; i < n && i < got.events.size() && i < hist.stamps.size(); i++)
 {
  sym_assert(got.events[i].kind == h::k_timestamp, "operation kind");
  sym_assert(got.events[i].a == uint64_t(hist.stamps[i]), "operation value");
 }
}

static void check_hard(Readonly_Journal &r, const History &hist)
{
 const int64_t p = int64_t(sym_concretize(uint64_t(r.get_hard_checkpoint())));
 sym_assert(p == hist.hard || p == hist.hard_try, "the last completed hard checkpoint survives");
 sym_assert(r.get_checkpoint() >= p, "checkpoint is at least the hard checkpoint");
 if (p == hist.hard || p == hist.hard_try)
  check_prefix(r, hist, p);
}

// hard checkpoints survive losing power at any point, with any subset of unsynced bytes on disk
extern "C" void power_loss()
{
 const int steps = int(sym_param("steps", 3));
 const int rounds = int(sym_param("rounds", 1));
 History hist;
 std::string disk;
 {
  Crash_File file;
  file.tear = true;
  {
   Writable_Journal j(file);
   write_one(j, hist);
   hard(j, hist);
   file.countdown = int(sym_choice("crash_at", uint32_t(sym_param("crash_points", 12))));
   try
   {
    for (int i = 0; i < steps; i++) step(j, hist);
   }
   catch (const Crashed &) {sym_reach("crashed");}
   file.crashed = true;
  }
  disk = file.power_loss();
 }
 for (int round = 1; round < rounds; round++)
 {
  // recover, keep writing after the hard checkpoint, lose power again
  Disk_File file(disk, Open_Mode::write_existing);
  file.tear = true;
  {
   Writable_Journal j(Journal_Construction_Lock(file, Recovery::overwrite));
   const int64_t p = int64_t(sym_concretize(uint64_t(j.get_checkpoint())));
   const int64_t q = int64_t(sym_concretize(uint64_t(j.get_hard_checkpoint())));
   sym_assert(q == hist.hard || q == hist.hard_try, "the last completed hard checkpoint survives");
   sym_assume(p == q); // recovering to a soft checkpoint after losing power is documented as unsafe
   hist.hard = hist.hard_try = hist.mark = hist.mark_try = p;
   hist.stamps.resize(size_t(p - 41) / 9);
   j.skip_directly_to(p);
   file.countdown = int(sym_choice("crash_again_at", uint32_t(sym_param("crash_points2", 8))));
   try
   {
    step(j, hist);
    step(j, hist);
   }
   catch (const Crashed &) {sym_reach("crashed again");}
   file.crashed = true;
  }
  disk = file.power_loss();
 }
 Disk_File after(disk, Open_Mode::read_existing);
 for (int i = 0; i < 4; i++) {int64_t x; memcpy(&x, disk.data() + 8 * i, 8); sym_log(("slot " + std::to_string(x) + " size " + std::to_string(disk.size())).c_str());}
 Readonly_Journal r(after);
 check_hard(r, hist);
 sym_reach("end");
}

// a process that dies leaves exactly a prefix of checkpointed operations
extern "C" void process_crash()
{
 const int steps = int(sym_param("steps", 3));
 History hist;
 Crash_File file;
 {
  Writable_Journal j(file);
  file.countdown = int(sym_choice("crash_at", uint32_t(sym_param("crash_points", 12))));
  try
  {
   for (int i = 0; i < steps; i++) step(j, hist);
   write_one(j, hist);
  }
  catch (const Crashed &) {sym_reach("crashed");}
  file.crashed = true;
 }
 const std::string disk = file.content;
 int64_t mark;
 {
  Disk_File after(disk, Open_Mode::read_existing);
  Readonly_Journal r(after);
  mark = r.get_checkpoint();
  sym_assert(mark == hist.mark || mark == hist.mark_try, "reader sees exactly the last checkpoint");
  check_prefix(r, hist, mark);
 }
 // writing again
 Disk_File after(disk, Open_Mode::write_existing);
 const bool dirty = after.get_size() > mark;
 const bool refused = h::throws([&]{Writable_Journal j(after);});
 sym_assert(refused == dirty, "refuses to write over an uncheckpointed tail, and only then");
 sym_assert(h::same_string(after.content, disk), "refusing leaves the file unchanged");
 hist.stamps.resize(size_t(mark - 41) / 9);
 {
  Writable_Journal j(Journal_Construction_Lock(after, Recovery::overwrite));
  sym_assert(j.get_checkpoint() == mark, "recovery keeps the checkpoint");
  j.skip_directly_to(mark);
  write_one(j, hist);
  if (sym_choice("hard_after", 2)) j.hard_checkpoint(); else j.soft_checkpoint();
  // the process may be killed as soon as the checkpoint returns
  Disk_File killed(after.content, Open_Mode::read_existing);
  Readonly_Journal r(killed);
  sym_assert(r.get_checkpoint() == mark + 9, "checkpoint after recovery");
  check_prefix(r, hist, mark + 9);
 }
 {
  Disk_File again(after.content, Open_Mode::read_existing);
  Readonly_Journal r(again);
  sym_assert(r.get_checkpoint() == mark + 9, "checkpoint after recovery");
  check_prefix(r, hist, mark + 9);
 }
 sym_reach("end");
}

// Recovering from a power loss that cut the tail: no partial transaction becomes visible afterwards
extern "C" void recovery()
{
 const int steps = int(sym_param("steps", 3));
 History hist;
 std::string disk;
 {
  Crash_File file;
  file.tear = true;
  Writable_Journal j(file);
  write_one(j, hist);
  hard(j, hist);
  for (int i = 0; i < steps; i++) {if (sym_choice("hard", 2)) {write_one(j, hist); hard(j, hist);} else {write_one(j, hist); soft(j, hist);}}
  if (sym_choice("tail", 2)) {write_one(j, hist); j.flush();}
  disk = file.truncating_power_loss();
 }
 const bool overwrite = sym_choice("overwrite", 2);
 if (!overwrite) // without recovery, a lost soft checkpoint keeps being announced to clients that pull
  for (int i = 0; i < 4; i++)
  {
   int64_t p;
   std::memcpy(&p, disk.data() + 8 * i, 8);
   if (p < -int64_t(disk.size())) sym_stop();
  }
 Disk_File file(disk, Open_Mode::shared_write);
 std::unique_ptr<Writable_Journal> j;
 try
 {
  j = std::make_unique<Writable_Journal>(Journal_Construction_Lock(file, overwrite ? Recovery::overwrite : Recovery::none));
 }
 catch (const Exception &)
 {
  sym_assert(!overwrite, "recovery by overwriting always succeeds");
  sym_stop();
 }
 const int64_t start = int64_t(sym_concretize(uint64_t(j->get_checkpoint())));
 sym_assert(start <= file.get_size(), "recovered checkpoint lies in the file");
 sym_assert(start >= hist.hard, "recovered checkpoint covers the last hard checkpoint");
 hist.stamps.resize(size_t(start - 41) / 9);
 hist.mark = start;
 j->skip_directly_to(start);
 Readonly_Journal reader(file);
 int64_t seen = 0;
 auto observe = [&]
 {
  Readonly_Journal fresh(file);
  sym_assert(fresh.get_checkpoint() == hist.mark, "a new reader sees exactly the last checkpoint");
  reader.pull();
  sym_assert(reader.get_checkpoint() == hist.mark, "a reader that pulls sees exactly the last checkpoint");
  check_prefix(reader, hist, hist.mark);
  seen++;
 };
 observe();
 for (int i = 0; i < 2; i++)
 {
  {
   Tail_Exclusive_Lock lock(*j);
   sym_assert(j->get_checkpoint() == hist.mark, "the writer continues from the last checkpoint");
   write_one(*j, hist);
   if (sym_choice("more", 2)) {write_one(*j, hist); write_one(*j, hist);}
   if (sym_choice("flush", 2)) {j->flush(); observe();}
   if (sym_choice("hard_after", 2)) j->hard_checkpoint(); else j->soft_checkpoint();
   hist.mark = j->get_position();
   observe();
  }
  observe();
 }
 sym_reach("end");
}

// an input/output error is reported, and never turns into a false success or a corrupt file
extern "C" void io_error()
{
 const int steps = int(sym_param("steps", 3));
 History hist;
 Crash_File file;
 int64_t promised = 41, promised_hard = 41;
 {
  Writable_Journal j(file);
  file.fail_in = int(sym_choice("fail_at", uint32_t(sym_param("fail_points", 10))));
  for (int i = 0; i < steps; i++)
  {
   const uint32_t what = sym_choice("step", 4);
   const int before = file.failures;
   bool failed = false;
   const int64_t position = j.get_position();
   try
   {
    switch (what)
    {
     case 0: write_one(j, hist); j.soft_checkpoint(); promised = j.get_position(); break;
     case 1: write_one(j, hist); j.hard_checkpoint(); promised = promised_hard = j.get_position(); break;
     case 2: write_one(j, hist); j.flush(); break;
     case 3:
      // what a caller would retry
      if (sym_choice("hard", 2)) {j.hard_checkpoint(); promised = promised_hard = j.get_position();}
      else {j.soft_checkpoint(); promised = j.get_position();}
      break;
    }
   }
   catch (const Exception &) {failed = true; sym_reach("failed");}
   sym_assert(failed == (file.failures != before), "every error of the file is reported, and only those");
   sym_assert(j.get_position() >= position, "position never goes backwards");
  }
  file.crashed = true;
 }
 // another process
 {
  Disk_File after(file.content, Open_Mode::read_existing);
  Readonly_Journal r(after);
  sym_assert(r.get_checkpoint() >= promised, "a checkpoint that returned is in the file");
  sym_assert(r.get_checkpoint() <= after.get_size(), "checkpoint within the file");
  check_prefix(r, hist, r.get_checkpoint());
 }
 // and after losing power
 {
  Disk_File after(file.power_loss(), Open_Mode::read_existing);
  if (promised_hard > 41)
  {
   Readonly_Journal r(after);
   const int64_t p = int64_t(sym_concretize(uint64_t(r.get_hard_checkpoint())));
   sym_assert(p >= promised_hard, "a hard checkpoint that returned is durable");
   check_prefix(r, hist, p);
  }
 }
 sym_reach("end");
}
