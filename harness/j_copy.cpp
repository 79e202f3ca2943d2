// Replaying a journal into another journal, several listeners, or a filter
#include "ops.h"
#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/journal/Readonly_Journal.h"
using namespace joedb;
using h::Op;
using h::Event;

static void write_op(const Op &o, Writable_Journal &journal, h::Recorder &r)
{
 Blob blob;
 h::apply(o, journal, &blob);
 h::apply(o, r, &blob);
}

// two sessions of a writer that replays before it writes
static std::vector<int64_t> write_file(Memory_File &file, h::Recorder &expected, std::vector<std::string> &blobs)
{
 std::vector<int64_t> checkpoints;
 const int kinds = int(sym_param("kinds", h::op_kinds));
 for (int session = 0; session < 2; session++)
 {
  Writable_Journal journal(file);
  Dummy_Writable dummy;
  journal.play_until_checkpoint(dummy);
  for (int i = 0; i < int(sym_param("ops", 1)); i++)
  {
   const Op o = h::make_op(int(sym_choice("kind", kinds)), int(sym_param("type", h::t_int16)));
   write_op(o, journal, expected);
   if (o.kind == h::op_blob) blobs.push_back(o.s);
  }
  // the last operation is a blob, whose position depends on everything before
  if (session == 1)
  {
   Op o;
   o.kind = h::op_blob;
   o.s = sym_string("blob", 2);
   write_op(o, journal, expected);
   blobs.push_back(o.s);
  }
  journal.soft_checkpoint();
  checkpoints.push_back(journal.get_checkpoint());
 }
 return checkpoints;
}

static void check_blobs(Abstract_File &file, const std::vector<Event> &events, const std::vector<std::string> &blobs)
{
 size_t n = 0;
 for (const Event &e: events)
  if (e.kind == h::k_blob)
  {
   sym_assert(n < blobs.size(), "no more blobs than were written");
   const std::string s = file.read_blob(Blob(int64_t(e.a), int64_t(e.b)));
   sym_assert(h::same_string(s, blobs[n]), "a blob reads back at its position");
   n++;
  }
 sym_assert(n == blobs.size(), "all blobs");
}

extern "C" void copy()
{
 Memory_File file, target;
 h::Recorder expected, seen;
 std::vector<std::string> blobs;
 const std::vector<int64_t> checkpoints = write_file(file, expected, blobs);
 check_blobs(file, expected.events, blobs);
 Readonly_Journal input(file);
 const uint32_t how = sym_choice("how", 3);
 if (how == 0) // at once
 {
  Writable_Journal output(target);
  input.replay_log(output);
  output.hard_checkpoint();
 }
 else if (how == 1) // in two times, the copy being closed in between
 {
  for (int64_t until: checkpoints)
  {
   Readonly_Journal again(file);
   Writable_Journal output(target);
   Dummy_Writable dummy;
   output.play_until_checkpoint(dummy);
   again.play_until(output, until);
   sym_assert(output.get_position() == again.get_position(), "the copy has the same length");
  }
  sym_reach("two times");
 }
 else // with another listener
 {
  Writable_Journal output(target);
  Multiplexer multiplexer{seen, output};
  input.replay_log(multiplexer);
  h::check_events(expected.events, seen.events);
  sym_assert(seen.ended == checkpoints.back(), "the end is announced");
  sym_assert(seen.soft_checkpoints == 1, "the checkpoint is announced");
  sym_reach("multiplexer");
 }
 sym_assert(target.get_size() == file.get_size(), "same size");
 Readonly_Journal copied(target);
 sym_assert(copied.get_checkpoint() == checkpoints.back(), "the copy is checkpointed");
 h::Recorder got;
 copied.replay_log(got);
 h::check_events(expected.events, got.events);
 check_blobs(target, got.events, blobs);
 sym_assert(input.equal_to(copied, 41, checkpoints.back()), "the same bytes");
 sym_reach("end");
}

static int kind_mode(int kind)
{
 switch (kind)
 {
  case h::k_create_table: case h::k_drop_table: case h::k_rename_table: case h::k_add_field: case h::k_drop_field: case h::k_rename_field: case h::k_custom:
   return Selective_Writable::schema;
  case h::k_comment: case h::k_timestamp: case h::k_valid_data:
   return Selective_Writable::information;
  default:
   return Selective_Writable::data;
 }
}

// vectors of values may be delivered one by one
static std::vector<Event> expand(const std::vector<Event> &x, int mode)
{
 std::vector<Event> result;
 for (const Event &e: x)
 {
  if (!(kind_mode(e.kind) & mode) || e.kind == h::k_blob) continue;
  if (e.kind != h::k_update_vector) {result.push_back(e); continue;}
  for (size_t i = 0; i < e.c; i++)
  {
   Event u;
   u.kind = h::k_update;
   u.type = e.type;
   u.a = e.a;
   u.b = e.b + i;
   if (i < e.v.size()) u.c = e.v[i];
   result.push_back(u);
  }
 }
 return result;
}

extern "C" void filter()
{
 Memory_File file;
 h::Recorder expected, seen, other;
 std::vector<std::string> blobs;
 write_file(file, expected, blobs);
 const int mode = 1 + int(sym_choice("mode", 7));
 Selective_Writable selective(seen, Selective_Writable::Mode(mode));
 Multiplexer multiplexer{selective, other};
 Readonly_Journal input(file);
 input.replay_log(multiplexer);
 h::check_events(expand(expected.events, mode), expand(seen.events, 7));
 h::check_events(expected.events, other.events);
 sym_assert(selective.has_blobs(), "blobs are noticed");
 sym_reach("end");
}
