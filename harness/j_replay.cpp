// What was written to a journal is what a reader replays
#include "ops.h"
using namespace joedb;
using h::Op;

static void write_op(const Op &o, Writable_Journal &journal, h::Recorder &r)
{
 Blob blob;
 h::apply(o, journal, &blob);
 h::apply(o, r, &blob);
}

// two operations of any kind, then optionally a third that depends on the context they left
extern "C" void harness()
{
 const int kinds = int(sym_param("kinds", h::op_kinds));
 const int third = int(sym_param("third", 0));
 Memory_File file;
 h::Recorder expected;
 bool hard;
 {
  Writable_Journal journal(file);
  const int k1 = int(sym_choice("kind1", kinds));
  const Op o1 = h::make_op(k1);
  write_op(o1, journal, expected);
  const int k2 = int(sym_choice("kind2", third ? 4 : kinds));
  const Op o2 = h::make_op(k2, (k2 == h::op_update || k2 == h::op_update_vector) && third ? int(sym_param("type2", h::t_int16)) : -1);
  write_op(o2, journal, expected);
  if (third)
  {
   const int k3 = int(sym_choice("kind3", 2));
   const Op o3 = h::make_op(k3, k3 == h::op_update ? int(sym_param("type3", h::t_int8)) : -1);
   write_op(o3, journal, expected);
  }
  hard = sym_choice("hard", 2);
  if (hard) journal.hard_checkpoint(); else journal.soft_checkpoint();
  sym_assert(journal.get_checkpoint() == journal.get_position(), "checkpoint covers everything written");
  sym_assert(journal.get_position() == file.get_size(), "file holds everything written");
 }
 h::Recorder got;
 Readonly_Journal reader(file);
 sym_assert(reader.get_checkpoint() == file.get_size(), "reader sees the checkpoint");
 reader.replay_log(got);
 h::check_events(expected.events, got.events);
 sym_assert(reader.get_position() == reader.get_checkpoint(), "replay consumes exactly the journal");
 h::trace_events(got.events);
 sym_reach("end");
}

// replaying in pieces, with the reader pulling in between, delivers the same events
extern "C" void pieces()
{
 const int kinds = int(sym_param("kinds", h::op_kinds));
 Memory_File file;
 h::Recorder expected;
 Writable_Journal journal(file);
 Readonly_Journal reader(file);
 h::Recorder got;
 const int k1 = int(sym_choice("kind1", kinds));
 write_op(h::make_op(k1, int(sym_param("type", h::t_int16))), journal, expected);
 const uint32_t pull1 = sym_choice("pull1", 3);
 if (pull1) {if (pull1 == 1) journal.soft_checkpoint(); else journal.hard_checkpoint(); sym_assert(reader.pull() > 0, "pull sees new data"); reader.play_until_checkpoint(got);
  h::check_events(expected.events, got.events);}
 const int k2 = int(sym_choice("kind2", 4));
 write_op(h::make_op(k2, int(sym_param("type", h::t_int16))), journal, expected);
 const int64_t middle = journal.get_position();
 const uint32_t pull2 = sym_choice("pull2", 3);
 if (pull2) {if (pull2 == 1) journal.soft_checkpoint(); else journal.hard_checkpoint(); reader.pull(); reader.play_until_checkpoint(got);}
 const int k3 = int(sym_choice("kind3", 2));
 write_op(h::make_op(k3, int(sym_param("type", h::t_int16))), journal, expected);
 const uint32_t pull3 = sym_choice("pull3", 2);
 if (pull3) journal.soft_checkpoint(); else journal.hard_checkpoint();
 reader.pull();
 sym_assert(reader.get_checkpoint() == journal.get_position(), "reader sees the last checkpoint");
 if (sym_choice("stop_in_middle", 2))
 {
  reader.play_until(got, middle);
  sym_assert(reader.get_position() == middle, "partial replay stops where asked");
 }
 reader.play_until_checkpoint(got);
 h::check_events(expected.events, got.events);
 // replay from the beginning skips what the listener already has
 {
  h::Recorder late;
  late.position = middle;
  Readonly_Journal again(file);
  again.replay_log(late);
  sym_assert(late.events.size() == 1, "only the operations after the listener's position");
  if (late.events.size() == 1) h::check_event(late.events[0], expected.events.back());
  sym_assert(late.started == middle && late.ended == journal.get_position(), "listener told the range");
  sym_assert(late.soft_checkpoints == 1, "listener asked to checkpoint");
 }
 // rewind replays everything again
 {
  h::Recorder full;
  reader.rewind();
  reader.play_until_checkpoint(full);
  h::check_events(expected.events, full.events);
 }
 sym_reach("end");
}

// appending after reopening an existing journal
extern "C" void reopen()
{
 Memory_File file;
 h::Recorder expected;
 {
  Writable_Journal journal(file);
  const int k1 = int(sym_choice("kind1", 4));
  write_op(h::make_op(k1, int(sym_param("type", h::t_int16))), journal, expected);
  if (sym_choice("hard", 2)) journal.hard_checkpoint(); else journal.soft_checkpoint();
 }
 {
  Writable_Journal journal(file);
  const uint32_t how = sym_choice("how", 3);
  if (how == 0)
   journal.skip_directly_to(journal.get_checkpoint());
  else if (how == 1)
  {
   h::Recorder r;
   journal.replay_log(r);
   h::check_events(expected.events, r.events);
  }
  else
  {
   Dummy_Writable dummy;
   journal.play_until_checkpoint(dummy);
  }
  sym_assert(journal.get_position() == journal.get_checkpoint(), "ready to append");
  for (int i = 0; i < int(sym_param("more", 1)); i++)
  {
   const int k2 = int(sym_choice("kind2", 4));
   write_op(h::make_op(k2, int(sym_param("type", h::t_int16))), journal, expected);
  }
  journal.hard_checkpoint();
 }
 h::Recorder got;
 Readonly_Journal reader(file);
 reader.replay_log(got);
 h::check_events(expected.events, got.events);
 sym_reach("end");
}
