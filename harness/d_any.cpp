// A compiled database opens a file that ends with anything
// generated: store
#include "db.h"
#include "common.h"
#include "store/Writable_Database.h"
#include "store/Readonly_Database.h"
#include "store/Readable.h"
using namespace joedb;

template<typename DB> static void check(DB &db)
{
 using namespace store;
 uint64_t sum = 0;
 size_t n = 0;
 for (const auto c: db.get_city_table())
 {
  sym_assert(db.is_valid(c), "listed records exist");
  for (char x: db.get_name(c)) sum = sum * 31 + uint8_t(x);
  sym_assert(++n <= 100, "the list of records is finite");
 }
 for (const auto p: db.get_person_table())
 {
  sym_assert(db.is_valid(p), "listed records exist");
  for (char x: db.get_name(p)) sum = sum * 31 + uint8_t(x);
  sum = sum * 31 + uint32_t(db.get_code(p));
  sum = sum * 31 + uint64_t(db.get_home(p).get_id());
  sym_assert(++n <= 100, "the list of records is finite");
 }
 for (const auto &[k, c]: db.get_index_of_city_by_name())
 {
  sym_assert(db.is_valid(c), "an index holds valid records only");
  sym_assert(h::same_string(k, db.get_name(c)), "index keys are current values");
 }
 for (const auto &[k, p]: db.get_index_of_person_by_code())
 {
  sym_assert(db.is_valid(p), "an index holds valid records only");
  sym_assert(k == db.get_code(p), "index keys are current values");
 }
 for (const auto &[k, p]: db.get_index_of_person_by_home())
 {
  sym_assert(db.is_valid(p), "an index holds valid records only");
  sym_assert(k == db.get_home(p), "index keys are current values");
 }
 for (const auto &[k, p]: db.get_index_of_person_by_name_code())
 {
  sym_assert(db.is_valid(p), "an index holds valid records only");
  sym_assert(h::same_string(std::get<0>(k), db.get_name(p)) && std::get<1>(k) == db.get_code(p), "index keys are current values");
 }
 sum = sum * 31 + uint16_t(db.get_level(db.the_settings()));
 sym_trace(sum);
}

extern "C" void tail()
{
 Memory_File file;
 {
  store::Writable_Database db(file);
  const auto c = db.new_city();
  db.set_name(c, "c");
  if (sym_choice("person", 2))
  {
   const auto p = db.new_person();
   db.set_code(p, 5);
   db.set_home(p, c);
   if (sym_choice("hole", 2))
   {
    const auto q = db.new_person();
    db.set_code(q, 6);
    db.delete_person(p);
   }
  }
  db.hard_checkpoint();
 }
 const std::string before = file.get_data();
 const size_t n = size_t(sym_param("size", 4));
 const std::string tail = sym_string("tail", n);
 // 1: updates of vectors; 2: vectors; 3: updates
 const int first = int(sym_param("first", 0));
 if (first == 1) sym_assume(uint8_t(tail[0]) > 0x80 && ((uint8_t(tail[0]) - 0x81) & 3) == 3);
 if (first == 2) sym_assume(tail[0] == 0x0f || tail[0] == 0x14);
 if (first == 2) for (size_t i = 1; i < tail.size(); i++) sym_assume(tail[i] >= 0 && tail[i] <= int(sym_param("small", 6)));
 if (first == 3) sym_assume(uint8_t(tail[0]) > 0x80 && ((uint8_t(tail[0]) - 0x81) & 3) != 3);
 file.get_data() += tail;
 const int64_t size = int64_t(file.get_data().size());
 int64_t header[4] = {size, size, -size, -size};
 std::memcpy(&file.get_data()[0], header, 32);
 bool ok = true;
 try
 {
  if (sym_choice("writable", 2))
  {
   store::Writable_Database db(file);
   check(db);
  }
  else
  {
   store::Readonly_Database db(file);
   check(db);
  }
 }
 catch (const std::exception &) {ok = false;}
 sym_reach(ok ? "accepted" : "refused");
 sym_trace(ok);
 if (file.get_data().size() >= before.size())
  sym_assert(h::same_string(file.get_data().substr(41, before.size() - 41), before.substr(41)), "nothing committed is changed");
 else
  sym_fail("nothing committed is lost");
 sym_reach("end");
}
