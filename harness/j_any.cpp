// A journal that contains anything
#include "common.h"
#include "joedb/interpreted/Database.h"
#include <limits>
using namespace joedb;

namespace
{
 int64_t size_bound = 0;

 // everything that can be read is read, and agrees with the schema
 void check(const Database &db)
 {
  size_t tables = 0;
  for (const auto &[tid, tname]: db.get_tables())
  {
   tables++;
   const Freedom_Keeper &freedom = db.get_freedom(tid);
   size_t used = 0;
   for (Record_Id r = freedom.get_first_used(); r != Freedom_Keeper::used_list; r = freedom.get_next(r))
   {
    used++;
    sym_assert(r >= Record_Id(0) && r < freedom.get_size() && freedom.is_used(r), "a record that exists is in the table");
    sym_assert(used <= size_t(freedom.get_used_count()), "the list of records is finite");
   }
   sym_assert(used == size_t(freedom.get_used_count()), "records are counted");
   for (const auto &[fid, fname]: db.get_fields(tid))
   {
    const Type type = db.get_field_type(tid, fid);
    for (Record_Id r = freedom.get_first_used(); r != Freedom_Keeper::used_list; r = freedom.get_next(r))
    {
     switch (type.get_type_id())
     {
      case Type::Type_Id::null: break;
      #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
      case Type::Type_Id::type_id: {const auto v = db.get_##type_id(tid, r, fid); (void)v;} break;
      #include "joedb/TYPE_MACRO.h"
     }
     if (type.get_type_id() == Type::Type_Id::string)
     {
      const std::string s = db.get_string(tid, r, fid);
      sym_assert(int64_t(s.size()) <= size_bound, "a string is not longer than the file");
      char sum = 0;
      for (char c: s) sum = char(sum ^ c);
      sym_trace(uint64_t(uint8_t(sum)));
     }
    }
   }
  }
  sym_trace(tables);
 }

 void replay(Memory_File &file, Recovery recovery)
 {
  size_bound = int64_t(file.get_data().size());
  Database db(Record_Id(int(sym_param("max_record", 4))));
  bool ok = true;
  try
  {
   Readonly_Journal journal{Journal_Construction_Lock(file, recovery)};
   sym_reach("opened");
   sym_assert(journal.get_checkpoint() >= 41 && journal.get_checkpoint() <= size_bound, "the checkpoint is in the file");
   journal.replay_log(db);
  }
  catch (const std::exception &) {ok = false;}
  sym_reach(ok ? "accepted" : "refused");
  sym_trace(ok);
  check(db);
 }
}

// any operations after a valid beginning
extern "C" void tail()
{
 Memory_File file;
 const Type::Type_Id types[] = {Type::Type_Id::int8, Type::Type_Id::string, Type::Type_Id::int32, Type::Type_Id::blob, Type::Type_Id::reference, Type::Type_Id::boolean};
 {
  Writable_Journal j(file);
  j.create_table("t");
  const int kind = int(sym_choice("column", uint32_t(sym_param("columns", 3))));
  j.add_field(Table_Id(1), "f", types[kind] == Type::Type_Id::reference ? Type::reference(Table_Id(1)) : Type(types[kind]));
  const int records = int(sym_choice("records", 3));
  if (records == 2) j.insert_vector(Table_Id(1), Record_Id(0), 2);
  else for (int i = 0; i < records; i++) j.insert_into(Table_Id(1), Record_Id(i));
  if (records == 2 && sym_choice("hole", 2)) j.delete_from(Table_Id(1), Record_Id(0));
  j.hard_checkpoint();
 }
 const size_t n = size_t(sym_param("size", 5));
 const std::string tail = sym_string("tail", n);
 // 1: updates of vectors; 2: vectors
 const int first = int(sym_param("first", 0));
 if (first == 1) sym_assume(uint8_t(tail[0]) > 0x80 && ((uint8_t(tail[0]) - 0x81) & 3) == 3);
 if (first == 2) sym_assume(tail[0] == 0x0f || tail[0] == 0x14);
 file.get_data() += tail;
 const int64_t size = int64_t(file.get_data().size());
 int64_t header[4] = {size, size, -size, -size};
 std::memcpy(&file.get_data()[0], header, 32);
 replay(file, Recovery::none);
 sym_reach("end");
}

// any header
extern "C" void header()
{
 Memory_File file;
 {
  Writable_Journal j(file);
  j.create_table("t");
  j.add_field(Table_Id(1), "f", Type::string());
  j.insert_into(Table_Id(1), Record_Id(0));
  j.update_string(Table_Id(1), Record_Id(0), Field_Id(1), "abc");
  j.hard_checkpoint();
 }
 const size_t n = size_t(sym_choice("length", 3));
 std::string &d = file.get_data();
 if (n == 0) d = sym_string("file", size_t(sym_param("short", 8)));
 else sym_bytes("header", &d[0], n == 1 ? 32 : 41);
 replay(file, sym_choice("ignore_header", 2) ? Recovery::ignore_header : Recovery::none);
 sym_reach("end");
}
