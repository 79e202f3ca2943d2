#include "sym.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/interpreted/Database.h"
#include "joedb/Multiplexer.h"
#include <sstream>
using namespace joedb;
extern "C" void harness()
{
 Memory_File file;
 Database db;
 {
  Writable_Journal journal(file);
  Multiplexer m{journal, db};
  m.create_table("person");
  const Table_Id t = db.find_table("person");
  m.add_field(t, "name", Type::string());
  m.add_field(t, "age", Type::int32());
  const Field_Id f = db.find_field(t, "name");
  const Field_Id g = db.find_field(t, "age");
  m.insert_into(t, Record_Id(0));
  m.insert_into(t, Record_Id(1));
  int n = sym_choice("n", 3);
  std::string s = sym_string("s", n);
  m.update_string(t, Record_Id(1), f, s);
  m.update_int32(t, Record_Id(0), g, (int32_t)sym_u32("age"));
  journal.hard_checkpoint();
 }
 Database db2;
 Readonly_Journal j(file);
 j.replay_log(db2);
 const Table_Id t = db.find_table("person");
 SYM_CHECK(db2.get_string(t, Record_Id(1), Field_Id(1)) == db.get_string(t, Record_Id(1), Field_Id(1)), "string");
 SYM_CHECK(db2.get_int32(t, Record_Id(0), Field_Id(2)) == db.get_int32(t, Record_Id(0), Field_Id(2)), "int");
 std::ostringstream o;
 o << 12 << "abc" << db2.get_int32(t, Record_Id(0), Field_Id(2));
 sym_trace_str(o.str());
 sym_trace(file.get_size());
 sym_reach("end");
}
