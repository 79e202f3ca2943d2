// The command interpreter
#include "ops.h"
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/Multiplexer.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/ui/Blob_Reader_Command_Processor.h"
#include <map>
using namespace joedb;

template<size_t N> static std::string pick(const char *name, const char * const (&list)[N])
{
 return list[sym_choice(name, uint32_t(N))];
}

static const char * const tables[] = {"person", "city", "nope", ""};
static const char * const fields[] = {"f", "note", "nope", ""};
static const char * const records[] = {"0", "1", "2", "3", "-1", "-2", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "99999999999999999999", "x", ""};
static const char * const sizes[] = {"0", "1", "2", "3", "8", "9", "10", "11", "9223372036854775807", "18446744073709551615", "-1", "x", ""};
static const char * const values[] = {"", "0", "-1", "127", "128", "300", "40000", "2147483648", "1e400", "inf", "x", "true", "1,2", ",", "\"", "\"a\"", "-2", "9223372036854775806", "2305843009213693951", "-5,3", "4,-1", "\"\\", "\"\\x", "\"\\1"};
static const char * const types[] = {"string", "int8", "int16", "int32", "int64", "float32", "float64", "boolean", "blob", "references"};
static const char * const new_names[] = {"z", "f", "person", "9", "a__b", "", "note"};

static std::string sp(const std::string &a, const std::string &b) {return b.empty() ? a : a + " " + b;}

// a line of text
static std::string any_command(uint64_t kinds, uint64_t lists)
{
 static const char * const words[] =
 {
  "update", "insert_into", "delete_from", "insert_vector", "delete_vector", "update_vector", // 0 to 5
  "table", "record", // 6, 7
  "create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom", // 8 to 14
  "comment", "timestamp", "write_blob", "read_blob", // 15 to 18
  "json", "dump", "sql", "schema", "echo", "#" // 19 to 24
 };
 std::vector<uint32_t> enabled;
 for (uint32_t i = 0; i < 25; i++) if (kinds >> i & 1) enabled.push_back(i);
 const uint32_t k = enabled[sym_choice("command", uint32_t(enabled.size()))];
 std::string s = words[k];
 auto table = [&]{s = sp(s, lists & 1 ? pick("table", tables) : "person");};
 auto field = [&]{s = sp(s, lists & 2 ? pick("field", fields) : "f");};
 auto record = [&]{s = sp(s, lists & 4 ? pick("record", records) : sym_choice("record", 2) ? "1" : "0");};
 auto size = [&]{s = sp(s, lists & 8 ? pick("size", sizes) : sym_choice("size", 2) ? "2" : "1");};
 auto value = [&](const char *name)
 {
  if (lists & 32) s = sp(s, sym_string(name, size_t(sym_param("len", 2))));
  else s = sp(s, lists & 16 ? pick(name, values) : "1");
 };
 auto new_name = [&]{s = sp(s, pick("new_name", new_names));};
 switch (k)
 {
  case 0: table(); record(); field(); value("value"); break;
  case 1: table(); record(); value("value"); break;
  case 2: table(); record(); break;
  case 3: case 4: table(); record(); size(); break;
  case 5: table(); record(); field(); size(); value("value"); if (lists & 64) value("value2"); break;
  case 6: table(); size(); if (lists & 128) {record(); size();} break;
  case 7: table(); record(); break;
  case 8: new_name(); break;
  case 9: table(); break;
  case 10: table(); new_name(); break;
  case 11:
  {
   table(); new_name();
   const std::string t = pick("new_type", types);
   s = sp(s, t);
   if (t == "references") table();
   if (lists & 256) {s += " ="; value("value");}
   break;
  }
  case 12: table(); field(); break;
  case 13: table(); field(); new_name(); break;
  case 14: new_name(); break;
  case 15: case 17: value("value"); break;
  case 16: value("value"); break;
  case 18: record(); s += ","; size(); break;
  case 19: value("value"); break;
  case 23: s += " off"; break;
 }
 return s;
}

struct World
{
 Database db{Record_Id(10)};
 Memory_File file;
 Writable_Journal journal{file};
 Multiplexer all{db, journal};
 uint32_t type;

 World()
 {
  static const int t[] = {h::t_string, h::t_reference, h::t_int8, h::t_boolean, h::t_int64, h::t_float64, h::t_float32, h::t_int32, h::t_int16, h::t_blob};
  type = uint32_t(t[uint32_t(sym_param("first", 0)) + sym_choice("type", uint32_t(sym_param("types", 1)))]);
  all.create_table("city");
  all.create_table("person");
  h::Op o;
  o.kind = h::op_add_field; o.table = 2; o.s = "f"; o.type = type; o.other = 1;
  h::apply(o, all);
  all.add_field(Table_Id(2), "note", Type::int8());
  all.insert_vector(Table_Id(2), Record_Id(0), 2);
  if (sym_choice("hole", 2)) all.delete_from(Table_Id(2), Record_Id(0));
 }
};

// any command
extern "C" void any_line()
{
 World w;
 const int lines = int(sym_param("lines", 1));
 const uint64_t lists = uint64_t(sym_param("lists", 1 + 2 + 4 + 8 + 16));
 for (int i = 0; i < lines; i++)
 {
  const std::string line = any_command(uint64_t(sym_param("kinds", 0x3f)), lists);
  const int64_t before = w.journal.get_position();
  Interpreter interpreter(w.db, w.all, Record_Id(10));
  Blob_Reader_Command_Processor blobs(w.file);
  interpreter.add_processor(blobs);
  std::istringstream in(line + "\n" + (sym_param("help", 0) ? "help\n" : ""));
  std::ostringstream out;
  const size_t tables_before = w.db.get_tables().size();
  try {interpreter.main_loop(in, out);}
  catch (const std::exception &e) {sym_log(e.what()); sym_fail("errors are reported, and the interpreter goes on");}
  const std::string text = out.str();
  const bool refused = text.compare(0, 16, "Exception caught") == 0;
  sym_log(text.c_str());
  if (refused)
  {
   sym_reach("refused");
   // these may have done part of their work
   if (line.compare(0, 11, "insert_into") && line.compare(0, 9, "add_field"))
   {
    sym_assert(w.journal.get_position() == before, "a command that is refused writes nothing");
    sym_assert(w.db.get_tables().size() == tables_before, "a command that is refused changes nothing");
   }
  }
  else
   sym_reach("accepted");
  sym_trace_str(text);
 }
 // the journal tells the same as the database
 w.journal.soft_checkpoint();
 Database copy(Record_Id(10));
 Readonly_Journal j(w.file);
 try {j.replay_log(copy);}
 catch (const std::exception &e) {sym_log(e.what()); sym_fail("what was accepted can be replayed");}
 h::check_same_db(w.db, copy);
 sym_reach("end");
}

// a value typed by the user is stored
extern "C" void typed_value()
{
 World w;
 w.all.insert_vector(Table_Id(1), Record_Id(0), 3);
 const Record_Id r{1};
 const Table_Id person{2};
 const bool vector = sym_choice("vector", 2);
 static const int64_t ints[] = {0, 1, -1, 42, 127, -128, 32767, -32768, 2147483647, -2147483648LL, INT64_MAX, INT64_MIN};
 std::string text;
 h::Value expected;
 expected.a = 0;
 switch (w.type)
 {
  case h::t_string:
  {
   static const char * const raw[] = {"abc", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"\\x41\\102\"", "\"\""};
   static const char * const meaning[] = {"abc", "a b", "\"", "\\", "AB", ""};
   const uint32_t k = sym_choice("string", 6);
   text = raw[k];
   expected.s = meaning[k];
   break;
  }
  case h::t_boolean: {const bool b = sym_choice("boolean", 2); const bool word = sym_choice("word", 2); text = word ? (b ? "true" : "false") : (b ? "1" : "0"); expected.a = b; break;}
  case h::t_blob: text = "12,34"; break;
  case h::t_float32: text = "-2.5"; expected.a = h::bits(-2.5f); break;
  case h::t_float64: text = "-2.5"; expected.a = h::bits(-2.5); break;
  default:
  {
   const uint32_t n = w.type == h::t_int8 ? 6 : w.type == h::t_int16 ? 8 : w.type == h::t_int32 ? 10 : 12;
   const int64_t x = w.type == h::t_reference ? int64_t(sym_choice("reference", 4)) - 1 : ints[sym_choice("int", n)];
   text = std::to_string(x);
   expected.a = uint64_t(x);
  }
 }
 const std::string spaces = sym_choice("space", 2) ? "  " : " ";
 std::string line = vector ? "update_vector" + spaces + "person 1 f 1" + spaces + text : "update person" + spaces + "1 f" + spaces + text;
 if (sym_choice("trailing", 2)) line += " \t";
 if (sym_choice("return", 2)) line += "\r";
 Interpreter interpreter(w.db, w.all, Record_Id(10));
 std::istringstream in(line + "\n");
 std::ostringstream out;
 interpreter.set_rethrow(true);
 interpreter.main_loop(in, out);
 const h::Value v = h::get_value(w.db, person, r, Field_Id(1));
 if (w.type == h::t_blob)
 {
  const Blob b = w.db.get_blob(person, r, Field_Id(1));
  sym_assert(b.get_position() == 12 && b.get_size() == 34, "the typed value is stored");
 }
 else if (w.type == h::t_string)
  sym_assert(h::same_string(v.s, expected.s), "the typed value is stored");
 else
 {
  const uint64_t mask = w.type == h::t_int8 || w.type == h::t_boolean ? 0xff : w.type == h::t_int16 ? 0xffff : w.type == h::t_int32 || w.type == h::t_float32 ? 0xffffffffu : ~0ULL;
  sym_assert(((v.a ^ expected.a) & mask) == 0, "the typed value is stored");
 }
 sym_reach("end");
}
