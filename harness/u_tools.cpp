// Tools that copy, convert and print databases
#include "ops.h"
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/Multiplexer.h"
#include "joedb/is_identifier.h"
#include "joedb/ui/Interpreter.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/merge.h"
#include "joedb/ui/json.h"
#include <cmath>
#include <map>
using namespace joedb;

// six significant digits are enough for these; the last three are not finite
static const float f32[] = {0.0f, -0.0f, 1.0f, 0.1f, -2.5f, 1e10f, 1e-45f, INFINITY, -INFINITY, NAN};
static const double f64[] = {0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 4.94066e-324, INFINITY, -INFINITY, NAN};
static const int64_t ints[] = {0, -1, 7, 12345, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN};

static void any_value(h::Op &o, bool finite, const char *name)
{
 uint64_t v = 0;
 switch (o.type)
 {
  case h::t_string: (o.s.empty() ? o.s : o.s2) = sym_string(name, size_t(sym_param("len", 2))); return;
  case h::t_int32: v = uint64_t(ints[sym_choice(name, 6)]); break;
  case h::t_int64: v = uint64_t(ints[sym_choice(name, 8)]); break;
  case h::t_reference: v = uint64_t(int64_t(sym_choice(name, 4)) - 1); break;
  case h::t_boolean: v = sym_range(name, 0, 1); break;
  case h::t_float32: v = h::bits(f32[sym_choice(name, finite ? 7 : 10)]); break;
  case h::t_float64: v = h::bits(f64[sym_choice(name, finite ? 7 : 10)]); break;
  case h::t_int8: v = sym_u8(name); break;
  case h::t_int16: v = uint64_t(int64_t(sym_range(name, 0, uint64_t(sym_param("int16", 200)))) - 100); break;
  case h::t_blob: v = 42; break;
 }
 (o.n == 1 ? o.value2 : o.value) = v;
}

static const int types[] = {h::t_string, h::t_reference, h::t_int8, h::t_boolean, h::t_int64, h::t_float64, h::t_float32, h::t_int32, h::t_int16, h::t_blob};

struct Maker
{
 Database db;
 Memory_File file;
 Writable_Journal journal{file};
 Multiplexer all{db, journal};
 int type = 0;
 bool finite = false, blobs = false;
 bool sql = false;
 std::map<int64_t, std::string> written; // blobs, by position
 bool bad_target = false; // a field refers to a table that was dropped

 void schema()
 {
  type = types[uint32_t(sym_param("first", 0)) + sym_choice("type", uint32_t(sym_param("types", 3)))];
  all.create_table("city");
  const bool gap = sym_choice("gap", 2);
  if (gap) {all.create_table("x"); all.drop_table(Table_Id(2));}
  all.create_table("person");
  h::Op o;
  o.kind = h::op_add_field;
  o.table = person();
  o.type = uint32_t(type);
  o.other = 1;
  if (gap)
  {
   all.add_field(Table_Id(o.table), "y", Type::int8());
   all.drop_field(Table_Id(o.table), Field_Id(1));
  }
  o.s = "f";
  h::apply(o, all);
  all.add_field(Table_Id(o.table), "note", Type::int8());
 }
 uint16_t person() const {return uint16_t(db.get_tables().rbegin()->first);}
 uint16_t field() const {return uint16_t(db.find_field(Table_Id(person()), "f"));}

 // an operation on the data
 void data()
 {
  static const int kinds[] = {h::op_update, h::op_insert, h::op_delete, h::op_insert_vector, h::op_delete_vector, h::op_update_vector};
  h::Op o;
  o.kind = kinds[sym_choice("kind", 6)];
  o.table = person();
  o.record = sym_choice("record", 3);
  o.n = o.kind == h::op_update || o.kind == h::op_insert || o.kind == h::op_delete ? 0 : 2;
  apply_data(o);
 }
 void apply_data(h::Op &o)
 {
  if (o.kind == h::op_update || o.kind == h::op_update_vector)
  {
   if (sql && type == h::t_blob) sym_stop();
   o.field = field();
   o.type = uint32_t(type);
   const size_t n = o.n;
   o.n = 0; any_value(o, finite, "v");
   if (n == 2) {o.n = 1; any_value(o, finite, "w");}
   o.n = n;
  }
  if (h::throws([&]{h::apply(o, all);})) sym_stop();
 }
 // other operations
 void other()
 {
  h::Op o;
  const Table_Id p{person()};
  switch (sym_choice("other", 11))
  {
   case 0: all.comment(sym_string("comment", 2)); break;
   case 1: all.custom("do_it"); break;
   case 2: all.timestamp(sym_choice("past", 2) ? -5 : 1600000000); break;
   case 3: all.valid_data(); break;
   case 4: all.rename_table(p, "people"); break;
   case 5: all.rename_field(p, Field_Id(field()), "g"); all.rename_field(p, db.find_field(p, "g"), "f"); break;
   case 6: all.add_field(p, "z", Type::reference(p)); break;
   case 7: all.drop_field(p, db.find_field(p, "note")); break;
   case 8: all.drop_table(Table_Id(1)); if (type == h::t_reference) bad_target = true; break;
   case 9: all.rename_field(p, Field_Id(field()), "note2"); all.rename_field(p, db.find_field(p, "note2"), "f"); break;
   case 10:
   {
    if (!blobs) sym_stop();
    const std::string bytes = sym_string("blob", 2);
    const Blob blob = all.write_blob(bytes);
    if (sql && type == h::t_blob && db.is_used(p, Record_Id(1)))
    {
     all.update_blob(p, Record_Id(1), Field_Id(field()), blob);
     written[blob.get_position()] = bytes;
    }
   }
   break;
  }
 }
 void history(int n)
 {
  schema();
  if (sym_choice("records", 2)) all.insert_vector(Table_Id(person()), Record_Id(0), 2);
  int others = int(sym_param("others", 1));
  for (int i = 0; i < n; i++)
   if (others > 0 && sym_choice("what", 2)) {others--; other();}
   else data();
  journal.soft_checkpoint();
 }
};

static bool is_nan(int type, uint64_t a)
{
 if (type == int(Type::Type_Id::float32)) return (a & 0x7f800000u) == 0x7f800000u && (a & 0x7fffffu);
 if (type == int(Type::Type_Id::float64)) return (a & 0x7ff0000000000000u) == 0x7ff0000000000000u && (a & 0xfffffffffffffu);
 return false;
}

// same tables and fields, by rank; same records, same values
static void check_ranked(const Readable &x, const Readable &y)
{
 const auto &tx = x.get_tables();
 const auto &ty = y.get_tables();
 sym_assert(tx.size() == ty.size(), "same number of tables");
 std::map<Table_Id, Table_Id> map;
 {
  auto j = ty.begin();
  for (auto i = tx.begin(); i != tx.end(); ++i, ++j) map[i->first] = j->first;
 }
 for (const auto &[id, name]: tx)
 {
  const Table_Id jd = map[id];
  sym_assert(h::same_string(name, ty.find(jd)->second), "same table names");
  const auto &fx = x.get_fields(id);
  const auto &fy = y.get_fields(jd);
  sym_assert(fx.size() == fy.size(), "same number of fields");
  const Freedom_Keeper &kx = x.get_freedom(id);
  const Freedom_Keeper &ky = y.get_freedom(jd);
  sym_assert(kx.get_used_count() == ky.get_used_count(), "same number of records");
  auto g = fy.begin();
  for (auto f = fx.begin(); f != fx.end(); ++f, ++g)
  {
   sym_assert(h::same_string(f->second, g->second), "same field names");
   const Type a = x.get_field_type(id, f->first), b = y.get_field_type(jd, g->first);
   sym_assert(a.get_type_id() == b.get_type_id(), "same field type");
   if (a.get_type_id() == Type::Type_Id::reference)
    sym_assert(tx.count(a.get_table_id()) ? map[a.get_table_id()] == b.get_table_id() : !ty.count(b.get_table_id()), "same reference target");
   for (Record_Id r = kx.get_first_used(); r != Freedom_Keeper::used_list; r = kx.get_next(r))
   {
    sym_assert(ky.is_used(r), "same records");
    const h::Value v = h::get_value(x, id, r, f->first), w = h::get_value(y, jd, r, g->first);
    if (is_nan(int(a.get_type_id()), v.a))
     sym_assert(is_nan(int(a.get_type_id()), w.a), "not a number");
    else
     h::check_value(v, w, "same value in every record");
   }
  }
 }
}

static void interpret(const std::string &text, const Readable &db, Writable &w)
{
 Interpreter interpreter(db, w, Record_Id::null);
 interpreter.set_rethrow(true);
 interpreter.set_echo(false);
 std::istringstream in(text);
 std::ostringstream out;
 interpreter.main_loop(in, out);
}

// joedb_logdump | joedbi
extern "C" void logdump()
{
 Maker m;
 m.blobs = true;
 m.history(int(sym_param("steps", 2)));
 std::ostringstream out;
 {
  Interpreter_Dump_Writable w(out, true);
  Readonly_Journal j(m.file);
  j.replay_log(w);
 }
 sym_trace_str(out.str());
 Database db;
 Memory_File file;
 Writable_Journal journal(file);
 Multiplexer all{db, journal};
 try {interpret(out.str(), db, all);}
 catch (const Exception &e) {sym_log(e.what()); sym_fail("the dump can be interpreted");}
 journal.soft_checkpoint();
 check_ranked(m.db, db);
 h::Recorder a, b;
 a.want_blobs = b.want_blobs = true;
 Readonly_Journal ja(m.file), jb(file);
 ja.replay_log(a);
 jb.replay_log(b);
 sym_assert(a.events.size() == b.events.size(), "the same operations");
 for (size_t i = 0; i < a.events.size(); i++)
 {
  const h::Event &x = a.events[i], &y = b.events[i];
  sym_assert(x.kind == y.kind, "same kind of operation");
  sym_assert(x.a == y.a || x.kind == h::k_blob, "same table and field");
  sym_assert((x.kind == h::k_blob || x.b == y.b) && h::same_string(x.s, y.s), "same operation");
 }
 sym_assert(a.blobs.size() == b.blobs.size(), "same blobs");
 for (size_t i = 0; i < a.blobs.size(); i++) sym_assert(h::same_string(a.blobs[i], b.blobs[i]), "same blob");
 sym_reach("end");
}

// the dump command
extern "C" void dump_command()
{
 Maker m;
 m.history(int(sym_param("steps", 2)));
 if (m.bad_target) sym_stop();
 std::ostringstream out;
 {
  Interpreter_Dump_Writable w(out);
  dump(m.db, w);
 }
 Database db;
 try {interpret(out.str(), db, db);}
 catch (const Exception &e) {sym_log(e.what()); sym_fail("the dump can be interpreted");}
 check_ranked(m.db, db);
 // directly
 Database copy;
 dump(m.db, copy);
 check_ranked(m.db, copy);
 sym_reach("end");
}

// numbers with many digits
extern "C" void float_digits()
{
 static const float fs[] = {0.1f, 3.14159274f, 16777217.0f, 0.333333343f};
 static const double ds[] = {0.1, 3.14159265358979, 16777217.0, 1.0 / 3};
 const bool is_double = sym_choice("double", 2);
 const uint32_t k = sym_choice("value", 4);
 Database db;
 db.create_table("t");
 db.add_field(Table_Id(1), "f", is_double ? Type::float64() : Type::float32());
 db.insert_into(Table_Id(1), Record_Id(0));
 if (is_double) db.update_float64(Table_Id(1), Record_Id(0), Field_Id(1), ds[k]);
 else db.update_float32(Table_Id(1), Record_Id(0), Field_Id(1), fs[k]);
 std::ostringstream out;
 {
  Interpreter_Dump_Writable w(out);
  dump(db, w);
 }
 Database copy;
 interpret(out.str(), copy, copy);
 // six significant digits at least
 const double a = is_double ? db.get_float64(Table_Id(1), Record_Id(0), Field_Id(1)) : db.get_float32(Table_Id(1), Record_Id(0), Field_Id(1));
 const double b = is_double ? copy.get_float64(Table_Id(1), Record_Id(0), Field_Id(1)) : copy.get_float32(Table_Id(1), Record_Id(0), Field_Id(1));
 sym_assert(a - b <= a * 5e-6 && b - a <= a * 5e-6, "six digits are kept in a dump");
 sym_reach("end");
 sym_assert(h::bits(a) == h::bits(b), "all digits are kept in a dump");
}

// packing
extern "C" void pack_file()
{
 Maker m;
 m.blobs = true;
 m.history(int(sym_param("steps", 3)));
 h::Recorder before;
 {Readonly_Journal j(m.file); j.replay_log(before);}
 bool blobs = false;
 for (const auto &e: before.events) if (e.kind == h::k_blob) blobs = true;
 Memory_File file;
 bool refused = false;
 {
  Readonly_Journal input(m.file);
  Writable_Journal output(file);
  try {pack(input, output);}
  catch (const Exception &) {refused = true;}
 }
 sym_assert(refused == blobs, "only files with blobs are refused");
 if (refused) {sym_reach("refused"); sym_stop();}
 Database db;
 h::Recorder after;
 {Readonly_Journal j(file); j.replay_log(db);}
 {Readonly_Journal j(file); j.replay_log(after);}
 h::check_same_db(m.db, db);
 // the definitions, in the same order, and no history
 auto is_schema = [](int k) {return k <= h::k_custom;};
 size_t n = 0;
 for (const auto &e: before.events)
  if (is_schema(e.kind))
  {
   sym_assert(n < after.events.size(), "all data definitions are kept");
   h::check_event(e, after.events[n++]);
  }
 for (; n < after.events.size(); n++)
 {
  const int k = after.events[n].kind;
  sym_assert(k == h::k_insert || k == h::k_insert_vector || k == h::k_update || k == h::k_update_vector, "only current data follows");
 }
 sym_reach("end");
}

// merging
extern "C" void merge_databases()
{
 const int type = types[sym_choice("type", uint32_t(sym_param("types", 2)))];
 auto schema = [&](Writable &w)
 {
  w.create_table("city");
  w.create_table("person");
  h::Op o;
  o.kind = h::op_add_field; o.table = 2; o.s = "f"; o.type = uint32_t(type); o.other = 1;
  h::apply(o, w);
  w.add_field(Table_Id(2), "best", Type::reference(Table_Id(2)));
  w.add_field(Table_Id(1), "mayor", Type::reference(Table_Id(2)));
 };
 Database a, b, old;
 schema(a); schema(b); schema(old);
 auto fill = [&](Database &d, Writable *copy)
 {
  for (int t = 1; t <= 2; t++)
  {
   const uint32_t shape = sym_choice("shape", 4); // empty, one, two, a hole
   if (!shape) continue;
   auto put = [&](h::Op &o) {h::apply(o, d); if (copy) h::apply(o, *copy);};
   {h::Op o; o.kind = h::op_insert_vector; o.table = uint16_t(t); o.n = shape == 1 ? 1 : 2; put(o);}
   if (shape == 3) {h::Op o; o.kind = h::op_delete; o.table = uint16_t(t); o.record = 0; put(o);}
   const uint64_t r = shape >= 2 ? 1 : 0;
   h::Op o; o.kind = h::op_update; o.table = uint16_t(t); o.record = r;
   if (t == 2)
   {
    o.field = 1; o.type = uint32_t(type); any_value(o, true, "v"); put(o);
    o.field = 2; o.type = h::t_reference; o.value = uint64_t(int64_t(sym_choice("ref", 3)) - 1); put(o);
   }
   else {o.field = 1; o.type = h::t_reference; o.value = uint64_t(int64_t(sym_choice("ref", 3)) - 1); put(o);}
  }
 };
 fill(a, &old);
 fill(b, nullptr);
 merge(a, b);
 for (int t = 1; t <= 2; t++)
 {
  const Table_Id id{uint16_t(t)};
  const index_t shift = to_underlying(old.get_size(id));
  const index_t count = to_underlying(b.get_size(id));
  sym_assert(to_underlying(a.get_freedom(id).get_used_count()) == to_underlying(old.get_freedom(id).get_used_count()) + to_underlying(b.get_freedom(id).get_used_count()), "all records of both");
  for (index_t i = 0; i < shift + count + 2; i++)
  {
   const bool first = i < shift;
   const Readable &source = first ? static_cast<Readable &>(old) : b;
   const Record_Id r{i}, s{first ? i : i - shift};
   sym_assert(a.is_used(id, r) == source.is_used(id, s), "the records of one, then those of the other");
   if (a.is_used(id, r))
    for (const auto &[fid, name]: a.get_fields(id))
    {
     h::Value v = h::get_value(source, id, s, fid);
     const Type &ft = a.get_field_type(id, fid);
     if (!first && ft.get_type_id() == Type::Type_Id::reference && int64_t(v.a) >= 0)
      v.a += uint64_t(to_underlying(old.get_size(ft.get_table_id())));
     h::check_value(h::get_value(a, id, r, fid), v, "values are kept, references are translated");
    }
  }
 }
 sym_reach("end");
}

// just enough SQL
struct Sql
{
 struct Cell {bool null = true; std::string token;};
 struct Table
 {
  std::vector<std::pair<std::string, std::string>> columns;
  std::map<int64_t, std::map<std::string, Cell>> rows;
 };
 std::map<std::string, Table> tables;
 bool in_transaction = false;

 const std::string t;
 size_t i = 0;
 std::vector<std::string> words; // of the current statement

 Sql(const std::string &s): t(s) {}

 bool statement()
 {
  words.clear();
  while (i < t.size())
  {
   const char c = t[i];
   if (c == '-' && i + 1 < t.size() && t[i + 1] == '-')
   {
    while (i < t.size() && t[i] != '\n' && t[i] != '\r') i++;
    continue;
   }
   i++;
   if (c == ' ' || c == '\n' || c == '\r') continue;
   if (c == ';') return true;
   if (c == '"')
   {
    std::string w = "\"";
    while (i < t.size() && t[i] != '"') w.push_back(t[i++]);
    sym_assert(i < t.size(), "SQL identifiers are closed");
    i++;
    words.push_back(w);
   }
   else if (c == '(' || c == ')' || c == '=') words.push_back(std::string(1, c));
   else if (c == 'X' && i < t.size() && t[i] == '\'')
   {
    std::string w = "'";
    for (i++; i < t.size() && t[i] != '\''; i++) w.push_back(t[i]);
    sym_assert(i < t.size() && w.size() % 2, "SQL hexadecimal strings are closed");
    i++;
    words.push_back(w);
   }
   else
   {
    sym_assert(c != 'i' && c != 'n' && !(c == '-' && i < t.size() && (t[i] == 'i' || t[i] == 'n')), "SQL has finite numbers only");
    sym_assert((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-', "SQL syntax");
    std::string w(1, c);
    while (i < t.size() && t[i] != ' ' && t[i] != ';' && t[i] != '(' && t[i] != ')' && t[i] != '\n') w.push_back(t[i++]);
    words.push_back(w);
   }
  }
  sym_assert(words.empty(), "SQL statements end with a semicolon");
  return false;
 }
 bool is(size_t k, const char *w) const {return k < words.size() && words[k] == w;}
 std::string name(size_t k) const
 {
  sym_assert(k < words.size() && words[k].size() > 1 && words[k][0] == '"', "SQL name");
  return words[k].substr(1);
 }
 Table &table(size_t k)
 {
  const auto it = tables.find(name(k));
  sym_assert(it != tables.end(), "SQL table exists");
  return it->second;
 }
 static int column(const Table &x, const std::string &n)
 {
  for (size_t k = 0; k < x.columns.size(); k++) if (x.columns[k].first == n) return int(k);
  return -1;
 }
 void run()
 {
  while (statement())
  {
   const size_t n = words.size();
   if (is(0, "BEGIN") && is(1, "TRANSACTION") && n == 2) {sym_assert(!in_transaction, "no nested transaction"); in_transaction = true;}
   else if (is(0, "COMMIT") && n == 1) {sym_assert(in_transaction, "commits a transaction"); in_transaction = false;}
   else if (is(0, "CREATE") && is(1, "TABLE"))
   {
    sym_assert(n == 9 && is(3, "(") && is(4, "\"__id") && is(5, "INTEGER") && is(6, "PRIMARY") && is(7, "KEY") && is(8, ")"), "SQL CREATE TABLE");
    sym_assert(tables.emplace(name(2), Table{}).second, "SQL table is new");
   }
   else if (is(0, "DROP") && is(1, "TABLE") && n == 3) {table(2); tables.erase(name(2));}
   else if (is(0, "ALTER") && is(1, "TABLE"))
   {
    Table &x = table(2);
    if (is(3, "RENAME") && is(4, "TO") && n == 6)
    {
     Table y = x;
     tables.erase(name(2));
     sym_assert(tables.emplace(name(5), y).second, "SQL new name of a table is new");
    }
    else if (is(3, "ADD") && n >= 6)
    {
     sym_assert(column(x, name(4)) < 0, "SQL column is new");
     if (n > 6) {sym_assert(n == 8 && is(6, "REFERENCES"), "SQL column type"); table(7);}
     x.columns.emplace_back(name(4), words[5] + (n > 6 ? " " + name(7) : ""));
    }
    else if (is(3, "DROP") && is(4, "COLUMN") && n == 6)
    {
     const int c = column(x, name(5));
     sym_assert(c >= 0, "SQL column exists");
     x.columns.erase(x.columns.begin() + c);
     for (auto &[id, row]: x.rows) row.erase(name(5));
    }
    else
    {
     sym_assert(n == 8 && is(3, "RENAME") && is(4, "COLUMN") && is(6, "TO"), "SQL ALTER TABLE");
     const int c = column(x, name(5));
     sym_assert(c >= 0 && column(x, name(7)) < 0, "SQL column exists, and its new name is new");
     x.columns[size_t(c)].first = name(7);
     for (auto &[id, row]: x.rows) {row[name(7)] = row[name(5)]; row.erase(name(5));}
    }
   }
   else if (is(0, "INSERT") && is(1, "INTO"))
   {
    sym_assert(n == 10 && is(3, "(") && is(4, "\"__id") && is(5, ")") && is(6, "VALUES") && is(7, "(") && is(9, ")"), "SQL INSERT");
    sym_assert(table(2).rows.emplace(number(words[8]), std::map<std::string, Cell>()).second, "SQL inserted row is new");
   }
   else if (is(0, "DELETE") && is(1, "FROM"))
   {
    sym_assert(n == 7 && is(3, "WHERE") && is(4, "\"__id") && is(5, "="), "SQL DELETE");
    sym_assert(table(2).rows.erase(number(words[6])) == 1, "SQL deleted row exists");
   }
   else
   {
    sym_assert(n == 10 && is(0, "UPDATE") && is(2, "SET") && is(4, "=") && is(6, "WHERE") && is(7, "\"__id") && is(8, "="), "SQL statement");
    Table &x = table(1);
    sym_assert(column(x, name(3)) >= 0, "SQL updated column exists");
    const auto row = x.rows.find(number(words[9]));
    sym_assert(row != x.rows.end(), "SQL updated row exists");
    Cell &c = row->second[name(3)];
    c.null = is(5, "NULL");
    c.token = words[5];
   }
  }
 }
 static int64_t number(const std::string &w)
 {
  std::istringstream in(w);
  int64_t x = 0;
  in >> x;
  sym_assert(!in.fail(), "SQL integer");
  return x;
 }
 static unsigned digit(char c) {return unsigned(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);}
};

// joedb_logdump --sql, and the sql command
extern "C" void sql_dump()
{
 const bool log = sym_choice("log", 2);
 Maker m;
 m.finite = !sym_param("infinite", 0);
 m.blobs = m.sql = log;
 m.history(int(sym_param("steps", 2)));
 if (m.bad_target) sym_stop();
 std::ostringstream out;
 const bool reader = log && sym_choice("reader", 2);
 {
  SQL_Dump_Writable w(out, reader ? &m.file : nullptr);
  if (log)
  {
   Readonly_Journal j(m.file);
   j.replay_log(w);
  }
  else
   dump(m.db, w);
 }
 sym_trace_str(out.str());
 Sql sql(out.str());
 sql.run();
 sym_assert(!sql.in_transaction, "the last transaction is committed");
 const Readable &db = m.db;
 sym_assert(sql.tables.size() == db.get_tables().size(), "same number of SQL tables");
 for (const auto &[tid, tname]: db.get_tables())
 {
  const auto found = sql.tables.find(tname);
  sym_assert(found != sql.tables.end(), "SQL table names");
  const Sql::Table &x = found->second;
  sym_assert(x.columns.size() == db.get_fields(tid).size(), "same number of SQL columns");
  int64_t used = 0;
  for (Record_Id r{0}; r < db.get_size(tid); ++r)
   if (db.is_used(tid, r))
   {
    used++;
    sym_assert(x.rows.count(to_underlying(r)), "SQL row exists");
   }
  sym_assert(x.rows.size() == size_t(used), "same number of SQL rows");
  for (const auto &[fid, fname]: db.get_fields(tid))
  {
   const int c = Sql::column(x, fname);
   sym_assert(c >= 0, "SQL column names");
   const Type &type = db.get_field_type(tid, fid);
   static const char * const names[] = {"NULL", "TEXT", "INTEGER", "BIGINT", "INTEGER ", "SMALLINT", "REAL", "REAL", "SMALLINT", "SMALLINT", "BLOB"};
   const std::string &declared = x.columns[size_t(c)].second;
   if (type.get_type_id() == Type::Type_Id::reference)
    sym_assert(declared.compare(0, 8, "INTEGER ") == 0, "SQL reference type");
   else
    sym_assert(declared == names[int(type.get_type_id())], "SQL type");
   for (const auto &[id, row]: x.rows)
   {
    const Record_Id r{id};
    const auto it = row.find(fname);
    const bool null = it == row.end() || it->second.null;
    const std::string w = null ? std::string() : it->second.token;
    const h::Value v = h::get_value(db, tid, r, fid);
    switch (type.get_type_id())
    {
     case Type::Type_Id::string:
     {
      sym_assert(null || w[0] == '\'', "SQL string value");
      const std::string &s = db.get_string(tid, r, fid);
      sym_assert((null ? 0 : w.size() - 1) == 2 * s.size(), "size of a SQL string");
      for (size_t k = 0; k < s.size(); k++) sym_assert(Sql::digit(w[1 + 2 * k]) * 16 + Sql::digit(w[2 + 2 * k]) == uint8_t(s[k]), "SQL string");
     }
     break;
     case Type::Type_Id::reference:
      sym_assert(null ? int64_t(v.a) == -1 || log : Sql::number(w) == int64_t(v.a), "SQL reference");
     break;
     case Type::Type_Id::float32:
     {
      size_t n = 0;
      const float f = null ? 0 : sym_parse_float(w.c_str(), &n);
      sym_assert(n == w.size() && h::bits(f) == uint32_t(v.a), "SQL number");
     }
     break;
     case Type::Type_Id::float64:
     {
      size_t n = 0;
      const double f = null ? 0 : sym_parse_double(w.c_str(), &n);
      sym_assert(n == w.size() && h::bits(f) == v.a, "SQL number");
     }
     break;
     case Type::Type_Id::blob:
      sym_assert(null == (!reader || !m.written.count(int64_t(v.a))), "SQL blobs are written when they can be read");
      if (!null)
      {
       sym_reach("blob");
       const std::string &s = m.written[int64_t(v.a)];
       sym_assert(w.size() == 1 + 2 * s.size(), "size of a SQL blob");
       for (size_t k = 0; k < s.size(); k++) sym_assert(Sql::digit(w[1 + 2 * k]) * 16 + Sql::digit(w[2 + 2 * k]) == uint8_t(s[k]), "SQL blob");
      }
     break;
     default:
     {
      const int64_t y = null ? 0 : Sql::number(w);
      const uint64_t mask = type.get_type_id() == Type::Type_Id::int8 || type.get_type_id() == Type::Type_Id::boolean ? 0xff : type.get_type_id() == Type::Type_Id::int16 ? 0xffff : type.get_type_id() == Type::Type_Id::int32 ? 0xffffffffu : ~0ULL;
      sym_assert(((uint64_t(y) ^ v.a) & mask) == 0, "SQL integer");
     }
    }
   }
  }
 }
 sym_reach("end");
}

// a reader of the JSON text
struct Json
{
 const std::string t;
 size_t i = 0;
 void space() {while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) i++;}
 void expect(char c) {space(); sym_assert(i < t.size() && t[i] == c, "JSON syntax"); i++;}
 bool is(char c) {space(); return i < t.size() && t[i] == c;}
 std::string string()
 {
  expect('"');
  std::string s;
  while (true)
  {
   sym_assert(i < t.size(), "JSON string");
   const char c = t[i++];
   if (c == '"') return s;
   sym_assert(uint8_t(c) >= 0x20, "JSON string character");
   if (c != '\\') {s.push_back(c); continue;}
   const char e = t[i++];
   if (e == 'u')
   {
    unsigned x = 0;
    for (int k = 0; k < 4; k++) {const char d = t[i++]; x = x * 16 + unsigned(d <= '9' ? d - '0' : (d | 32) - 'a' + 10);}
    s.push_back(char(x));
   }
   else {sym_assert(e == '"' || e == '\\', "JSON escape"); s.push_back(e);}
  }
 }
 std::string word()
 {
  space();
  std::string s;
  while (i < t.size() && t[i] != ',' && t[i] != ']' && t[i] != '}' && t[i] != ' ' && t[i] != '\n') s.push_back(t[i++]);
  return s;
 }
};

extern "C" void json_dump()
{
 Maker m;
 m.finite = !sym_param("infinite", 0);
 m.history(int(sym_param("steps", 2)));
 const Readable &db = m.db;
 std::ostringstream out;
 const int result = write_json(out, db, false);
 if (m.type == h::t_string && result) {sym_reach("refused"); sym_stop();}
 sym_trace_str(out.str());
 Json j{out.str()};
 j.expect('{');
 bool first = true, special = false;
 for (const auto &[tid, tname]: db.get_tables())
 {
  if (!first) j.expect(',');
  first = false;
  sym_assert(h::same_string(j.string(), tname), "JSON table name");
  j.expect(':'); j.expect('{');
  sym_assert(j.string() == "__size", "JSON size");
  j.expect(':');
  sym_assert(j.word() == std::to_string(to_underlying(db.get_freedom(tid).get_used_count())), "JSON table size");
  for (const auto &[fid, fname]: db.get_fields(tid))
  {
   j.expect(',');
   sym_assert(h::same_string(j.string(), fname), "JSON field name");
   j.expect(':'); j.expect('[');
   const Type &type = db.get_field_type(tid, fid);
   bool some = false;
   for (Record_Id r{0}; r < db.get_size(tid); ++r)
   {
    if (!db.is_used(tid, r)) continue;
    if (some) j.expect(',');
    some = true;
    switch (type.get_type_id())
    {
     case Type::Type_Id::string: sym_assert(h::same_string(j.string(), db.get_string(tid, r, fid)), "JSON string value"); break;
     case Type::Type_Id::boolean: {const std::string w = j.word(); sym_assert(w == (db.get_boolean(tid, r, fid) ? "true" : "false"), "JSON boolean");} break;
     case Type::Type_Id::reference:
     {
      const Table_Id target = type.get_table_id();
      const Record_Id to = db.get_reference(tid, r, fid);
      int64_t rank = -1;
      if (db.get_tables().count(target))
      {
       if (db.is_used(target, to))
       {
        rank = 0;
        for (Record_Id k{0}; k < to; ++k) if (db.is_used(target, k)) rank++;
       }
      }
      else rank = to_underlying(to);
      sym_assert(j.word() == std::to_string(rank), "JSON reference is the rank of the record");
     }
     break;
     case Type::Type_Id::blob: j.expect('['); j.word(); j.expect(','); j.word(); j.expect(']'); break;
     case Type::Type_Id::float32:
     {
      const std::string w = j.word();
      size_t used; const float f = sym_parse_float(w.c_str(), &used);
      if (!std::isfinite(db.get_float32(tid, r, fid))) {special = true; sym_assert(w == "0", "JSON for infinity"); break;}
      sym_assert(used == w.size() && h::bits(f) == h::bits(db.get_float32(tid, r, fid)), "JSON number");
     }
     break;
     case Type::Type_Id::float64:
     {
      const std::string w = j.word();
      size_t used; const double f = sym_parse_double(w.c_str(), &used);
      if (!std::isfinite(db.get_float64(tid, r, fid))) {special = true; sym_assert(w == "0", "JSON for infinity"); break;}
      sym_assert(used == w.size() && h::bits(f) == h::bits(db.get_float64(tid, r, fid)), "JSON number");
     }
     break;
     default:
     {
      std::istringstream in(j.word());
      int64_t x = 0;
      in >> x;
      const h::Value v = h::get_value(db, tid, r, fid);
      const uint64_t mask = type.get_type_id() == Type::Type_Id::int8 ? 0xff : type.get_type_id() == Type::Type_Id::int16 ? 0xffff : type.get_type_id() == Type::Type_Id::int32 ? 0xffffffffu : ~0ULL;
      sym_assert(!in.fail() && ((uint64_t(x) ^ v.a) & mask) == 0, "JSON integer");
     }
    }
   }
   j.expect(']');
  }
  j.expect('}');
 }
 j.expect('}');
 j.space();
 sym_assert(j.i == j.t.size(), "nothing after the JSON value");
 sym_assert(result == (special ? JSON_Error::infnan : JSON_Error::ok), "numbers that JSON cannot represent are reported");
 if (special) sym_reach("infnan");
 sym_reach("end");
}
