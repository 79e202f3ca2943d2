// Interpreted database against a model
#include "ops.h"
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/is_identifier.h"
using namespace joedb;

struct MField {std::string name; uint32_t type; uint16_t target;};
struct MCell {bool known = false; h::Value v;};
struct MTable
{
 std::string name;
 uint16_t last_field = 0;
 std::map<uint16_t, MField> fields;
 std::vector<bool> used;
 std::vector<std::map<uint16_t, MCell>> cells;
};

struct Model
{
 uint16_t last_table = 0;
 std::map<uint16_t, MTable> tables;
 int64_t max_record;
};

static const char *const names[] = {"a", "b", "c_1", "", "1a", "a b", "_x"};
static bool good_name(const std::string &s)
{
 if (s.empty()) return false;
 for (size_t i = 0; i < s.size(); i++)
 {
  const char c = s[i];
  const bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
  const bool digit = c >= '0' && c <= '9';
  if (!(letter || (digit && i > 0))) return false;
 }
 return true;
}

enum Verdict {valid, invalid, unspecified};

static MTable *find_table(Model &m, uint16_t id)
{
 for (auto &[k, t]: m.tables) if (k == id) return &t;
 return nullptr;
}
static bool table_name_used(Model &m, const std::string &s) {for (auto &[k, t]: m.tables) if (t.name == s) return true; return false;}
static bool field_name_used(MTable &t, const std::string &s) {for (auto &[k, f]: t.fields) if (f.name == s) return true; return false;}
static MField *find_field(MTable &t, uint16_t id) {for (auto &[k, f]: t.fields) if (k == id) return &f; return nullptr;}

static MCell fresh(uint32_t type)
{
 MCell c;
 c.known = true;
 if (type == h::t_reference) c.v.a = uint64_t(-1);
 return c;
}

static void use(Model &, MTable &t, int64_t r)
{
 while (int64_t(t.used.size()) <= r) {t.used.push_back(false); t.cells.emplace_back();}
 t.used[size_t(r)] = true;
 for (auto &[k, f]: t.fields)
  if (!t.cells[size_t(r)].count(k)) t.cells[size_t(r)][k] = fresh(f.type); // null, zero or empty
}

static h::Value op_value(const h::Op &o, size_t i = 0)
{
 h::Value v;
 const uint64_t x = i ? o.value2 : o.value;
 switch (o.type)
 {
  case h::t_string: v.s = i ? o.s2 : o.s; break;
  case h::t_blob: v.a = x; v.b = i ? o.value : o.value2; break;
  case h::t_int32: case h::t_float32: v.a = uint32_t(x); break;
  case h::t_int16: v.a = uint16_t(x); break;
  case h::t_int8: v.a = uint8_t(x); break;
  case h::t_boolean: v.a = x & 1; break;
  default: v.a = x;
 }
 return v;
}

// what the operation should do
static Verdict apply_model(Model &m, const h::Op &o)
{
 switch (o.kind)
 {
  case h::op_create_table:
   if (!good_name(o.s) || table_name_used(m, o.s)) return invalid;
   m.tables[++m.last_table].name = o.s;
   return valid;
  case h::op_timestamp: case h::op_valid: case h::op_comment: case h::op_custom: return valid;
  default:;
 }
 MTable *t = find_table(m, o.table);
 if (!t) return invalid;
 const int64_t r = int64_t(o.record);
 const int64_t n = int64_t(t->used.size());
 switch (o.kind)
 {
  case h::op_drop_table: m.tables.erase(o.table); return valid;
  case h::op_rename_table:
   if (!good_name(o.s)) return invalid;
   if (t->name == o.s) return unspecified;
   if (table_name_used(m, o.s)) return invalid;
   t->name = o.s;
   return valid;
  case h::op_add_field:
   if (!good_name(o.s) || field_name_used(*t, o.s)) return invalid;
   t->fields[++t->last_field] = {o.s, o.type, o.other};
   for (size_t i = 0; i < t->cells.size(); i++) t->cells[i][t->last_field] = fresh(o.type);
   return valid;
  case h::op_drop_field:
   if (!find_field(*t, o.field)) return invalid;
   t->fields.erase(o.field);
   for (auto &c: t->cells) c.erase(o.field);
   return valid;
  case h::op_rename_field:
  {
   MField *f = find_field(*t, o.field);
   if (!f || !good_name(o.s)) return invalid;
   if (f->name == o.s) return unspecified;
   if (field_name_used(*t, o.s)) return invalid;
   f->name = o.s;
   return valid;
  }
  case h::op_insert:
   if (r < 0 || (m.max_record >= 0 && r > m.max_record) || (r < n && t->used[size_t(r)])) return invalid;
   use(m, *t, r);
   return valid;
  case h::op_delete:
   if (r < 0 || r >= n || !t->used[size_t(r)]) return invalid;
   t->used[size_t(r)] = false;
   t->cells[size_t(r)].clear();
   return valid;
  case h::op_insert_vector:
  {
   if (r < 0) return invalid;
   if (o.n == 0 || (m.max_record >= 0 && (r >= m.max_record || o.n >= size_t(m.max_record)))) return unspecified;
   if (o.n >= size_t(1) << 63) return invalid;
   if (o.n >= size_t(1) << 60) return r == n && !t->fields.empty() ? invalid : unspecified;
   for (int64_t i = r; i < r + int64_t(o.n); i++) if (i < n && t->used[size_t(i)]) return invalid;
   for (int64_t i = r; i < r + int64_t(o.n); i++) use(m, *t, i);
   return valid;
  }
  case h::op_delete_vector:
   if (o.n == 0) return unspecified;
   for (int64_t i = r; i < r + int64_t(o.n); i++) if (i < 0 || i >= n || !t->used[size_t(i)]) return invalid;
   for (int64_t i = r; i < r + int64_t(o.n); i++)
   {
    t->used[size_t(i)] = false;
    t->cells[size_t(i)].clear();
   }
   return valid;
  case h::op_update: case h::op_update_vector:
  {
   MField *f = find_field(*t, o.field);
   if (!f) return invalid;
   const size_t len = o.kind == h::op_update ? 1 : o.n;
   for (int64_t i = r; i < r + int64_t(len); i++) if (i < 0 || i >= n || !t->used[size_t(i)])
    return invalid;
   if (f->type != o.type) return invalid;
   for (size_t i = 0; i < len; i++) t->cells[size_t(r) + i][o.field] = {true, op_value(o, i)};
   return valid;
  }
 }
 return unspecified;
}

static void check(const Database &db, const Model &m)
{
 sym_assert(db.get_tables().size() == m.tables.size(), "number of tables");
 for (const auto &[id, t]: m.tables)
 {
  const Table_Id tid{id};
  const auto it = db.get_tables().find(tid);
  sym_assert(it != db.get_tables().end(), "table id");
  sym_assert(it->second == t.name, "table name");
  sym_assert(db.find_table(t.name) == tid, "find_table");
  const auto &fields = db.get_fields(tid);
  sym_assert(fields.size() == t.fields.size(), "number of fields");
  for (const auto &[fid, f]: t.fields)
  {
   const auto fit = fields.find(Field_Id(fid));
   sym_assert(fit != fields.end(), "field id");
   sym_assert(fit->second == f.name, "field name");
   sym_assert(db.find_field(tid, f.name) == Field_Id(fid), "find_field");
   h::Op o; o.type = f.type; o.other = f.target;
   const Type type = db.get_field_type(tid, Field_Id(fid));
   sym_assert(type.get_type_id() == h::op_type(o).get_type_id(), "field type");
   if (f.type == h::t_reference) sym_assert(type.get_table_id() == Table_Id(f.target), "reference target");
  }
  int64_t count = 0;
  for (size_t i = 0; i < t.used.size(); i++) if (t.used[i]) count++;
  const Freedom_Keeper &fk = db.get_freedom(tid);
  sym_assert(to_underlying(fk.get_used_count()) == count, "number of records");
  sym_assert(!db.is_used(tid, Record_Id(index_t(t.used.size()))), "records past the end are not used");
  for (size_t i = 0; i < t.used.size(); i++)
  {
   const Record_Id r{index_t(i)};
   sym_assert(db.is_used(tid, r) == t.used[i], "records in use");
   if (t.used[i])
    for (const auto &[fid, f]: t.fields)
    {
     const auto c = t.cells[i].find(fid);
     if (c != t.cells[i].end() && c->second.known)
      h::check_value(h::get_value(db, tid, r, Field_Id(fid)), c->second.v, "value of a field");
    }
  }
 }
}

static h::Op small_op(int kind, int type = -1)
{
 h::Op o;
 o.kind = kind;
 const int64_t max = sym_param("max_record", 3);
 const bool few = sym_param("few", 1);
 auto any_table = [&]{return uint16_t(few ? 1 + 2 * sym_range("table", 0, 1) : sym_range("table", 0, 3));};
 auto any_field = [&]{return uint16_t(few ? 2 + 2 * sym_range("field", 0, 1) - 1 : sym_range("field", 0, 4));};
 o.table = any_table();
 auto record = [&]{o.record = sym_range("record", 0, uint64_t(max) + 2) - 1;};
 auto name = [&]{o.s = names[few ? 1 + 2 * sym_choice("name", 3) : sym_choice("name", 7)];};
 switch (kind)
 {
  case h::op_create_table: name(); break;
  case h::op_drop_table: break;
  case h::op_rename_table: name(); break;
  case h::op_add_field: name(); o.type = type >= 0 ? uint32_t(type) : sym_choice("type", h::t_types); o.other = uint16_t(few ? 2 : sym_range("target", 0, 3)); break;
  case h::op_drop_field: o.field = any_field(); break;
  case h::op_rename_field: o.field = any_field(); name(); break;
  case h::op_insert: case h::op_delete: record(); break;
  case h::op_insert_vector: case h::op_delete_vector: 
   record();
   o.n = sym_choice("n", kind == h::op_insert_vector ? 5 : 4);
   if (o.n == 4) o.n = size_t(1) << (sym_choice("huge", 2) ? 63 : 61);
   break;
  case h::op_update: case h::op_update_vector:
   record();
   o.field = any_field();
   o.type = type >= 0 ? uint32_t(type) : sym_choice("type", h::t_types);
   if (kind == h::op_update_vector) o.n = 1 + sym_choice("n", 2);
   if (o.type == h::t_string) {o.s = sym_string("s", few ? 2 : sym_choice("len", 3)); o.s2 = sym_string("s2", 1);}
   else if (o.type == h::t_boolean) {o.value = sym_range("bool", 0, 1); o.value2 = sym_range("bool", 0, 1);}
   else {o.value = sym_u64("value"); o.value2 = sym_u64("value2");}
   break;
 }
 return o;
}

static void step(Database &db, Model &m, const h::Op &op)
{
 h::Op o = op;
 o.table = uint16_t(sym_concretize(o.table));
 o.field = uint16_t(sym_concretize(o.field));
 o.record = sym_concretize(o.record);
 Model next = m;
 const Verdict v = apply_model(next, o);
 if (v == unspecified) {sym_stop();}
 const bool thrown = h::throws([&]{h::apply(o, db);});
 if (v == valid)
 {
  sym_assert(!thrown, "a valid operation is accepted");
  m = next;
 }
 else
 {
  sym_assert(thrown, "an invalid operation is rejected");
  sym_reach("rejected");
 }
}

static void schema(Database &db, Model &m, const std::vector<int> &types)
{
 h::Op o;
 o.kind = h::op_create_table; o.s = "a"; step(db, m, o); o.s = "b"; step(db, m, o);
 const char *f[] = {"p", "q", "r", "s"};
 for (size_t i = 0; i < types.size(); i++)
 {
  h::Op a; a.kind = h::op_add_field; a.table = 1; a.s = f[i]; a.type = uint32_t(types[i]); a.other = 2; step(db, m, a);
 }
}

// data operations
extern "C" void data()
{
 Model m;
 m.max_record = sym_param("limit", 1) ? sym_param("max_record", 3) : -1;
 Database db{Record_Id(m.max_record)};
 static const int types[] = {h::t_string, h::t_boolean, h::t_int32, h::t_blob, h::t_int64, h::t_reference, h::t_float32, h::t_float64, h::t_int8, h::t_int16};
 const int t1 = types[sym_choice("type_1", uint32_t(sym_param("types", 3)))];
 schema(db, m, {t1, h::t_int64});
 // what is there before
 const uint32_t before = sym_choice("before", 3);
 if (before) {h::Op o; o.kind = h::op_insert_vector; o.table = 1; o.record = 0; o.n = 2; step(db, m, o);}
 if (before == 2) {h::Op o; o.kind = h::op_delete; o.table = 1; o.record = 0; step(db, m, o);}
 const int steps = int(sym_param("steps", 2));
 static const int kinds[] = {h::op_insert, h::op_delete, h::op_insert_vector, h::op_delete_vector, h::op_update, h::op_update_vector};
 for (int i = 0; i < steps; i++)
 {
  const int k = kinds[sym_choice("kind", 6)];
  // the declared type, or another one
  const int type = k == h::op_update || k == h::op_update_vector ? (sym_choice("wrong_type", 2) ? (t1 + 1) % h::t_types : t1) : -1;
  h::Op o = small_op(k, type);
  step(db, m, o);
 }
 check(db, m);
 sym_reach("end");
}

// schema operations, with data around
extern "C" void schema_changes()
{
 Model m;
 m.max_record = 10;
 Database db{Record_Id(m.max_record)};
 schema(db, m, {h::t_int64, h::t_string});
 {h::Op o; o.kind = h::op_insert_vector; o.table = 1; o.record = 0; o.n = 2; step(db, m, o);}
 {h::Op o; o.kind = h::op_update; o.table = 1; o.record = 1; o.field = 1; o.type = h::t_int64; o.value = sym_u64("first"); step(db, m, o);}
 if (sym_choice("hole", 2)) {h::Op o; o.kind = h::op_delete; o.table = 1; o.record = 0; step(db, m, o);}
 static const int kinds[] = {h::op_create_table, h::op_drop_table, h::op_rename_table, h::op_add_field, h::op_drop_field, h::op_rename_field};
 const int steps = int(sym_param("steps", 2));
 for (int i = 0; i < steps; i++)
  step(db, m, small_op(kinds[sym_choice("kind", 6)], sym_param("all_types", 1) ? -1 : h::t_int32));
 // and data again
 if (sym_param("after", 1))
 {
  h::Op o = small_op(sym_choice("insert", 2) ? h::op_insert : h::op_update, h::t_int64);
  sym_assume(o.record <= 3);
  step(db, m, o);
 }
 check(db, m);
 sym_reach("end");
}
