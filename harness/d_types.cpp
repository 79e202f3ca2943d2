// Generated code for a table with a field of each type, against a model, the interpreter and reopening
// generated: kinds
#include "ops.h"
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "kinds/Writable_Database.h"
#include "kinds/Readonly_Database.h"
#include "kinds/Readable.h"
using namespace joedb;
using namespace kinds;

static const int fields = 10;
struct Row {bool used = false; h::Value v[fields];};

static void clear(Row &r) {for (auto &v: r.v) v = h::Value(); r.v[2].a = uint64_t(-1);}

static h::Value any_value(int k)
{
 h::Value v;
 switch (k)
 {
  case 0: v.s = sym_string("s", sym_choice("length", 3)); break;
  case 1: v.a = sym_range("position", 0, 200); v.b = sym_range("size", 0, 200); break; // longer encodings are checked by J02
  case 2: v.a = sym_range("reference", 0, 200) - 1; break;
  case 3: v.a = sym_range("boolean", 0, 1); break;
  case 4: v.a = sym_u8("i8"); break;
  case 5: v.a = sym_u16("i16"); break;
  case 6: v.a = sym_u32("i32"); break;
  case 7: v.a = sym_u64("i64"); break;
  case 8: v.a = sym_u32("f32"); break;
  case 9: v.a = sym_u64("f64"); break;
 }
 return v;
}

static void set_value(Writable_Database &db, id_of_line l, int k, const h::Value &v)
{
 switch (k)
 {
  case 0: db.set_s(l, v.s); break;
  case 1: db.set_p(l, Blob(int64_t(v.a), int64_t(v.b))); break;
  case 2: db.set_r(l, id_of_other(int64_t(v.a))); break;
  case 3: db.set_b(l, v.a != 0); break;
  case 4: db.set_i8(l, int8_t(v.a)); break;
  case 5: db.set_i16(l, int16_t(v.a)); break;
  case 6: db.set_i32(l, int32_t(v.a)); break;
  case 7: db.set_i64(l, int64_t(v.a)); break;
  case 8: db.set_f32(l, h::as_float(uint32_t(v.a))); break;
  case 9: db.set_f64(l, h::as_double(v.a)); break;
 }
}

static void set_vector(Writable_Database &db, id_of_line l, int k, size_t n, const h::Value *v)
{
 switch (k)
 {
  case 0: db.update_vector_of_s(l, n, [&](Span<std::string> s) {for (size_t i = 0; i < n; i++) s[i] = v[i].s;}); break;
  case 1: db.update_vector_of_p(l, n, [&](Span<Blob> s) {for (size_t i = 0; i < n; i++) s[i] = Blob(int64_t(v[i].a), int64_t(v[i].b));}); break;
  case 2: db.update_vector_of_r(l, n, [&](Span<id_of_other> s) {for (size_t i = 0; i < n; i++) s[i] = id_of_other(int64_t(v[i].a));}); break;
  case 3: db.update_vector_of_b(l, n, [&](Span<char> s) {for (size_t i = 0; i < n; i++) s[i] = char(v[i].a);}); break;
  case 4: db.update_vector_of_i8(l, n, [&](Span<int8_t> s) {for (size_t i = 0; i < n; i++) s[i] = int8_t(v[i].a);}); break;
  case 5: db.update_vector_of_i16(l, n, [&](Span<int16_t> s) {for (size_t i = 0; i < n; i++) s[i] = int16_t(v[i].a);}); break;
  case 6: db.update_vector_of_i32(l, n, [&](Span<int32_t> s) {for (size_t i = 0; i < n; i++) s[i] = int32_t(v[i].a);}); break;
  case 7: db.update_vector_of_i64(l, n, [&](Span<int64_t> s) {for (size_t i = 0; i < n; i++) s[i] = int64_t(v[i].a);}); break;
  case 8: db.update_vector_of_f32(l, n, [&](Span<float> s) {for (size_t i = 0; i < n; i++) s[i] = h::as_float(uint32_t(v[i].a));}); break;
  case 9: db.update_vector_of_f64(l, n, [&](Span<double> s) {for (size_t i = 0; i < n; i++) s[i] = h::as_double(v[i].a);}); break;
 }
}

template<typename DB> static h::Value get(const DB &db, id_of_line l, int k)
{
 h::Value v;
 switch (k)
 {
  case 0: v.s = db.get_s(l); break;
  case 1: v.a = uint64_t(db.get_p(l).get_position()); v.b = uint64_t(db.get_p(l).get_size()); break;
  case 2: v.a = uint64_t(db.get_r(l).get_id()); break;
  case 3: v.a = db.get_b(l); break;
  case 4: v.a = h::bits(db.get_i8(l)); break;
  case 5: v.a = h::bits(db.get_i16(l)); break;
  case 6: v.a = h::bits(db.get_i32(l)); break;
  case 7: v.a = h::bits(db.get_i64(l)); break;
  case 8: v.a = h::bits(db.get_f32(l)); break;
  case 9: v.a = h::bits(db.get_f64(l)); break;
 }
 return v;
}

template<typename DB> static void check(const DB &db, const std::vector<Row> &rows, int k)
{
 size_t count = 0;
 for (size_t i = 0; i < rows.size(); i++)
 {
  const id_of_line l{int64_t(i)};
  sym_assert(db.is_valid(l) == rows[i].used, "exactly the inserted records exist");
  if (!rows[i].used) continue;
  count++;
  h::check_value(get(db, l, k), rows[i].v[k], "a value reads back as written");
  const int other = (k + 1) % fields;
  h::check_value(get(db, l, other), rows[i].v[other], "other fields are not changed");
 }
 sym_assert(size_t(db.get_line_table().get_size()) == count, "number of records");
}

extern "C" void types()
{
 Memory_File file;
 auto db = std::make_unique<Writable_Database>(file);
 std::vector<Row> rows;
 const int k = int(sym_choice("field", fields));
 auto add = [&](int64_t id)
 {
  sym_assert(id >= 0 && (size_t(id) >= rows.size() || !rows[size_t(id)].used), "a new record does not replace another one");
  while (rows.size() <= size_t(id)) {rows.emplace_back(); clear(rows.back());}
  rows[size_t(id)].used = true;
  clear(rows[size_t(id)]);
 };
 auto vector = [&](size_t n) {const auto v = db->new_vector_of_line(n); for (size_t i = 0; i < n; i++) add(v[i].get_id());};
 vector(1 + sym_choice("start", 2));
 rows[0].v[k] = any_value(k);
 set_value(*db, id_of_line(0), k, rows[0].v[k]);
 for (int i = int(sym_param("steps", 3)); --i >= 0;)
  switch (sym_choice("op", 6))
  {
   case 0: add(db->new_line().get_id()); break;
   case 1: vector(2); break;
   case 2:
   {
    const size_t r = sym_choice("record", 3);
    const bool used = r < rows.size() && rows[r].used;
    const h::Value v = any_value(k);
    sym_assert(h::throws([&]{set_value(*db, id_of_line(int64_t(r)), k, v);}) == !used, "an update succeeds exactly for existing records");
    if (used) rows[r].v[k] = v;
    break;
   }
   case 3:
   {
    const size_t r = sym_choice("record", 2);
    if (r + 1 >= rows.size() || !rows[r].used || !rows[r + 1].used) sym_stop();
    h::Value v[2] = {any_value(k), any_value(k)};
    set_vector(*db, id_of_line(int64_t(r)), k, 2, v);
    rows[r].v[k] = v[0];
    rows[r + 1].v[k] = v[1];
    break;
   }
   case 4:
   {
    const size_t r = sym_choice("record", 3);
    const bool used = r < rows.size() && rows[r].used;
    sym_assert(h::throws([&]{db->delete_line(id_of_line(int64_t(r)));}) == !used, "deletion succeeds exactly for existing records");
    if (used) rows[r].used = false;
    break;
   }
   case 5: // close and reopen
    db->soft_checkpoint();
    db.reset();
    db = std::make_unique<Writable_Database>(file);
    break;
  }
 check(*db, rows, k);
 db->soft_checkpoint();
 {
  Memory_File copy;
  file.copy_to(copy);
  Readonly_Database again(copy);
  check(again, rows, k);
 }
 {
  joedb::Database reference;
  Readonly_Journal journal(file);
  journal.replay_log(reference);
  h::check_same_db(kinds::Readable(*db), reference);
 }
 sym_reach("end");
}
