// Comparing databases
#ifndef HARNESS_DB_H
#define HARNESS_DB_H
#include "common.h"
#include "joedb/Readable.h"
#include "joedb/Freedom_Keeper.h"
namespace h
{
 struct Value {uint64_t a = 0, b = 0; std::string s;};

 inline Value get_value(const Readable &db, Table_Id t, Record_Id r, Field_Id f)
 {
  Value v;
  switch (db.get_field_type(t, f).get_type_id())
  {
   case Type::Type_Id::string: v.s = db.get_string(t, r, f); break;
   case Type::Type_Id::blob: v.a = uint64_t(db.get_blob(t, r, f).get_position()); v.b = uint64_t(db.get_blob(t, r, f).get_size()); break;
   case Type::Type_Id::reference: v.a = uint64_t(to_underlying(db.get_reference(t, r, f))); break;
   case Type::Type_Id::boolean: v.a = db.get_boolean(t, r, f) ? 1 : 0; break;
   case Type::Type_Id::int8: v.a = bits(db.get_int8(t, r, f)); break;
   case Type::Type_Id::int16: v.a = bits(db.get_int16(t, r, f)); break;
   case Type::Type_Id::int32: v.a = bits(db.get_int32(t, r, f)); break;
   case Type::Type_Id::int64: v.a = bits(db.get_int64(t, r, f)); break;
   case Type::Type_Id::float32: v.a = bits(db.get_float32(t, r, f)); break;
   case Type::Type_Id::float64: v.a = bits(db.get_float64(t, r, f)); break;
   default: break;
  }
  return v;
 }

 inline void check_value(const Value &x, const Value &y, const char *m)
 {
  sym_assert((x.a ^ y.a) == 0, m);
  sym_assert((x.b ^ y.b) == 0, m);
  sym_assert(same_string(x.s, y.s), m);
 }

 // values of unused records are not compared
 inline void check_same_db(const Readable &x, const Readable &y)
 {
  const auto &tx = x.get_tables();
  const auto &ty = y.get_tables();
  sym_assert(tx.size() == ty.size(), "same number of tables");
  for (const auto &[id, name]: tx)
  {
   const auto it = ty.find(id);
   sym_assert(it != ty.end(), "same table ids");
   sym_assert(same_string(name, it->second), "same table names");
   const auto &fx = x.get_fields(id);
   const auto &fy = y.get_fields(id);
   sym_assert(fx.size() == fy.size(), "same number of fields");
   for (const auto &[fid, fname]: fx)
   {
    const auto fit = fy.find(fid);
    sym_assert(fit != fy.end(), "same field ids");
    sym_assert(same_string(fname, fit->second), "same field names");
    const Type a = x.get_field_type(id, fid), b = y.get_field_type(id, fid);
    sym_assert(a.get_type_id() == b.get_type_id(), "same field type");
    if (a.get_type_id() == Type::Type_Id::reference)
     sym_assert(a.get_table_id() == b.get_table_id(), "same reference target");
   }
   const Freedom_Keeper &kx = x.get_freedom(id);
   const Freedom_Keeper &ky = y.get_freedom(id);
   sym_assert(kx.get_used_count() == ky.get_used_count(), "same number of records");
   for (Record_Id r = kx.get_first_used(); r != Freedom_Keeper::used_list; r = kx.get_next(r))
   {
    sym_assert(ky.is_used(r), "same records");
    for (const auto &[fid, fname]: fx)
     check_value(get_value(x, id, r, fid), get_value(y, id, r, fid), "same value in every record");
   }
  }
 }
}
#endif
