// A symbolic operation, applied to several listeners
#ifndef HARNESS_OPS_H
#define HARNESS_OPS_H
#include "common.h"
#include <functional>
namespace h
{
 struct Op
 {
  int kind = 0;
  uint16_t table = 0, field = 0, other = 0;
  uint64_t record = 0, value = 0, value2 = 0;
  size_t n = 0;
  uint32_t type = 0;
  std::string s, s2;
 };

 enum
 {
  op_insert, op_update, op_update_vector, op_insert_vector, op_delete, op_delete_vector,
  op_timestamp, op_valid, op_comment, op_custom, op_create_table, op_drop_table, op_rename_table,
  op_add_field, op_drop_field, op_rename_field, op_blob, op_kinds
 };

 // update types: 10 scalar types
 enum {t_string, t_int32, t_int64, t_reference, t_boolean, t_float32, t_float64, t_int8, t_int16, t_blob, t_types};

 inline uint64_t any_record() {return sym_range("record", 0, 1ULL << sym_param("rec_bits", 60)) - 1;}
 inline uint16_t any_table() {return uint16_t(sym_range("table", uint64_t(sym_param("min_table", 0)), uint64_t(sym_param("max_table", 65535))));}
 inline uint16_t any_field() {return uint16_t(sym_range("field", 0, uint64_t(sym_param("max_field", 65535))));}

 inline Op make_op(int kind, int type = -1, size_t max_string = 2)
 {
  Op o;
  o.kind = kind;
  switch (kind)
  {
   case op_insert: case op_delete: o.table = any_table(); o.record = any_record(); break;
   case op_update:
    o.table = any_table(); o.record = any_record(); o.field = any_field();
    o.type = type >= 0 ? uint32_t(type) : sym_choice("type", t_types);
    switch (o.type)
    {
     case t_string: o.s = sym_string("s", sym_choice("len", uint32_t(max_string) + 1)); break;
     case t_boolean: o.value = sym_range("bool", 0, 1); break;
     case t_reference: o.value = any_record(); break;
     case t_blob: o.value = sym_range("blob_position", 0, 1ULL << 60); o.value2 = sym_range("blob_size", 0, 1ULL << 60); break;
     default: o.value = sym_u64("value");
    }
    break;
   case op_update_vector:
    o.table = any_table(); o.record = any_record(); o.field = any_field();
    o.type = type >= 0 ? uint32_t(type) : sym_choice("type", t_types);
    o.n = 1 + sym_choice("n", 2);
    o.value = o.type == t_reference || o.type == t_blob ? sym_range("value", 0, 1ULL << 60) : o.type == t_boolean ? sym_range("value", 0, 1) : sym_u64("value");
    o.value2 = o.type == t_reference || o.type == t_blob ? sym_range("value2", 0, 1ULL << 60) : o.type == t_boolean ? sym_range("value2", 0, 1) : sym_u64("value2");
    if (o.type == t_string) {o.s = sym_string("s", 2); o.s2 = sym_string("s2", 1);}
    break;
   case op_insert_vector: case op_delete_vector: o.table = any_table(); o.record = any_record(); o.n = size_t(sym_range("n", 0, 1ULL << 60)); break;
   case op_timestamp: o.value = sym_u64("timestamp"); break;
   case op_valid: break;
   case op_comment: case op_custom: case op_create_table: o.s = sym_string("s", sym_choice("len", uint32_t(max_string) + 1)); break;
   case op_drop_table: o.table = any_table(); break;
   case op_rename_table: o.table = any_table(); o.s = sym_string("s", 1); break;
   case op_add_field: o.table = any_table(); o.s = sym_string("s", 1); o.type = sym_choice("type", t_types); o.other = sym_u16("target"); break;
   case op_drop_field: o.table = any_table(); o.field = any_field(); break;
   case op_rename_field: o.table = any_table(); o.field = any_field(); o.s = sym_string("s", 1); break;
   case op_blob: o.s = sym_string("blob", sym_choice("len", 3)); break;
  }
  return o;
 }

 inline float as_float(uint64_t x) {float f; uint32_t y = uint32_t(x); std::memcpy(&f, &y, 4); return f;}
 inline double as_double(uint64_t x) {double f; std::memcpy(&f, &x, 8); return f;}

 inline Type op_type(const Op &o)
 {
  switch (o.type)
  {
   case t_string: return Type::string();
   case t_int32: return Type::int32();
   case t_int64: return Type::int64();
   case t_reference: return Type::reference(Table_Id(o.other));
   case t_boolean: return Type::boolean();
   case t_float32: return Type::float32();
   case t_float64: return Type::float64();
   case t_int8: return Type::int8();
   case t_int16: return Type::int16();
   default: return Type::blob();
  }
 }

 // is_journal: blobs are written to journals, and announced to other listeners
 inline void apply(const Op &o, Writable &w, Blob *blob = nullptr)
 {
  const Table_Id t = Table_Id(o.table);
  const Record_Id r = Record_Id(index_t(o.record));
  const Field_Id f = Field_Id(o.field);
  switch (o.kind)
  {
   case op_insert: w.insert_into(t, r); break;
   case op_delete: w.delete_from(t, r); break;
   case op_insert_vector: w.insert_vector(t, r, o.n); break;
   case op_delete_vector: w.delete_vector(t, r, o.n); break;
   case op_timestamp: w.timestamp(int64_t(o.value)); break;
   case op_valid: w.valid_data(); break;
   case op_comment: w.comment(o.s); break;
   case op_custom: w.custom(o.s); break;
   case op_create_table: w.create_table(o.s); break;
   case op_drop_table: w.drop_table(t); break;
   case op_rename_table: w.rename_table(t, o.s); break;
   case op_add_field: w.add_field(t, o.s, op_type(o)); break;
   case op_drop_field: w.drop_field(t, f); break;
   case op_rename_field: w.rename_field(t, f, o.s); break;
   case op_blob:
    if (blob && blob->is_not_null()) w.on_blob(*blob);
    else {const Blob b = w.write_blob(o.s); if (blob) *blob = b;}
    break;
   case op_update:
    switch (o.type)
    {
     case t_string: w.update_string(t, r, f, o.s); break;
     case t_int32: w.update_int32(t, r, f, int32_t(o.value)); break;
     case t_int64: w.update_int64(t, r, f, int64_t(o.value)); break;
     case t_reference: w.update_reference(t, r, f, Record_Id(index_t(o.value))); break;
     case t_boolean: w.update_boolean(t, r, f, o.value != 0); break;
     case t_float32: w.update_float32(t, r, f, as_float(o.value)); break;
     case t_float64: w.update_float64(t, r, f, as_double(o.value)); break;
     case t_int8: w.update_int8(t, r, f, int8_t(o.value)); break;
     case t_int16: w.update_int16(t, r, f, int16_t(o.value)); break;
     case t_blob: w.update_blob(t, r, f, Blob(int64_t(o.value), int64_t(o.value2))); break;
    }
    break;
   case op_update_vector:
    switch (o.type)
    {
     case t_string: {const std::string v[2] = {o.s, o.s2}; w.update_vector_string(t, r, f, o.n, v);} break;
     case t_int32: {const int32_t v[2] = {int32_t(o.value), int32_t(o.value2)}; w.update_vector_int32(t, r, f, o.n, v);} break;
     case t_int64: {const int64_t v[2] = {int64_t(o.value), int64_t(o.value2)}; w.update_vector_int64(t, r, f, o.n, v);} break;
     case t_reference: {const Record_Id v[2] = {Record_Id(index_t(o.value)), Record_Id(index_t(o.value2))}; w.update_vector_reference(t, r, f, o.n, v);} break;
     case t_boolean: {const char v[2] = {char(o.value), char(o.value2)}; w.update_vector_boolean(t, r, f, o.n, v);} break;
     case t_float32: {const float v[2] = {as_float(o.value), as_float(o.value2)}; w.update_vector_float32(t, r, f, o.n, v);} break;
     case t_float64: {const double v[2] = {as_double(o.value), as_double(o.value2)}; w.update_vector_float64(t, r, f, o.n, v);} break;
     case t_int8: {const int8_t v[2] = {int8_t(o.value), int8_t(o.value2)}; w.update_vector_int8(t, r, f, o.n, v);} break;
     case t_int16: {const int16_t v[2] = {int16_t(o.value), int16_t(o.value2)}; w.update_vector_int16(t, r, f, o.n, v);} break;
     case t_blob: {const Blob v[2] = {Blob(int64_t(o.value), int64_t(o.value2)), Blob(int64_t(o.value2), int64_t(o.value))}; w.update_vector_blob(t, r, f, o.n, v);} break;
    }
    break;
  }
 }
}
#endif
