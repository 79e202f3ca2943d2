// Shared pieces of the harnesses: recording listener, model files.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "sym.h"
#include "joedb/Writable.h"
#include "joedb/journal/Abstract_File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/error/Exception.h"
#include <cstring>
#include <exception>
#include <memory>
#include <functional>
#include <sstream>

namespace h
{
 using namespace joedb;

 // one journal event, in a canonical form
 enum Kind
 {
  k_create_table, k_drop_table, k_rename_table, k_add_field, k_drop_field, k_rename_field, k_custom, k_comment,
  k_timestamp, k_valid_data, k_insert, k_delete, k_insert_vector, k_delete_vector, k_blob, k_update, k_update_vector
 };

 struct Event
 {
  int kind = 0;
  int type = 0;
  uint64_t a = 0, b = 0, c = 0, d = 0;
  std::string s;
  std::vector<uint64_t> v;
  std::vector<std::string> vs;
 };

 template<typename T> uint64_t bits(T x)
 {
  uint64_t r = 0;
  static_assert(sizeof(T) <= 8);
  std::memcpy(&r, &x, sizeof(T));
  return r;
 }
 inline uint64_t bits(bool x) {return x ? 1 : 0;}

 inline void put(Event &e, std::string_view s) {e.s = std::string(s);}
 inline void put(Event &e, const std::string &s) {e.s = s;}
 inline void put(Event &e, Blob x) {e.c = uint64_t(x.get_position()); e.d = uint64_t(x.get_size());}
 inline void put(Event &e, Record_Id x) {e.c = uint64_t(to_underlying(x));}
 inline void put(Event &e, int8_t x) {e.c = bits(x);}
 inline void put(Event &e, int16_t x) {e.c = bits(x);}
 inline void put(Event &e, int32_t x) {e.c = bits(x);}
 inline void put(Event &e, int64_t x) {e.c = bits(x);}
 inline void put(Event &e, float x) {e.c = bits(x);}
 inline void put(Event &e, double x) {e.c = bits(x);}
 inline void put(Event &e, bool x) {e.c = x ? 1 : 0;}

 inline void putv(Event &e, const std::string &s) {e.vs.push_back(s);}
 inline void putv(Event &e, Blob x) {e.v.push_back(uint64_t(x.get_position())); e.v.push_back(uint64_t(x.get_size()));}
 inline void putv(Event &e, Record_Id x) {e.v.push_back(uint64_t(to_underlying(x)));}
 template<typename T> void putv(Event &e, T x) {e.v.push_back(bits(x));}

 class Recorder: public Writable
 {
  public:
   std::vector<Event> events;
   bool want_blobs = false;
   std::vector<std::string> blobs;
   int64_t position = 0;
   int soft_checkpoints = 0;
   int64_t started = -1, ended = -1;
   int64_t get_position() const override {return position;}
   void start_writing(int64_t p) override {started = p;}
   void end_writing(int64_t p) override {ended = p; position = p;}
   void soft_checkpoint() override {soft_checkpoints++;}
   Event &add(int kind) {events.emplace_back(); events.back().kind = kind; return events.back();}
   void create_table(const std::string &n) override {add(k_create_table).s = n;}
   void drop_table(Table_Id t) override {add(k_drop_table).a = uint64_t(t);}
   void rename_table(Table_Id t, const std::string &n) override {Event &e = add(k_rename_table); e.a = uint64_t(t); e.s = n;}
   void add_field(Table_Id t, const std::string &n, Type type) override
   {
    Event &e = add(k_add_field);
    e.a = uint64_t(t);
    e.s = n;
    e.b = uint64_t(type.get_type_id());
    if (type.get_type_id() == Type::Type_Id::reference)
     e.c = uint64_t(type.get_table_id());
   }
   void drop_field(Table_Id t, Field_Id f) override {Event &e = add(k_drop_field); e.a = uint64_t(t); e.b = uint64_t(f);}
   void rename_field(Table_Id t, Field_Id f, const std::string &n) override {Event &e = add(k_rename_field); e.a = uint64_t(t); e.b = uint64_t(f); e.s = n;}
   void custom(const std::string &n) override {add(k_custom).s = n;}
   void comment(const std::string &n) override {add(k_comment).s = n;}
   void timestamp(int64_t t) override {add(k_timestamp).a = uint64_t(t);}
   void valid_data() override {add(k_valid_data);}
   void insert_into(Table_Id t, Record_Id r) override {Event &e = add(k_insert); e.a = uint64_t(t); e.b = uint64_t(to_underlying(r));}
   void delete_from(Table_Id t, Record_Id r) override {Event &e = add(k_delete); e.a = uint64_t(t); e.b = uint64_t(to_underlying(r));}
   void insert_vector(Table_Id t, Record_Id r, size_t n) override {Event &e = add(k_insert_vector); e.a = uint64_t(t); e.b = uint64_t(to_underlying(r)); e.c = n;}
   void delete_vector(Table_Id t, Record_Id r, size_t n) override {Event &e = add(k_delete_vector); e.a = uint64_t(t); e.b = uint64_t(to_underlying(r)); e.c = n;}
   void on_blob(Blob b) override {Event &e = add(k_blob); e.a = uint64_t(b.get_position()); e.b = uint64_t(b.get_size());}
   bool wants_blob_data() const override {return want_blobs;}
   Blob write_blob(std::string_view d) override {blobs.emplace_back(d); return Blob();}
   #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
   void update_##type_id(Table_Id t, Record_Id r, Field_Id f, return_type value) override\
   {\
    Event &e = add(k_update);\
    e.type = int(Type::Type_Id::type_id);\
    e.a = (uint64_t(t) << 16) | uint64_t(f);\
    e.b = uint64_t(to_underlying(r));\
    put(e, value);\
   }\
   void update_vector_##type_id(Table_Id t, Record_Id r, Field_Id f, size_t n, const cpp_type *value) override\
   {\
    if (n == 0) return;\
    Event &e = add(k_update_vector);\
    e.type = int(Type::Type_Id::type_id);\
    e.a = (uint64_t(t) << 16) | uint64_t(f);\
    e.b = uint64_t(to_underlying(r));\
    e.c = n;\
    for (size_t i = 0; i < n; i++) putv(e, value[i]);\
   }
   #include "joedb/TYPE_MACRO.h"
 };

 inline bool same_string(const std::string &x, const std::string &y)
 {
  if (x.size() != y.size()) return false;
  uint8_t diff = 0;
  for (size_t i = 0; i < x.size(); i++) diff |= uint8_t(x[i]) ^ uint8_t(y[i]);
  return diff == 0;
 }

 inline void check_event(const Event &x, const Event &y)
 {
  sym_assert(x.kind == y.kind, "same kind of event");
  sym_assert(x.type == y.type, "same value type");
  sym_assert((x.a ^ y.a) == 0, "same table/field or name id");
  sym_assert((x.b ^ y.b) == 0, "same record");
  sym_assert((x.c ^ y.c) == 0, "same value or size");
  sym_assert((x.d ^ y.d) == 0, "same value (2)");
  sym_assert(same_string(x.s, y.s), "same text");
  sym_assert(x.v.size() == y.v.size(), "same vector length");
  for (size_t i = 0; i < x.v.size() && i < y.v.size(); i++)
   sym_assert(x.v[i] == y.v[i], "same vector element");
  sym_assert(x.vs.size() == y.vs.size(), "same string vector length");
  for (size_t i = 0; i < x.vs.size() && i < y.vs.size(); i++)
   sym_assert(same_string(x.vs[i], y.vs[i]), "same string vector element");
 }

 inline void check_events(const std::vector<Event> &x, const std::vector<Event> &y)
 {
  sym_assert(x.size() == y.size(), "same number of events");
  for (size_t i = 0; i < x.size() && i < y.size(); i++)
   check_event(x[i], y[i]);
 }

 // trace of a symbolic observable, as an order-insensitive digest
 inline void trace_events(const std::vector<Event> &x)
 {
  sym_trace(x.size());
  for (const Event &e: x)
  {
   sym_trace(uint64_t(e.kind));
   sym_trace(e.a); sym_trace(e.b); sym_trace(e.c); sym_trace(e.d);
   sym_trace_str(e.s);
  }
 }

 // In-memory file whose reads may stop short of what was asked, at a place chosen by the solver
 class Short_File: public Memory_File
 {
  public:
   mutable int budget = 0; // how many reads may be cut
   mutable int64_t smallest = 1;
   size_t pread(char *buffer, size_t size, int64_t offset) const override
   {
    if (budget > 0 && size > 1 && size_t(offset) < data.size())
    {
     if (sym_choice("cut", 2))
     {
      budget--;
      const size_t n = std::min(size, data.size() - size_t(offset));
      // boundary cases of a short read
      const uint32_t c = sym_choice("cut_at", 3);
      const size_t cut = c == 0 ? 1 : c == 1 ? n / 2 : n - 1;
      return Memory_File::pread(buffer, std::max<size_t>(cut, size_t(smallest)), offset);
     }
    }
    return Memory_File::pread(buffer, size, offset);
   }
 };

 // run f; true if it threw
 template<typename F> bool throws(F &&f)
 {
  try
  {
   f();
   return false;
  }
  catch (const std::exception &)
  {
   return true;
  }
 }
}
#endif
