// Code generated by joedbc, against the interpreted database and brute-force indexes
// generated: store
#include "ops.h"
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Readonly_Journal.h"
#include "store/Writable_Database.h"
#include "store/Readonly_Database.h"
#include "store/Readable.h"
using namespace joedb;

struct Flags
{
 std::vector<char> city_named, coded, homed, named_or_coded;
};

static bool flag(const std::vector<char> &v, int64_t i) {return i >= 0 && size_t(i) < v.size() && v[size_t(i)];}
static void set(std::vector<char> &v, int64_t i, bool x) {if (size_t(i) >= v.size()) v.resize(size_t(i) + 1, 0); v[size_t(i)] = x;}

template<typename DB> static void check_indexes(DB &db, const Flags &f)
{
 using namespace store;
 // unique index over a string
 size_t n = 0;
 for (const auto c: db.get_city_table())
 {
  const bool in = flag(f.city_named, c.get_id());
  if (in)
  {
   n++;
   sym_assert(db.find_city_by_name(db.get_name(c)) == c, "the unique index finds every record by its value");
  }
 }
 sym_assert(db.get_index_of_city_by_name().size() == n, "the unique index holds exactly the records whose value was set");
 {
  id_of_city previous;
  for (const auto &[k, c]: db.get_index_of_city_by_name())
  {
   sym_assert(db.is_valid(c), "an index holds valid records only");
   sym_assert(h::same_string(k, db.get_name(c)), "index keys are current values");
   if (previous.is_not_null())
   {
    sym_assert(db.get_name(previous) < db.get_name(c), "the index is sorted, without duplicates");
    sym_assert(db.next_city_by_name(previous) == c, "next record in index order");
    sym_assert(db.previous_city_by_name(c) == previous, "previous record in index order");
   }
   else
    sym_assert(db.previous_city_by_name(c).is_null(), "nothing before the first record");
   previous = c;
  }
  if (previous.is_not_null()) sym_assert(db.next_city_by_name(previous).is_null(), "nothing after the last record");
 }
 // unique index over an integer
 n = 0;
 for (const auto p: db.get_person_table())
  if (flag(f.coded, p.get_id()))
  {
   n++;
   sym_assert(db.find_person_by_code(db.get_code(p)) == p, "the unique index finds every record by its value");
  }
 sym_assert(db.get_index_of_person_by_code().size() == n, "the unique index holds exactly the records whose value was set");
 {
  id_of_person previous;
  for (const auto &[k, p]: db.get_index_of_person_by_code())
  {
   sym_assert(db.is_valid(p), "an index holds valid records only");
   sym_assert(k == db.get_code(p), "index keys are current values");
   if (previous.is_not_null()) sym_assert(db.get_code(previous) < db.get_code(p), "the index is sorted, without duplicates");
   previous = p;
  }
 }
 {
  const int32_t any = int32_t(sym_u32("searched"));
  const id_of_person p = db.find_person_by_code(any);
  if (p.is_not_null())
   sym_assert(db.is_valid(p) && db.get_code(p) == any, "a search returns a record with the value");
 }
 // index with duplicates over a reference
 n = 0;
 for (const auto p: db.get_person_table())
  if (flag(f.homed, p.get_id()))
  {
   n++;
   size_t found = 0, expected = 0;
   for (const auto q: db.find_person_by_home(db.get_home(p)))
   {
    sym_assert(db.is_valid(q) && db.get_home(q) == db.get_home(p), "a search returns records with the value only");
    if (q == p) found++;
   }
   sym_assert(found == 1, "a search returns every record once");
   for (const auto q: db.get_person_table())
    if (flag(f.homed, q.get_id()) && db.get_home(q) == db.get_home(p)) expected++;
   sym_assert(db.find_person_by_home(db.get_home(p)).size() == expected, "a search returns all records with the value");
  }
 sym_assert(db.get_index_of_person_by_home().size() == n, "the index holds exactly the records whose value was set");
 // index over two columns
 n = 0;
 for (const auto p: db.get_person_table())
  if (flag(f.named_or_coded, p.get_id()))
  {
   n++;
   size_t found = 0, size = 0;
   for (const auto q: db.find_person_by_name_code(db.get_name(p), db.get_code(p)))
   {
    sym_assert(db.is_valid(q) && db.get_code(q) == db.get_code(p) && h::same_string(db.get_name(q), db.get_name(p)), "a search returns records with the values only");
    size++;
    if (q == p) found++;
   }
   sym_assert(found == 1, "a search over two columns returns every record once");
   sym_assert(!db.find_person_by_name_code(db.get_name(p), db.get_code(p)).empty(), "a non-empty range");
  }
 sym_assert(db.get_index_of_person_by_name_code().size() == n, "the index holds exactly the records whose value was set");
 {
  id_of_person previous;
  for (const auto &[k, p]: db.get_index_of_person_by_name_code())
  {
   sym_assert(db.is_valid(p), "an index holds valid records only");
   if (previous.is_not_null())
   {
    const int c = db.get_name(previous).compare(db.get_name(p));
    sym_assert(c < 0 || (c == 0 && db.get_code(previous) <= db.get_code(p)), "the index is sorted");
   }
   previous = p;
  }
 }
}

// the file, replayed by the interpreter and by the compiled code, gives the live database
static void check_file(store::Writable_Database &db, const Memory_File &file, const Flags &f, bool compiled)
{
 const store::Readable live(db);
 {
  Database reference;
  Readonly_Journal journal(const_cast<Memory_File &>(file));
  journal.replay_log(reference);
  h::check_same_db(live, reference);
  h::check_same_db(reference, live);
 }
 if (compiled)
 {
  Memory_File copy;
  file.copy_to(copy);
  const int64_t size = copy.get_size();
  if (sym_choice("reopen", 2))
  {
   store::Writable_Database again(copy);
   sym_assert(again.get_journal().get_position() == db.get_journal().get_position() && copy.get_size() == size, "opening an up-to-date database writes nothing");
   h::check_same_db(live, store::Readable(again));
   check_indexes(again, f);
  }
  else
  {
   store::Readonly_Database again(copy);
   h::check_same_db(live, store::Readable(again));
   check_indexes(again, f);
  }
 }
}

static void clean_flags(const store::Writable_Database &db, Flags &f)
{
 for (size_t i = 0; i < f.city_named.size(); i++) if (!db.is_valid(store::id_of_city(int64_t(i)))) f.city_named[i] = 0;
 for (auto *v: {&f.coded, &f.homed, &f.named_or_coded})
  for (size_t i = 0; i < v->size(); i++) if (!db.is_valid(store::id_of_person(int64_t(i)))) (*v)[i] = 0;
}

static bool code_taken(store::Writable_Database &db, const Flags &f, int32_t code, int64_t except)
{
 for (const auto p: db.get_person_table())
  if (flag(f.coded, p.get_id()) && p.get_id() != except && db.get_code(p) == code) return true;
 return false;
}
static bool name_taken(store::Writable_Database &db, const Flags &f, const std::string &name, int64_t except)
{
 for (const auto c: db.get_city_table())
  if (flag(f.city_named, c.get_id()) && c.get_id() != except && h::same_string(db.get_name(c), name)) return true;
 return false;
}

template<typename F> static bool refused(F &&f)
{
 try {f(); return false;} catch (const Exception &) {return true;}
}

static std::string any_name(size_t n)
{
 std::string s = sym_string("name", n);
 return s;
}

extern "C" void indexes()
{
 using namespace store;
 Memory_File file;
 Writable_Database db(file);
 Flags f;
 const int steps = int(sym_param("steps", 3));
 // some records to start with
 {
  const auto c = db.new_city("m");
  set(f.city_named, c.get_id(), true);
  db.new_person(5, "p", c);
  db.new_person(8, "q", c);
  for (int i = 0; i < 2; i++) {set(f.coded, i, true); set(f.homed, i, true); set(f.named_or_coded, i, true);}
 }
 for (int i = 0; i < steps; i++)
 {
  const uint32_t op = sym_choice("op", 9);
  if (!(uint32_t(sym_param("ops", 511)) >> op & 1)) sym_stop();
  switch (op)
  {
   case 0: // new city
   {
    const std::string name = any_name(sym_choice("length", 2));
    const auto c = db.new_city();
    if (name_taken(db, f, name, c.get_id()))
    {
     sym_assert(refused([&](){db.set_name(c, name);}), "a duplicate value is refused by a unique index");
     sym_reach("duplicate");
     if (sym_choice("repair", 2)) db.delete_city(c); else {const std::string other = "zz" + std::string(1, char('0' + i)); db.set_name(c, other); set(f.city_named, c.get_id(), true);}
    }
    else {db.set_name(c, name); set(f.city_named, c.get_id(), true);}
    break;
   }
   case 1: // delete a city
   {
    const id_of_city c(int64_t(sym_choice("city", 3)));
    const bool used = db.is_valid(c);
    sym_assert(refused([&](){db.delete_city(c);}) == !used, "deletion succeeds exactly for existing records");
    break;
   }
   case 2: // new person
   {
    const auto p = db.new_person();
    const int32_t code = int32_t(sym_u32("code"));
    if (code_taken(db, f, code, p.get_id()))
    {
     sym_assert(refused([&](){db.set_code(p, code);}), "a duplicate value is refused by a unique index");
     db.delete_person(p);
    }
    else {db.set_code(p, code); set(f.coded, p.get_id(), true); set(f.named_or_coded, p.get_id(), true);}
    break;
   }
   case 3: // set_code
   {
    const id_of_person p(int64_t(sym_choice("person", 3)));
    const int32_t code = int32_t(sym_u32("code"));
    if (!db.is_valid(p)) {sym_assert(refused([&](){db.set_code(p, code);}), "an update of a record that does not exist is refused"); break;}
    if (code_taken(db, f, code, p.get_id()))
    {
     sym_assert(refused([&](){db.set_code(p, code);}), "a duplicate value is refused by a unique index");
     sym_reach("duplicate");
     int32_t other = 1000;
     while (code_taken(db, f, other, p.get_id())) other++;
     db.set_code(p, other);
    }
    else db.set_code(p, code);
    set(f.coded, p.get_id(), true); set(f.named_or_coded, p.get_id(), true);
    break;
   }
   case 4: // set_name of a person
   {
    const id_of_person p(int64_t(sym_choice("person", 3)));
    const std::string name = any_name(1);
    if (!db.is_valid(p)) {sym_assert(refused([&](){db.set_name(p, name);}), "an update of a record that does not exist is refused"); break;}
    db.set_name(p, name); set(f.named_or_coded, p.get_id(), true);
    break;
   }
   case 5: // set_home
   {
    const id_of_person p(int64_t(sym_choice("person", 3)));
    const id_of_city c(int64_t(sym_choice("home", 3)) - 1);
    if (!db.is_valid(p)) {sym_assert(refused([&](){db.set_home(p, c);}), "an update of a record that does not exist is refused"); break;}
    db.set_home(p, c); set(f.homed, p.get_id(), true);
    break;
   }
   case 6: // delete person
   {
    const id_of_person p(int64_t(sym_choice("person", 3)));
    const bool used = db.is_valid(p);
    sym_assert(refused([&](){db.delete_person(p);}) == !used, "deletion succeeds exactly for existing records");
    break;
   }
   case 7: // vector of persons
   {
    const auto v = db.new_vector_of_person(2);
    const int32_t a = int32_t(sym_u32("code")), b = int32_t(sym_u32("code"));
    const bool taken = code_taken(db, f, a, -1) || code_taken(db, f, b, -1) || a == b;
    const bool no = refused([&](){db.update_vector_of_code(v, 2, [&](Span<int32_t> s) {s[0] = a; s[1] = b;});});
    sym_assert(no == taken, "a vector update succeeds exactly when it creates no duplicate");
    if (no) db.delete_vector_of_person(v, 2);
    else for (int j = 0; j < 2; j++) {set(f.coded, v[size_t(j)].get_id(), true); set(f.named_or_coded, v[size_t(j)].get_id(), true);}
    break;
   }
   case 8: // swap two codes in place
   {
    const id_of_person v(0);
    if (!db.is_valid(id_of_person(0)) || !db.is_valid(id_of_person(1))) sym_stop();
    if (!flag(f.coded, 0) || !flag(f.coded, 1)) sym_stop();
    db.update_vector_of_code(v, 2, [&](Span<int32_t> s) {const int32_t x = s[0]; s[0] = s[1]; s[1] = x;});
    set(f.named_or_coded, 0, true); set(f.named_or_coded, 1, true);
    break;
   }
  }
  clean_flags(db, f);
 }
 check_indexes(db, f);
 db.soft_checkpoint();
 check_file(db, file, f, sym_param("compiled", 1));
 sym_reach("end");
}

// tables without indexes: values, vectors, single row
extern "C" void values()
{
 using namespace store;
 Memory_File file;
 auto db = std::make_unique<Writable_Database>(file);
 Flags none;
 std::vector<char> used;
 std::vector<uint32_t> x;
 std::vector<std::string> label;
 uint16_t level = 0;
 const int steps = int(sym_param("steps", 3));
 for (int i = 0; i < steps; i++)
 {
  const uint32_t op = sym_choice("op", 9);
  switch (op)
  {
   case 0: {const uint32_t b = sym_u32("x"); const std::string s = sym_string("label", 1 + sym_choice("length", 2));
    const auto p = db->new_point(h::as_float(b), s);
    sym_assert(p.get_id() >= 0 && !flag(used, p.get_id()), "a new record does not replace another one");
    if (size_t(p.get_id()) >= used.size()) {used.resize(size_t(p.get_id()) + 1, 0); x.resize(used.size()); label.resize(used.size());}
    used[size_t(p.get_id())] = 1; x[size_t(p.get_id())] = b; label[size_t(p.get_id())] = s;
    break;}
   case 1: {const size_t n = 1 + sym_choice("n", 3);
    const auto v = db->new_vector_of_point(n);
    for (size_t j = 0; j < n; j++)
    {
     const size_t k = size_t(v[j].get_id());
     sym_assert(!flag(used, int64_t(k)), "a new vector does not overlap existing records");
     if (k >= used.size()) {used.resize(k + 1, 0); x.resize(used.size()); label.resize(used.size());}
     used[k] = 1;
     x[k] = 0;
     label[k].clear();
    }
    break;}
   case 2: {const int64_t p = int64_t(sym_choice("point", 4)); const uint32_t b = sym_u32("x");
    sym_assert(refused([&](){db->set_x(id_of_point(p), h::as_float(b));}) == !flag(used, p), "an update succeeds exactly for existing records");
    if (flag(used, p)) x[size_t(p)] = b;
    break;}
   case 3: {const int64_t p = int64_t(sym_choice("point", 4)); const std::string s = sym_string("label", sym_choice("length", 3));
    sym_assert(refused([&](){db->set_label(id_of_point(p), s);}) == !flag(used, p), "an update succeeds exactly for existing records");
    if (flag(used, p)) label[size_t(p)] = s;
    break;}
   case 4: {const int64_t p = int64_t(sym_choice("point", 4));
    sym_assert(refused([&](){db->delete_point(id_of_point(p));}) == !flag(used, p), "deletion succeeds exactly for existing records");
    if (flag(used, p)) {used[size_t(p)] = 0; x[size_t(p)] = 0; label[size_t(p)].clear();}
    break;}
   case 5: {const int64_t p = int64_t(sym_choice("point", 3)); const size_t n = 1 + sym_choice("n", 2);
    bool all = true;
    for (size_t j = 0; j < n; j++) all = all && flag(used, p + int64_t(j));
    if (!all) sym_stop();
    std::vector<uint32_t> b(n);
    std::vector<std::string> s(n);
    const bool strings = sym_choice("strings", 2);
    for (size_t j = 0; j < n; j++) if (strings) s[j] = sym_string("label", 1); else b[j] = sym_u32("x");
    if (strings) {db->update_vector_of_label(id_of_point(p), n, [&](Span<std::string> v) {for (size_t j = 0; j < n; j++) v[j] = s[j];}); for (size_t j = 0; j < n; j++) label[size_t(p) + j] = s[j];}
    else {db->update_vector_of_x(id_of_point(p), n, [&](Span<float> v) {for (size_t j = 0; j < n; j++) v[j] = h::as_float(b[j]);}); for (size_t j = 0; j < n; j++) x[size_t(p) + j] = b[j];}
    break;}
   case 6: {level = sym_u16("level"); db->set_level(int16_t(level)); break;}
   case 7: {db->clear_point_table(); for (size_t j = 0; j < used.size(); j++) {used[j] = 0; x[j] = 0; label[j].clear();} break;}
   case 8: // close and reopen
    db->soft_checkpoint();
    db.reset();
    db = std::make_unique<Writable_Database>(file);
    break;
  }
  size_t count = 0;
  for (size_t j = 0; j < used.size(); j++)
  {
   const id_of_point p = id_of_point(int64_t(j));
   sym_assert(db->is_valid(p) == bool(used[j]), "exactly the inserted records exist");
   if (!used[j]) continue;
   count++;
   sym_assert(h::bits(db->get_x(p)) == x[j], "a value reads back as written");
   sym_assert(h::same_string(db->get_label(p), label[j]), "a string reads back as written");
  }
  sym_assert(size_t(db->get_point_table().get_size()) == count, "number of records");
  sym_assert(uint16_t(db->get_level()) == level, "the single row holds the last value");
 }
 db->soft_checkpoint();
 check_file(*db, file, none, sym_param("compiled", 1));
 sym_reach("end");
}
