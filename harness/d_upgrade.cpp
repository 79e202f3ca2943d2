// Files written by an older version of a program, opened by code generated from a newer schema
// generated: upgrade
#include "db.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/concurrency/File_Connection.h"
#include "joedb/Multiplexer.h"
#include "upgrade/Writable_Database.h"
#include "upgrade/Readonly_Database.h"
#include "upgrade/Client.h"
#include "upgrade/Readonly_Client.h"
#include "upgrade/Readable.h"
using namespace joedb;

static int custom_calls;
void upgrade::Writable_Database::set_default_language(Writable_Database &db)
{
 custom_calls++;
 const auto english = db.new_tongue("en");
 for (auto person: db.get_person_table())
  db.set_speaks(person, english);
}

// operations of the schema
static const int schema_ops = 15, op_custom = 8;

struct Old
{
 Memory_File file;
 int version;
 std::vector<Record_Id> persons;
 std::vector<std::string> names;
 std::vector<Record_Id> speaks;
 std::vector<uint16_t> ages;
 uint32_t level = 7;
 std::string host = "host";
};

// tables and fields by name, in any version
static Table_Id table(const Database &db, const char *name) {return db.find_table(name);}
static Field_Id field(const Database &db, Table_Id t, const char *name) {return db.find_field(t, name);}

static int schema_size()
{
 Readonly_Memory_File f(upgrade::detail::schema_string, upgrade::detail::schema_string_size);
 Readonly_Journal j(f);
 Dummy_Writable w;
 int n = 0;
 while (j.get_position() < j.get_checkpoint()) {j.one_step(w); n++;}
 return n;
}

// what a program with the first "version" operations of the schema could have written
static void write_old(Old &old, int version, bool data)
{
 old.version = version;
 Writable_Journal journal(old.file);
 Database db;
 Multiplexer m{db, journal};
 Readonly_Memory_File f(upgrade::detail::schema_string, upgrade::detail::schema_string_size);
 Readonly_Journal schema(f);
 for (int i = 0; i < version; i++)
 {
  schema.one_step(m);
  if (i + 1 == op_custom)
  {
   // the older program ran its function, too
   const Table_Id l = table(db, "language");
   m.insert_into(l, Record_Id{0});
   m.update_string(l, Record_Id{0}, field(db, l, "code"), "en");
  }
 }
 if (table(db, "settings") != Table_Id{0})
 {
  const Table_Id t = table(db, "settings");
  m.insert_into(t, Record_Id{0});
  if (field(db, t, "level") != Field_Id{0})
  {
   old.level = sym_u32("level");
   m.update_int32(t, Record_Id{0}, field(db, t, "level"), int32_t(old.level));
  }
  if (field(db, t, "host") != Field_Id{0})
  {
   old.host = sym_string("host", 2);
   m.update_string(t, Record_Id{0}, field(db, t, "host"), old.host);
  }
 }
 const Table_Id p = table(db, "person");
 if (data && p != Table_Id{0})
 {
  const int n = 1 + int(sym_choice("persons", uint32_t(sym_param("persons", 2))));
  for (int i = 0; i < n; i++)
  {
   const Record_Id r{i};
   m.insert_into(p, r);
   old.persons.push_back(r);
   old.names.push_back("");
   old.speaks.push_back(Record_Id::null);
   old.ages.push_back(0);
   Field_Id id = field(db, p, "name");
   if (id == Field_Id{0}) id = field(db, p, "full_name");
   if (id != Field_Id{0})
   {
    old.names.back() = sym_string("name", 2);
    m.update_string(p, r, id, old.names.back());
   }
   id = field(db, p, "speaks");
   if (id != Field_Id{0} && version >= op_custom)
   {
    old.speaks.back() = Record_Id{int64_t(sym_choice("speaks", 2)) - 1};
    m.update_reference(p, r, id, old.speaks.back());
   }
   id = field(db, p, "age");
   if (id != Field_Id{0})
   {
    old.ages.back() = sym_u16("age");
    m.update_int16(p, r, id, int16_t(old.ages.back()));
   }
  }
  if (sym_choice("hole", 2))
  {
   m.delete_from(p, Record_Id{0});
   old.persons.erase(old.persons.begin());
   old.names.erase(old.names.begin());
   old.speaks.erase(old.speaks.begin());
   old.ages.erase(old.ages.begin());
  }
  const Table_Id temp = table(db, "temp");
  if (temp != Table_Id{0})
  {
   m.insert_into(temp, Record_Id{0});
   if (field(db, temp, "x") != Field_Id{0}) m.update_int8(temp, Record_Id{0}, field(db, temp, "x"), int8_t(sym_u8("x")));
  }
 }
 m.soft_checkpoint();
}

template<typename DB> static void check_contents(DB &db, const Old &old, bool upgraded_custom)
{
 size_t i = 0;
 for (const auto p: db.get_person_table())
 {
  sym_assert(i < old.persons.size() && p.get_record_id() == old.persons[i], "an upgrade keeps the records");
  sym_assert(h::same_string(db.get_full_name(p), old.names[i]), "an upgrade keeps the values");
  sym_assert(uint16_t(db.get_age(p)) == old.ages[i], "a new field has its default value, an old one keeps its value");
  if (upgraded_custom)
   sym_assert(db.get_speaks(p).is_not_null() && h::same_string(db.get_code(db.get_speaks(p)), "en"), "the custom function of the upgrade was applied");
  else
   sym_assert(db.get_speaks(p).get_record_id() == old.speaks[i], "an upgrade keeps references");
  i++;
 }
 sym_assert(i == old.persons.size(), "an upgrade keeps the records");
 sym_assert(size_t(db.get_tongue_table().get_size()) == 1, "the custom function ran exactly once in the life of the file");
 sym_assert(h::same_string(db.get_code(db.get_tongue_table().first()), "en"), "the custom function ran exactly once in the life of the file");
 sym_assert(db.get_settings_table().get_size() == 1, "a single-row table has its row");
 sym_assert((uint32_t(db.get_level()) ^ old.level) == 0, "a new field has its default value, an old one keeps its value");
 sym_assert(h::same_string(db.get_host(), old.host), "a new field has its default value, an old one keeps its value");
 size_t indexed = 0;
 for (const auto &[k, p]: db.get_index_of_person_by_age())
 {
  sym_assert(db.is_valid(p) && k == db.get_age(p), "indexes agree after an upgrade");
  indexed++;
 }
 if (old.version > op_custom + 1) sym_assert(indexed <= old.persons.size(), "indexes agree after an upgrade");
 sym_assert(db.find_tongue_by_code("en").is_not_null(), "indexes agree after an upgrade");
}

// the file replayed by the interpreted database tells the same story
static void check_file(const Memory_File &file, const upgrade::Database &db)
{
 Memory_File copy;
 file.copy_to(copy);
 {
  Readonly_Journal j(copy);
  Database idb;
  j.replay_log(idb);
  upgrade::Readable r(db);
  h::check_same_db(idb, r);
 }
}

extern "C" void open_old()
{
 custom_calls = 0;
 sym_assert(schema_size() == schema_ops, "number of operations in the schema");
 const int version = int(sym_choice("version", schema_ops + 1));
 Old old;
 write_old(old, version, true);
 const std::string before = old.file.get_data();
 {
  bool out_of_date = false, other = false;
  try {upgrade::Readonly_Database ro(old.file);}
  catch (const Out_Of_Date &) {out_of_date = true;}
  catch (const std::exception &) {other = true;}
  sym_assert(!other && out_of_date == (version < schema_ops), "a read-only database needs an upgrade exactly when the file is older");
  sym_assert(old.file.get_data().size() == before.size(), "a read-only database does not write");
 }
 {
  upgrade::Writable_Database db(old.file);
  check_contents(db, old, version < op_custom);
  sym_assert(custom_calls == (version < op_custom ? 1 : 0), "custom functions run once");
  sym_assert(db.ahead_of_checkpoint() == 0, "an upgrade is committed when opening returns");
  const std::string &now = old.file.get_data();
  sym_assert(now.size() >= before.size() && h::same_string(now.substr(41, before.size() - 41), before.substr(41)), "an upgrade appends to the history");
  if (version == schema_ops) {sym_assert(now.size() == before.size(), "a file that is up to date is not changed"); sym_reach("current");}
  check_file(old.file, db);
 }
 const size_t size = old.file.get_data().size();
 custom_calls = 0;
 if (sym_choice("again", 2) == 0)
 {
  upgrade::Writable_Database db(old.file);
  check_contents(db, old, version < op_custom);
 }
 else
 {
  upgrade::Readonly_Database db(old.file);
  check_contents(db, old, version < op_custom);
 }
 sym_assert(custom_calls == 0 && old.file.get_data().size() == size, "a file is upgraded once");
 sym_reach("end");
}

// a history that is not the beginning of the schema
extern "C" void incompatible()
{
 custom_calls = 0;
 Memory_File file;
 const uint32_t kind = sym_choice("kind", 3);
 {
  Readonly_Memory_File f(upgrade::detail::schema_string, upgrade::detail::schema_string_size);
  Readonly_Journal schema(f);
  Writable_Journal journal(file);
  if (kind == 0) // one letter of one name differs
  {
   const int version = 1 + int(sym_choice("version", schema_ops));
   for (int i = 0; i + 1 < version; i++) schema.one_step(journal);
   const int64_t position = journal.get_position();
   schema.one_step(journal);
   journal.soft_checkpoint();
   // names of this schema are never shorter than 3 letters, and the name starts after the ids
   std::string &data = file.get_data();
   const size_t start = size_t(position), end = data.size();
   size_t letter = start;
   while (letter < end && !(data[letter] >= 'a' && data[letter + 1] >= 'a')) letter++;
   if (letter + 1 >= end) sym_stop(); // no name in this operation
   const uint8_t c = sym_u8("letter");
   sym_assume(c != uint8_t(data[letter]));
   data[letter] = char(c);
  }
  else if (kind == 1) // a later version
  {
   while (schema.get_position() < schema.get_checkpoint()) schema.one_step(journal);
   journal.insert_into(Table_Id{3}, Record_Id{0});
   journal.insert_into(Table_Id{4}, Record_Id{0});
   if (sym_choice("newer", 2)) journal.create_table(sym_string("name", 2)); else journal.custom(sym_string("name", 2));
  }
  else // other tables
  {
   journal.create_table(sym_string("name", 3));
  }
  journal.soft_checkpoint();
 }
 const std::string before = file.get_data();
 bool refused = false;
 try
 {
  if (sym_choice("client", 2)) {upgrade::Client c(file);} else {upgrade::Writable_Database db(file);}
 }
 catch (const Exception &) {refused = true;}
 sym_assert(refused, "a file with another schema is refused");
 sym_assert(custom_calls == 0, "no custom function runs on a file that is refused");
 sym_assert(h::same_string(file.get_data(), before), "a file that is refused is not changed");
 sym_reach("end");
}

// the program dies at any write of the upgrade
struct Dead {};
struct Mortal_File: public Memory_File
{
 uint32_t die_at = 1000, writes = 0;
 uint32_t torn = 0;
 void pwrite(const char *buffer, size_t size, int64_t offset) override
 {
  if (writes++ == die_at)
  {
   Memory_File::pwrite(buffer, torn == 0 ? 0 : torn == 1 ? size / 2 : size - 1, offset);
   throw Dead();
  }
  if (writes > die_at) return;
  Memory_File::pwrite(buffer, size, offset);
 }
 void sync() override {}
 void datasync() override {}
};

extern "C" void interrupted()
{
 custom_calls = 0;
 const int version = int(sym_choice("version", schema_ops));
 Old old;
 write_old(old, version, true);
 Mortal_File file;
 file.get_data() = old.file.get_data();
 file.die_at = sym_u8("die_at");
 file.torn = sym_choice("torn", 3);
 bool dead = false;
 try
 {
  upgrade::Writable_Database db(file);
  check_contents(db, old, version < op_custom);
 }
 catch (const Dead &) {dead = true;}
 if (dead) sym_reach("dead");
 Memory_File after;
 after.get_data() = file.get_data();
 {
  upgrade::Writable_Database db(after, Recovery::overwrite);
  check_contents(db, old, version < op_custom);
  check_file(after, db);
 }
 sym_reach("end");
}
