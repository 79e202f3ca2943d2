// Every kind of file against a plain byte string
// generated: encoded_file
#include "sym.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Readonly_Encoded_File.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/File_Iterator.h"
#include "joedb/db/encoded_file/Writable_Database.h"
#include "joedb/db/encoded_file/Readonly_Database.h"
#include "joedb/error/Exception.h"
#include <sstream>
#include <memory>
#include <cstring>
using namespace joedb;

// reads may return fewer bytes than asked
class Short_File: public Memory_File
{
 public:
  bool fragment = true;
  size_t pread(char *buffer, size_t size, int64_t offset) const override
  {
   const size_t available = size_t(offset) >= data.size() ? 0 : std::min(size, data.size() - size_t(offset));
   size_t n = available;
   if (fragment && available > 1 && sym_choice("short", 2))
   {
    if (available <= 8) n = 1 + sym_choice("read", uint32_t(available - 1));
    else {const size_t some[] = {1, 2, available / 2, available - 1}; n = some[sym_choice("read", 4)];}
   }
   std::memcpy(buffer, data.data() + offset, n);
   return n;
  }
};

static bool same(const std::string &x, const char *y, size_t at, size_t n)
{
 uint8_t d = 0;
 for (size_t i = 0; i < n; i++) d |= uint8_t(x[at + i] ^ y[i]);
 return d == 0;
}

static void check_read(const Abstract_File &file, const std::string &model, size_t offset, size_t size)
{
 char buffer[16];
 std::memset(buffer, 0x55, sizeof buffer);
 const size_t n = file.pread(buffer, size, int64_t(offset));
 const size_t available = offset < model.size() ? std::min(size, model.size() - offset) : 0;
 sym_assert(n <= available, "a read never returns bytes past the end of the file");
 sym_assert(n > 0 || available == 0, "a read returns something before the end of the file");
 sym_assert(same(model, buffer, offset, n), "a read returns the bytes last written");
 for (size_t i = size; i < sizeof buffer; i++) sym_assert(buffer[i] == 0x55, "a read writes in its buffer only");
}

static void check_all(const Abstract_File &file, const std::string &model)
{
 const int64_t size = file.get_size();
 sym_assert(size == int64_t(model.size()), "the size is the end of the last byte written");
 for (size_t done = 0; done < model.size();)
 {
  char buffer[8];
  const size_t n = file.pread(buffer, 8, int64_t(done));
  sym_assert(n > 0 && n <= model.size() - done, "reading everything");
  sym_assert(same(model, buffer, done, n), "reading everything gives the contents");
  done += n;
 }
}

static void write(Abstract_File &file, std::string &model, size_t offset, const std::string &s)
{
 file.pwrite(s.data(), s.size(), int64_t(offset));
 if (offset + s.size() > model.size()) model.resize(offset + s.size());
 std::memcpy(&model[offset], s.data(), s.size());
}

// one read, write or other call
static void step(Abstract_File &file, std::string &model, bool holes, bool read_past_end = true)
{
 switch (sym_choice("op", 4))
 {
  case 0:
  {
   size_t offset = sym_choice("offset", uint32_t(model.size() + 1 + (holes ? 2 : 0)));
   write(file, model, offset, sym_string("data", 1 + sym_choice("length", 3)));
   break;
  }
  case 1:
  {
   const size_t offset = sym_choice("offset", uint32_t(model.size() + 1 + (read_past_end ? 2 : 0)));
   check_read(file, model, offset, 1 + sym_choice("size", 5));
   break;
  }
  case 2: sym_assert(file.get_size() == int64_t(model.size()), "the size is the end of the last byte written"); break;
  case 3: file.sync(); break;
 }
}

extern "C" void memory()
{
 Memory_File file;
 std::string model;
 for (int i = int(sym_param("steps", 3)); --i >= 0;) step(file, model, true);
 check_all(file, model);
 Readonly_Memory_File again{std::string_view(file.get_data())};
 check_all(again, model);
 check_read(static_cast<Abstract_File &>(again), model, sym_choice("offset", uint32_t(model.size() + 2)), 1 + sym_choice("size", 5));
 sym_reach("end");
}

extern "C" void stream()
{
 std::stringbuf buffer;
 Stream_File file(buffer, Open_Mode::create_new);
 std::string model;
 if (sym_choice("start", 2)) write(file, model, 0, "abc");
 for (int i = int(sym_param("steps", 3)); --i >= 0;) step(file, model, false, false);
 check_all(file, model);
 sym_reach("end");
}

// encoding that is not the identity
class Test_Codec: public Codec
{
 public:
  const uint8_t key = 0xa5;
  std::string encode(std::string_view s) override
  {
   std::string r = "<";
   for (size_t i = 0; i < s.size(); i++) r += char(uint8_t(s[s.size() - 1 - i]) ^ key);
   return r + "!";
  }
  void decode(std::string_view s, char *d, size_t n) override
  {
   sym_assert(s.size() == n + 2 && s[0] == '<' && s[n + 1] == '!', "decoding exactly what was encoded");
   for (size_t i = 0; i < n; i++) d[n - 1 - i] = char(uint8_t(s[1 + i]) ^ key);
  }
};

// a writer, closed and reopened at any time
extern "C" void encoded()
{
 Memory_File base;
 Test_Codec codec;
 std::string model;
 auto db = std::make_unique<db::encoded_file::Writable_Database>(base);
 auto file = std::make_unique<Encoded_File>(codec, *db);
 const int64_t holes = sym_param("holes", 0);
 for (int i = int(sym_param("steps", 3)); --i >= 0;)
 {
  if (sym_choice("close", 2))
  {
   file.reset(); db.reset();
   if (sym_choice("readonly", 2))
   {
    db::encoded_file::Readonly_Database view(base);
    Readonly_Encoded_File f(codec, view, base);
    check_all(f, model);
   }
   db = std::make_unique<db::encoded_file::Writable_Database>(base);
   file = std::make_unique<Encoded_File>(codec, *db);
  }
  step(*file, model, holes);
 }
 check_all(*file, model);
 if (sym_choice("crash", 2))
 {
  // what is in the base file after a sync is enough to read everything
  file->sync();
  Memory_File copy;
  base.copy_to(copy);
  db::encoded_file::Readonly_Database view(copy);
  Readonly_Encoded_File f(codec, view, copy);
  check_all(f, model);
 }
 sym_reach("end");
}

template<typename F> static bool refused(F &&f)
{
 try {f(); return false;} catch (const Exception &) {return true;}
}

// helpers built over reads, when reads are fragmented
extern "C" void fragments()
{
 Short_File file;
 const size_t n = size_t(sym_param("size", 4));
 const std::string model = sym_string("data", n);
 file.pwrite(model.data(), n, 0);
 const std::string &m = model;
 const size_t from = sym_choice("from", uint32_t(n + 1)), until = from + sym_choice("length", uint32_t(n + 2 - from));
 switch (sym_choice("what", 5))
 {
  case 0: // copy
  {
   Memory_File destination;
   const bool all = sym_choice("all", 2);
   if (all) {file.copy_to(destination, int64_t(from), -1);}
   else
   {
    sym_assert(refused([&](){file.copy_to(destination, int64_t(from), int64_t(until - from));}) == (until > n && until > from), "copying past the end fails");
    if (until > n) break;
   }
   const size_t end = all ? n : until;
   if (end > from)
   {
    sym_assert(size_t(destination.get_size()) == end, "size of the copy");
    sym_assert(same(m, destination.get_data().data() + from, from, end - from), "the copy has the same bytes");
   }
   break;
  }
  case 1: // comparison
  {
   Short_File other;
   const std::string s = sym_string("other", sym_choice("other_size", uint32_t(n + 1)));
   if (s.size()) other.pwrite(s.data(), s.size(), 0);
   bool equal = true;
   if (until > n) {if (until > from) {bool r = true; try {r = file.equal_to(other, int64_t(from), int64_t(until));} catch (const Exception &) {r = false;} sym_assert(!r, "a file that is too short is not equal");} break;}
   if (s.size() < until && until > from) equal = false;
   else if (until > from) {uint8_t d = 0; for (size_t i = from; i < until; i++) d |= uint8_t(m[i] ^ s[i]); equal = d == 0;}
   sym_assert(file.equal_to(other, int64_t(from), int64_t(until)) == equal, "the comparison says whether the bytes are the same");
   break;
  }
  case 2: // asynchronous reader
  {
   Async_Reader reader(file, int64_t(from), int64_t(until));
   size_t at = from;
   while (reader.get_remaining() > 0)
   {
    char buffer[4];
    const size_t k = reader.read(buffer, 1 + sym_choice("capacity", 3));
    if (reader.is_end_of_file()) {sym_assert(until > n && at + k == n, "end of file"); break;}
    sym_assert(k > 0 && at + k <= until && at + k <= n, "bytes of the range");
    sym_assert(same(m, buffer, at, k), "the reader returns the bytes of the range");
    at += k;
    sym_assert(reader.get_current() == int64_t(at), "current position");
   }
   break;
  }
  case 3: // blob
  {
   std::string s;
   const Blob blob(int64_t(from), int64_t(until - from));
   const bool no = refused([&](){s = file.read_blob(blob);});
   sym_assert(no == (until > n && until > from), "reading a blob past the end fails");
   if (!no) {sym_assert(s.size() == until - from, "blob size"); sym_assert(same(m, s.data(), from, s.size()), "the blob has the bytes of the range");}
   const int64_t limit = int64_t(sym_range("limit", 0, 6));
   sym_assert(refused([&](){file.read_blob(blob, limit);}) || blob.get_size() < limit, "a blob over the maximum size is refused");
   break;
  }
  case 4: // iterator
  {
   File_Iterator it(file);
   it.seek(int64_t(from));
   size_t at = from;
   while (true)
   {
    char buffer[4];
    const size_t k = it.read(buffer, 1 + sym_choice("capacity", 3));
    sym_assert(k <= n - at, "not past the end");
    sym_assert(same(m, buffer, at, k), "the iterator returns the bytes in order");
    at += k;
    sym_assert(it.get_position() == int64_t(at), "iterator position");
    if (k == 0) break;
   }
   sym_assert(at == n, "the iterator reads everything");
   it.seek(int64_t(from));
   const std::string a = sym_string("first", 2), b = sym_string("second", 1);
   if (sym_choice("writer", 2)) {Async_Writer w(file, int64_t(from)); w.write(a.data(), 2); w.write(b.data(), 1); sym_assert(w.get_position() == int64_t(from + 3), "writer position");}
   else {it.write(a.data(), 2); it.write(b.data(), 1); sym_assert(it.get_position() == int64_t(from + 3), "iterator position");}
   sym_assert(same(file.get_data(), a.data(), from, 2) && same(file.get_data(), b.data(), from + 2, 1), "consecutive writes");
   break;
  }
 }
 sym_reach("end");
}

// a buffered stream over a file, against a string with two positions
#include "joedb/journal/filebuf.h"
extern "C" void streambuf()
{
 Short_File file;
 file.fragment = sym_param("short", 1);
 std::string model;
 const size_t big = sym_choice("big", 2) ? 8191 : 0; // near the size of the buffer
 if (big) model = std::string(big, 'a');
 model += sym_string("data", 3);
 file.pwrite(model.data(), model.size(), 0);
 {
  filebuf b(file);
  size_t in = 0, out = 0;
  int direction = 0; // 1 reading, 2 writing
  auto turn = [&](int d) {if (direction && direction != d) {sym_assert(b.pubsync() == 0, "synchronisation works"); } direction = d;};
  auto avail = [&]() {return in < model.size() ? model.size() - in : 0;};
  auto store = [&](const std::string &s)
  {
   if (out + s.size() > model.size()) model.resize(out + s.size());
   std::memcpy(&model[out], s.data(), s.size());
   out += s.size();
  };
  if (big)
  {
   if (sym_choice("position", 2)) {b.pubseekpos(int64_t(big) - 1, std::ios_base::in); b.pubseekpos(int64_t(big) - 1, std::ios_base::out); in = out = big - 1;}
   else {const std::string s(8190, 'b'); b.sputn(s.data(), 8190); store(s); direction = 2; if (sym_choice("in", 2)) {b.pubseekpos(8188, std::ios_base::in); in = 8188; direction = 0;}}
  }
  for (int i = int(sym_param("steps", 3)); --i >= 0;)
  {
   switch (sym_choice("op", 9))
   {
    case 0: {turn(2); const std::string s = sym_string("written", 1 + sym_choice("length", 3)); sym_assert(b.sputn(s.data(), int64_t(s.size())) == int64_t(s.size()), "everything is written"); store(s); break;}
    case 1: {turn(2); const std::string s = sym_string("written", 1); sym_assert(b.sputc(s[0]) == int(uint8_t(s[0])), "a character is written"); store(s); break;}
    case 2:
    {
     turn(1);
     char buffer[4];
     const size_t want = 1 + sym_choice("length", 4);
     const size_t n = size_t(b.sgetn(buffer, int64_t(want)));
     sym_assert(n == std::min(want, avail()), "everything available is read");
     sym_assert(same(model, buffer, in, n), "a stream reads the bytes of the file");
     in += n;
     break;
    }
    case 3:
    {
     turn(1);
     const int c = b.sbumpc();
     if (avail()) {sym_assert(c == int(uint8_t(model[in])), "a stream reads the bytes of the file"); in++;}
     else sym_assert(c == -1, "end of file");
     break;
    }
    case 4:
    {
     turn(1);
     const int c = b.sgetc();
     if (avail()) sym_assert(c == int(uint8_t(model[in])), "a stream reads the bytes of the file");
     else sym_assert(c == -1, "end of file");
     break;
    }
    case 5:
    {
     turn(1);
     const bool possible = in > 0 && in <= model.size();
     if (!possible) {if (in == 0) sym_assert(b.sungetc() == -1, "nothing before the start of the file"); break;}
     in--;
     if (sym_choice("same", 2)) {const int c = b.sungetc(); sym_assert(c == int(uint8_t(model[in])), "going back one character");}
     else
     {
      const uint8_t c = sym_u8("put_back");
      sym_assert(b.sputbackc(char(c)) == int(c), "putting back any character");
      model[in] = char(c);
     }
     break;
    }
    case 6:
    {
     const auto which = sym_choice("which", 2) ? std::ios_base::in : std::ios_base::out;
     size_t &p = which == std::ios_base::in ? in : out;
     const uint32_t from = sym_choice("from", 3);
     const size_t pending = std::max(model.size(), model.size());
     const int64_t base = from == 0 ? (big ? int64_t(big) - 1 : 0) : from == 1 ? int64_t(p) : int64_t(pending);
     const int64_t off = from == 2 ? -int64_t(sym_choice("back", 3)) : int64_t(sym_choice("offset", 3)) - (from == 1 ? 1 : 0);
     if (base + off < 0) break;
     const int64_t r = from == 0 ? int64_t(b.pubseekoff(base + off, std::ios_base::beg, which)) : int64_t(b.pubseekoff(off, from == 1 ? std::ios_base::cur : std::ios_base::end, which));
     sym_assert(r == base + off, "seeking returns the new position");
     p = size_t(r);
     direction = 0;
     break;
    }
    case 7: sym_assert(b.pubsync() == 0, "synchronisation works"); sym_assert(file.get_size() == int64_t(model.size()), "a synchronised stream has written everything"); direction = 0; break;
    case 8: {turn(1); sym_assert(b.in_avail() <= int64_t(avail()), "what is available is available"); break;}
   }
  }
  b.pubsync();
 }
 file.fragment = false;
 const std::string &f = file.get_data();
 sym_assert(f.size() == model.size(), "the file has the size of the stream");
 for (size_t i = 0; i < model.size(); i += 4096) sym_assert(same(model, f.data() + i, i, std::min(size_t(4096), model.size() - i)), "the file has the contents of the stream");
 sym_reach("end");
}

#include "joedb/journal/Identity_Codec.h"
// writes around the size of the write buffer (one megabyte)
extern "C" void encoded_large()
{
 Memory_File base;
 Identity_Codec codec;
 db::encoded_file::Writable_Database db(base);
 Encoded_File file(codec, db);
 static const int sizes[] = {-2, -1, 0, 1};
 const size_t n = size_t((1 << 20) + sizes[sym_choice("size", 4)]);
 const std::string big(n, 'b');
 const std::string a = sym_string("first", 1), z = sym_string("last", 2);
 size_t at = 0;
 const bool before = sym_choice("before", 2);
 if (before) {file.pwrite(a.data(), 1, 0); at = 1;}
 file.pwrite(big.data(), n, int64_t(at));
 file.pwrite(z.data(), 2, int64_t(at + n));
 const bool over = sym_choice("overwrite", 2);
 if (over) file.pwrite(a.data(), 1, int64_t(at));
 if (sym_choice("sync", 2)) file.sync();
 sym_assert(file.get_size() == int64_t(at + n + 2), "size");
 char buffer[4];
 if (before) {sym_assert(file.pread(buffer, 2, 0) == 2, "two bytes"); sym_assert(((buffer[0] ^ a[0]) | (buffer[1] ^ (over ? a[0] : 'b'))) == 0, "the first bytes read back");}
 sym_assert(file.pread(buffer, 2, int64_t(at)) == 2, "two bytes");
 sym_assert(((buffer[0] ^ (over ? a[0] : 'b')) | (buffer[1] ^ 'b')) == 0, "overwritten bytes read back");
 sym_assert(file.pread(buffer, 4, int64_t(at + n - 1)) == 3, "the last bytes");
 sym_assert(((buffer[0] ^ 'b') | (buffer[1] ^ z[0]) | (buffer[2] ^ z[1])) == 0, "the last bytes read back");
 sym_reach("end");
}
