// Typed buffered I/O: everything written is read back identically, wherever it falls relative to the buffer.
#include "common.h"
#include "joedb/journal/File_Buffer.h"
using namespace joedb;

struct Item
{
 int kind;
 uint64_t x, y;
 std::string s;
};

static Item make(int kinds)
{
 Item it;
 it.kind = int(sym_choice("kind", kinds));
 it.x = it.y = 0;
 switch (it.kind)
 {
  case 0: it.x = sym_u8("u8"); break;
  case 1: it.x = sym_u64("u64"); break;
  case 2: it.x = sym_range("compact64", 0, (1ULL << 61) - 1); break;
  case 3: it.x = sym_range("compact16", 0, 65535); break;
  case 4: it.x = sym_range("reference", 0, (1ULL << 61) - 1) - 1; break;
  case 5: it.s = sym_string("s", sym_choice("len", 4)); break;
  case 6: it.s = std::string(7 + sym_choice("len7", 3), 'q'); sym_bytes("first", &it.s[0], 2); sym_bytes("last", &it.s[it.s.size() - 1], 1); break;
  case 7: it.x = sym_range("blob_position", 0, (1ULL << 61) - 1); it.y = sym_range("blob_size", 0, 100); break;
  case 8: it.x = sym_u16("u16"); break;
  case 9: it.x = sym_u32("u32"); break;
  case 10: {static const size_t sizes[] = {4087, 4095, 4096, 4097, 4104, 8191, 8200}; it.s = std::string(sizes[sym_choice("big", 7)], 'b'); sym_bytes("bfirst", &it.s[0], 1); sym_bytes("blast", &it.s[it.s.size() - 1], 1);} break;
 }
 return it;
}

static void write_item(File_Buffer &b, const Item &i)
{
 switch (i.kind)
 {
  case 0: b.write<uint8_t>(uint8_t(i.x)); break;
  case 1: b.write<int64_t>(int64_t(i.x)); break;
  case 2: b.compact_write<int64_t>(int64_t(i.x)); break;
  case 3: b.compact_write<uint16_t>(uint16_t(i.x)); break;
  case 4: b.write_reference(Record_Id(index_t(i.x))); break;
  case 5: case 6: case 10: b.write_string(i.s); break;
  case 7: b.write_blob(Blob(int64_t(i.x), int64_t(i.y))); break;
  case 8: b.write<int16_t>(int16_t(i.x)); break;
  case 9: b.write<int32_t>(int32_t(i.x)); break;
 }
}

static void read_item(File_Buffer &b, const Item &i)
{
 switch (i.kind)
 {
  case 0: sym_assert(b.read<uint8_t>() == i.x, "byte"); break;
  case 1: sym_assert(uint64_t(b.read<int64_t>()) == i.x, "64-bit integer"); break;
  case 2: sym_assert(uint64_t(b.compact_read<int64_t>()) == i.x, "compact integer"); break;
  case 3: sym_assert(b.compact_read<uint16_t>() == i.x, "compact 16-bit integer"); break;
  case 4: sym_assert(uint64_t(to_underlying(b.read_reference())) == i.x, "reference"); break;
  case 5: sym_assert(h::same_string(b.read_string(), i.s), "string"); break;
  case 6: case 10: sym_assert(h::same_string(b.safe_read_string(100000), i.s), "string"); break;
  case 7: {const Blob blob = b.read_blob(); sym_assert(uint64_t(blob.get_position()) == i.x && uint64_t(blob.get_size()) == i.y, "blob");} break;
  case 8: sym_assert(uint16_t(b.read<int16_t>()) == i.x, "16-bit integer"); break;
  case 9: sym_assert(uint32_t(b.read<int32_t>()) == i.x, "32-bit integer"); break;
 }
}

extern "C" void harness()
{
 const int n = int(sym_param("items", 2));
 const int kinds = int(sym_param("kinds", 11));
 const int cuts = int(sym_param("cuts", 0));
 const int span = int(sym_param("span", 16));

 h::Short_File file;
 const size_t filler = size_t(4096 + 1 - span) + sym_choice("offset", uint32_t(span) + 2);
 std::vector<Item> items;
 std::vector<int64_t> positions;
 {
  File_Buffer b(file);
  size_t done = 0;
  while (done + 8 <= filler) {b.write<uint64_t>(0x1122334455667788ULL); done += 8;}
  while (done < filler) {b.write<uint8_t>(7); done++;}
  for (int i = 0; i < n; i++)
  {
   items.push_back(make(kinds));
   positions.push_back(b.get_position());
   write_item(b, items.back());
  }
  b.write<uint8_t>(0xee);
  positions.push_back(b.get_position());
  b.flush();
  sym_assert(b.get_position() == file.get_size(), "position after flush");
  sym_assert(positions.back() == file.get_size(), "everything reached the file");
 }
 sym_assert(positions[0] == int64_t(filler), "position counts bytes");

 file.budget = cuts;
 File_Buffer b(file);
 // read from the start, or directly from the first item
 if (sym_choice("seek", 2))
  b.set_position(positions[0]);
 else
 {
  size_t done = 0;
  while (done + 8 <= filler) {sym_assert(b.read<uint64_t>() == 0x1122334455667788ULL, "filler"); done += 8;}
  while (done < filler) {sym_assert(b.read<uint8_t>() == 7, "filler byte"); done++;}
 }
 for (int i = 0; i < n; i++)
 {
  sym_assert(b.get_position() == positions[size_t(i)], "reading position");
  read_item(b, items[size_t(i)]);
 }
 sym_assert(b.read<uint8_t>() == 0xee, "end marker");
 sym_assert(b.get_position() == file.get_size(), "end position");
 if (cuts == 0)
  sym_assert(h::throws([&]{b.read<uint8_t>();}), "reading past the end throws");
 sym_trace(uint64_t(file.get_size()));
 sym_reach("end");
}
