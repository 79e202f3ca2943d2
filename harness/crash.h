// A file that can lose power or be abandoned at a point chosen by the solver
#ifndef HARNESS_CRASH_H
#define HARNESS_CRASH_H
#include "common.h"
namespace h
{
 struct Crashed {};

 class Crash_File: public Abstract_File
 {
  public:
   struct Pending {int64_t offset; std::string data; mutable uint8_t mask = 0;};
   std::string content;            // what running processes see
   std::string durable;            // what is known to be on the disk
   std::vector<Pending> pending;   // written since the last sync
   int countdown = -1;             // crash at this event (-1: never)
   bool crashed = false;
   bool tear = false;              // the write in progress may be partly done
   int events = 0;
  int fail_in = -1;               // report an error at this event
  int failures = 0;

   Crash_File(Open_Mode mode = Open_Mode::create_new): Abstract_File(mode) {}

   int64_t get_size() const override {return int64_t(content.size());}

   size_t pread(char *buffer, size_t size, int64_t offset) const override
   {
    if (offset < 0 || size_t(offset) >= content.size()) return 0;
    const size_t n = std::min(size, content.size() - size_t(offset));
    std::memcpy(buffer, content.data() + offset, n);
    return n;
   }

   void raw_write(const char *buffer, size_t size, int64_t offset)
   {
    if (size == 0) return;
    const size_t end = size_t(offset) + size;
    if (end > content.size()) content.resize(end);
    std::memcpy(&content[size_t(offset)], buffer, size);
    pending.push_back({offset, std::string(buffer, size)});
   }

   void event(const char *buffer = nullptr, size_t size = 0, int64_t offset = 0)
   {
    if (crashed) throw Crashed();
    if (fail_in >= 0 && fail_in-- == 0)
    {
     failures++;
     if (buffer && size > 8 && sym_choice("partly_written", 2)) raw_write(buffer, size / 2, offset);
     throw Exception("input/output error");
    }
    events++;
    if (countdown >= 0 && countdown-- == 0)
    {
     crashed = true;
     if (buffer && size > 8 && offset >= 41)
      raw_write(buffer, size_t(sym_range("torn", 0, 1)) ? size / 2 : size, offset); // part of a data write done
     else if (buffer && tear)
      raw_write(buffer, size, offset); // may reach the disk or not: pending
     throw Crashed();
    }
   }

   void pwrite(const char *buffer, size_t size, int64_t offset) override
   {
    sym_assert(offset >= 0, "never writes at a negative offset");
    if (crashed) throw Crashed();
    event(buffer, size, offset);
    raw_write(buffer, size, offset);
   }

   void sync() override
   {
    event();
    durable = content;
    pending.clear();
   }

   // no file-size change: only what lies within the durable size
   void datasync() override
   {
    event();
    std::vector<Pending> rest;
    for (Pending &p: pending)
     for (size_t i = 0; i < p.data.size(); i++)
     {
      const size_t pos = size_t(p.offset) + i;
      if (pos < durable.size()) durable[pos] = p.data[i];
     }
    for (Pending &p: pending)
     if (size_t(p.offset) + p.data.size() > durable.size()) rest.push_back(p);
    pending = rest;
   }

   // what the disk may hold after losing power: each byte old or any of the values written since the sync
   std::string power_loss() const
   {
    std::vector<size_t> ends;
    ends.push_back(durable.size());
    for (const Pending &p: pending)
    {
     const size_t e = size_t(p.offset) + p.data.size();
     bool known = false;
     for (size_t x: ends) if (x == e) known = true;
     if (!known && e > durable.size()) ends.push_back(e);
    }
    const size_t size = ends[sym_choice("size_after_crash", uint32_t(ends.size()))];
    std::string r(size, 0);
    for (size_t i = 0; i < size; i++)
    {
     uint8_t b = i < durable.size() ? uint8_t(durable[i]) : 0;
     for (const Pending &p: pending)
      if (size_t(p.offset) <= i && i < size_t(p.offset) + p.data.size())
      {
       // header fields are aligned words: each write of one reaches the disk or not; data can be torn anywhere
       if (p.offset >= 41 || i == size_t(p.offset)) p.mask = uint8_t(-int(sym_range("reached_disk", 0, 1)));
       const uint8_t mask = p.mask;
       const uint8_t n = uint8_t(p.data[i - size_t(p.offset)]);
       b = uint8_t((b & ~mask) | (n & mask));
      }
     r[i] = char(b);
    }
    return r;
   }

   // as above, but data is cut rather than torn, and each header field is either old or new
   std::string truncating_power_loss() const
   {
    std::vector<size_t> ends;
    ends.push_back(durable.size());
    for (const Pending &p: pending)
    {
     const size_t e = size_t(p.offset) + p.data.size();
     bool known = false;
     for (size_t x: ends) if (x == e) known = true;
     if (!known && e > durable.size()) ends.push_back(e);
    }
    const size_t size = ends[sym_choice("size_after_crash", uint32_t(ends.size()))];
    std::string r = durable;
    r.resize(size);
    for (const Pending &p: pending)
    {
     if (p.offset >= 41)
     {
      for (size_t i = 0; i < p.data.size() && size_t(p.offset) + i < size; i++) r[size_t(p.offset) + i] = p.data[i];
     }
     else
     {
      const uint8_t mask = uint8_t(-int(sym_range("header_write_reached_disk", 0, 1)));
      for (size_t i = 0; i < p.data.size() && size_t(p.offset) + i < size; i++)
      {
       const uint8_t b = uint8_t(r[size_t(p.offset) + i]), n = uint8_t(p.data[i]);
       r[size_t(p.offset) + i] = char(uint8_t((b & ~mask) | (n & mask)));
      }
     }
    }
    return r;
   }
 };

 class Disk_File: public Crash_File
 {
  public:
   Disk_File(const std::string &s, Open_Mode mode): Crash_File(mode) {content = durable = s;}
 };
}
#endif
