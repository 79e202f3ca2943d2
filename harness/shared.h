// A file opened by several processes, with advisory range locks; every access is a possible thread switch
#ifndef HARNESS_SHARED_H
#define HARNESS_SHARED_H
#include "common.h"
namespace h
{
 struct Store
 {
  std::string content;
  uint64_t version = 0;   // changes whenever a lock is released
  struct Lock {int owner; int64_t start, size; bool exclusive;};
  std::vector<Lock> locks;
  int owners = 0;
  bool writes_need_lock = true;
 };

 class Shared_File: public Abstract_File
 {
  public:
   Store &store;
   const int id;
   bool ignore_locks = false;

   Shared_File(Store &store, Open_Mode mode): Abstract_File(mode), store(store), id(store.owners++) {}

   bool holds(int64_t start, bool exclusive) const
   {
    for (const auto &l: store.locks)
     if (l.owner == id && l.start == start && (l.exclusive || !exclusive)) return true;
    return false;
   }

   int64_t get_size() const override {sym_yield(); return int64_t(store.content.size());}

   size_t pread(char *buffer, size_t size, int64_t offset) const override
   {
    sym_yield();
    if (offset < 0 || size_t(offset) >= store.content.size()) return 0;
    const size_t n = std::min(size, store.content.size() - size_t(offset));
    std::memcpy(buffer, store.content.data() + offset, n);
    return n;
   }

   void pwrite(const char *buffer, size_t size, int64_t offset) override
   {
    sym_yield();
    if (size == 0) return;
    const size_t end = size_t(offset) + size;
    if (end > store.content.size()) store.content.resize(end);
    std::memcpy(&store.content[size_t(offset)], buffer, size);
   }

   void sync() override {sym_yield();}

   void lock(int64_t start, int64_t size, bool exclusive)
   {
    if (ignore_locks) return;
    sym_yield();
    while (true)
    {
     bool free = true;
     for (const auto &l: store.locks)
      if (l.owner != id && (l.exclusive || exclusive) && uint64_t(l.start) < uint64_t(start) + uint64_t(size) && uint64_t(start) < uint64_t(l.start) + uint64_t(l.size)) free = false;
     if (free) break;
     sym_wait_change(&store.version, store.version);
    }
    for (auto &l: store.locks)
     if (l.owner == id && l.start == start) {l.exclusive = exclusive; return;}
    store.locks.push_back({id, start, size, exclusive});
   }
   void shared_lock(int64_t start, int64_t size) override {lock(start, size, false);}
   void exclusive_lock(int64_t start, int64_t size) override {lock(start, size, true);}
   void unlock(int64_t start, int64_t size) noexcept override
   {
    std::vector<Store::Lock> rest;
    for (const auto &l: store.locks)
     if (!(l.owner == id && l.start == start)) rest.push_back(l);
    store.locks = rest;
    store.version++;
    sym_yield();
   }
   ~Shared_File()
   {
    // closing releases every lock
    std::vector<Store::Lock> rest;
    for (const auto &l: store.locks) if (l.owner != id) rest.push_back(l);
    store.locks = rest;
    store.version++;
   }
 };
}
#endif
