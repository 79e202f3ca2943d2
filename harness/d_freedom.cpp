// Record allocation against a plain set
#include "common.h"
#include "joedb/Freedom_Keeper.h"
using namespace joedb;

struct Model {std::vector<bool> used;};

static void check(const Freedom_Keeper &fk, const Model &m)
{
 const int64_t n = int64_t(m.used.size());
 int64_t count = 0;
 for (int64_t i = 0; i < n; i++) if (m.used[size_t(i)]) count++;
 sym_assert(int64_t(to_underlying(fk.get_size())) == n && fk.size() == size_t(n), "size");
 sym_assert(int64_t(to_underlying(fk.get_used_count())) == count, "number of used records");
 for (int64_t i = -3; i < n + 3; i++)
 {
  if (i == -1 || i == -2) continue; // list heads
  const bool u = i >= 0 && i < n && m.used[size_t(i)];
  sym_assert(fk.is_used(Record_Id(i)) == u, "is_used");
  sym_assert(fk.is_free(Record_Id(i)) == !u, "is_free");
 }
 sym_assert(!fk.is_used(Record_Id::null), "the null record is not used");
 const uint64_t far = sym_range("far", uint64_t(n), INT64_MAX);
 sym_assert(!fk.is_used(Record_Id(int64_t(far))), "a record past the end is not used");

 for (int list = 0; list < 2; list++)
 {
  const Record_Id head = list ? Freedom_Keeper::free_list : Freedom_Keeper::used_list;
  std::vector<int64_t> forward, backward;
  for (Record_Id i = list ? fk.get_first_free() : fk.get_first_used(); i != head; i = fk.get_next(i))
  {
   forward.push_back(to_underlying(i));
   if (int64_t(forward.size()) > n) sym_fail("iteration terminates");
  }
  for (Record_Id i = list ? fk.get_last_free() : fk.get_last_used(); i != head; i = fk.get_previous(i))
  {
   backward.push_back(to_underlying(i));
   if (int64_t(backward.size()) > n) sym_fail("backward iteration terminates");
  }
  std::vector<bool> seen(size_t(n), false);
  sym_assert(int64_t(forward.size()) == (list ? n - count : count), "iteration visits every record of its list");
  for (int64_t i: forward)
  {
   sym_assert(i >= 0 && i < n, "iteration stays in range");
   sym_assert(!seen[size_t(i)], "iteration visits each record once");
   seen[size_t(i)] = true;
   sym_assert(m.used[size_t(i)] == !list, "iteration visits only records of its list");
  }
  sym_assert(forward.size() == backward.size(), "backward iteration has the same length");
  for (size_t i = 0; i < forward.size(); i++)
   sym_assert(forward[i] == backward[forward.size() - 1 - i], "backward iteration is the reverse");
 }

 // vectors
 if (sym_param("vectors", 1))
 {
  const int64_t start = int64_t(sym_choice("vector_start", uint32_t(n) + 2)) - 1;
  const int64_t max = 5;
  const uint64_t size = sym_choice("big", 2) ? sym_range("vector_size", max, UINT64_MAX) : 1 + sym_choice("vector_size", uint32_t(max) - 1);
  bool all_used = start >= 0, all_free = start >= 0;
  const bool small = size < uint64_t(max);
  if (small)
  {
   for (int64_t i = start; i < start + int64_t(size); i++)
   {
    const bool u = i >= 0 && i < n && m.used[size_t(i)];
    if (!u) all_used = false;
    if (u) all_free = false;
   }
   sym_assert(fk.is_used_vector(Record_Id(start), size) == all_used, "is_used_vector");
   if (start >= 0)
    sym_assert(fk.is_free_vector(Record_Id(start), size) == all_free, "is_free_vector");
  }
  else if (fk.is_used_vector(Record_Id(start), size))
  {
   sym_assert(start >= 0 && size <= uint64_t(n - start), "a used vector is inside the table");
   const int64_t len = int64_t(sym_concretize(size));
   for (int64_t i = start; i < start + len; i++)
    sym_assert(m.used[size_t(i)], "a used vector has used records only");
  }
 }
}

static void run(int steps)
{
 Freedom_Keeper fk;
 Model m;
 for (int s = 0; s < steps; s++)
 {
  const size_t n = m.used.size();
  switch (sym_choice("operation", 7))
  {
   case 0: // allocate
   {
    const Record_Id r = fk.get_free_record();
    sym_assert(to_underlying(r) >= 0 && to_underlying(r) < index_t(fk.size()), "a free record is in range");
    sym_assert(fk.is_free(r), "a free record is free");
    if (size_t(to_underlying(r)) >= n) m.used.resize(size_t(to_underlying(r)) + 1, false);
    sym_assert(!m.used[size_t(to_underlying(r))], "an allocated record was not in use");
    fk.use(r);
    m.used[size_t(to_underlying(r))] = true;
    break;
   }
   case 1:
   {
    const Record_Id r = fk.push_back();
    sym_assert(size_t(to_underlying(r)) == n, "push_back appends");
    m.used.push_back(false);
    break;
   }
   case 2: // use any free record
   {
    if (!n) sym_stop();
    const size_t i = sym_choice("index", uint32_t(n));
    if (m.used[i]) sym_stop();
    fk.use(Record_Id(index_t(i)));
    m.used[i] = true;
    break;
   }
   case 3:
   {
    if (!n) sym_stop();
    const size_t i = sym_choice("index", uint32_t(n));
    if (!m.used[i]) sym_stop();
    fk.free(Record_Id(index_t(i)));
    m.used[i] = false;
    break;
   }
   case 4:
   {
    const size_t k = n + sym_choice("grow", 3);
    fk.resize(k);
    m.used.resize(k, false);
    break;
   }
   case 5: case 6:
   {
    if (!n) sym_stop();
    const bool use = sym_choice("use", 2);
    const size_t i = sym_choice("index", uint32_t(n));
    const size_t len = 1 + sym_choice("len", 2);
    if (i + len > n) sym_stop();
    for (size_t k = i; k < i + len; k++) if (m.used[k] == use) sym_stop();
    if (use) fk.use_vector(Record_Id(index_t(i)), len);
    else fk.free_vector(Record_Id(index_t(i)), len);
    for (size_t k = i; k < i + len; k++) m.used[k] = use;
    break;
   }
  }
 }
 check(fk, m);
 sym_trace(m.used.size());
 sym_reach("end");
}

extern "C" void harness()
{
 run(1 + int(sym_choice("steps", uint32_t(sym_param("steps", 4)))));
}
