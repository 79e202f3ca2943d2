// A model of the system calls behind Posix_File: files, descriptors, locks, short transfers, errors
#ifndef HARNESS_KERNEL_H
#define HARNESS_KERNEL_H
#include "common.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <errno.h>
namespace k
{
 struct Lock {int fd; uint64_t start, end; bool exclusive;};
 struct Inode
 {
  bool exists = false, read_only = false;
  std::string content, durable;
  std::vector<Lock> locks;
  uint64_t version = 0; // changes whenever a lock may have been released
 };
 struct Descriptor {bool open = false; int inode = 0; int access = 0;};

 static Inode inode[2];
 static Descriptor fds[16];
 static bool short_transfers = false, threads = false;
 static int cuts = 0;             // how many transfers may still be short
 static size_t smallest_cut = 41; // shorter ones are never cut
 static bool errors;
 static uint64_t error_at, calls;     // symbolic: which call fails
 static bool failed;                  // the error happened
 static int error_number = EIO;

 static void reset()
 {
  for (auto &i: inode) i = Inode();
  for (auto &d: fds) d = Descriptor();
  errors = false;
  calls = 0;
  failed = false;
 }
 static void step() {if (threads) sym_yield();}
 static bool fails()
 {
  if (!errors || failed || calls++ != error_at) return false;
  failed = true;
  errno = error_number;
  return true;
 }
 static int open_descriptors()
 {
  int n = 0;
  for (auto &d: fds) n += d.open;
  return n;
 }
 static Descriptor *get(int fd)
 {
  if (fd < 3 || fd >= 16 || !fds[fd].open)
  {
   sym_fail("a system call on a file that is not open");
   return nullptr;
  }
  return &fds[fd];
 }
 // how many bytes are transferred: small transfers (the joedb header) are never cut
 static size_t transferred(size_t n)
 {
  if (!short_transfers || cuts == 0 || n <= smallest_cut) return n;
  const uint32_t c = sym_choice("transfer", n > 2 ? 3 : 2);
  if (c == 0) return n;
  cuts--;
  return c == 1 ? 1 : n - 1;
 }
}

extern "C"
{
 int px_open(const char *name, int flags, int mode);
 int px_fcntl(int fd, int command, struct flock *l);

 int px_open(const char *name, int flags, int mode)
 {
  k::step();
  const int i = name[0] == 'b' ? 1 : 0;
  k::Inode &n = k::inode[i];
  if (k::fails()) return -1;
  if ((flags & O_CREAT) && !n.exists)
  {
   n.exists = true;
   sym_assert((mode & 0600) == 0600, "the owner of a new file can read and write it");
  }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) {errno = EEXIST; return -1;}
  else if (!n.exists) {errno = ENOENT; return -1;}
  else if (n.read_only && (flags & O_ACCMODE) != O_RDONLY) {errno = EACCES; return -1;}
  if (flags & O_TRUNC) n.content.clear();
  for (int fd = 3; fd < 16; fd++)
   if (!k::fds[fd].open)
   {
    k::fds[fd].open = true;
    k::fds[fd].inode = i;
    k::fds[fd].access = flags & O_ACCMODE;
    return fd;
   }
  sym_giveup("too many descriptors");
 }

 int px_close(int fd)
 {
  k::step();
  if (fd < 0) {errno = EBADF; return -1;}
  k::Descriptor *d = k::get(fd);
  k::Inode &n = k::inode[d->inode];
  std::vector<k::Lock> rest;
  for (auto &l: n.locks) if (l.fd != fd) rest.push_back(l);
  n.locks = rest;
  n.version++;
  d->open = false;
  return 0;
 }

 ssize_t px_pread(int fd, void *buffer, size_t size, off_t offset)
 {
  k::step();
  k::Descriptor *d = k::get(fd);
  const std::string &s = k::inode[d->inode].content;
  if (d->access == O_WRONLY) {errno = EBADF; return -1;}
  if (offset < 0) {errno = EINVAL; return -1;}
  if (k::fails()) return -1;
  if (size_t(offset) >= s.size()) return 0;
  const size_t n = k::transferred(std::min(size, s.size() - size_t(offset)));
  std::memcpy(buffer, s.data() + offset, n);
  return ssize_t(n);
 }

 ssize_t px_pwrite(int fd, const void *buffer, size_t size, off_t offset)
 {
  k::step();
  k::Descriptor *d = k::get(fd);
  std::string &s = k::inode[d->inode].content;
  if (d->access == O_RDONLY) {errno = EBADF; return -1;}
  if (offset < 0) {errno = EINVAL; return -1;}
  if (k::fails()) return -1;
  if (size == 0) return 0;
  const size_t n = k::transferred(size);
  if (size_t(offset) + n > s.size()) s.resize(size_t(offset) + n);
  std::memcpy(&s[size_t(offset)], buffer, n);
  return ssize_t(n);
 }

 int px_fstat(int fd, struct stat *st)
 {
  k::step();
  k::Descriptor *d = k::get(fd);
  if (k::fails()) return -1;
  std::memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_size = off_t(k::inode[d->inode].content.size());
  return 0;
 }

 int px_fsync(int fd)
 {
  k::step();
  k::Descriptor *d = k::get(fd);
  if (k::fails()) return -1;
  k::inode[d->inode].durable = k::inode[d->inode].content;
  return 0;
 }

 // the data, not the size
 int px_fdatasync(int fd)
 {
  k::step();
  k::Descriptor *d = k::get(fd);
  if (k::fails()) return -1;
  k::Inode &n = k::inode[d->inode];
  const size_t size = n.durable.size();
  n.durable = n.content.substr(0, std::min(size, n.content.size()));
  return 0;
 }

 int px_fcntl(int fd, int command, struct flock *l)
 {
  k::step();
  k::Descriptor *d = k::get(fd);
  k::Inode &n = k::inode[d->inode];
  if (command != F_OFD_SETLK && command != F_OFD_SETLKW) sym_fail("only locks owned by an open file description are modelled");
  if (l->l_whence != SEEK_SET || l->l_start < 0 || l->l_len < 0 || l->l_pid != 0) {errno = EINVAL; return -1;}
  const uint64_t start = uint64_t(l->l_start);
  const uint64_t end = l->l_len == 0 ? uint64_t(INT64_MAX) + 1 : start + uint64_t(l->l_len);
  const bool exclusive = l->l_type == F_WRLCK;
  if (l->l_type != F_UNLCK)
  {
   if (exclusive && d->access == O_RDONLY) {errno = EBADF; return -1;}
   if (k::fails()) return -1;
   while (true)
   {
    bool free = true;
    for (auto &o: n.locks)
     if (o.fd != fd && (exclusive || o.exclusive) && o.start < end && start < o.end) free = false;
    if (free) break;
    if (command == F_OFD_SETLK) {errno = EAGAIN; return -1;}
    if (!k::threads) sym_fail("waiting for a lock that is never released");
    sym_wait_change(&n.version, n.version);
   }
  }
  // replace what this descriptor had in the range
  std::vector<k::Lock> rest;
  for (auto &o: n.locks)
  {
   if (o.fd != fd || o.end <= start || end <= o.start) {rest.push_back(o); continue;}
   if (o.start < start) rest.push_back({fd, o.start, start, o.exclusive});
   if (end < o.end) rest.push_back({fd, end, o.end, o.exclusive});
  }
  if (l->l_type != F_UNLCK) rest.push_back({fd, start, end, exclusive});
  n.locks = rest;
  n.version++;
  if (l->l_type == F_UNLCK) k::step();
  return 0;
 }
}
#endif
