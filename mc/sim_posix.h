// Simulated POSIX files: paths that start with /mc-sim/ are files in memory,
// with open file description locks, shared by the tasks of a Coop. Each system
// call is a scheduling point. The real joedb::File runs on top of it.
#ifndef mc_sim_posix_declared
#define mc_sim_posix_declared

#include "coop.h"

#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace mc
{
 struct Sim_Inode
 {
  std::string data;
  struct Lock {int fd; int type; int64_t start, end;}; // end included
  std::vector<Lock> locks;

  bool conflicts(int fd, int type, int64_t start, int64_t end) const
  {
   for (const Lock &l: locks)
    if (l.fd != fd && l.start <= end && start <= l.end && (type == F_WRLCK || l.type == F_WRLCK))
     return true;
   return false;
  }

  void set_lock(int fd, int type, int64_t start, int64_t end)
  {
   std::vector<Lock> r;
   for (const Lock &l: locks)
    if (l.fd != fd || l.end < start || end < l.start)
     r.push_back(l);
    else
    {
     if (l.start < start)
      r.push_back(Lock{l.fd, l.type, l.start, start - 1});
     if (end < l.end)
      r.push_back(Lock{l.fd, l.type, end + 1, l.end});
    }
   if (type != F_UNLCK)
    r.push_back(Lock{fd, type, start, end});
   locks = r;
  }
 };

 class Sim_Posix
 {
  public:
   struct Open_File {Sim_Inode *inode; int flags; Task *owner;};

   std::map<std::string, Sim_Inode> inodes;
   std::map<int, Open_File> fds;
   Coop *coop = nullptr;
   int next_fd = 100000;
   uint64_t calls = 0;
   int64_t torn_below = 0; // writes that start below are made in two halves
   std::function<int(const char *call, int fd, size_t size)> fault; // errno, or -n for a short call
   std::function<void(Sim_Inode &inode, int64_t offset, const char *data, size_t size)> written;
   std::function<void(Sim_Inode &inode, bool ok)> synced;

   static inline Sim_Posix *instance = nullptr;

   Sim_Posix() {instance = this;}
   ~Sim_Posix() {instance = nullptr;}

   static bool is_sim_path(const char *path) {return instance && !std::strncmp(path, "/mc-sim/", 8);}
   static Open_File *get(int fd)
   {
    if (fd < 100000 || !instance)
     return nullptr;
    const auto i = instance->fds.find(fd);
    return i == instance->fds.end() ? nullptr : &i->second;
   }

   // Called before each system call, by a task or not
   void point(const char *what, bool nothrow = false)
   {
    calls++;
    if (coop && coop->running() && !(nothrow && coop->is_dead()))
     coop->yield(what, nullptr, false, nothrow);
   }

   bool dead() const {return coop && coop->is_dead();}

   template<typename T> void learn(const T &x)
   {
    if (coop && coop->running())
     coop->running()->learn(x);
   }

   void close_all(Task &t)
   {
    for (auto i = fds.begin(); i != fds.end();)
     if (i->second.owner == &t)
     {
      release(i->first, *i->second.inode);
      i = fds.erase(i);
     }
     else
      ++i;
   }

   static void release(int fd, Sim_Inode &inode)
   {
    std::vector<Sim_Inode::Lock> r;
    for (const Sim_Inode::Lock &l: inode.locks)
     if (l.fd != fd)
      r.push_back(l);
    inode.locks = r;
   }

   uint64_t hash() const
   {
    uint64_t h = 1;
    for (const auto &[name, inode]: inodes)
    {
     h = hash_string(name, h);
     h = hash_string(inode.data, h);
     // file descriptors are numbered in the order of opening: use owners
     std::multiset<std::string> locks;
     for (const auto &l: inode.locks)
     {
      const auto f = fds.find(l.fd);
      locks.insert((f != fds.end() && f->second.owner ? f->second.owner->name : "main") + "/" + std::to_string(l.type) + "/" + std::to_string(l.start) + "/" + std::to_string(l.end));
     }
     for (const auto &s: locks)
      h = hash_string(s, h);
    }
    return h;
   }
 };
}

extern "C"
{
 int open64(const char *path, int flags, ...)
 {
  mode_t mode = 0;
  if (flags & O_CREAT)
  {
   va_list list;
   va_start(list, flags);
   mode = va_arg(list, mode_t);
   va_end(list);
  }
  if (!mc::Sim_Posix::is_sim_path(path))
   return int(::syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  s.point("open");
  if (s.dead())
  {
   errno = EINTR;
   return -1;
  }
  const auto i = s.inodes.find(path);
  int error = 0;
  if (i == s.inodes.end() && !(flags & O_CREAT))
   error = ENOENT;
  else if (i != s.inodes.end() && (flags & O_CREAT) && (flags & O_EXCL))
   error = EEXIST;
  if (error)
  {
   s.learn(uint64_t(error));
   errno = error;
   return -1;
  }
  mc::Sim_Inode &inode = s.inodes[path];
  if (flags & O_TRUNC)
   inode.data.clear();
  const int fd = s.next_fd++;
  s.fds[fd] = mc::Sim_Posix::Open_File{&inode, flags, s.coop ? s.coop->running() : nullptr};
  s.learn(uint64_t(1));
  return fd;
 }

 int close(int fd)
 {
  if (mc::Sim_Posix::get(fd))
  {
   mc::Sim_Posix &s = *mc::Sim_Posix::instance;
   s.point("close", true);
   mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd);
   if (f)
   {
    mc::Sim_Posix::release(fd, *f->inode);
    s.fds.erase(fd);
   }
   return 0;
  }
  if (fd >= 100000)
   return 0; // of a dead task
  return int(::syscall(SYS_close, fd));
 }

 ssize_t pread64(int fd, void *data, size_t size, off64_t offset)
 {
  if (fd < 100000)
   return ::syscall(SYS_pread64, fd, data, size, offset);
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  s.point("pread");
  mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd);
  if (!f || s.dead())
   return 0;
  if (offset < 0)
  {
   errno = EINVAL;
   return -1;
  }
  if (s.fault)
   if (const int e = s.fault("pread", fd, size))
   {
    s.learn(uint64_t(e));
    if (e > 0)
    {
     errno = e;
     return -1;
    }
    size = std::min(size, size_t(-e));
   }
  const std::string &d = f->inode->data;
  const size_t n = size_t(offset) >= d.size() ? 0 : std::min(size, d.size() - size_t(offset));
  std::memcpy(data, d.data() + (n ? offset : 0), n);
  if (s.coop && s.coop->running())
  {
   s.coop->running()->learn(uint64_t(offset));
   s.coop->running()->learn(data, n);
  }
  return ssize_t(n);
 }

 ssize_t pwrite64(int fd, const void *data, size_t size, off64_t offset)
 {
  if (fd < 100000)
   return ::syscall(SYS_pwrite64, fd, data, size, offset);
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  s.point(offset < 41 ? "pwrite head" : "pwrite");
  mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd);
  if (!f || s.dead())
   return ssize_t(size);
  if ((f->flags & O_ACCMODE) == O_RDONLY)
  {
   errno = EBADF;
   return -1;
  }
  if (s.fault)
   if (const int e = s.fault("pwrite", fd, size))
   {
    s.learn(uint64_t(e));
    if (e > 0)
    {
     errno = e;
     return -1;
    }
    size = std::min(size, size_t(-e));
   }
  const char *bytes = (const char *)data;
  size_t done = 0;
  std::string *d = &f->inode->data;
  if (d->size() < size_t(offset) + size && offset >= s.torn_below)
   d->resize(size_t(offset) + size);
  if (offset < s.torn_below && size > 1)
  {
   done = 1;
   if (d->size() < size_t(offset) + done)
    d->resize(size_t(offset) + done);
   std::memcpy(&(*d)[size_t(offset)], bytes, done);
   s.point("end of pwrite head");
   f = mc::Sim_Posix::get(fd);
   if (!f || s.dead())
    return ssize_t(size);
   d = &f->inode->data;
  }
  if (d->size() < size_t(offset) + size)
   d->resize(size_t(offset) + size);
  std::memcpy(&(*d)[size_t(offset) + done], bytes + done, size - done);
  if (s.written)
   s.written(*f->inode, offset, bytes, size);
  s.learn(uint64_t(2));
  return ssize_t(size);
 }

 static int mc_sim_sync(int fd)
 {
  if (fd < 100000)
   return 0;
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  s.point("sync");
  mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd);
  if (!f || s.dead())
   return 0;
  if (s.fault)
   if (const int e = s.fault("sync", fd, 0))
   {
    if (s.synced)
     s.synced(*f->inode, false);
    s.learn(uint64_t(e));
    errno = e;
    return -1;
   }
  if (s.synced)
   s.synced(*f->inode, true);
  return 0;
 }

 int fsync(int fd) {return mc_sim_sync(fd);}
 int fdatasync(int fd) {return mc_sim_sync(fd);}

 static int mc_fstat(int fd, struct stat64 *r)
 {
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  s.point("fstat", true);
  if (s.fault && !s.dead())
   if (const int e = s.fault("fstat", fd, 0))
   {
    s.learn(uint64_t(e));
    errno = e;
    return -1;
   }
  std::memset(r, 0, sizeof(*r));
  r->st_mode = S_IFREG | 0644;
  r->st_blksize = 4096;
  if (mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd))
  {
   r->st_size = off64_t(f->inode->data.size());
   r->st_ino = ino_t(uintptr_t(f->inode));
  }
  s.learn(uint64_t(r->st_size));
  return 0;
 }

 int fstat64(int fd, struct stat64 *r) noexcept
 {
  if (fd < 100000)
   return int(::syscall(SYS_fstat, fd, r));
  return mc_fstat(fd, r);
 }

 int ftruncate64(int fd, off64_t size) noexcept
 {
  if (fd < 100000)
   return int(::syscall(SYS_ftruncate, fd, size));
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  s.point("ftruncate", true);
  if (mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd))
   if (!s.dead())
    f->inode->data.resize(size_t(size));
  return 0;
 }

 int fcntl64(int fd, int command, ...)
 {
  va_list list;
  va_start(list, command);
  void * const argument = va_arg(list, void *);
  va_end(list);
  if (fd < 100000)
   return int(::syscall(SYS_fcntl, fd, command, argument));
  mc::Sim_Posix &s = *mc::Sim_Posix::instance;
  const bool wait = command == F_OFD_SETLKW || command == F_SETLKW;
  if (!wait && command != F_OFD_SETLK && command != F_SETLK)
   return 0;
  const struct flock64 &l = *(const struct flock64 *)argument;
  const int64_t start = l.l_start;
  const int64_t end = l.l_len ? start + int64_t(l.l_len - 1) : INT64_MAX; // last position
  const int type = l.l_type;
  if (type == F_UNLCK)
  {
   s.point("unlock", true);
   if (mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd))
    if (!s.dead())
     f->inode->set_lock(fd, type, start, end);
   return 0;
  }
  if (wait && s.coop && s.coop->running())
  {
   s.calls++;
   s.coop->yield
   (
    type == F_WRLCK ? "exclusive lock" : "shared lock",
    [fd, type, start, end]()
    {
     mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd);
     return !f || !f->inode->conflicts(fd, type, start, end);
    }
   );
  }
  else
   s.point("try lock");
  mc::Sim_Posix::Open_File *f = mc::Sim_Posix::get(fd);
  if (!f || s.dead())
  {
   errno = EINTR;
   return -1;
  }
  if (s.fault)
   if (const int e = s.fault("lock", fd, 0))
   {
    s.learn(uint64_t(e));
    errno = e;
    return -1;
   }
  if (f->inode->conflicts(fd, type, start, end))
  {
   s.learn(uint64_t(3));
   errno = wait ? EDEADLK : EAGAIN;
   return -1;
  }
  f->inode->set_lock(fd, type, start, end);
  s.learn(uint64_t(4));
  return 0;
 }
}

#endif
