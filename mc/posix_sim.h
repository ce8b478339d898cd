// Observe the real joedb::File, on a real file in a scratch directory: the
// system calls it makes are recorded, and stop having a visible effect when
// the simulated process is dead.
#ifndef mc_posix_sim_declared
#define mc_posix_sim_declared

#include "sim_file.h"
#include "scratch.h"
#include "joedb/journal/File.h"

#include <cstdarg>
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace mc
{
 struct Posix_Watch
 {
  dev_t dev = 0;
  ino_t ino = 0;
  Sim_Core *core = nullptr;
  uint64_t calls = 0;
 };
 inline Posix_Watch watch;

 inline Sim_Core *watched(int fd)
 {
  if (!watch.core)
   return nullptr;
  struct stat s;
  if (fstat(fd, &s) || s.st_dev != watch.dev || s.st_ino != watch.ino)
   return nullptr;
  watch.calls++;
  return watch.core;
 }

 class Posix_Sim: public Sim_Core
 {
  private:
   const std::string path;
   std::unique_ptr<joedb::File> file;

  public:
   Posix_Sim(std::string &image, std::vector<Event> &log, joedb::Open_Mode mode):
    Sim_Core(image, log),
    path(scratch() + "/posix_sim")
   {
    ::unlink(path.c_str());
    if (mode != joedb::Open_Mode::create_new)
    {
     const int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
     if (fd < 0 || ::syscall(SYS_pwrite64, fd, image.data(), image.size(), 0L) != long(image.size()))
      throw Bad_Replay{"cannot write in the scratch directory"};
     ::close(fd);
    }
    file = std::make_unique<joedb::File>(path, mode);
    struct stat s;
    ::stat(path.c_str(), &s);
    watch.dev = s.st_dev;
    watch.ino = s.st_ino;
    watch.core = this;
   }

   ~Posix_Sim() override
   {
    watch.core = nullptr;
    file.reset();
    ::unlink(path.c_str());
   }

   joedb::Abstract_File &get_file() override {return *file;}
 };
}

extern "C"
{
 ssize_t pwrite64(int fd, const void *data, size_t size, off64_t offset)
 {
  if (mc::Sim_Core *core = mc::watched(fd))
  {
   if (core->start_event(mc::Event{mc::Event::write, int64_t(offset), std::string((const char *)data, size)}))
    mc::apply(core->image, offset, (const char *)data, size);
   // the real file follows anyway: it is what the dead process believes
  }
  return ::syscall(SYS_pwrite64, fd, data, size, offset);
 }

 static int mc_sync(int fd, mc::Event::Kind kind)
 {
  if (mc::Sim_Core *core = mc::watched(fd))
   core->start_event(mc::Event{kind, 0, {}});
  return 0;
 }

 int fsync(int fd) {return mc_sync(fd, mc::Event::sync);}
 int fdatasync(int fd) {return mc_sync(fd, mc::Event::datasync);}

 int fcntl64(int fd, int command, ...)
 {
  va_list list;
  va_start(list, command);
  void * const argument = va_arg(list, void *);
  va_end(list);
  const int result = int(::syscall(SYS_fcntl, fd, command, argument));
  if (result == 0 && (command == F_OFD_SETLK || command == F_OFD_SETLKW || command == F_SETLK || command == F_SETLKW))
   if (mc::Sim_Core *core = mc::watched(fd))
   {
    const struct flock &l = *(const struct flock *)argument;
    if (l.l_type == F_WRLCK)
     core->on_lock(l.l_start);
    else if (l.l_type == F_UNLCK)
     core->on_unlock(l.l_start);
   }
  return result;
 }
}

#endif
