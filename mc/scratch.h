// A scratch directory for this process, removed when it exits.
#ifndef mc_scratch_declared
#define mc_scratch_declared

#include <cstdlib>
#include <dirent.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>

namespace mc
{
 inline void empty_directory(const std::string &path)
 {
  if (DIR *d = ::opendir(path.c_str()))
  {
   while (dirent *e = ::readdir(d))
   {
    const std::string name = e->d_name;
    if (name != "." && name != "..")
    {
     const std::string p = path + "/" + name;
     if (::unlink(p.c_str()))
     {
      struct stat s;
      if (!::lstat(p.c_str(), &s) && S_ISDIR(s.st_mode))
      {
       empty_directory(p);
       ::rmdir(p.c_str());
      }
     }
    }
   }
   ::closedir(d);
  }
 }

 // MC_SCRATCH is created and removed by build.py
 inline const std::string &scratch()
 {
  static pid_t owner = 0;
  static std::string path;
  if (owner != ::getpid())
  {
   owner = ::getpid();
   const char *base = ::getenv("MC_SCRATCH");
   path = std::string(base ? base : "/tmp") + "/p" + std::to_string(owner);
   ::mkdir(path.c_str(), 0700);
  }
  return path;
 }
}

#endif
