// An in-memory file that records its writes and syncs, can die like a killed
// process, and gives views to other readers.
#ifndef mc_sim_file_declared
#define mc_sim_file_declared

#include "joedb/journal/Abstract_File.h"

#include <algorithm>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
 struct Event
 {
  enum Kind {write, sync, datasync} kind;
  int64_t offset;
  std::string data;
 };

 inline void apply(std::string &image, int64_t offset, const char *data, size_t size)
 {
  const size_t end = size_t(offset) + size;
  if (image.size() < end)
   image.resize(end);
  std::memcpy(&image[size_t(offset)], data, size);
 }

 // What is common to simulated and real files under observation
 class Sim_Core
 {
  public:
   std::string &image;
   std::vector<Event> &log;
   bool dead = false;
   int head_exclusive = 0;
   std::function<bool(const Event &)> die; // asked before each write or sync
   std::function<void()> before_event;     // called before each write or sync
   std::function<void()> after_unlock;
   std::string ghost;                      // what the dead process believes
   Event fatal{Event::sync, 0, {}};        // what was not done when it died

   Sim_Core(std::string &image, std::vector<Event> &log): image(image), log(log) {}
   virtual ~Sim_Core() = default;
   virtual joedb::Abstract_File &get_file() = 0;

   // Once dead, nothing is written any more, as if the process was killed
   // just before this event.
   bool start_event(Event &&e)
   {
    if (dead)
     return false;
    if (before_event)
     before_event();
    if (die && die(e))
    {
     dead = true;
     ghost = image;
     fatal = std::move(e);
     return false;
    }
    log.push_back(std::move(e));
    return true;
   }

   void on_lock(int64_t start)
   {
    if (start == 0)
     head_exclusive++;
   }

   void on_unlock(int64_t start)
   {
    if (start == 0 && head_exclusive)
    {
     head_exclusive--;
     if (after_unlock && !dead)
      after_unlock();
    }
   }
 };

 class Sim_File: public joedb::Abstract_File, public Sim_Core
 {
  public:
   Sim_File(std::string &image, std::vector<Event> &log, joedb::Open_Mode mode):
    joedb::Abstract_File(mode), Sim_Core(image, log)
   {
   }

   joedb::Abstract_File &get_file() override {return *this;}

   const std::string &current() const {return dead ? ghost : image;}

   int64_t get_size() const override {return int64_t(current().size());}

   size_t pread(char *data, size_t size, int64_t offset) const override
   {
    const std::string &s = current();
    if (offset < 0 || size_t(offset) >= s.size())
     return 0;
    const size_t n = std::min(size, s.size() - size_t(offset));
    std::memcpy(data, s.data() + offset, n);
    return n;
   }

   void pwrite(const char *data, size_t size, int64_t offset) override
   {
    if (start_event(Event{Event::write, offset, std::string(data, size)}))
     apply(image, offset, data, size);
    else
     apply(ghost, offset, data, size);
   }

   void sync() override {start_event(Event{Event::sync, 0, {}});}
   void datasync() override {start_event(Event{Event::datasync, 0, {}});}

   void exclusive_lock(int64_t start, int64_t size) override {on_lock(start);}
   void shared_lock(int64_t start, int64_t size) override {}
   void unlock(int64_t start, int64_t size) noexcept override {on_unlock(start);}
 };

 // Read-only view of an image
 class View: public joedb::Abstract_File
 {
  public:
   const std::string &image;
   View(const std::string &image): joedb::Abstract_File(joedb::Open_Mode::read_existing), image(image) {}
   int64_t get_size() const override {return int64_t(image.size());}
   size_t pread(char *data, size_t size, int64_t offset) const override
   {
    if (offset < 0 || size_t(offset) >= image.size())
     return 0;
    const size_t n = std::min(size, image.size() - size_t(offset));
    std::memcpy(data, image.data() + offset, n);
    return n;
   }
 };
}

#endif
