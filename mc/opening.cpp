// C26: opening modes and file locks, with real files and the real kernel.
//
// A lock request that would wait is turned into a request that fails, so that
// sequences can be explored in one thread: the kernel decides what would wait.
#include "explorer.h"
#include "scratch.h"

#include "mcdb_s1/s1/writable.h"
#include "mcdb_s1/s1/readonly.h"

#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Upgradable_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/interpreted/Database.h"
#include "joedb/error/Destructor_Logger.h"

#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <optional>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;

/////////////////////////////////////////////////////////////////////////////
// The system calls of the process
/////////////////////////////////////////////////////////////////////////////

static bool would_wait = false;
static int fault_at = -1; // number of calls before one that fails
static string failed_call;

static bool fault(const char *name)
{
 if (fault_at < 0 || fault_at-- > 0)
  return false;
 failed_call = name;
 errno = EIO;
 return true;
}

extern "C"
{
 int fcntl64(int fd, int command, ...)
 {
  va_list list;
  va_start(list, command);
  void * const argument = va_arg(list, void *);
  va_end(list);
  if (command == F_OFD_SETLK || command == F_OFD_SETLKW || command == F_SETLK || command == F_SETLKW)
   if (((struct flock64 *)argument)->l_type != F_UNLCK && fault("lock"))
    return -1;
  const bool wait = command == F_OFD_SETLKW || command == F_SETLKW;
  if (wait)
   command = command == F_SETLKW ? F_SETLK : F_OFD_SETLK;
  const int r = int(::syscall(SYS_fcntl, fd, command, argument));
  if (wait && r < 0 && (errno == EAGAIN || errno == EACCES))
  {
   would_wait = true;
   errno = EDEADLK;
  }
  return r;
 }

 ssize_t pread64(int fd, void *data, size_t size, off64_t offset)
 {
  return fault("pread") ? -1 : ::syscall(SYS_pread64, fd, data, size, offset);
 }

 ssize_t pwrite64(int fd, const void *data, size_t size, off64_t offset)
 {
  return fault("pwrite") ? -1 : ::syscall(SYS_pwrite64, fd, data, size, offset);
 }

 int fstat64(int fd, struct stat64 *r) noexcept
 {
  return fault("fstat") ? -1 : int(::syscall(SYS_fstat, fd, r));
 }

 int fsync(int) {return fault("fsync") ? -1 : 0;}
 int fdatasync(int) {return fault("fdatasync") ? -1 : 0;}
}

/////////////////////////////////////////////////////////////////////////////
// Utilities
/////////////////////////////////////////////////////////////////////////////

using Content = std::optional<string>; // none if the file does not exist

static Content disk(const string &path)
{
 const int fd = int(::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_CLOEXEC, 0));
 if (fd < 0)
  return {};
 string r;
 char b[4096];
 for (;;)
 {
  const ssize_t n = ::syscall(SYS_pread64, fd, b, sizeof(b), long(r.size()));
  if (n <= 0)
   break;
  r.append(b, size_t(n));
 }
 ::close(fd);
 return r;
}

static void put(const string &path, const Content &content)
{
 ::unlink(path.c_str());
 if (content)
 {
  const int fd = int(::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDWR | O_CREAT | O_EXCL, 0644));
  if (fd < 0 || ::syscall(SYS_pwrite64, fd, content->data(), content->size(), 0L) != long(content->size()))
   throw mc::Bad_Replay{"cannot write in the scratch directory"};
  ::close(fd);
 }
}

static int open_fds()
{
 int n = 0;
 DIR *d = ::opendir("/proc/self/fd");
 while (dirent *e = ::readdir(d))
  n += e->d_name[0] != '.';
 ::closedir(d);
 return n;
}

static string show(const Content &c)
{
 return c ? "a file of " + to_string(c->size()) + " bytes" : "no file";
}

static const char *mode_name(Open_Mode m)
{
 static const char *names[] = {"read_existing", "write_existing", "create_new", "write_existing_or_create_new", "shared_write", "write_lock"};
 return names[int(m)];
}

constexpr int64_t last = INT64_MAX;

struct Range {int64_t start, size; const char *name; int64_t end() const {return start + (size - 1);}};
static const Range ranges[] = {{0, 1, "head"}, {last, 1, "tail"}, {0, 4, "0+4"}, {2, 4, "2+4"}};

/////////////////////////////////////////////////////////////////////////////
// Model
/////////////////////////////////////////////////////////////////////////////

struct Lock {int slot; bool exclusive; int64_t start, end;};

struct Inode
{
 string bytes;
 std::vector<Lock> locks;

 bool conflicts(int slot, bool exclusive, const Range &r) const
 {
  for (const Lock &l: locks)
   if (l.slot != slot && l.start <= r.end() && r.start <= l.end && (exclusive || l.exclusive))
    return true;
  return false;
 }

 void unlock(int slot, const Range &r)
 {
  std::vector<Lock> n;
  for (const Lock &l: locks)
   if (l.slot != slot || l.end < r.start || r.end() < l.start)
    n.push_back(l);
   else
   {
    if (l.start < r.start) n.push_back({slot, l.exclusive, l.start, r.start - 1});
    if (r.end() < l.end) n.push_back({slot, l.exclusive, r.end() + 1, l.end});
   }
  locks = n;
 }

 void lock(int slot, bool exclusive, const Range &r)
 {
  unlock(slot, r);
  locks.push_back({slot, exclusive, r.start, r.end()});
 }
};

enum Outcome {ok, fails, waits};

static bool creates(Open_Mode m)
{
 return m == Open_Mode::create_new || m == Open_Mode::write_existing_or_create_new || m == Open_Mode::shared_write || m == Open_Mode::write_lock;
}

static bool takes_lock(Open_Mode m)
{
 return m != Open_Mode::read_existing && m != Open_Mode::shared_write;
}

static Outcome expected_opening(Open_Mode m, const Inode *inode, bool lockable = true)
{
 if (!inode)
  return creates(m) ? ok : fails;
 if (m == Open_Mode::create_new)
  return fails;
 if (lockable && takes_lock(m) && inode->conflicts(-1, true, ranges[1]))
  return m == Open_Mode::write_lock ? waits : fails;
 return ok;
}

static const char *name(Outcome o)
{
 return o == ok ? "succeeds" : o == fails ? "fails" : "waits for a lock";
}

template<typename F> static Outcome attempt(F f, string *what = nullptr)
{
 would_wait = false;
 try
 {
  f();
  return ok;
 }
 catch (const Assertion_Failure &)
 {
  throw;
 }
 catch (const std::exception &e)
 {
  if (what)
   *what = e.what();
  return would_wait ? waits : fails;
 }
}

// What another process would get, for every range and kind of lock
static void check_locks(const Inode &inode, const string &path, const string &when)
{
 const int fd = int(::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDWR | O_CLOEXEC, 0));
 require(fd >= 0, when + ": cannot open the file to look at its locks");
 for (const Range &r: ranges)
  for (const bool exclusive: {false, true})
  {
   struct flock64 l{};
   l.l_type = short(exclusive ? F_WRLCK : F_RDLCK);
   l.l_whence = SEEK_SET;
   l.l_start = r.start;
   l.l_len = r.size;
   const bool possible = !::syscall(SYS_fcntl, fd, F_OFD_GETLK, &l) && l.l_type == F_UNLCK;
   const bool expected = !inode.conflicts(-1, exclusive, r);
   if (possible != expected)
   {
    ::close(fd);
    mc::fail(when + ": " + (exclusive ? "an exclusive" : "a shared") + " lock of " + r.name + (possible ? " is possible, and should not be" : " is not possible, and should be"), "locks");
   }
  }
 ::close(fd);
}

/////////////////////////////////////////////////////////////////////////////
// Handles: files, in all modes
/////////////////////////////////////////////////////////////////////////////

struct Action
{
 enum Kind {open, close, write, lock, shared_lock, unlock, remove} kind;
 int slot;
 int x;
};

template<typename File_Type, bool lockable> static void handles(Chooser &c, int slots, int depth)
{
 const string path = mc::scratch() + "/handles";
 struct Slot
 {
  std::unique_ptr<Abstract_File> file;
  Open_Mode mode;
  std::shared_ptr<Inode> inode;
 };

 std::vector<Slot> s;
 s.resize(size_t(slots));
 std::shared_ptr<Inode> linked;

 {
  const int initial = c.choose(3);
  const Content content = initial == 0 ? Content{} : initial == 1 ? Content{""} : Content{"hello"};
  c.note("initially, " + show(content));
  put(path, content);
  if (content)
   linked = std::make_shared<Inode>(Inode{*content, {}});
 }
 const int fds = open_fds();

 std::vector<Action> actions;
 for (int i = 0; i < slots; i++)
 {
  for (int m = 0; m < int(Open_Mode::mode_count); m++)
   actions.push_back({Action::open, i, m});
  actions.push_back({Action::close, i, 0});
  actions.push_back({Action::write, i, 0});
  if (lockable)
   for (int r = 0; r < 4; r++)
    for (const Action::Kind k: {Action::lock, Action::shared_lock, Action::unlock})
     actions.push_back({k, i, r});
 }
 actions.push_back({Action::remove, 0, 0});

 for (int d = 0; d < depth; d++)
 {
  std::vector<const Action *> enabled;
  for (const Action &a: actions)
  {
   const bool opened = s[size_t(a.slot)].file != nullptr;
   if (a.kind == Action::remove ? linked != nullptr : a.kind == Action::open ? !opened && (a.slot == 0 || s[size_t(a.slot - 1)].file) : opened)
    enabled.push_back(&a);
  }
  const int x = c.choose(int(enabled.size()) + 1);
  if (x == int(enabled.size()))
   break;
  if (d == 0) c.split();
  const Action &a = *enabled[size_t(x)];
  Slot &slot = s[size_t(a.slot)];
  const string who = "file " + to_string(a.slot) + ": ";
  string step, what;

  switch (a.kind)
  {
   case Action::open:
   {
    const Open_Mode mode = Open_Mode(a.x);
    step = who + "open " + mode_name(mode);
    c.note(step);
    const Outcome e = expected_opening(mode, linked.get(), lockable);
    const Outcome o = attempt([&](){slot.file = std::make_unique<File_Type>(path, mode);}, &what);
    require(o == e, step + " with " + show(linked ? Content(linked->bytes) : Content()) + ": it " + name(o) + " instead of: " + name(e) + ". " + what, "open");
    if (o == ok)
    {
     if (!linked)
      linked = std::make_shared<Inode>();
     slot.inode = linked;
     slot.mode = mode;
     if (lockable && takes_lock(mode))
      linked->lock(a.slot, true, ranges[1]);
     require(slot.file->get_mode() == mode, step + ": get_mode()", "get_mode");
     require(slot.file->is_readonly() == (mode == Open_Mode::read_existing), step + ": is_readonly()", "get_mode");
     require(slot.file->is_shared() == (mode == Open_Mode::shared_write), step + ": is_shared()", "get_mode");
    }
   }
   break;

   case Action::close:
    step = who + "close";
    c.note(step);
    slot.file.reset();
    for (const Range &r: {Range{0, last, ""}, Range{last, 1, ""}})
     slot.inode->unlock(a.slot, r);
    slot.inode.reset();
   break;

   case Action::write:
   {
    step = who + "write";
    c.note(step);
    const size_t at = size_t(a.slot) * 2;
    const char b = char(slot.inode->bytes.size() > at && slot.inode->bytes[at] == 'A' ? 'B' : 'A');
    const Outcome e = slot.mode == Open_Mode::read_existing ? fails : ok;
    const Outcome o = attempt([&](){slot.file->pwrite(&b, 1, int64_t(at));}, &what);
    require(o == e, step + " " + mode_name(slot.mode) + ": it " + name(o) + " instead of: " + name(e) + ". " + what, "write");
    if (o == ok)
    {
     if (slot.inode->bytes.size() <= at)
      slot.inode->bytes.resize(at + 1);
     slot.inode->bytes[at] = b;
    }
   }
   break;

   case Action::lock:
   case Action::shared_lock:
   {
    const bool exclusive = a.kind == Action::lock;
    const Range &r = ranges[a.x];
    step = who + (exclusive ? "exclusive lock of " : "shared lock of ") + r.name;
    c.note(step);
    const Outcome e = exclusive && slot.mode == Open_Mode::read_existing ? fails : slot.inode->conflicts(a.slot, exclusive, r) ? waits : ok;
    Abstract_File &f = *slot.file;
    const Outcome o = attempt([&]()
    {
     if (a.x == 0 && exclusive) f.exclusive_lock_head();
     else if (a.x == 0) f.shared_lock_head();
     else if (a.x == 1 && exclusive) f.exclusive_lock_tail();
     else if (exclusive) f.exclusive_lock(r.start, r.size);
     else f.shared_lock(r.start, r.size);
    }, &what);
    require(o == e, step + ": it " + name(o) + " instead of: " + name(e) + ". " + what, "lock");
    if (o == ok)
     slot.inode->lock(a.slot, exclusive, r);
   }
   break;

   case Action::unlock:
   {
    const Range &r = ranges[a.x];
    step = who + "unlock " + r.name;
    c.note(step);
    if (a.x == 0) slot.file->unlock_head();
    else if (a.x == 1) slot.file->unlock_tail();
    else slot.file->unlock(r.start, r.size);
    slot.inode->unlock(a.slot, r);
   }
   break;

   case Action::remove:
    step = "remove the file";
    c.note(step);
    ::unlink(path.c_str());
    linked.reset();
   break;
  }
  c.transition();

  const Content content = disk(path);
  require(bool(content) == bool(linked) && (!content || *content == linked->bytes), "after " + step + " there is " + show(content) + " instead of " + show(linked ? Content(linked->bytes) : Content()) + (content && linked && content->size() == linked->bytes.size() ? ", with another content" : ""), "content");
  int opened = 0;
  for (int i = 0; i < slots; i++)
   if (s[size_t(i)].file)
   {
    opened++;
    const Slot &t = s[size_t(i)];
    char b[10];
    require(t.file->get_size() == int64_t(t.inode->bytes.size()), "after " + step + ": size of file " + to_string(i), "size");
    const size_t n = t.file->pread(b, sizeof(b), 0);
    require(string(b, n) == t.inode->bytes, "after " + step + ": bytes of file " + to_string(i), "bytes");
   }
  require(open_fds() == fds + opened, "after " + step + " there are " + to_string(open_fds() - fds) + " file descriptors for " + to_string(opened) + " files", "fd_leak");
  if (linked && lockable)
   check_locks(*linked, path, "after " + step);

  std::map<const Inode *, int> ids;
  ids[linked.get()] = 0;
  string h;
  std::vector<const Inode *> inodes{linked.get()};
  for (const Slot &t: s)
   if (t.file)
   {
    const auto i = ids.emplace(t.inode.get(), int(ids.size()));
    if (i.second)
     inodes.push_back(t.inode.get());
    h += to_string(int(t.mode)) + ":" + to_string(i.first->second) + ",";
   }
   else
    h += "-,";
  for (const Inode *i: inodes)
   if (i)
   {
    h += "|" + i->bytes;
    std::multiset<string> locks;
    for (const Lock &l: i->locks)
     locks.insert(to_string(l.slot) + "," + to_string(l.exclusive) + "," + to_string(l.start) + "," + to_string(l.end));
    for (const string &l: locks)
     h += ";" + l;
   }
   else
    h += "|none";
  c.state(mc::hash_string(h));
  c.outcome(step.substr(8) + (linked ? "1" : "0"));
  c.prune(mc::hash_string(h));
 }
}

/////////////////////////////////////////////////////////////////////////////
// Journals, on top of files
/////////////////////////////////////////////////////////////////////////////

struct Image {const char *name; Content content;};

static const std::vector<Image> &images()
{
 static const std::vector<Image> r = []()
 {
  std::vector<Image> v;
  v.push_back({"missing", {}});
  v.push_back({"empty", ""});
  v.push_back({"garbage", string(60, 'x')});
  string fresh, data, soft;
  {
   Memory_File file;
   {Writable_Journal journal(file);}
   fresh = file.get_data();
  }
  {
   Memory_File file;
   Writable_Journal journal(file);
   journal.create_table("person");
   journal.hard_checkpoint();
   data = file.get_data();
   journal.create_table("city");
   journal.soft_checkpoint();
   soft = file.get_data();
  }
  v.push_back({"short", fresh.substr(0, 20)});
  string wrong = fresh;
  wrong[32] ^= 8;
  v.push_back({"other version", wrong});
  wrong = fresh;
  wrong[40] = 'x';
  v.push_back({"other signature", wrong});
  v.push_back({"no data", fresh});
  v.push_back({"hard checkpoint", data});
  v.push_back({"soft checkpoint", soft});
  v.push_back({"tail", data + "\x01\x04""city"});
  v.push_back({"cut", data.substr(0, data.size() - 2)});
  return v;
 }();
 return r;
}

// Reference reading of the header
struct Header_Model
{
 bool complete = false, recognized = false;
 int64_t checkpoint = 41;

 Header_Model(const string &s)
 {
  if (s.size() < 41)
   return;
  complete = true;
  int64_t pos[4];
  uint32_t version;
  std::memcpy(pos, s.data(), 32);
  std::memcpy(&version, s.data() + 32, 4);
  recognized = version == 5 && s.substr(36, 5) == "joedb";
  for (int i = 0; i < 4; i += 2)
   if (pos[i] == pos[i + 1])
    checkpoint = std::max(checkpoint, pos[i]);
  for (int i = 0; i < 4; i++)
   if (-pos[i] <= int64_t(s.size()))
    checkpoint = std::max(checkpoint, -pos[i]);
 }
};

// Expected result of the construction of a journal, on a file that was opened
static Outcome expected_journal(const string &bytes, bool write, Recovery recovery, Open_Mode mode)
{
 if (bytes.empty())
  return write && mode != Open_Mode::read_existing ? ok : fails;
 if (write && mode == Open_Mode::read_existing)
  return fails;
 const Header_Model h(bytes);
 if (!h.complete)
  return fails;
 if (recovery == Recovery::ignore_header)
  return ok;
 if (!h.recognized || h.checkpoint > int64_t(bytes.size()))
  return fails;
 if (write && recovery != Recovery::overwrite && h.checkpoint < int64_t(bytes.size()))
  return fails;
 return ok;
}

static string fresh_header()
{
 return *images()[6].content;
}

struct Opened
{
 std::unique_ptr<File> file;
 std::unique_ptr<Readonly_Journal> reader;
 std::unique_ptr<Writable_Journal> writer;
 Open_Mode mode;
 ~Opened() {writer.reset(); reader.reset(); file.reset();}
};

static void open_journal(Opened &o, bool write, Recovery recovery)
{
 Journal_Construction_Lock lock(*o.file, recovery);
 if (write)
 {
  o.writer = std::make_unique<Writable_Journal>(lock);
 }
 else
  o.reader = std::make_unique<Readonly_Journal>(lock);
}

static int count_tables(const string &bytes)
{
 Readonly_Memory_File file(bytes.data(), bytes.size());
 Readonly_Journal journal(file);
 Database db;
 journal.replay_log(db);
 return int(db.get_tables().size());
}

static void journals(Chooser &c, int slots, int depth)
{
 const string path = mc::scratch() + "/journals";
 std::vector<std::unique_ptr<Opened>> s;
 s.resize(size_t(slots));
 std::shared_ptr<Inode> linked;

 {
  const Image &image = images()[size_t(c.choose(int(images().size())))];
  c.note(string("initially: ") + image.name);
  put(path, image.content);
  if (image.content)
   linked = std::make_shared<Inode>(Inode{*image.content, {}});
 }
 c.split();
 const int fds = open_fds();
 int names = 0;

 for (int d = 0; d < depth; d++)
 {
  struct Act {int slot; int kind; Open_Mode mode; Recovery recovery; bool write;};
  std::vector<Act> acts;
  int writers = 0;
  for (const auto &o: s)
   writers += o && o->writer;
  for (int i = 0; i < slots; i++)
  {
   const Opened *o = s[size_t(i)].get();
   if (!o)
   {
    if (i == 0 || s[size_t(i - 1)])
     for (int m = 0; m < int(Open_Mode::mode_count); m++)
      for (const Recovery recovery: {Recovery::none, Recovery::ignore_header, Recovery::overwrite})
       for (const bool write: {false, true})
        if (recovery == Recovery::none || (write && (recovery == Recovery::overwrite || m == 1)) || (!write && m == 0))
         acts.push_back({i, 0, Open_Mode(m), recovery, write});
   }
   else
   {
    acts.push_back({i, 1, {}, {}, {}});
    if (o->writer && writers == 1)
     for (int k = 2; k <= 4; k++)
      acts.push_back({i, k, {}, {}, {}});
   }
  }
  const int x = c.choose(int(acts.size()) + 1);
  if (x == int(acts.size()))
   break;
  const Act &a = acts[size_t(x)];
  auto &o = s[size_t(a.slot)];
  const string who = "journal " + to_string(a.slot) + ": ";
  string step, what;
  if (a.kind == 0)
  {
   step = who + "open " + mode_name(a.mode) + (a.write ? " for writing" : " for reading") + (a.recovery == Recovery::none ? "" : a.recovery == Recovery::overwrite ? ", overwrite" : ", ignore header");
   c.note(step);
   const bool existed = bool(linked);
   Outcome e = expected_opening(a.mode, linked.get());
   bool file_opened = e == ok;
   if (e == ok)
   {
    if (linked && a.mode == Open_Mode::shared_write && linked->conflicts(a.slot, true, ranges[1]))
     e = waits;
    else
     e = expected_journal(linked ? linked->bytes : "", a.write, a.recovery, a.mode);
   }
   auto n = std::make_unique<Opened>();
   n->mode = a.mode;
   bool file_was_opened = false;
   const Outcome got = attempt([&]()
   {
    n->file = std::make_unique<File>(path, a.mode);
    file_was_opened = true;
    open_journal(*n, a.write, a.recovery);
   }, &what);
   require(file_was_opened == file_opened && got == e, step + " with " + show(disk(path)) + ": it " + name(got) + " instead of: " + name(e) + ". " + what, "open_journal");
   if (file_opened)
   {
    if (!existed)
     linked = std::make_shared<Inode>();
    if (takes_lock(a.mode))
     linked->lock(a.slot, true, ranges[1]);
    if (e == ok && a.write && linked->bytes.empty())
     linked->bytes = fresh_header();
    if (e == ok && a.write && a.recovery == Recovery::overwrite && !linked->bytes.empty())
    {
     // the header may be repaired: nothing after it
     const string now = disk(path).value_or("");
     require(now.size() == linked->bytes.size() && now.substr(32) == linked->bytes.substr(32) && (a.recovery == Recovery::ignore_header || Header_Model(now).checkpoint == Header_Model(linked->bytes).checkpoint), step + ": the file was modified", "modified");
     linked->bytes = now;
    }
    // a file that is not closed keeps only the lock of its mode
    check_locks(*linked, path, "after " + step + (e == ok ? "" : ", that failed,"));
   }
   if (got == ok)
   {
    const int64_t checkpoint = a.write ? n->writer->get_checkpoint() : n->reader->get_checkpoint();
    const int64_t expected = a.recovery == Recovery::ignore_header ? int64_t(linked->bytes.size()) : Header_Model(linked->bytes).checkpoint;
    require(checkpoint == expected, step + ": checkpoint is " + to_string(checkpoint) + " instead of " + to_string(expected), "checkpoint");
    o = std::move(n);
   }
   else
   {
    n.reset();
    if (file_opened)
     for (const Range &r: {Range{0, last, ""}, Range{last, 1, ""}})
      linked->unlock(a.slot, r);
   }
  }
  else if (a.kind == 1)
  {
   step = who + "close";
   c.note(step);
   const bool written = bool(o->writer);
   o.reset();
   for (const Range &r: {Range{0, last, ""}, Range{last, 1, ""}})
    linked->unlock(a.slot, r);
   const string now = disk(path).value_or("");
   // writes that were not checkpointed may be written when closing
   const size_t kept = linked->bytes.size() < 41 ? 0 : size_t(Header_Model(linked->bytes).checkpoint);
   require(now == linked->bytes || (written && now.size() >= linked->bytes.size() && now.compare(0, kept, linked->bytes, 0, kept) == 0), step + ": the file was modified", "modified");
   linked->bytes = now;
  }
  else
  {
   const int64_t checkpoint = o->writer->get_checkpoint();
   step = who + (a.kind == 2 ? "write" : a.kind == 3 ? "write, soft checkpoint" : "write, hard checkpoint");
   c.note(step);
   const string before = linked->bytes;
   Opened &w = *o;
   const Outcome got = attempt([&]()
   {
    if (w.writer->get_position() != checkpoint && !w.writer->ahead_of_checkpoint())
     return;
    Database db;
    if (w.writer->get_position() < checkpoint)
     w.writer->play_until_checkpoint(db);
    w.writer->create_table("n" + to_string(names++));
    if (a.kind == 3) w.writer->soft_checkpoint();
    if (a.kind == 4) w.writer->hard_checkpoint();
   }, &what);
   const string now = disk(path).value_or("");
   if (got == ok)
   {
    require(now.size() >= 41 && now.compare(41, size_t(checkpoint) - 41, before, 41, size_t(checkpoint) - 41) == 0, step + ": data before the checkpoint was modified", "modified");
    if (a.kind != 2)
     require(Header_Model(now).checkpoint > checkpoint && Header_Model(now).checkpoint == w.writer->get_checkpoint(), step + ": checkpoint", "checkpoint");
    linked->bytes = now;
   }
   else
    throw mc::Skip{}; // the content is not a journal (opened by ignoring the header)
  }
  c.transition();

  const Content content = disk(path);
  require(bool(content) == bool(linked) && (!content || *content == linked->bytes), "after " + step + " there is " + show(content) + " instead of " + show(linked ? Content(linked->bytes) : Content()), "content");
  if (linked)
   check_locks(*linked, path, "after " + step);
  int opened = 0;
  string h = linked ? linked->bytes : "none";
  for (const auto &p: s)
  {
   opened += bool(p);
   h += !p ? "-" : "|" + to_string(int(p->mode)) + (p->writer ? "w" + to_string(p->writer->get_position()) + "," + to_string(p->writer->get_checkpoint()) : "r" + to_string(p->reader->get_checkpoint()));
  }
  require(open_fds() == fds + opened, "after " + step + ": file descriptors", "fd_leak");
  if (linked && linked->bytes.size() >= 41 && Header_Model(linked->bytes).recognized && Header_Model(linked->bytes).checkpoint <= int64_t(linked->bytes.size()))
   attempt([&](){h += to_string(count_tables(linked->bytes));});
  h += to_string(names);
  c.state(mc::hash_string(h));
  c.outcome(h);
  c.prune(mc::hash_string(h));
 }
}

/////////////////////////////////////////////////////////////////////////////
// A system call fails during the construction of a journal: the locks are
// released, the file is not damaged, and construction can be tried again.
/////////////////////////////////////////////////////////////////////////////

static void faults(Chooser &c)
{
 const string path = mc::scratch() + "/faults";
 const Image &image = images()[size_t(c.choose(int(images().size())))];
 c.note(image.name);
 c.split();
 const Open_Mode mode = Open_Mode(c.choose(int(Open_Mode::mode_count)));
 const bool write = c.flip();
 const Recovery recovery = Recovery(c.choose(3));
 put(path, image.content);
 Opened o;
 string what;
 c.note(string(mode_name(mode)) + (write ? ", writable" : ", read-only") + ", recovery " + to_string(int(recovery)));
 const Content before = disk(path);
 fault_at = c.choose(12) - 1;
 failed_call.clear();
 bool file_opened = false;
 const Outcome got = attempt([&](){o.file = std::make_unique<File>(path, mode); file_opened = true; open_journal(o, write, recovery);}, &what);
 const bool injected = !failed_call.empty();
 if (fault_at >= 0 && !injected)
 {
  fault_at = -1;
  throw mc::Skip{}; // fewer calls than that
 }
 fault_at = -1;
 c.note(injected ? failed_call + " fails" : "no failure");
 c.transition();
 c.outcome(string(name(got)) + failed_call + mode_name(mode));
 const Inode empty;
 Inode inode;
 if (!file_opened)
 {
  const Content now = disk(path);
  require(now == before || (!before && now && now->empty() && creates(mode)), "failing to open the file modified it", "modified");
  if (now)
   check_locks(empty, path, "after failing to open the file");
  require(got == fails, "an error is not reported");
  return;
 }
 if (takes_lock(mode))
  inode.lock(0, true, ranges[1]);
 const string expected = before.value_or("");
 const bool should = expected_journal(expected, write, recovery, mode) == ok;
 // overwriting does not necessarily read the header again
 if (injected && got == ok)
  require(should && failed_call != "lock" && failed_call != "pwrite", "failure of " + failed_call + " is not reported", "fault_hidden");
 if (!injected)
  require((got == ok) == should, "opening " + string(name(got)));
 check_locks(inode, path, "after the construction of the journal");
 {
  const string now = disk(path).value_or("");
  require(now == expected || (write && should && (expected.empty() || (recovery == Recovery::overwrite && now.size() == expected.size() && now.substr(32) == expected.substr(32)))), "the file was modified", "modified");
 }
 if (got != ok)
 {
  // Same file, without a failure
  const Outcome second = attempt([&](){open_journal(o, write, recovery);}, &what);
  require((second == ok) == should, "after failure of " + failed_call + ", a second construction of the journal " + name(second) + ": " + what, "second");
  check_locks(inode, path, "after the second construction of the journal");
 }
}

/////////////////////////////////////////////////////////////////////////////
// Upgradable_File: writing is possible, nothing is written
/////////////////////////////////////////////////////////////////////////////

struct Upgradable
{
 string path;
 std::unique_ptr<Abstract_File> file;

 Upgradable(Chooser &c, const Content &content)
 {
  path = mc::scratch() + "/upgradable";
  put(path, content);
  switch (c.choose(content ? 3 : 2))
  {
   case 0:
    c.note("File");
    file = std::make_unique<Upgradable_File<File>>(path, Open_Mode::read_existing);
   break;
   case 1:
    c.note("Portable_File");
    file = std::make_unique<Upgradable_File<Portable_File>>(path, Open_Mode::read_existing);
   break;
   case 2:
    c.note("Readonly_Memory_File");
    file = std::make_unique<Upgradable_File<Readonly_Memory_File>>(content->data(), content->size());
   break;
  }
 }
};

static void upgradable(Chooser &c, int depth)
{
 const Image &image = images()[size_t(c.choose(int(images().size())))];
 c.note(image.name);
 c.split();
 string what;
 std::unique_ptr<Upgradable> u;
 const Outcome opened = attempt([&](){u = std::make_unique<Upgradable>(c, image.content);}, &what);
 require((opened == ok) == bool(image.content), string("opening ") + name(opened) + ": " + what);
 const Content before = disk(mc::scratch() + "/upgradable");
 c.outcome(string(image.name) + name(opened));
 if (opened == ok)
 {
  const bool write = c.flip();
  const Outcome e = image.content->empty() ? fails : expected_journal(*image.content, write, Recovery::none, Open_Mode::read_existing);
  // the size is not known: a tail or a missing part is not an error
  const Header_Model h(*image.content);
  const bool valid = h.recognized;
  std::unique_ptr<Readonly_Journal> reader;
  std::unique_ptr<Writable_Journal> w;
  Readonly_Journal *r = nullptr;
  const Outcome got = attempt([&]()
  {
   if (write)
   {
    w = std::make_unique<Writable_Journal>(*u->file);
    r = w.get();
   }
   else
   {
    reader = std::make_unique<Readonly_Journal>(*u->file);
    r = reader.get();
   }
  }, &what);
  if (string(image.name) != "cut")
   require((got == ok) == valid, string("construction of the journal ") + name(got) + ": " + what, "upgradable_open");
  (void)e;
  if (got == ok && string(image.name) != "cut")
  {
   Database db;
   r->play_until_checkpoint(db);
   require(int(db.get_tables().size()) == count_tables(*image.content), "tables of the upgradable file", "upgradable_read");
   if (write)
    for (int d = 0; d < depth; d++)
    {
     const int x = c.choose(5);
     if (x == 4)
      break;
     c.transition();
     switch (x)
     {
      case 0: w->create_table("t" + to_string(d)); break;
      case 1: w->soft_checkpoint(); break;
      case 2: w->hard_checkpoint(); break;
      case 3: w->flush(); break;
     }
    }
  }
 }
 u.reset();
 require(disk(mc::scratch() + "/upgradable") == before, "the file was modified", "upgradable_modified");
 c.state(mc::hash_string(string(image.name) + to_string(depth)));
}

/////////////////////////////////////////////////////////////////////////////
// Generated databases, opened by name
/////////////////////////////////////////////////////////////////////////////

static void databases(Chooser &c, int slots, int depth)
{
 const string path = mc::scratch() + "/databases";
 using namespace mc::s1;

 struct Slot
 {
  std::unique_ptr<File_Database> db;
  std::unique_ptr<File_Client> client;
  std::unique_ptr<Readonly_Database> reader;
  bool exclusive = false;
  bool any() const {return db || client || reader;}
  ~Slot() {client.reset(); db.reset(); reader.reset();}
 };
 std::deque<Slot> s(static_cast<size_t>(slots));
 const int initial = c.choose(4);
 static const char *names[] = {"missing", "empty", "garbage", "database with 1 city"};
 c.note(string("initially: ") + names[initial]);
 c.split();
 bool exists = initial > 0, garbage = initial == 2, empty = initial == 1;
 int cities = initial == 3 ? 1 : 0;
 if (initial == 3)
 {
  ::unlink(path.c_str());
  File_Database db(path);
  db.new_city();
  db.soft_checkpoint();
 }
 else
  put(path, initial == 0 ? Content{} : initial == 1 ? Content{""} : Content{string(60, 'x')});
 const int fds = open_fds();

 for (int d = 0; d < depth; d++)
 {
  struct Act {int slot, kind, x;};
  std::vector<Act> acts;
  bool locked = false;
  for (const Slot &t: s)
   locked |= t.exclusive;
  for (int i = 0; i < slots; i++)
  {
   const Slot &t = s[size_t(i)];
   if (!t.any())
   {
    if (i == 0 || s[size_t(i - 1)].any())
    {
     for (int m = 0; m <= int(Open_Mode::mode_count); m++)
      if (Open_Mode(m) != Open_Mode::shared_write)
       acts.push_back({i, 0, m});
     acts.push_back({i, 1, 0});
     acts.push_back({i, 2, 0});
    }
   }
   else
   {
    acts.push_back({i, 3, 0});
    if (t.db || t.client)
     acts.push_back({i, 4, 0});
   }
  }
  const int x = c.choose(int(acts.size()) + 1);
  if (x == int(acts.size()))
   break;
  const Act &a = acts[size_t(x)];
  Slot &t = s[size_t(a.slot)];
  string step, what;
  Outcome e = ok, got = ok;
  const Content before = disk(path);
  if (a.kind == 0)
  {
   const bool by_default = a.x == int(Open_Mode::mode_count);
   const Open_Mode mode = by_default ? Open_Mode::write_existing_or_create_new : Open_Mode(a.x);
   step = string("File_Database, ") + (by_default ? "default mode" : mode_name(mode));
   const bool lock_fails = exists && locked && takes_lock(mode) && mode != Open_Mode::create_new;
   e = !exists ? (creates(mode) ? ok : fails) : mode == Open_Mode::create_new ? fails : lock_fails ? (mode == Open_Mode::write_lock ? waits : fails) : mode == Open_Mode::read_existing || garbage ? fails : ok;
   got = attempt([&]()
   {
    if (by_default) t.db = std::make_unique<File_Database>(path);
    else t.db = std::make_unique<File_Database>(path, mode);
   }, &what);
   if (got == ok) {t.exclusive = true; exists = true; empty = false;}
  }
  else if (a.kind == 1)
  {
   step = "Readonly_Database";
   // an upgrade is not possible
   e = !exists || empty || garbage ? fails : ok;
   got = attempt([&](){t.reader = std::make_unique<Readonly_Database>(path);}, &what);
   if (got == ok) require(int(t.reader->get_city_table().get_size()) == cities, "number of cities");
   require(disk(path) == before, step + " modified the file", "modified");
  }
  else if (a.kind == 2)
  {
   step = "File_Client";
   e = exists && locked ? waits : exists && garbage ? fails : ok;
   got = attempt([&](){t.client = std::make_unique<File_Client>(path);}, &what);
   if (got == ok) {exists = true; empty = false;}
   if (got == ok) require(int(t.client->get_database().get_city_table().get_size()) == cities, "number of cities in a client", "cities");
  }
  else if (a.kind == 3)
  {
   step = "close";
   t.db.reset(); t.client.reset(); t.reader.reset();
   t.exclusive = false;
  }
  else
  {
   step = "write";
   const bool other = locked && !t.exclusive;
   e = other ? waits : ok;
   got = attempt([&]()
   {
    if (t.db) {t.db->new_city(); t.db->soft_checkpoint();}
    else t.client->transaction([](auto &db){db.new_city();});
   }, &what);
   bool mixed = false; // an exclusive writer with a client that had opened before
   for (const Slot &u: s)
    mixed |= &u != &t && t.db && u.client != nullptr;
   (void)mixed;
   if (got == ok) cities++;
  }
  c.note(to_string(a.slot) + ": " + step);
  require(got == e, step + " with " + show(before) + (locked ? " (locked)" : "") + ": it " + name(got) + " instead of: " + name(e) + ". " + what, "database");
  c.transition();
  if (got != ok && before)
   require(disk(path) == before, step + ", that failed, modified the file", "modified");
  if (!exists)
   require(!disk(path), step + " created a file", "created");
  int n = 0;
  bool now_locked = false;
  string h = to_string(exists) + to_string(empty) + to_string(garbage) + to_string(cities) + "," + to_string(disk(path).value_or("").size());
  for (const Slot &u: s)
  {
   n += u.db || u.client; // a Readonly_Database does not keep its file open
   now_locked |= u.exclusive;
   h += u.db ? "d" : u.client ? "c" : u.reader ? "r" : "-";
   if (u.any())
    h += to_string(u.db ? u.db->get_city_table().get_size() : u.client ? u.client->get_database().get_city_table().get_size() : u.reader->get_city_table().get_size());
  }
  require(open_fds() == fds + n, step + ": file descriptors", "fd_leak");
  if (exists)
  {
   Inode inode;
   if (now_locked)
    inode.lock(0, true, ranges[1]);
   check_locks(inode, path, "after " + step);
   if (!garbage && !empty)
   {
    Readonly_Database db(path);
    require(int(db.get_city_table().get_size()) == cities, "after " + step + " the file contains " + to_string(db.get_city_table().get_size()) + " cities instead of " + to_string(cities), "cities");
   }
  }
  c.state(mc::hash_string(h));
  c.outcome(h);
  c.prune(mc::hash_string(h));
 }
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, "C26");
 const bool th = ex.is_thorough();
 ex.explore_states("files", [=](Chooser &c) {handles<File, true>(c, 3, th ? 6 : 5);}, th ? 6 : 5, 60);
 ex.explore_states("portable_files", [=](Chooser &c) {handles<Portable_File, false>(c, 2, th ? 5 : 4);}, th ? 5 : 4, 60);
 ex.explore_states("journals", [=](Chooser &c) {journals(c, th ? 3 : 2, th ? 5 : 4);}, th ? 5 : 4, 60);
 ex.explore("faults", [=](Chooser &c) {faults(c);});
 ex.explore("upgradable", [=](Chooser &c) {upgradable(c, th ? 5 : 3);});
 ex.explore_states("databases", [=](Chooser &c) {databases(c, th ? 3 : 2, th ? 6 : 5);}, th ? 6 : 5, 60);
 return ex.finish
 (
  "model_checking",
  "every sequence of openings in every mode, lockings, writes and closings, for every initial state of the path, to the stated length, with the real file system and the real kernel locks; every failure of one system call during opening",
  {
   "a lock request that would wait is cancelled: what happens when it is finally granted is checked by C10 and C13 with simulated locks that have the same rules",
   "Linux with open file description locks"
  }
 );
}
