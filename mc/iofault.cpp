// C14: input/output errors are reported and never damage committed data.
//
// Real journals on the real joedb::File, over simulated system calls (or on a
// Stream_File over a failing stream). Every history up to a length is run with
// every placement of failing, incomplete or delayed calls, up to a number of
// faults. The user ignores the exceptions and continues.
#include "explorer.h"
#include "sim_posix.h"
#include "recorder.h"

#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/error/Destructor_Logger.h"

#include <algorithm>
#include <memory>
#include <optional>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

static const char * const path = "/mc-sim/db.joedb";

/////////////////////////////////////////////////////////////////////////////
// What is delivered by a journal
/////////////////////////////////////////////////////////////////////////////
struct Content: public mc::Recorder
{
 void on_blob(Blob) override {}
 void valid_data() override {ops.push_back("valid_data");}
};

static string summary(const vector<string> &v)
{
 string r;
 for (const string &s: v)
  r += " [" + (s.size() > 70 ? s.substr(0, 70) + "..." : s) + "]";
 return r;
}

/////////////////////////////////////////////////////////////////////////////
// What was asked
/////////////////////////////////////////////////////////////////////////////
struct Attempt
{
 string text;
 bool threw; // may be there or not
};

struct History
{
 vector<Attempt> attempts;
 vector<size_t> boundaries{0}; // where checkpoints were tried
 size_t floor = 0;      // attempts before the last successful checkpoint
 size_t hard_floor = 0;
 bool any_success = false; // a checkpoint returned
 bool any_hard = false;
 vector<string> visible; // what was seen: can not disappear

 static bool parse(const vector<Attempt> &a, const vector<string> &content, vector<bool> &included)
 {
  included.assign(a.size(), false);
  size_t p = 0;
  for (size_t i = 0; i < a.size(); i++)
   if (p < content.size() && content[p] == a[i].text)
   {
    included[i] = true;
    p++;
   }
  return p == content.size();
 }

 // content must be the attempts before a checkpoint, without some that failed
 void check(const vector<string> &content, size_t minimum, const string &what) const
 {
  vector<bool> included;
  require(parse(attempts, content, included), what + ": unknown, repeated or altered operations:" + summary(content), "altered");
  for (size_t i = 0; i < minimum; i++)
   require(included[i] || attempts[i].threw, what + ": lost [" + attempts[i].text.substr(0, 70) + "], that was checkpointed", "lost");
  for (const size_t b: boundaries)
  {
   bool ok = true;
   for (size_t i = 0; i < attempts.size() && ok; i++)
    ok = i < b ? included[i] || attempts[i].threw : !included[i];
   if (ok)
    return;
  }
  mc::fail(what + ": not the content at a checkpoint:" + summary(content), "not_a_checkpoint");
 }
};

/////////////////////////////////////////////////////////////////////////////
// Durable content of a file. A sync that fails may drop what it was writing.
/////////////////////////////////////////////////////////////////////////////
struct Disk
{
 struct Write {int64_t offset; string data;};
 string durable;
 vector<Write> pending;
 bool drop = true, dropped = false;

 void apply(const Write &w)
 {
  if (durable.size() < size_t(w.offset) + w.data.size())
   durable.resize(size_t(w.offset) + w.data.size());
  std::memcpy(&durable[size_t(w.offset)], w.data.data(), w.data.size());
 }
 void written(int64_t offset, const char *data, size_t size)
 {
  pending.push_back(Write{offset, string(data, size)});
 }
 void synced(bool ok)
 {
  if (ok)
   for (const Write &w: pending)
    apply(w);
  if (ok || drop)
   pending.clear();
  if (!ok && drop)
   dropped = true;
 }
};

/////////////////////////////////////////////////////////////////////////////
// A stream that may fail. Its position is shared by reading and writing.
/////////////////////////////////////////////////////////////////////////////
class Faulty_Streambuf: public std::streambuf
{
 public:
  string &data;
  string synced;
  size_t pos = 0;
  std::function<int(const char *call, size_t size)> fault;

  Faulty_Streambuf(string &data): data(data), synced(data) {}

 protected:
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
  {
   if (fault && fault("seek", 0))
    return pos_type(off_type(-1));
   pos = size_t(dir == std::ios_base::end ? int64_t(data.size()) + off : dir == std::ios_base::cur ? int64_t(pos) + off : off);
   return pos_type(off_type(pos));
  }
  std::streamsize xsgetn(char *s, std::streamsize n) override
  {
   size_t size = size_t(n);
   if (fault)
    if (const int e = fault("pread", size))
    {
     if (e > 0)
      throw std::ios_base::failure("reading");
     size = std::min(size, size_t(-e));
    }
   size = pos >= data.size() ? 0 : std::min(size, data.size() - pos);
   std::memcpy(s, data.data() + pos, size);
   pos += size;
   return std::streamsize(size);
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override
  {
   size_t size = size_t(n);
   if (fault)
    if (const int e = fault("pwrite", size))
    {
     if (e > 0)
      return 0;
     size = std::min(size, size_t(-e));
    }
   if (data.size() < pos + size)
    data.resize(pos + size);
   std::memcpy(&data[pos], s, size);
   pos += size;
   return std::streamsize(size);
  }
  int_type overflow(int_type) override {return traits_type::eof();}
  int sync() override
  {
   if (fault && fault("sync", 0))
   {
    data = synced; // what was in the buffer is lost
    return -1;
   }
   synced = data;
   return 0;
  }
};

/////////////////////////////////////////////////////////////////////////////
struct Config
{
 string ops;
 int length = 3;
 int faults = 1;
 char kind = 'F'; // F: exclusive file, S: shared file, T: stream, P: copy of another journal
 const char *start = "";
};

static const size_t first_position = 41;

struct World
{
 Chooser &c;
 const Config &config;
 mc::Sim_Posix posix;
 Disk disk;
 string stream_data;
 History h;

 std::unique_ptr<Faulty_Streambuf> stream, reader_stream;
 std::unique_ptr<Abstract_File> file, other_file, reader_file;
 std::unique_ptr<Writable_Journal> journal, other;
 std::unique_ptr<Readonly_Journal> reader;
 std::unique_ptr<Abstract_File> source_file;
 std::unique_ptr<Writable_Journal> source;
 std::unique_ptr<Tail_Exclusive_Lock> lock;
 size_t lock_start = 0;
 Content reader_content;

 bool armed = false;   // faults may be injected
 bool faulty = false;  // a fault happened in this operation
 bool disk_full = false;
 bool fail_next = false, finish_word = false;
 int counter = 0;
 int64_t record = 0;

 World(Chooser &c, const Config &config): c(c), config(config)
 {
  posix.fault = [this](const char *call, int, size_t size) {return fault(call, size);};
  mc::Sim_Inode *inode = &posix.inodes[path];
  posix.written = [this, inode](mc::Sim_Inode &i, int64_t offset, const char *data, size_t size) {if (&i == inode) disk.written(offset, data, size);};
  posix.synced = [this, inode](mc::Sim_Inode &i, bool ok) {if (&i == inode) disk.synced(ok);};
  if (config.kind == 'P')
  {
   source_file = std::make_unique<File>("/mc-sim/source.joedb", Open_Mode::write_existing_or_create_new);
   source = std::make_unique<Writable_Journal>(Journal_Construction_Lock(*source_file));
  }
 }

 ~World()
 {
  armed = false;
  fail_next = disk_full = false;
  lock.reset();
  reader.reset();
  other.reset();
  journal.reset();
  source.reset();
 }

 // 0: no fault. > 0: error. < 0: incomplete
 int fault(const char *call, size_t size)
 {
  const bool writing = !std::strcmp(call, "pwrite");
  if (writing && disk_full)
  {
   faulty = true;
   return ENOSPC;
  }
  if (fail_next && writing)
  {
   fail_next = false;
   return ENOSPC;
  }
  if (!armed)
   return 0;
  if (writing && finish_word)
  {
   finish_word = false;
   return 0;
  }
  c.transition();
  if (writing || !std::strcmp(call, "pread"))
  {
   // An error after a part of an aligned word is not modelled: pieces of the
   // header are written whole, or not at all, or in several calls.
   const bool part = writing && size > 8;
   switch (c.choose(part ? 6 : writing ? 4 : 3 + (size > 8), 1))
   {
    case 0: return 0;
    case 1: note(call, "fails"); faulty = true; return writing ? ENOSPC : EIO;
    case 2:
     if (size < 2)
      return 0;
     note(call, "stops after one byte");
     shorted = true;
     finish_word = writing && size <= 8;
     return -1;
    case 3:
     if (writing)
     {
      note(call, "fails, like all those that follow");
      faulty = disk_full = true;
      return ENOSPC;
     }
     note(call, "stops in the middle");
     shorted = true;
     return -int(size / 2);
    case 4: note(call, "stops in the middle"); shorted = true; return -int(size / 2);
    case 5: note(call, "stops in the middle, then fails"); faulty = true; fail_next = true; return -int(size / 2);
   }
  }
  if (!std::strcmp(call, "sync"))
  {
   switch (c.choose(3, 1))
   {
    case 0: return 0;
    case 1: note(call, "fails"); faulty = true; disk.drop = false; return EIO;
    case 2: note(call, "fails and drops the data"); faulty = true; disk.drop = true; return EIO;
   }
  }
  if (!c.choose(2, 1))
   return 0;
  note(call, "fails");
  faulty = true;
  return EIO;
 }

 void note(const char *call, const char *what)
 {
  c.note(string("  fault: ") + call + " " + what);
 }

 string &image()
 {
  if (config.kind == 'T')
   return stream_data;
  return posix.inodes[path].data;
 }

 bool empty()
 {
  if (config.kind == 'T')
   return stream_data.empty();
  const auto i = posix.inodes.find(path);
  return i == posix.inodes.end() || i->second.data.empty();
 }

 std::unique_ptr<Abstract_File> open(bool readonly)
 {
  if (config.kind == 'T')
  {
   auto &s = readonly ? reader_stream : stream;
   s = std::make_unique<Faulty_Streambuf>(stream_data);
   s->fault = [this](const char *call, size_t size) {return fault(call, size);};
   return std::make_unique<Stream_File>(*s, readonly ? Open_Mode::read_existing : Open_Mode::write_existing);
  }
  return std::make_unique<File>
  (
   path,
   readonly ? Open_Mode::read_existing : config.kind == 'S' ? Open_Mode::shared_write : Open_Mode::write_existing_or_create_new
  );
 }

 ////////////////////////////////////////////////////////////////////////////
 // What a new reader finds in an image of the file
 ////////////////////////////////////////////////////////////////////////////
 std::optional<vector<string>> content_of(const string &data, Recovery recovery, string &error)
 {
  Memory_File f(Open_Mode::read_existing);
  f.get_data() = data;
  Content r;
  try
  {
   Journal_Construction_Lock l(f, recovery);
   Readonly_Journal j(l);
   j.play_until_checkpoint(r);
  }
  catch (const std::exception &e)
  {
   error = e.what();
   return {};
  }
  return r.ops;
 }

 void check_image(const string &what)
 {
  const bool was_armed = armed;
  armed = false;
  if (!empty())
  {
   string error;
   const auto x = content_of(image(), Recovery::none, error);
   if (x)
   {
    h.check(*x, h.floor, what);
    require
    (
     x->size() >= h.visible.size() && std::equal(h.visible.begin(), h.visible.end(), x->begin()),
     what + ": operations that were visible disappeared, now" + summary(*x), "disappeared"
    );
    h.visible = *x;
   }
   else
    require(!h.any_success, what + ": a file with a checkpoint cannot be read: " + error, "unreadable");
  }
  if (config.kind != 'T' && h.any_hard && (h.hard_floor || !disk.durable.empty()))
  {
   string error;
   const auto x = content_of(disk.durable, Recovery::overwrite, error);
   require(bool(x), what + ": after a power failure, a file with a hard checkpoint cannot be read: " + error, "unreadable");
   h.check(*x, h.hard_floor, what + ", after a power failure");
  }
  armed = was_armed;
 }

 ////////////////////////////////////////////////////////////////////////////
 // Run something. Faults excuse exceptions.
 ////////////////////////////////////////////////////////////////////////////
 bool suspicious = false; // an exception was thrown by the writer before

 template<typename F> bool attempt(const F &f)
 {
  faulty = shorted = false;
  armed = !quiet;
  try
  {
   f();
  }
  catch (const std::exception &e)
  {
   armed = false;
   fail_next = false;
   c.note(string("  exception: ") + e.what());
   return false;
  }
  armed = false;
  fail_next = false;
  return true;
 }

 void excused(bool ok, bool before, const string &what)
 {
  require(ok || faulty || before, what + " failed without any error of the file", "unexplained");
  if (!ok)
   suspicious = true;
 }

 void open_writer(bool first)
 {
  file.reset();
  const bool had = !first && h.any_success;
  bool ok = false;
  Content r;
  for (int i = 0; i < 2 && !ok; i++)
  {
   r.ops.clear();
   ok = attempt([&]()
   {
    if (!file)
     file = open(false);
    Journal_Construction_Lock l(*file, i ? Recovery::overwrite : Recovery::none);
    journal = std::make_unique<Writable_Journal>(l);
    journal->play_until_checkpoint(r);
   });
   if (!ok)
    journal.reset();
   check_image("after opening");
  }
  if (!ok)
  {
   require(faulty || shorted || !had, "the file cannot be opened", "unreadable");
   // try again, without faults
   try
   {
    r.ops.clear();
    if (disk_full)
     c.note("  space was made on the disk");
    disk_full = false;
    if (!file)
     file = open(false);
    if (!h.any_success && !image().empty())
    {
     image().clear(); // not even a header
     disk.durable.clear();
     disk.pending.clear();
    }
    Journal_Construction_Lock l(*file, Recovery::overwrite);
    journal = std::make_unique<Writable_Journal>(l);
    journal->play_until_checkpoint(r);
   }
   catch (const std::exception &e)
   {
    mc::fail(string("the file cannot be opened: ") + e.what(), "unreadable");
   }
  }
  h.check(r.ops, h.floor, "opening");
  vector<bool> included;
  History::parse(h.attempts, r.ops, included);
  vector<Attempt> kept;
  size_t hard_floor = 0;
  for (size_t i = 0; i < h.attempts.size(); i++)
   if (included[i] || config.kind == 'P')
   {
    kept.push_back(Attempt{h.attempts[i].text, !included[i]});
    if (i < h.hard_floor)
     hard_floor = kept.size();
   }
  h.attempts = kept;
  // A power failure may go back to previous checkpoints
  vector<size_t> boundaries;
  for (size_t i = 0; i <= kept.size(); i++)
   boundaries.push_back(i);
  h.boundaries = boundaries;
  if (!h.any_hard && config.kind != 'P')
   h.boundaries = {0, kept.size()};
  h.floor = kept.size();
  h.hard_floor = hard_floor;
  if (config.kind == 'P')
   h.floor = size_t(std::count(included.begin(), included.end(), true));
  suspicious = false;
 }

 ////////////////////////////////////////////////////////////////////////////
 // Writing
 ////////////////////////////////////////////////////////////////////////////
 template<typename F> void write(const string &expected, const F &f)
 {
  h.attempts.push_back(Attempt{expected, true});
  const size_t i = h.attempts.size() - 1;
  const bool ok = attempt(f);
  h.attempts[i].threw = !ok;
  excused(ok, suspicious, "writing");
 }

 void write_comment(Writable_Journal &j, const string &prefix, size_t size)
 {
  string s = prefix + to_string(counter++);
  if (s.size() < size)
   s.resize(size, '.');
  Content r;
  r.comment(s);
  write(r.ops[0], [&]() {j.comment(s);});
 }

 bool take_lock()
 {
  if (config.kind != 'S' || lock)
   return true;
  Content r;
  const bool ok = attempt([&]()
  {
   lock = std::make_unique<Tail_Exclusive_Lock>(*journal);
   journal->play_until_checkpoint(r);
  });
  if (ok)
   require(journal->get_position() == journal->get_checkpoint(), "not at the end", "position");
  else
   lock.reset();
  excused(ok, suspicious, "locking");
  lock_start = h.attempts.size();
  return ok;
 }

 void release_lock(bool committed)
 {
  if (config.kind != 'S')
   return;
  if (!committed)
   for (size_t i = lock_start; lock && i < h.attempts.size(); i++)
    h.attempts[i].threw = suspicious = true;
  lock.reset();
 }

 void write_op(char op)
 {
  if (!take_lock())
   return;
  Writable_Journal &j = *journal;
  switch (op)
  {
   case 'c': write_comment(j, "c", 0); break;
   case 'L': write_comment(j, "L", 9000); break;
   case 'n': // leaves little space in the buffer
    write_comment(j, "n", size_t(4090 - int64_t(first_position)));
   break;
   case 'm': write_comment(j, "m", 4094); break;
   case 't':
   {
    const int64_t t = 1000 + counter++;
    write("timestamp " + to_string(t), [&]() {j.timestamp(t);});
   }
   break;
   case 'b': case 'B':
   {
    string s = "blob" + to_string(counter++);
    if (op == 'B')
     s.resize(5000, '.');
    Content r;
    r.write_blob(s);
    write(r.ops[0], [&]() {j.write_blob(s);});
   }
   break;
   case 'i':
   {
    const Record_Id id(record++);
    const int32_t value = counter++;
    Content r;
    r.insert_into(Table_Id(1), id);
    r.update_int32(Table_Id(1), id, Field_Id(1), value);
    write(r.ops[0], [&]() {j.insert_into(Table_Id(1), id);});
    write(r.ops[1], [&]() {j.update_int32(Table_Id(1), id, Field_Id(1), value);});
   }
   break;
   case 'v':
   {
    vector<int32_t> v(1500, counter++);
    Content r;
    r.update_vector_int32(Table_Id(1), Record_Id(0), Field_Id(1), v.size(), v.data());
    write(r.ops[0], [&]() {j.update_vector_int32(Table_Id(1), Record_Id(0), Field_Id(1), v.size(), v.data());});
   }
   break;
  }
  check_image("after writing");
 }

 void checkpoint(bool hard)
 {
  if (!take_lock())
   return;
  if (config.kind != 'P')
   h.boundaries.push_back(h.attempts.size());
  const bool ok = attempt([&]() {hard ? journal->hard_checkpoint() : journal->soft_checkpoint();});
  c.note(ok ? "  done" : "  failed");
  if (ok)
  {
   if (config.kind != 'P')
    h.floor = h.attempts.size();
   h.any_success = true;
   if (hard)
   {
    h.hard_floor = h.floor;
    h.any_hard = true;
   }
  }
  release_lock(ok);
  excused(ok, suspicious, "checkpoint");
  check_image("after a checkpoint");
 }

 void read()
 {
  const bool existed = h.any_success;
  const bool ok = attempt([&]()
  {
   if (!reader)
   {
    if (!reader_file)
     reader_file = open(true);
    reader_content.ops.clear();
    Journal_Construction_Lock l(*reader_file, Recovery::none);
    reader = std::make_unique<Readonly_Journal>(l);
   }
   else
    reader->pull();
   reader->play_until_checkpoint(reader_content);
  });
  c.note("  read" + summary(reader_content.ops));
  require(ok || faulty || short_reads() || !existed, "reading failed without any error of the file", "unexplained");
  vector<bool> included;
  require
  (
   History::parse(h.attempts, reader_content.ops, included),
   "a reader received unknown, repeated or altered operations:" + summary(reader_content.ops), "altered"
  );
  if (ok)
   h.check(reader_content.ops, h.floor, "reading");
  else
  {
   // a prefix of what is visible
   require
   (
    reader_content.ops.size() <= h.visible.size() && std::equal(reader_content.ops.begin(), reader_content.ops.end(), h.visible.begin()),
    "a reader received what is not in the file:" + summary(reader_content.ops), "altered"
   );
   // A constructor that failed leaves no journal
   if (!reader)
    reader_file.reset();
  }
 }

 // A short read of the header may be reported as an error
 bool short_reads() const {return shorted;}
 bool shorted = false; // in this operation

 void reopen()
 {
  reader.reset();
  reader_file.reset();
  reader_content.ops.clear();
  attempt([&]() {release_lock(false); journal.reset();});
  check_image("after closing");
  file.reset();
  // Data dropped by an error are not known by those who open the file later
  if (disk.dropped)
  {
   disk.dropped = false;
   disk.durable = image();
   disk.pending.clear();
  }
  open_writer(false);
 }

 ////////////////////////////////////////////////////////////////////////////
 // Copy of another journal
 ////////////////////////////////////////////////////////////////////////////
 void append_to_source(size_t size)
 {
  Content r;
  string s = "a" + to_string(counter++);
  if (s.size() < size)
   s.resize(size, '.');
  r.comment(s);
  const bool full = disk_full;
  disk_full = false;
  source->comment(s);
  source->soft_checkpoint();
  disk_full = full;
  h.attempts.push_back(Attempt{r.ops[0], true}); // not there yet
 }

 void pull_from_source()
 {
  h.boundaries.push_back(h.attempts.size());
  int64_t position = 0;
  const bool ok = attempt([&]()
  {
   position = journal->pull_from(*source);
   journal->skip_directly_to(position);
  });
  if (ok)
  {
   require(position == source->get_checkpoint(), "pull_from returned another position", "position");
   for (Attempt &a: h.attempts)
    a.threw = false;
   h.floor = h.attempts.size();
   h.any_success = true;
  }
  excused(ok, suspicious, "pull_from");
  check_image("after pull_from");
 }

 // Another process, without errors
 void other_process()
 {
  release_lock(false);
  const bool full = disk_full;
  disk_full = false;
  try
  {
   if (!other)
   {
    other_file = open(false);
    Journal_Construction_Lock l(*other_file, Recovery::overwrite);
    other = std::make_unique<Writable_Journal>(l);
    Content r;
    other->play_until_checkpoint(r);
   }
   Tail_Exclusive_Lock l(*other);
   Content r;
   other->play_until_checkpoint(r);
   const bool was = suspicious;
   const string s = "o" + to_string(counter++);
   r.comment(s);
   other->comment(s);
   h.attempts.push_back(Attempt{r.ops.back(), false});
   h.boundaries.push_back(h.attempts.size());
   other->soft_checkpoint();
   h.floor = h.attempts.size();
   h.any_success = true;
   suspicious = was;
  }
  catch (const std::exception &e)
  {
   require(!h.any_success, string("another process fails: ") + e.what(), "other");
   other.reset();
   other_file.reset();
  }
  disk_full = full;
  check_image("after another process");
 }

 void act(char op)
 {
  c.note(string(1, op));
  switch (op)
  {
   case 's': checkpoint(false); break;
   case 'h': checkpoint(true); break;
   case 'r': read(); break;
   case 'R': reopen(); break;
   case 'o': other_process(); break;
   case 'a': append_to_source(0); break;
   case 'A': append_to_source(9000); break;
   case 'p': pull_from_source(); break;
   case 'f':
   {
    if (config.kind == 'S' && !lock)
     break;
    const bool ok = attempt([&]() {journal->flush();});
    excused(ok, suspicious, "flush");
    check_image("after a flush");
   }
   break;
   default: write_op(op); break;
  }
 }

 void run()
 {
  const size_t n = std::strlen(config.start);
  string ops = config.start;
  for (int i = 0; i < config.length; i++)
   ops += config.ops[size_t(c.choose(int(config.ops.size())))];
  c.split();
  c.note(ops);
  quiet = n > 0;
  open_writer(true);
  for (size_t i = 0; i < ops.size(); i++)
  {
   quiet = i < n;
   act(ops[i]);
  }
  c.note("end");
  armed = false;
  disk_full = false;
  reader.reset();
  reader_file.reset();
  reader_content.ops.clear();
  read();
  attempt_close();
  check_image("at the end");
 }
 bool quiet = false;

 void attempt_close()
 {
  armed = false;
  lock.reset();
  journal.reset();
 }
};

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, "C14");
 const bool t = ex.is_thorough();
 const auto explore = [&](const string &part, Config config)
 {
  ex.explore(part, [config](Chooser &c) {World w(c, config); w.run();}, config.faults);
 };

 Config x;
 x.kind = 'F';
 x.ops = "cLnbBtivshrRf";
 x.length = t ? 4 : 3;
 explore("file", x);
 x.start = "cs";
 x.ops = "nLBmishrR";
 explore("file_more", x);
 x.start = "chisr";
 x.ops = "Lishr";
 x.length = t ? 5 : 4;
 explore("file_checkpoints", x);
 x.start = "";
 x.ops = "cshr";
 x.length = 4;
 x.faults = t ? 3 : 2;
 explore("file_two_faults", x);

 x.faults = 1;
 x.kind = 'S';
 x.ops = "cLshrRo";
 x.length = t ? 5 : 4;
 explore("shared", x);

 x.kind = 'P';
 x.ops = "aAphrR";
 x.length = t ? 5 : 4;
 explore("copy", x);

 x.kind = 'T';
 x.ops = "cLnbBishrR";
 x.length = t ? 4 : 3;
 explore("stream", x);
 return ex.finish
 (
  "fault_enumeration",
  "every history of writes (small, larger than the buffer, filling it, blobs, vectors, operations whose encoding depends on the previous ones), flushes, soft and hard checkpoints, reads, reopenings, copies from another journal and transactions of another process, up to the stated length, with every placement of one (or two) failing or incomplete system calls, single or persistent; after each step, the image of the file is read, with and without a power failure",
  {
   "the user ignores errors, and continues to use the journal",
   "a failed sync may drop what it was writing; this is not known by those who open the file later",
   "a word of 8 aligned bytes is written whole, or in several successful calls",
  }
 );
}
