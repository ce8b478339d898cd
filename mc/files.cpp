// C15: files behave like a flat array of bytes
// C16: standard streams over files behave like standard string streams
#include "explorer.h"
#include "scratch.h"

#include "joedb/error/Destructor_Logger.h"
#include "joedb/journal/Async_Reader.h"
#include "joedb/journal/Async_Writer.h"
#include "joedb/journal/File.h"
#include "joedb/journal/File_Buffer.h"
#include "joedb/journal/File_Slice.h"
#include "joedb/journal/fstream.h"
#include "joedb/journal/iostream.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Stream_File.h"
#include "joedb/journal/Upgradable_File.h"

#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace mc;
using namespace joedb;
using std::string;
using std::to_string;
using std::vector;

/////////////////////////////////////////////////////////////////////////////
// Interposed reads and writes of the operating system: they may be short
/////////////////////////////////////////////////////////////////////////////
static Chooser *os_chooser = nullptr; // only while code under test is running
static dev_t os_dev;
static ino_t os_ino;
static uint64_t os_calls = 0;

static bool os_watched(int fd)
{
 struct stat s;
 return os_chooser && !::fstat(fd, &s) && s.st_dev == os_dev && s.st_ino == os_ino;
}

static size_t shorten(Chooser &c, size_t n)
{
 if (n <= 1)
  return n;
 switch (c.choose(n > 3 ? 4 : n > 2 ? 3 : 2, 1))
 {
  case 1: return 1;
  case 2: return n - 1;
  case 3: return n / 2;
 }
 return n;
}

extern "C"
{
 ssize_t pread64(int fd, void *data, size_t size, off64_t offset)
 {
  if (os_watched(fd))
  {
   os_calls++;
   size = shorten(*os_chooser, size);
  }
  return ::syscall(SYS_pread64, fd, data, size, offset);
 }

 ssize_t pwrite64(int fd, const void *data, size_t size, off64_t offset)
 {
  if (os_watched(fd))
  {
   os_calls++;
   size = shorten(*os_chooser, size);
  }
  return ::syscall(SYS_pwrite64, fd, data, size, offset);
 }
}

static string file_content(const string &path)
{
 const int fd = ::open(path.c_str(), O_RDONLY);
 if (fd < 0)
  throw Bad_Replay{"cannot open " + path};
 string s;
 char b[65536];
 while (true)
 {
  const long n = ::syscall(SYS_pread64, fd, b, sizeof(b), long(s.size()));
  if (n <= 0)
   break;
  s.append(b, size_t(n));
 }
 ::close(fd);
 return s;
}

static void set_content(const string &path, const string &content)
{
 ::unlink(path.c_str());
 const int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
 if (fd < 0 || ::syscall(SYS_pwrite64, fd, content.data(), content.size(), 0L) != long(content.size()))
  throw Bad_Replay{"cannot write in the scratch directory"};
 ::close(fd);
}

static void watch_os(const string &path, Chooser *c)
{
 struct stat s;
 if (::stat(path.c_str(), &s))
  throw Bad_Replay{"cannot stat " + path};
 os_dev = s.st_dev;
 os_ino = s.st_ino;
 os_chooser = c;
}

struct Unwatch {~Unwatch() {os_chooser = nullptr;}};

static string show_bytes(const string &s)
{
 if (s.size() > 40)
  return "(" + to_string(s.size()) + " bytes, hash " + to_string(hash_string(s)) + ")";
 string r = "\"";
 for (const unsigned char c: s)
 {
  char b[8];
  if (c < 32 || c >= 127)
   snprintf(b, sizeof(b), "\\x%02x", c);
  else
   snprintf(b, sizeof(b), "%c", c);
  r += b;
 }
 return r + "\"";
}

static void same(const string &a, const string &expected, const string &what)
{
 if (a != expected)
 {
  size_t i = 0;
  while (i < a.size() && i < expected.size() && a[i] == expected[i])
   i++;
  fail(what + ": " + show_bytes(a) + " instead of " + show_bytes(expected) + ", first difference at " + to_string(i), "content");
 }
}

static string pattern(size_t size, int salt = 0)
{
 string s(size, 0);
 for (size_t i = 0; i < size; i++)
  s[i] = char((i * 31 + (i >> 8) * 17 + size_t(salt) * 101) ^ (i >> 3));
 return s;
}

/////////////////////////////////////////////////////////////////////////////
// Kinds of files, that can be read and written
/////////////////////////////////////////////////////////////////////////////
class Any_File
{
 public:
  string name;
  string path;
  std::unique_ptr<Abstract_File> file;
  std::stringbuf stringbuf{std::ios::in | std::ios::out | std::ios::binary};
  std::function<string()> content; // without touching the file
  bool seek_beyond_fails = false;

  static constexpr int kinds = 6;

  Any_File(int kind, const string &initial, const char *file_name = "any")
  {
   path = scratch() + "/" + file_name;
   switch (kind)
   {
    case 0:
    {
     name = "Memory_File";
     auto f = std::make_unique<Memory_File>(Open_Mode::write_existing);
     f->get_data() = initial;
     content = [p = f.get()]{return p->get_data();};
     file = std::move(f);
     break;
    }
    case 1:
     name = "File";
     set_content(path, initial);
     file = std::make_unique<File>(path, Open_Mode::write_existing);
     content = [this]{return file_content(path);};
     break;
    case 2:
     name = "Stream_File(stringbuf)";
     stringbuf.str(initial);
     file = std::make_unique<Stream_File>(stringbuf, Open_Mode::write_existing);
     content = [this]{return stringbuf.str();};
     seek_beyond_fails = true;
     break;
    case 3:
     name = "Portable_File";
     set_content(path, initial);
     file = std::make_unique<Portable_File>(path, Open_Mode::write_existing);
     content = [this]{return file_content(path);};
     break;
    case 4:
     name = "File(shared)";
     set_content(path, initial);
     file = std::make_unique<File>(path, Open_Mode::shared_write);
     content = [this]{return file_content(path);};
     break;
    case 5:
     name = "File(fd)";
     set_content(path, initial);
     file = std::make_unique<File>(::open(path.c_str(), O_RDWR), Open_Mode::write_existing);
     content = [this]{return file_content(path);};
     break;
   }
  }

  ~Any_File()
  {
   file.reset();
   ::unlink(path.c_str());
  }
};

// Whatever may be given by pread beyond the end: nothing
static string read_some(const Abstract_File &file, size_t size, int64_t offset, size_t &n)
{
 string s(size + 2, '#');
 n = file.pread(s.data(), size, offset);
 if (n > size)
  fail("pread returned more than asked", "content");
 for (size_t i = n; i < s.size(); i++)
  if (i >= size && s[i] != '#')
   fail("pread wrote after the end of the buffer", "content");
 s.resize(n);
 return s;
}

static string flat(const string &s, size_t size, int64_t offset)
{
 return size_t(offset) >= s.size() ? string() : s.substr(size_t(offset), size);
}

static void kinds(Chooser &c, int max_offset)
{
 const int kind = c.choose(Any_File::kinds);
 const string initial = c.flip() ? "1234" : "";
 Any_File f(kind, initial);
 string model = initial;
 const int offsets = max_offset + 1;
 while (true)
 {
  const int op = c.choose(3 * offsets + 4 * offsets + 3);
  string last;
  try
  {
   if (op < 3 * offsets)
   {
    const size_t size = size_t(1 + op % 3);
    const int64_t offset = op / 3;
    c.note(f.name + " pread " + to_string(size) + " at " + to_string(offset));
    size_t n;
    const string s = read_some(*f.file, size, offset, n);
    same(s, flat(model, size, offset), "pread " + to_string(size) + " at " + to_string(offset));
    last = "r" + to_string(offset + int64_t(n));
   }
   else if (op < 7 * offsets)
   {
    const int k = op - 3 * offsets;
    const string data = (k & 1) ? "ab" : "c";
    const bool empty = k & 2;
    const int64_t offset = k / 4;
    if (empty && ((k & 1) || offset > int64_t(model.size())))
     throw Skip{};
    const string d = empty ? string() : data;
    c.note(f.name + " pwrite " + d + " at " + to_string(offset));
    const bool refused = f.seek_beyond_fails && offset > int64_t(model.size());
    f.file->pwrite(d.data(), d.size(), offset);
    require(!refused, "accepted", "content");
    if (model.size() < size_t(offset) + d.size())
     model.resize(size_t(offset) + d.size());
    model.replace(size_t(offset), d.size(), d);
    last = "w" + to_string(offset + int64_t(d.size()));
   }
   else if (op == 7 * offsets)
   {
    c.note(f.name + " get_size");
    const int64_t size = f.file->get_size();
    require(size == int64_t(model.size()), "get_size: " + to_string(size) + " instead of " + to_string(model.size()), "size");
    last = "s";
   }
   else if (op == 7 * offsets + 1)
   {
    c.note(f.name + " sync");
    f.file->sync();
    last = "y";
   }
   else
   {
    c.note(f.name + " datasync");
    f.file->datasync();
    last = "y";
   }
  }
  catch (const Exception &e)
  {
   const bool beyond = op < 3 * offsets ? op / 3 > int(model.size()) : op < 7 * offsets && (op - 3 * offsets) / 4 > int(model.size());
   if (!f.seek_beyond_fails || !beyond)
    fail(string("unexpected exception: ") + e.what(), "exception");
   last = "x";
  }
  same(f.content(), model, "content");
  c.transition();
  c.outcome(model);
  const uint64_t h = hash_string(model + "|" + last, uint64_t(kind) + 77);
  c.state(h);
  c.prune(h);
 }
}

/////////////////////////////////////////////////////////////////////////////
// Read-only files: all reads
/////////////////////////////////////////////////////////////////////////////
static void all_reads(Chooser &c, const Abstract_File &file, const string &model, const string &name, const vector<int64_t> &offsets, const vector<size_t> &sizes)
{
 const int64_t offset = offsets[size_t(c.choose(int(offsets.size())))];
 const size_t size = sizes[size_t(c.choose(int(sizes.size())))];
 c.note(name + " pread " + to_string(size) + " at " + to_string(offset));
 size_t n;
 const string s = read_some(file, size, offset, n);
 same(s, flat(model, size, offset), name);
 c.outcome(name + s);
 c.state(name + s + to_string(offset));
 c.transition();
}

static void read_only(Chooser &c)
{
 const vector<int64_t> offsets = {0, 1, 4, 5, 6, 7, 4095, 4096, 4999, 5000, 5001};
 const vector<size_t> sizes = {0, 1, 2, 5, 6, 4096, 5000, 6000};
 const string content = pattern(c.flip() ? 5000 : 6);
 switch (c.choose(6))
 {
  case 0:
  {
   const Readonly_Memory_File file(content.data(), content.size());
   require(file.get_size() == int64_t(content.size()) && file.is_readonly(), "size", "size");
   all_reads(c, file, content, "Readonly_Memory_File(pointer)", offsets, sizes);
   break;
  }
  case 1:
  {
   const Readonly_Memory_File file{std::string_view(content)};
   all_reads(c, file, content, "Readonly_Memory_File(string_view)", offsets, sizes);
   break;
  }
  case 2:
  {
   const vector<char> v(content.begin(), content.end());
   const Readonly_Memory_File file(v);
   all_reads(c, file, content, "Readonly_Memory_File(vector)", offsets, sizes);
   break;
  }
  case 3:
  {
   const string path = scratch() + "/readonly";
   set_content(path, content);
   {
    const File file(path, Open_Mode::read_existing);
    require(file.get_size() == int64_t(content.size()) && file.is_readonly(), "size", "size");
    all_reads(c, file, content, "File(read_existing)", offsets, sizes);
   }
   ::unlink(path.c_str());
   break;
  }
  case 4:
  {
   const string path = scratch() + "/readonly";
   set_content(path, content);
   {
    const Portable_File file(path, Open_Mode::read_existing);
    require(file.get_size() == int64_t(content.size()) && file.is_readonly(), "size", "size");
    all_reads(c, file, content, "Portable_File(read_existing)", offsets, sizes);
   }
   ::unlink(path.c_str());
   break;
  }
  case 5:
  {
   // what is written is ignored
   Upgradable_File<Readonly_Memory_File> file(std::string_view{content});
   Abstract_File &f = file;
   require(f.get_size() == -1 && !f.is_readonly() && !f.is_shared(), "Upgradable_File", "size");
   f.pwrite("zzz", 3, 1);
   all_reads(c, f, content, "Upgradable_File", offsets, sizes);
   break;
  }
 }
}

static void slices(Chooser &c)
{
 const vector<int64_t> edges = {0, 1, 5, 4095, 4096, 4097, 9999, 10000};
 const string content = pattern(10000);
 const int64_t from = edges[size_t(c.choose(int(edges.size())))];
 const int64_t until = edges[size_t(c.choose(int(edges.size())))];
 if (until < from || until == 0)
  throw Skip{};
 const string path = scratch() + "/slice";
 set_content(path, content);
 const int fd = ::open(path.c_str(), O_RDONLY);
 {
  const File_Slice file(fd, size_t(from), size_t(until - from));
  const Abstract_File &f = file;
  const string model = content.substr(size_t(from), size_t(until - from));
  require(f.get_size() == int64_t(model.size()) && f.is_readonly(), "size of the slice", "size");
  vector<int64_t> offsets;
  for (int64_t x: {int64_t(0), int64_t(1), int64_t(model.size()) - 1, int64_t(model.size()), int64_t(model.size()) + 1, 4096 - from})
   if (x >= 0)
    offsets.push_back(x);
  all_reads(c, f, model, "File_Slice", offsets, {0, 1, 2, 4096, 20000});
 }
 ::close(fd);
 ::unlink(path.c_str());
}

/////////////////////////////////////////////////////////////////////////////
// A flat array with short reads
/////////////////////////////////////////////////////////////////////////////
class Short_File: public Abstract_File
{
 public:
  string data;
  Chooser *c = nullptr;
  mutable int reads = 0;
  Short_File(const string &data, Chooser *c = nullptr): Abstract_File(Open_Mode::write_existing), data(data), c(c) {}
  int64_t get_size() const override {return int64_t(data.size());}

  size_t pread(char *buffer, size_t size, int64_t offset) const override
  {
   require(offset >= 0, "negative offset", "offset");
   if (++reads > 200)
    fail("endless reading", "endless");
   if (size_t(offset) >= data.size())
    return 0;
   size_t n = std::min(size, data.size() - size_t(offset));
   if (c && n)
    n = shorten(*c, n);
   std::memcpy(buffer, data.data() + offset, n);
   return n;
  }

  void pwrite(const char *buffer, size_t size, int64_t offset) override
  {
   require(offset >= 0, "negative offset", "offset");
   if (data.size() < size_t(offset) + size)
    data.resize(size_t(offset) + size);
   data.replace(size_t(offset), size, buffer, size);
  }
};

/////////////////////////////////////////////////////////////////////////////
// File_Buffer
/////////////////////////////////////////////////////////////////////////////
static string compact(uint64_t x)
{
 int extra = 0;
 while (extra < 7 && (x >> (8 * extra)) >= 0x20)
  extra++;
 string s(1, char((extra << 5) | int(x >> (8 * extra))));
 while (extra > 0)
  s += char(x >> (8 * --extra));
 return s;
}

struct Item
{
 string name;
 string bytes;
 std::function<void(File_Buffer &)> write;
 std::function<void(File_Buffer &)> read; // reads and compares
};

static vector<Item> items;

template<typename T> static Item number(const string &name, T x)
{
 return {name + " " + to_string(x), string((const char *)&x, sizeof(T)),
  [x](File_Buffer &b){b.write<T>(x);},
  [x, name](File_Buffer &b){const T y = b.read<T>(); require(x == y, name + ": " + to_string(y) + " instead of " + to_string(x), "value");}};
}

template<typename T> static Item compact_number(const string &name, T x)
{
 return {name + " " + to_string(x), compact(uint64_t(x)),
  [x](File_Buffer &b){b.compact_write<T>(x);},
  [x, name](File_Buffer &b){const T y = b.compact_read<T>(); require(x == y, name + ": " + to_string(y) + " instead of " + to_string(x), "value");}};
}

static Item string_item(size_t size)
{
 const string s = pattern(size, 3);
 return {"string " + to_string(size), compact(size) + s,
  [s](File_Buffer &b){b.write_string(s);},
  [s](File_Buffer &b){same(b.read_string(), s, "read_string");}};
}

static Item data_item(size_t size)
{
 const string s = pattern(size, 4);
 return {"data " + to_string(size), s,
  [s](File_Buffer &b){b.write_data(s.data(), s.size());},
  [s](File_Buffer &b){string r(s.size(), 0); const size_t n = b.read_data(r.data(), r.size()); require(n == r.size(), "read_data: short", "value"); same(r, s, "read_data");}};
}

static void make_items()
{
 items.push_back(number<uint8_t>("u8", 200));
 items.push_back(number<int16_t>("i16", -300));
 items.push_back(number<int32_t>("i32", -70000));
 items.push_back(number<int64_t>("i64", -1234567890123ll));
 items.push_back(compact_number<int64_t>("compact", 5));
 items.push_back(compact_number<int64_t>("compact", 8000));
 items.push_back(compact_number<int64_t>("compact", 1ll << 60));
 items.push_back(compact_number<uint16_t>("compact16", 60000));
 items.push_back({"reference", compact(7), [](File_Buffer &b){b.write_reference(Record_Id{6});},
  [](File_Buffer &b){require(b.read_reference() == Record_Id{6}, "reference", "value");}});
 items.push_back({"blob", compact(100000) + compact(33), [](File_Buffer &b){b.write_blob(Blob(100000, 33));},
  [](File_Buffer &b){const Blob x = b.read_blob(); require(x.get_position() == 100000 && x.get_size() == 33, "blob", "value");}});
 for (size_t n: {0, 7, 8, 9, 5000})
  items.push_back(string_item(n));
 for (size_t n: {8, 9, 4096, 4104, 4105})
  items.push_back(data_item(n));
}

// Write a first chunk and some items, from a chosen position, then read them
// through another buffer on a file with short reads
static void buffer(Chooser &c, int count, bool boundary)
{
 static const vector<size_t> starts = [&]{
  vector<size_t> r;
  for (size_t i = 4087; i <= 4097; i++)
   r.push_back(i);
  return r;}();
 Short_File file(boundary ? "" : pattern(12, 9));
 string model = file.data;
 int64_t position = 0;
 vector<std::pair<int, int64_t>> written; // item, position
 {
  File_Buffer b(file);
  const size_t start = boundary ? starts[size_t(c.choose(int(starts.size())))] : 0;
  auto put = [&](const string &bytes)
  {
   if (model.size() < size_t(position) + bytes.size())
    model.resize(size_t(position) + bytes.size());
   model.replace(size_t(position), bytes.size(), bytes);
   position += int64_t(bytes.size());
  };
  if (start)
  {
   c.note("write " + to_string(start) + " bytes");
   // byte by byte, so that they remain in the buffer
   const string s = pattern(start, 5);
   for (const char x: s)
    b.write<uint8_t>(uint8_t(x));
   put(s);
  }
  for (int i = 0; i < count; i++)
  {
   const int k = c.choose(int(items.size()) + (boundary ? 1 : 4));
   if (k < int(items.size()))
   {
    const Item &item = items[size_t(k)];
    c.note("write " + item.name);
    written.emplace_back(k, position);
    item.write(b);
    put(item.bytes);
   }
   else if (k == int(items.size()))
   {
    c.note("flush");
    b.flush();
    same(file.data, model, "file after flush");
   }
   else
   {
    position = vector<int64_t>{0, 5, int64_t(model.size())}[size_t(k - int(items.size()) - 1)];
    c.note("set_position " + to_string(position));
    b.set_position(position);
    same(file.data, model, "file after set_position");
   }
   if (i == 0)
    c.split();
   require(b.get_position() == position, "get_position: " + to_string(b.get_position()) + " instead of " + to_string(position), "position");
   c.transition();
  }
  b.flush();
  require(b.get_position() == position, "get_position after flush", "position");
  // read them with the same buffer
  for (size_t i = 0; i < written.size(); i++)
  {
   const auto [k, p] = written[i];
   if (model.compare(size_t(p), items[size_t(k)].bytes.size(), items[size_t(k)].bytes) != 0)
    continue; // overwritten
   b.set_position(p);
   items[size_t(k)].read(b);
   require(b.get_position() == p + int64_t(items[size_t(k)].bytes.size()), "get_position after reading", "position");
   c.transition();
  }
 }
 same(file.data, model, "file");
 c.outcome(model);
 c.state(model);
}

// Read with a second buffer, with short reads, ignore, and jumps
static void buffer_reading(Chooser &c, int count)
{
 const vector<size_t> starts = {0, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096};
 const size_t start = starts[size_t(c.choose(int(starts.size())))];
 string content = pattern(start, 5);
 vector<int> sequence;
 vector<int64_t> positions;
 for (int i = 0; i < count; i++)
 {
  const int k = c.choose(int(items.size()));
  sequence.push_back(k);
  positions.push_back(int64_t(content.size()));
  content += items[size_t(k)].bytes;
  c.note(items[size_t(k)].name + " at " + to_string(positions.back()));
 }
 c.split();
 Short_File file(content, &c);
 File_Buffer b(file);
 const int how = c.choose(3);
 if (how == 0)
  b.set_position(int64_t(start));
 else if (how == 1)
 {
  if (start)
  {
   string s(start, 0);
   b.read_data(s.data(), start);
   same(s, content.substr(0, start), "first read");
  }
 }
 else
  b.ignore(int64_t(start));
 for (int i = 0; i < count; i++)
 {
  const Item &item = items[size_t(sequence[size_t(i)])];
  require(b.get_position() == positions[size_t(i)], "get_position: " + to_string(b.get_position()) + " instead of " + to_string(positions[size_t(i)]), "position");
  if (i == 0 && how == 1 && c.flip())
  {
   c.note("ignore");
   b.ignore(int64_t(item.bytes.size()));
  }
  else
   item.read(b);
  c.transition();
 }
 require(b.get_position() == int64_t(content.size()), "final get_position: " + to_string(b.get_position()), "position");
 // the end of the file is reported
 bool thrown = false;
 try {b.read<uint8_t>();} catch (const Exception &) {thrown = true;}
 require(thrown, "reading past the end of file is not reported", "eof");
 c.outcome(content + to_string(file.reads));
 c.state(content + to_string(file.reads));
}

/////////////////////////////////////////////////////////////////////////////
// Copy and comparison
/////////////////////////////////////////////////////////////////////////////
class Source
{
 public:
  std::unique_ptr<Any_File> any;
  std::unique_ptr<Short_File> short_file;
  std::unique_ptr<Readonly_Memory_File> readonly;
  string content;
  string name;
  Abstract_File *file;

  static constexpr int kinds = 6;

  Source(Chooser &c, int kind, const string &content, const char *file_name): content(content)
  {
   if (kind == 0)
   {
    short_file = std::make_unique<Short_File>(content, &c);
    file = short_file.get();
    name = "file with short reads";
   }
   else if (kind == 1)
   {
    readonly = std::make_unique<Readonly_Memory_File>(std::string_view(this->content));
    file = readonly.get();
    name = "Readonly_Memory_File";
   }
   else
   {
    any = std::make_unique<Any_File>(kind - 2, content, file_name);
    file = any->file.get();
    name = any->name;
   }
  }
};

static const vector<size_t> lengths = {0, 1, 2, 4095, 4096, 4097, 8192, 8193};

static void copy(Chooser &c)
{
 const int kind = c.choose(Source::kinds);
 const string content = pattern(lengths[size_t(c.choose(int(lengths.size())))]);
 const int destination_kind = c.choose(4);
 const int what = c.choose(5);
 c.split();
 Source source(c, kind, content, "from");
 const string old = c.flip() ? pattern(lengths[4] + 50, 7) : string();
 Any_File destination(destination_kind, old, "to");
 int64_t start = 0;
 int64_t size = -1;
 bool whole = false;
 switch (what)
 {
  case 0: whole = true; break;
  case 1: size = int64_t(content.size()); break;
  case 2: start = std::min<int64_t>(int64_t(content.size()), 4090); size = -1; break;
  case 3: start = std::min<int64_t>(int64_t(content.size()), 1); size = std::min<int64_t>(int64_t(content.size()) - start, 4096); break;
  case 4: start = 0; size = int64_t(content.size()) + 1; break; // too large
 }
 if (destination.seek_beyond_fails && start > int64_t(old.size()))
  throw Skip{};
 c.note("copy from " + source.name + " (" + to_string(content.size()) + ") to " + destination.name + " start " + to_string(start) + " size " + to_string(size));
 bool thrown = false;
 try
 {
  if (whole)
   source.file->copy_to(*destination.file);
  else
   source.file->copy_to(*destination.file, start, size);
 }
 catch (const Exception &)
 {
  thrown = true;
 }
 require(thrown == (what == 4), thrown ? "copy_to failed" : "copy of a file that is too short is not reported", "copy");
 if (size < 0 || what == 4)
  size = int64_t(content.size()) - start;
 string model = old;
 if (size)
 {
  if (model.size() < size_t(start + size))
   model.resize(size_t(start + size));
  model.replace(size_t(start), size_t(size), content, size_t(start), size_t(size));
 }
 same(destination.content(), model, "copy");
 c.transition();
 c.outcome(model);
 c.state(model + source.name + destination.name);
}

static void equal(Chooser &c)
{
 const int kind = c.choose(Source::kinds);
 const int kind2 = c.choose(Source::kinds);
 const size_t size = lengths[size_t(c.choose(int(lengths.size())))];
 // where the second file differs: nowhere, at an edge, shorter, longer
 const int difference = c.choose(8);
 const int range = c.choose(4);
 c.split();
 const string a = pattern(size);
 string b = a;
 int64_t at = -1;
 switch (difference)
 {
  case 1: at = 0; break;
  case 2: at = int64_t(size) - 1; break;
  case 3: at = 4095; break;
  case 4: at = 4096; break;
  case 5: at = int64_t(size) / 2; break;
  case 6: if (b.empty()) throw Skip{}; b.pop_back(); break;
  case 7: b += '!'; break;
 }
 if (difference >= 1 && difference <= 5)
 {
  if (at < 0 || at >= int64_t(size))
   throw Skip{};
  b[size_t(at)] = char(b[size_t(at)] ^ 0x40);
 }
 int64_t from = 0;
 int64_t until = int64_t(size);
 switch (range)
 {
  case 1: from = std::min<int64_t>(until, 1); break;
  case 2: until = std::max<int64_t>(0, until - 1); break;
  case 3: from = std::min<int64_t>(until, 4090); break;
 }
 bool expected = true;
 for (int64_t i = from; i < until; i++)
  if (size_t(i) >= b.size() || a[size_t(i)] != b[size_t(i)])
   expected = false;
 Source x(c, kind, a, "a");
 Source y(c, kind2, b, "b");
 c.note("compare " + x.name + " of size " + to_string(size) + " with " + y.name + " of size " + to_string(b.size()) + " differing at " + to_string(at) + " from " + to_string(from) + " until " + to_string(until));
 const bool result = x.file->equal_to(*y.file, from, until);
 require(result == expected, result ? "different files are found to be equal" : "equal files are found to be different", "equal");
 c.transition();
 c.outcome(to_string(result) + " " + to_string(difference) + " " + to_string(range));
 c.state(x.name + y.name + to_string(size) + to_string(difference) + to_string(range));
}

/////////////////////////////////////////////////////////////////////////////
// Async_Reader, Async_Writer, read_blob
/////////////////////////////////////////////////////////////////////////////
static void async(Chooser &c)
{
 const string content = "abcdefg";
 const int64_t start = c.choose(9);
 const int64_t end = c.choose(10);
 Short_File file(content, &c);
 c.note("read from " + to_string(start) + " to " + to_string(end));
 Async_Reader reader(file, start, end);
 const int64_t from = std::min(start, end);
 const int64_t until = std::min<int64_t>(end, int64_t(content.size()));
 string result;
 Memory_File copy(Open_Mode::create_new);
 Async_Writer writer(copy, 2);
 for (int i = 0; i < 4; i++)
 {
  const size_t capacity = size_t(1 + c.choose(4));
  char b[8];
  const size_t n = reader.read(b, capacity);
  require(n <= capacity, "read too much", "async");
  // less than asked only at the end
  const size_t expected = size_t(std::max<int64_t>(0, std::min<int64_t>(int64_t(capacity), until - from - int64_t(result.size()))));
  require(n == expected, "read " + to_string(n) + " instead of " + to_string(expected), "async");
  result.append(b, n);
  writer.write(b, n);
  require(reader.get_current() == from + int64_t(result.size()), "current", "async");
  require(reader.get_remaining() == end - reader.get_current(), "remaining", "async");
  require(reader.is_end_of_file() == (n < capacity && reader.get_current() < end), "end of file", "async");
  require(writer.get_position() == 2 + int64_t(result.size()), "writer position", "async");
  c.transition();
 }
 same(result, flat(content, result.size(), from), "Async_Reader");
 same(copy.get_data().size() < 2 ? string() : copy.get_data().substr(2), result, "Async_Writer");
 c.outcome(result);
 c.state(result + to_string(start) + to_string(end));
}

static void blobs(Chooser &c)
{
 const string content = "abcdef";
 Short_File file(content, &c);
 const int64_t position = c.choose(9) - 1;
 const int64_t size = c.choose(9) - 1;
 const int64_t max_size = vector<int64_t>{-1, 0, 1, 3, 100}[size_t(c.choose(5))];
 c.note("read_blob " + to_string(position) + " " + to_string(size) + " " + to_string(max_size));
 string result;
 bool thrown = false;
 try {result = file.read_blob(Blob(position, size), max_size);} catch (const Exception &) {thrown = true;}
 const bool valid = position >= 0 && size >= 0 && (size == 0 || position + size <= int64_t(content.size())) && (max_size < 0 || size < max_size);
 require(thrown == !valid, valid ? "read_blob refused a valid blob" : "read_blob accepted an invalid blob: " + show_bytes(result), "blob");
 if (valid)
  same(result, size == 0 ? "" : content.substr(size_t(position), size_t(size)), "blob");
 c.transition();
 c.outcome(result);
 c.state(to_string(position) + " " + to_string(size) + " " + to_string(max_size));
}

/////////////////////////////////////////////////////////////////////////////
// The operating system reads and writes less than asked
/////////////////////////////////////////////////////////////////////////////
static void os_short(Chooser &c)
{
 const string path = scratch() + "/os_short";
 set_content(path, "");
 string model;
 Unwatch unwatch;
 {
  File file(path, Open_Mode::write_existing);
  watch_os(path, &c);
  for (int i = 0; i < 2; i++)
  {
   const size_t size = vector<size_t>{1, 2, 5, 5000}[size_t(c.choose(4))];
   const int64_t offset = vector<int64_t>{0, 3, 6}[size_t(c.choose(3))];
   const string data = pattern(size, i);
   c.note("pwrite " + to_string(size) + " at " + to_string(offset));
   const uint64_t calls = os_calls;
   file.pwrite(data.data(), data.size(), offset);
   require(os_calls > calls, "pwrite does not write", "content");
   if (model.size() < size_t(offset) + size)
    model.resize(size_t(offset) + size);
   model.replace(size_t(offset), size, data);
   c.transition();
  }
  // read it all
  string s(model.size(), 0);
  Async_Reader reader(file, 0, int64_t(model.size()));
  const size_t n = reader.read(s.data(), s.size());
  require(n == s.size() && !reader.is_end_of_file(), "short", "content");
  same(s, model, "Async_Reader");
  File_Buffer b(file);
  string s2(model.size(), 0);
  b.read_data(s2.data(), s2.size());
  same(s2, model, "File_Buffer");
  os_chooser = nullptr;
 }
 same(file_content(path), model, "file");
 ::unlink(path.c_str());
 c.outcome(model);
 c.state(model);
}

/////////////////////////////////////////////////////////////////////////////
// C16: streams
/////////////////////////////////////////////////////////////////////////////
struct Peek: public std::streambuf
{
 static string describe(std::streambuf &b)
 {
  // position of the pointers in the buffers
  const auto e = &Peek::eback;
  const auto g = &Peek::gptr;
  const auto h = &Peek::egptr;
  const auto p = &Peek::pbase;
  const auto q = &Peek::pptr;
  return to_string((b.*g)() - (b.*e)()) + " " + to_string((b.*h)() - (b.*g)()) + " " + to_string((b.*q)() - (b.*p)());
 }
};

struct Stream_System
{
 Chooser &c;
 string path;
 std::unique_ptr<Memory_File> memory;
 std::unique_ptr<Short_File> short_file;
 std::unique_ptr<std::iostream> stream;
 std::stringstream reference;
 int mode = 0; // 0: neutral, 1: reading, 2: writing
 bool real;

 Stream_System(Chooser &c, int kind, const string &content):
  c(c),
  reference(content, std::ios::in | std::ios::out | std::ios::binary)
 {
  path = scratch() + "/stream";
  real = kind == 1;
  if (kind == 0)
  {
   memory = std::make_unique<Memory_File>(Open_Mode::write_existing);
   memory->get_data() = content;
   stream = std::make_unique<joedb::iostream>(*memory);
  }
  else if (kind == 1)
  {
   set_content(path, content);
   stream = std::make_unique<joedb::fstream>(path, Open_Mode::write_existing);
  }
  else
  {
   short_file = std::make_unique<Short_File>(content, &c);
   stream = std::make_unique<joedb::iostream>(*short_file);
  }
 }

 ~Stream_System()
 {
  stream.reset();
  if (real)
   ::unlink(path.c_str());
 }

 string content() const
 {
  return memory ? memory->get_data() : real ? file_content(path) : short_file->data;
 }
};

static string describe_state(std::ios &s)
{
 return string(s.bad() ? "bad " : "") + (s.fail() ? "fail " : "") + (s.eof() ? "eof" : "");
}

struct Stream_Op
{
 string name;
 int mode; // 1: reading, 2: writing, 0: a seek or a flush, 3: no change
 std::function<string(std::iostream &)> f;
};

static vector<Stream_Op> stream_ops(bool large)
{
 vector<Stream_Op> r;
 auto add = [&](const string &name, int mode, std::function<string(std::iostream &)> f) {r.push_back({name, mode, f});};
 add("get", 1, [](std::iostream &s){const int x = s.get(); return to_string(x) + " " + to_string(s.gcount());});
 add("peek", 1, [](std::iostream &s){const int x = s.peek(); return to_string(x);});
 add("unget", 1, [](std::iostream &s){s.unget(); return string();});
 add("putback z", 1, [](std::iostream &s){s.putback('z'); return string();});
 add("sungetc", 1, [](std::iostream &s){const int x = s.rdbuf()->sungetc(); return to_string(x);});
 add("putback \\xff", 1, [](std::iostream &s){s.putback('\xff'); return string();});
 auto reading = [](std::streamsize n){return [n](std::iostream &s){string b(size_t(n), '#'); s.read(b.data(), n); return b + " " + to_string(s.gcount());};};
 add("read 2", 1, reading(2));
 add(">> int", 1, [](std::iostream &s){int x = 77; s >> x; return to_string(x);});
 add(">> string", 1, [](std::iostream &s){string x = "??"; s >> x; return x;});
 add("getline", 1, [](std::iostream &s){string x = "??"; std::getline(s, x); return x;});
 add("ignore 2", 1, [](std::iostream &s){s.ignore(2); return to_string(s.gcount());});
 add("put", 2, [](std::iostream &s){s.put('P'); return string();});
 add("write QQ", 2, [](std::iostream &s){s.write("QQ", 2); return string();});
 add("<< 42", 2, [](std::iostream &s){s << 42 << ' '; return string();});
 if (large)
 {
  add("read 8191", 1, reading(8191));
  add("read 8192", 1, reading(8192));
  add("read 9000", 1, reading(9000));
  add("write 8191", 2, [](std::iostream &s){const string x = pattern(8191, 1); s.write(x.data(), 8191); return string();});
  add("write 8192", 2, [](std::iostream &s){const string x = pattern(8192, 2); s.write(x.data(), 8192); return string();});
  add("write 8193", 2, [](std::iostream &s){const string x = pattern(8193, 3); s.write(x.data(), 8193); return string();});
  add("put 8192 times", 2, [](std::iostream &s){for (const char x: pattern(8192, 4)) s.put(x); return string();});
  add("get 8191 times", 1, [](std::iostream &s){uint64_t h = 0; for (int i = 0; i < 8191; i++) h = h * 31 + uint64_t(s.get()); return to_string(h);});
 }
 auto seeking = [](bool in, std::streamoff off, std::ios_base::seekdir dir){return [=](std::iostream &s){
  if (in) s.seekg(off, dir); else s.seekp(off, dir);
  return string();};};
 const char *dirs[] = {"beg", "cur", "end"};
 const std::ios_base::seekdir d[] = {std::ios_base::beg, std::ios_base::cur, std::ios_base::end};
 for (const bool in: {true, false})
  for (int k = 0; k < 3; k++)
   for (const std::streamoff off: {-9, -2, -1, 0, 1, 8190})
    if (large || off < 8000)
     add(string(in ? "seekg " : "seekp ") + to_string(off) + " " + dirs[k], 0, seeking(in, off, d[k]));
 add("tellg", 3, [](std::iostream &s){const std::streamoff x = s.tellg(); return to_string(x);});
 add("tellp", 3, [](std::iostream &s){const std::streamoff x = s.tellp(); return to_string(x);});
 add("flush", 0, [](std::iostream &s){s.flush(); return string();});
 add("sync", 0, [](std::iostream &s){return to_string(s.sync());});
 add("clear", 3, [](std::iostream &s){s.clear(); return string();});
 return r;
}

static void streams(Chooser &c, bool large, bool short_reads)
{
 static const vector<Stream_Op> small_list = stream_ops(false), large_list = stream_ops(true);
 const vector<Stream_Op> &ops = large ? large_list : small_list;
 const int kind = short_reads ? 2 : c.choose(2);
 const int which = c.choose(3);
 const string content =
  large
  ? (which == 0 ? pattern(8191) : which == 1 ? pattern(8193) : pattern(17000))
  : (which == 0 ? string() : which == 1 ? string("12 ab\n-3") : string("\xff\xfe 7\n\n"));
 Stream_System s(c, kind, content);
 c.note("content " + show_bytes(content) + ", " + (kind == 1 ? "joedb::fstream" : "joedb::iostream"));
 while (true)
 {
  const int o = c.choose(int(ops.size()));
  const Stream_Op &op = ops[size_t(o)];
  if (op.mode == 1 && s.mode == 2 || op.mode == 2 && s.mode == 1)
   throw Skip{}; // forbidden by the rules of std::fstream
  c.note(op.name);
  const string a = op.f(*s.stream);
  const string old_reference = s.reference.str();
  // seeking beyond the end is allowed by std::fstream, not by std::stringstream
  const string b = op.f(s.reference);
  if (op.mode == 0 && op.name[0] == 's' && op.name[1] == 'e' && s.reference.fail())
  {
   // find out if it was beyond the end or negative
   const size_t space = op.name.find(' ');
   const long off = std::stol(op.name.substr(space + 1));
   const bool negative = off < 0;
   if (!negative)
    throw Skip{};
  }
  same(a, b, op.name);
  require(describe_state(*s.stream) == describe_state(s.reference), op.name + ": state \"" + describe_state(*s.stream) + "\" instead of \"" + describe_state(s.reference) + "\"", "state");
  if (op.mode == 1 || op.mode == 2)
   s.mode = op.mode;
  else if (op.mode == 0 && s.stream->good())
   s.mode = 0;
  const std::streamoff g = s.reference.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
  const std::streamoff p = s.reference.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
  const string expected = s.reference.str();
  if (op.mode == 0 && s.stream->good())
   same(s.content(), expected, "content of the file after " + op.name);
  const uint64_t h = hash_string(expected + "|" + to_string(g) + " " + to_string(p) + " " + describe_state(s.reference) + to_string(s.mode) + " " + Peek::describe(*s.stream->rdbuf()), uint64_t(kind) + 5);
  c.transition();
  c.outcome(expected);
  c.state(h);
  if (c.last_step())
  {
   // everything can be written, and positions are right
   s.stream->clear();
   const std::streamoff p2 = s.stream->tellp();
   const std::streamoff g2 = s.stream->tellg();
   s.stream->flush();
   same(s.content(), expected, "final content of the file");
   require(p2 == p, "final tellp: " + to_string(p2) + " instead of " + to_string(p), "position");
   require(g2 == g, "final tellg: " + to_string(g2) + " instead of " + to_string(g), "position");
  }
  c.prune(h);
 }
}

// Destruction writes what is in the buffer; read-only streams
static void stream_classes(Chooser &c)
{
 const string path = scratch() + "/stream";
 const string content = vector<string>{"", "hello\nworld", pattern(8193)}[size_t(c.choose(3))];
 set_content(path, content);
 switch (c.choose(5))
 {
  case 0:
  {
   c.note("ifstream");
   joedb::ifstream in(path);
   std::ostringstream out;
   if (!content.empty())
    out << in.rdbuf();
   same(out.str(), content, "ifstream");
   require(in.good(), "state", "state");
   require(in.get() == EOF && in.eof(), "eof", "state");
   same(file_content(path), content, "content");
   break;
  }
  case 1:
  {
   c.note("ofstream");
   {
    joedb::ofstream out(path, Open_Mode::write_existing);
    out << "AB" << 12;
    if (c.flip())
     out.flush();
   }
   string s = content;
   if (s.size() < 4)
    s.resize(4);
   s.replace(0, 4, "AB12");
   same(file_content(path), s, "ofstream");
   break;
  }
  case 2:
  {
   c.note("append with fstream");
   {
    joedb::fstream out(path, Open_Mode::write_existing);
    out.seekp(0, std::ios::end);
    out << "tail";
    out.seekg(0);
    string s(content.size() + 4, '#');
    out.read(s.data(), std::streamsize(s.size()));
    same(s, content + "tail", "fstream");
   }
   same(file_content(path), content + "tail", "fstream");
   break;
  }
  case 3:
  {
   c.note("ofstream, create_new");
   ::unlink(path.c_str());
   {
    joedb::ofstream out(path, Open_Mode::create_new);
    out.write(content.data(), std::streamsize(content.size()));
   }
   same(file_content(path), content, "ofstream");
   break;
  }
  case 4:
  {
   c.note("append several times without flushing");
   {
    joedb::fstream out(path, Open_Mode::write_existing);
    for (int i = 0; i < 3; i++)
    {
     out.seekp(0, std::ios::end);
     const std::streamoff p = out.tellp();
     require(p == std::streamoff(content.size()) + 2 * i, "position at the end: " + to_string(p), "position");
     out << "x" << i;
    }
   }
   same(file_content(path), content + "x0x1x2", "fstream");
   break;
  }
 }
 ::unlink(path.c_str());
 c.transition();
 c.outcome(content);
 c.state(content);
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
const string id = argc > 1 ? argv[1] : "";
 Explorer ex(argc, argv, id);
 const bool t = ex.is_thorough();
 make_items();
 if (id == "C15")
 {
  ex.explore_states("kinds", [&](Chooser &c){kinds(c, t ? 5 : 4);}, t ? 6 : 4);
  ex.explore("read_only", [&](Chooser &c){read_only(c);});
  ex.explore("slices", [&](Chooser &c){slices(c);});
  ex.explore("buffer", [&](Chooser &c){buffer(c, t ? 4 : 3, false);});
  ex.explore("buffer_boundary", [&](Chooser &c){buffer(c, t ? 4 : 3, true);});
  ex.explore("buffer_reading", [&](Chooser &c){buffer_reading(c, t ? 3 : 2);}, t ? 3 : 2);
  ex.explore("copy", [&](Chooser &c){copy(c);}, t ? 3 : 2);
  ex.explore("equal", [&](Chooser &c){equal(c);}, t ? 3 : 2);
  ex.explore("async", [&](Chooser &c){async(c);}, t ? 5 : 3);
  ex.explore("blobs", [&](Chooser &c){blobs(c);}, t ? 6 : 4);
  ex.explore("os_short", [&](Chooser &c){os_short(c);}, t ? 4 : 2);
  return ex.finish
  (
   "model_checking",
   "Every result of every operation, and the content of the file, are compared with an array of bytes. Short reads and writes are chosen by the explorer.",
   {"empty writes are only made inside of the file", "a Stream_File over a std::stringbuf may refuse to seek beyond the end"}
  );
 }
 else if (id == "C16")
 {
  ex.explore_states("small", [&](Chooser &c){streams(c, false, false);}, t ? 6 : 4);
  ex.explore_states("large", [&](Chooser &c){streams(c, true, false);}, t ? 4 : 3);
  ex.explore("classes", [&](Chooser &c){stream_classes(c);});
  return ex.finish
  (
   "model_checking",
   "Operations are applied to a joedb stream and to a std::stringstream with the same content: results, states, positions and contents must be equal.",
   {"a seek or a flush separates reading and writing, as the standard requires for std::fstream", "positions beyond the end, which std::stringstream refuses, are not compared"}
  );
 }
 return 2;
}
