// C17: encoded files store and return exactly the bytes written.
#include "explorer.h"
#include "recorder.h"
#include "dump.h"
#include "scratch.h"

#include "joedb/journal/Encoded_File.h"
#include "joedb/journal/Identity_Codec.h"
#include "joedb/journal/Brotli_Codec.h"
#include "joedb/journal/Brotli_File.h"
#include "joedb/journal/Readonly_Brotli_File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/Multiplexer.h"
#include "joedb/db/encoded_file/Writable_Database.h"
#include "joedb/db/encoded_file/Readonly_Database.h"

#include <functional>
#include <memory>

using namespace joedb;
using mc::Chooser;
using mc::require;

// A codec that changes every byte and the size, counts, and fails on demand
class Test_Codec: public Codec
{
 public:
  int decoded = 0;
  int fail_at = -1;
  std::string encode(std::string_view s) override
  {
   std::string r = "<";
   for (const char c: s) r += char(c ^ 0x55);
   return r + ">";
  }
  void decode(std::string_view s, char *p, size_t n) override
  {
   require(s.size() == n + 2 && s.front() == '<' && s.back() == '>', "the decoder receives other bytes than those that were encoded", "codec");
   const bool fail = decoded++ == fail_at;
   for (size_t i = 0; i < (fail ? n / 2 + 1 : n) && i < n; i++)
    p[i] = fail ? '!' : char(s[i + 1] ^ 0x55);
   if (fail)
    throw Exception("decoding failed");
  }
};

// What has been synchronized
class Disk: public Abstract_File
{
 public:
  std::string now, durable;
  Disk(const std::string &s, Open_Mode mode = Open_Mode::write_existing_or_create_new): Abstract_File(mode), now(s), durable(s) {}
  int64_t get_size() const override {return int64_t(now.size());}
  size_t pread(char *p, size_t n, int64_t o) const override
  {
   if (o >= int64_t(now.size())) return 0;
   n = std::min(n, now.size() - size_t(o));
   std::memcpy(p, now.data() + o, n);
   return n;
  }
  void pwrite(const char *p, size_t n, int64_t o) override
  {
   if (now.size() < size_t(o) + n) now.resize(size_t(o) + n);
   std::memcpy(&now[size_t(o)], p, n);
  }
  void sync() override {durable = now;}
  void datasync() override {durable = now;}
};

struct Model
{
 std::string bytes;
 void write(const std::string &s, int64_t o)
 {
  if (s.empty()) return;
  if (bytes.size() < size_t(o) + s.size()) bytes.resize(size_t(o) + s.size());
  std::memcpy(&bytes[size_t(o)], s.data(), s.size());
 }
};

static std::string where(int64_t offset, size_t size) {return " of " + std::to_string(size) + " bytes at " + std::to_string(offset);}

static void check_read(const Abstract_File &file, const std::string &bytes, int64_t offset, size_t size, const char *what)
{
 std::string buffer(size + 8, '#');
 const size_t n = file.pread(&buffer[0], size, offset);
 const size_t left = offset >= int64_t(bytes.size()) ? 0 : std::min(size, bytes.size() - size_t(offset));
 require(n <= left, std::string(what) + ": reading" + where(offset, size) + " returns " + std::to_string(n) + " in a file of " + std::to_string(bytes.size()), "read_size");
 require(left == 0 || n > 0, std::string(what) + ": reading" + where(offset, size) + " returns nothing in a file of " + std::to_string(bytes.size()), "read_nothing");
 // a short read is allowed for very large sizes only
 require(n == left, std::string(what) + ": short read" + where(offset, size), "read_short");
 require(std::memcmp(buffer.data(), bytes.data() + (left ? offset : 0), left) == 0, std::string(what) + ": reading" + where(offset, size) + " returns " + mc::show(buffer.substr(0, left)) + " instead of " + mc::show(left ? bytes.substr(size_t(offset), left) : ""), "read");
 require(buffer.substr(size) == "########", "write after the end of the buffer", "overflow");
}

static void check_size(const Abstract_File &file, const std::string &bytes, const char *what)
{
 require(file.get_size() == int64_t(bytes.size()), std::string(what) + ": size " + std::to_string(file.get_size()) + " instead of " + std::to_string(bytes.size()), "size");
}

static void check_all(const Abstract_File &file, const std::string &bytes, const char *what)
{
 check_size(file, bytes, what);
 for (int64_t offset = 0; offset <= int64_t(bytes.size()) + 2; offset++)
  for (const size_t size: {size_t(0), size_t(1), size_t(2), size_t(3), bytes.size(), bytes.size() + 1, bytes.size() + 5})
   check_read(file, bytes, offset, size, what);
}

// The whole file, opened by a reader
static void check_image(const std::string &image, const std::string &bytes, const char *what, Decoder &codec, bool all = true)
{
 Memory_File file;
 file.get_data() = image;
 db::encoded_file::Readonly_Database db(file);
 Readonly_Encoded_File reader(codec, db, file);
 if (all)
  check_all(reader, bytes, what);
 else
 {
  check_size(reader, bytes, what);
  check_read(reader, bytes, 0, bytes.size() + 1, what);
 }
}

/////////////////////////////////////////////////////////////////////////////
// All small sequences
/////////////////////////////////////////////////////////////////////////////

struct Opened
{
 db::encoded_file::Writable_Database db;
 Encoded_File file;
 Opened(Abstract_File &f, Codec &codec): db(f), file(codec, db) {}
};

struct Small_Op {enum Kind {write, read, sync, reopen} kind; int64_t offset; size_t size;};

static void small(Chooser &c, int depth, const std::vector<Small_Op> &ops)
{
 Disk disk("");
 Test_Codec codec;
 auto f = std::make_unique<Opened>(disk, codec);
 Model model, synced;
 std::string log, pending;
 char next = 'a';
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(int(ops.size()) + 1);
  if (x == int(ops.size()))
   break;
  const Small_Op &op = ops[size_t(x)];
  if (d == 0) c.split();
  switch (op.kind)
  {
   case Small_Op::write:
   {
    std::string s(op.size, next);
    for (size_t i = 0; i < s.size(); i++) s[i] = char(s[i] - (i & 1 ? 32 : 0));
    next++;
    c.note("write" + where(op.offset, op.size));
    f->file.pwrite(s.data(), s.size(), op.offset);
    model.write(s, op.offset);
    pending += "w" + std::to_string(op.offset) + "," + std::to_string(op.size);
   }
   break;
   case Small_Op::read:
    c.note("read" + where(op.offset, op.size));
    check_read(f->file, model.bytes, op.offset, op.size, "writer");
    pending = "";
   break;
   case Small_Op::sync:
    c.note("sync");
    f->file.sync();
    synced = model;
    check_image(disk.durable, model.bytes, "durable bytes after sync", codec);
    pending = "";
   break;
   case Small_Op::reopen:
    c.note("close and open");
    f.reset();
    f = std::make_unique<Opened>(disk, codec);
    pending = "";
   break;
  }
  c.transition();
  check_size(f->file, model.bytes, "writer");
  c.prune(mc::hash_string(model.bytes + "|" + disk.now + "|" + pending + "|" + synced.bytes + "|" + std::to_string(next)));
 }
 c.state(mc::hash_string(model.bytes + "|" + disk.now + "|" + pending));
 c.outcome(model.bytes);
 check_all(f->file, model.bytes, "writer");
 f.reset();
 check_image(disk.now, model.bytes, "file that was closed", codec);
 f = std::make_unique<Opened>(disk, codec);
 check_all(f->file, model.bytes, "file that was closed and opened");
}

static std::vector<Small_Op> small_ops(bool gaps, bool th)
{
 std::vector<Small_Op> r;
 for (const int64_t offset: gaps ? std::vector<int64_t>{0, 1, 3, 6} : th ? std::vector<int64_t>{0, 1, 2, 3} : std::vector<int64_t>{0, 1, 3})
  for (const size_t size: th ? std::vector<size_t>{1, 2, 3, 4} : gaps ? std::vector<size_t>{1, 2, 4} : std::vector<size_t>{1, 3})
   r.push_back({Small_Op::write, offset, size});
 r.push_back({Small_Op::write, 0, 0});
 r.push_back({Small_Op::write, 7, 0});
 for (const int64_t offset: {0, 2, 4})
  for (const size_t size: th ? std::vector<size_t>{2, 5} : std::vector<size_t>{2})
   r.push_back({Small_Op::read, offset, size_t(size)});
 r.push_back({Small_Op::sync, 0, 0});
 r.push_back({Small_Op::reopen, 0, 0});
 return r;
}

/////////////////////////////////////////////////////////////////////////////
// Around the size of the write buffer
/////////////////////////////////////////////////////////////////////////////

static void large(Chooser &c, int depth, bool all)
{
 static constexpr size_t B = 1 << 20;
 Memory_File file;
 Identity_Codec codec;
 auto f = std::make_unique<Opened>(file, codec);
 Model model;
 std::string log;
 for (int d = 0; d < depth; d++)
 {
  const int kind = c.choose(d == depth - 1 && !all ? 2 : 3);
  if (kind < 2)
  {
   static const size_t sizes[] = {B, B - 1, B + 1, 1, 2 * B, 3};
   const size_t size = sizes[c.choose(all ? 6 : 4)];
   int64_t offset = int64_t(model.bytes.size());
   if (kind == 1)
   {
    static const int64_t offsets[] = {0, B - 1, 1, B, B + 1};
    offset = offsets[c.choose(all ? 5 : 2)];
   }
   if (d == 0) c.split();
   std::string s(size, char('a' + d));
   for (size_t i = 0; i < size; i += 1021) s[i] = char(i / 1021 + size_t(d));
   c.note("write" + where(offset, size));
   log += "w" + where(offset, size);
   f->file.pwrite(s.data(), s.size(), offset);
   model.write(s, offset);
  }
  else
  {
   c.note("read");
   log += "r";
   check_read(f->file, model.bytes, int64_t(B) - 1, 3, "writer");
  }
  c.transition();
  check_size(f->file, model.bytes, "writer");
 }
 c.state(mc::hash_string(log));
 c.outcome(std::to_string(model.bytes.size()));
 check_read(f->file, model.bytes, 0, model.bytes.size() + 1, "writer");
 f.reset();
 check_image(file.get_data(), model.bytes, "file that was closed", codec, false);
}

/////////////////////////////////////////////////////////////////////////////
// A decoding that fails does not change what is read afterwards
/////////////////////////////////////////////////////////////////////////////

static void decode_fault(Chooser &c, int depth)
{
 Memory_File file;
 Test_Codec codec;
 Opened f(file, codec);
 Model model;
 // buffers that overlap, and one that does not
 static const int64_t offsets[] = {0, 4, 2, 9};
 for (int i = 0; i < 4; i++)
 {
  const std::string s(size_t(i == 3 ? 3 : 5), char('a' + i));
  f.file.pwrite(s.data(), s.size(), offsets[i]);
  model.write(s, offsets[i]);
  check_size(f.file, model.bytes, "writer");
  char ch;
  f.file.pread(&ch, 1, 0);
 }
 const bool reopened = c.flip();
 const std::string image = file.get_data();
 Memory_File copy;
 copy.get_data() = image;
 db::encoded_file::Readonly_Database db(copy);
 Readonly_Encoded_File reader(codec, db, copy);
 const Abstract_File &r = reopened ? static_cast<const Abstract_File &>(reader) : f.file;
 codec.decoded = 0;
 codec.fail_at = c.choose(6);
 c.split();
 std::string log;
 for (int d = 0; d < depth; d++)
 {
  static const std::pair<int64_t, size_t> reads[] = {{0, 1}, {0, 12}, {3, 2}, {5, 1}, {8, 2}, {10, 1}};
  const auto &[offset, size] = reads[c.choose(6)];
  c.note("read" + where(offset, size));
  log += where(offset, size);
  const int before = codec.decoded;
  try {check_read(r, model.bytes, offset, size, "reader");}
  catch (const Exception &)
  {
   require(codec.fail_at >= before && codec.fail_at < codec.decoded, "reading fails", "exception");
   c.note("fails");
  }
  c.transition();
 }
 c.state(mc::hash_string(log + std::to_string(codec.fail_at) + std::to_string(reopened)));
 c.outcome(std::to_string(codec.decoded));
}

/////////////////////////////////////////////////////////////////////////////
// Brotli
/////////////////////////////////////////////////////////////////////////////

static void check_codec(const std::string &s)
{
 Brotli_Codec codec;
 const std::string e = static_cast<Codec &>(codec).encode(s);
 std::string d(s.size() + 8, '#');
 static_cast<Decoder &>(codec).decode(e, &d[0], s.size());
 require(d == s + "########", "brotli: " + mc::show(s) + " becomes " + mc::show(d), "brotli");
}

static void brotli_strings(Chooser &c, bool th)
{
 const int a = c.choose(256);
 c.split();
 std::string s(1, char(a));
 if (a == 0) check_codec("");
 check_codec(s);
 uint64_t n = 2;
 for (int b = 0; b < 256; b++)
 {
  s.resize(2);
  s[1] = char(b);
  check_codec(s);
  n++;
  if (th)
   for (int x = 0; x < 256; x += 5)
   {
    s.resize(3);
    s[2] = char(x);
    check_codec(s);
    n++;
   }
 }
 // runs and periods
 for (size_t period = 1; period <= 4; period++)
  for (size_t length = 0; length < (th ? 600 : 64); length += period)
  {
   std::string t;
   for (size_t i = 0; i < length; i++)
    t += char(a + int(i % period) * 7);
   check_codec(t);
   n++;
  }
 c.transition(n);
 c.state(uint64_t(a));
 c.outcome(std::to_string(a));
}

// Damaged bytes: an exception, or some bytes that do not depend on what was in memory
static void brotli_damage(Chooser &c, bool th)
{
 static const std::vector<std::string> texts
 {
  "", "a", "hello", "abcabcabcabcabcabcabcabcabcabc", std::string(300, 'x'), std::string("\0\1\2\3\4\5\6\7", 8),
  "The quick brown fox jumps over the lazy dog. The quick brown fox jumps over the lazy dog."
 };
 const std::string &s = texts[size_t(c.choose(int(texts.size())))];
 Brotli_Codec codec;
 std::string e = static_cast<Codec &>(codec).encode(s);
 const int kind = c.choose(3);
 size_t announced = s.size();
 if (kind == 0)
 {
  const int n = c.choose(int(e.size()) + 1);
  c.note("cut at " + std::to_string(n));
  e.resize(size_t(n));
 }
 else if (kind == 1)
 {
  const int i = c.choose(int(e.size()));
  const int x = th ? c.choose(255) + 1 : 1 << c.choose(8);
  c.note("byte " + std::to_string(i) + " xor " + std::to_string(x));
  e[size_t(i)] = char(e[size_t(i)] ^ x);
 }
 else
 {
  static const int sizes[] = {-2, -1, 1, 2, 100};
  const int x = sizes[c.choose(5)];
  if (x < 0 && size_t(-x) > announced)
   throw mc::Skip();
  announced = size_t(int64_t(announced) + x);
  c.note("size changed by " + std::to_string(x));
 }
 c.split();
 Memory_File file;
 {
  db::encoded_file::Writable_Database db(file);
  const Blob blob = db.write_blob(e);
  db.new_buffer(blob, int64_t(announced), 0);
  db.soft_checkpoint();
 }
 std::string got[2];
 bool failed[2] = {};
 for (int k = 0; k < 2; k++)
 {
  db::encoded_file::Readonly_Database db(file);
  Readonly_Encoded_File reader(codec, db, file);
  std::vector<char> garbage(announced + 16, k ? '\x55' : '\xaa'); // likely to be reused for the buffer of the reader
  garbage = std::vector<char>();
  std::string buffer(announced + 8, k ? 'x' : 'y');
  try
  {
   const size_t n = static_cast<const Abstract_File &>(reader).pread(&buffer[0], announced, 0);
   require(n == announced, "size", "damage_size");
   got[k] = buffer.substr(0, announced);
  }
  catch (const std::exception &) {failed[k] = true;}
  require(buffer.substr(announced) == std::string(8, k ? 'x' : 'y'), "overflow", "overflow");
 }
 require(failed[0] == failed[1] && got[0] == got[1], "what is read depends on what was in memory", "damage_memory");
 require(failed[0] || kind != 2 || announced == 0, "a buffer of another size than announced is accepted", "damage_announced");
 require(failed[0] || kind != 0 || s.empty() || got[0] == s, "truncated bytes are accepted", "damage_truncated");
 c.transition();
 c.state(mc::hash_string(e + std::to_string(announced)));
 c.outcome(failed[0] ? "refused" : "read");
}

/////////////////////////////////////////////////////////////////////////////
// A database in an encoded file is the same as in a plain file
/////////////////////////////////////////////////////////////////////////////

static void journal_part(Chooser &c, int depth)
{
 const int codec_kind = c.choose(2);
 Test_Codec test;
 Brotli_Codec brotli;
 Codec &codec = codec_kind ? static_cast<Codec &>(brotli) : test;
 Disk disk("");
 Memory_File plain;
 Writable_Journal plain_journal(plain);
 auto f = std::make_unique<Opened>(disk, codec);
 auto journal = std::make_unique<Writable_Journal>(f->file);
 Database db;
 std::string log;
 int comments = 0;
 const auto both = [&](const std::function<void(Writable &)> &op) {op(plain_journal); op(*journal);};
 std::string durable_at_least;
 const auto recorded = [](Abstract_File &file)
 {
  Readonly_Journal j{Journal_Construction_Lock(file)};
  mc::Recorder r;
  j.replay_log(r);
  return r.text();
 };
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(8);
  if (x == 7) break;
  if (d == 0) c.split();
  switch (x)
  {
   case 0: c.note("comment"); both([&](Writable &w) {w.comment("comment " + std::to_string(comments));}); comments++; break;
   case 1: c.note("long comment"); both([&](Writable &w) {w.comment(std::string(10000, char('a' + comments)));}); comments++; break;
   case 2: c.note("blob"); both([&](Writable &w) {w.write_blob(std::string(size_t(3000 + comments), 'b'));}); comments++; break;
   case 3: c.note("soft checkpoint"); both([](Writable &w) {w.soft_checkpoint();}); break;
   case 4: c.note("hard checkpoint"); both([](Writable &w) {w.hard_checkpoint();}); durable_at_least = recorded(plain); break;
   case 5:
    c.note("close and open");
    both([](Writable &w) {w.soft_checkpoint();});
    journal.reset();
    f.reset();
    f = std::make_unique<Opened>(disk, codec);
    journal = std::make_unique<Writable_Journal>(f->file);
    {
     mc::Recorder r;
     journal->play_until_checkpoint(r);
    }
   break;
   case 6: c.note("flush"); both([](Writable &w) {w.flush();}); break;
  }
  log += std::to_string(x);
  c.transition();
 }
 const auto checkpointed = recorded(plain);
 // a reader opens the file now
 if (!checkpointed.empty() || disk.now.size())
 {
  if (journal)
  {
   // what the writer has flushed is visible to a reader of the encoded file
   char ch;
   f->file.pread(&ch, 1, 0);
  }
  Memory_File copy;
  copy.get_data() = disk.now;
  db::encoded_file::Readonly_Database rdb(copy);
  Readonly_Encoded_File reader(codec, rdb, copy);
  require(recorded(reader) == checkpointed, "the encoded journal contains\n" + recorded(reader) + "instead of\n" + checkpointed, "journal");
 }
 if (!durable_at_least.empty())
 {
  // after a crash: what was hard checkpointed is there
  Memory_File copy;
  copy.get_data() = disk.durable;
  db::encoded_file::Readonly_Database rdb(copy);
  Readonly_Encoded_File reader(codec, rdb, copy);
  const std::string r = recorded(reader);
  require(r.compare(0, durable_at_least.size(), durable_at_least) == 0, "durable journal:\n" + r + "instead of\n" + durable_at_least, "journal_durable");
 }
 both([](Writable &w) {w.soft_checkpoint();});
 journal.reset();
 f.reset();
 {
  Memory_File copy;
  copy.get_data() = disk.now;
  db::encoded_file::Readonly_Database rdb(copy);
  Readonly_Encoded_File reader(codec, rdb, copy);
  const std::string got = recorded(reader), expected = recorded(plain);
  require(got == expected, "the encoded journal contains\n" + got + "instead of\n" + expected, "journal");
 }
 c.state(mc::hash_string(log + std::to_string(codec_kind)));
 c.outcome(log);
}

// On disk
static void files(Chooser &c, int depth)
{
 const std::string path = mc::scratch() + "/encoded" + std::to_string(getpid());
 ::unlink(path.c_str());
 auto f = std::make_unique<Brotli_File>(path.c_str());
 Model model;
 std::string log;
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(8);
  if (d == 0) c.split();
  log += std::to_string(x);
  if (x < 5)
  {
   static const std::pair<int64_t, size_t> writes[] = {{0, 5}, {3, 4}, {7, 1}, {0, 5000}, {4000, 2000}};
   const auto &[offset, size] = writes[x];
   c.note("write" + where(offset, size));
   std::string s(size, char('a' + d));
   for (size_t i = 0; i < size; i++) s[i] = char(s[i] ^ (i * i >> 3));
   f->pwrite(s.data(), s.size(), offset);
   model.write(s, offset);
  }
  else if (x == 5)
  {
   c.note("read");
   check_read(*f, model.bytes, 2, 4000, "Brotli_File");
  }
  else if (x == 6)
  {
   c.note("sync");
   f->sync();
   Readonly_Brotli_File reader(path.c_str());
   check_read(reader, model.bytes, 0, model.bytes.size() + 1, "Readonly_Brotli_File");
   check_size(reader, model.bytes, "Readonly_Brotli_File");
  }
  else
  {
   c.note("close and open");
   f.reset();
   {
    Readonly_Brotli_File reader(path.c_str());
    check_read(reader, model.bytes, 0, model.bytes.size() + 1, "Readonly_Brotli_File");
    check_size(reader, model.bytes, "Readonly_Brotli_File");
   }
   f = std::make_unique<Brotli_File>(path.c_str());
  }
  c.transition();
  check_size(*f, model.bytes, "Brotli_File");
 }
 check_read(*f, model.bytes, 0, model.bytes.size() + 1, "Brotli_File");
 f.reset();
 ::unlink(path.c_str());
 c.state(mc::hash_string(log));
 c.outcome(mc::show(model.bytes));
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, "C17");
 const bool th = ex.is_thorough();
 ex.explore_states("small", [=](Chooser &c) {static const auto ops = small_ops(false, th); small(c, th ? 6 : 4, ops);}, th ? 6 : 4, 60);
 ex.explore_states("gaps", [=](Chooser &c) {static const auto ops = small_ops(true, th); small(c, th ? 5 : 3, ops);}, th ? 5 : 3, 60);
 ex.explore("large", [=](Chooser &c) {large(c, 3, th);});
 ex.explore("decode_fault", [=](Chooser &c) {decode_fault(c, th ? 5 : 4);});
 ex.explore("brotli_strings", [=](Chooser &c) {brotli_strings(c, th);});
 ex.explore("brotli_damage", [=](Chooser &c) {brotli_damage(c, th);});
 ex.explore("journal", [=](Chooser &c) {journal_part(c, th ? 6 : 4);});
 ex.explore("files", [=](Chooser &c) {files(c, th ? 6 : 4);});
 return ex.finish
 (
  "model_checking",
  "every sequence of writes, reads, synchronizations and reopenings to the stated length, in lockstep with an array of bytes; every damage of some compressed buffers",
  {"the underlying journal behaves as C01 to C05 say"}
 );
}
