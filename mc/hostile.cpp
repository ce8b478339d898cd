// C22: a damaged or hostile file is refused or read safely.
//
// Every file of a bounded space of contents is given to every reader of joedb.
// The address and undefined-behaviour sanitizers watch the memory, operator
// new watches the amount of memory, and the explorer watches time and crashes.
#include "explorer.h"
#include "dump.h"

#include "mcdb_g1/g1/writable.h"
#include "mcdb_g1/g1/readonly.h"
#include "mcdb_g1/g1/Readable.h"
#include "mcdb_g1/g1/Readonly_Client.h"

#include "joedb/Multiplexer.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Readonly_Memory_File.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/ui/dump.h"
#include "joedb/ui/json.h"
#include "joedb/ui/merge.h"
#include "joedb/ui/Raw_Dump_Writable.h"
#include "joedb/ui/SQL_Dump_Writable.h"
#include "joedb/ui/Interpreter_Dump_Writable.h"

#include <cstdlib>
#include <memory>
#include <new>
#include <sstream>
#include <malloc.h>

using namespace joedb;
using mc::Chooser;
using mc::require;
namespace g1 = mc::g1;
using std::string;
using std::vector;

/////////////////////////////////////////////////////////////////////////////
// Memory
/////////////////////////////////////////////////////////////////////////////

static const int64_t memory_limit = 1 << 20; // files have less than 2 kb
static thread_local bool limited = false;
static thread_local int64_t live = 0;
static thread_local int64_t excess = 0;

static void *allocate(size_t size)
{
 if (limited && int64_t(size) > memory_limit - live)
 {
  if (!excess)
   excess = int64_t(size);
  throw std::bad_alloc();
 }
 void *p = std::malloc(size ? size : 1);
 if (!p)
  throw std::bad_alloc();
 if (limited)
  live += int64_t(malloc_usable_size(p));
 return p;
}

static void release(void *p) noexcept
{
 if (p && limited)
  live -= int64_t(malloc_usable_size(p));
 std::free(p);
}

void *operator new(size_t size) {return allocate(size);}
void *operator new[](size_t size) {return allocate(size);}
void operator delete(void *p) noexcept {release(p);}
void operator delete[](void *p) noexcept {release(p);}
void operator delete(void *p, size_t) noexcept {release(p);}
void operator delete[](void *p, size_t) noexcept {release(p);}

/////////////////////////////////////////////////////////////////////////////
// Encoding, written here from the documentation of the format
/////////////////////////////////////////////////////////////////////////////

static string compact(uint64_t x)
{
 int extra = 0;
 while (extra < 7 && (x >> (8 * extra)) >= 0x20)
  extra++;
 string s;
 s += char((extra << 5) | int((x >> (8 * extra)) & 0x1f));
 while (--extra >= 0)
  s += char(x >> (8 * extra));
 return s;
}

static string ref(int64_t x) {return compact(uint64_t(x + 1));}
static string text(const string &s) {return compact(s.size()) + s;}
static string op(int code) {return string(1, char(code));}

template<typename T> static string raw(T x)
{
 string s(sizeof(T), 0);
 std::memcpy(&s[0], &x, sizeof(T));
 return s;
}

static string file(const string &body)
{
 const int64_t size = int64_t(41 + body.size());
 return raw(size) + raw(size) + raw(int64_t(0)) + raw(int64_t(0)) + raw(uint32_t(5)) + "joedb" + body;
}

/////////////////////////////////////////////////////////////////////////////
// The readers
/////////////////////////////////////////////////////////////////////////////

enum Outcome {accepted, refused};

static string accept; // one letter for each reader

template<typename F> static void reader(Chooser &c, const char *name, const string &bytes, F f)
{
 c.note(name);
 // exact allocation, so that reading after the end is detected
 std::unique_ptr<char[]> copy(new char[bytes.size() + 1]);
 std::memcpy(copy.get(), bytes.data(), bytes.size());
 Outcome outcome = accepted;
 live = 0;
 excess = 0;
 limited = true;
 try
 {
  Readonly_Memory_File file(copy.get(), bytes.size());
  f(file);
 }
 catch (const mc::Violation &)
 {
  limited = false;
  throw;
 }
 catch (const std::exception &e)
 {
  outcome = refused;
  limited = false;
  c.note(string("  refused: ") + e.what());
  limited = true;
 }
 catch (...)
 {
  limited = false;
  mc::fail(string(name) + " throws something that is not an exception", "throw");
 }
 limited = false;
 require(excess == 0, string(name) + " allocates " + std::to_string(excess) + " bytes for a file of " + std::to_string(bytes.size()), "memory");
 require(live <= 0 || live < 4096, string(name) + " leaks " + std::to_string(live) + " bytes", "leak");
 require(std::memcmp(copy.get(), bytes.data(), bytes.size()) == 0, string(name) + " modified the file", "modified");
 accept += outcome == accepted ? 'A' : '-';
 c.transition();
}

static void read_all(const Readable &db, const Abstract_File &file)
{
 mc::dump(db);
 for (const auto &[t, name]: db.get_tables())
 {
  const Freedom_Keeper &fk = db.get_freedom(t);
  for (const auto &[f, fname]: db.get_fields(t))
   if (db.get_field_type(t, f).get_type_id() == Type::Type_Id::blob)
    for (Record_Id r{0}; r < fk.get_size(); ++r)
     if (fk.is_used(r))
      try {file.read_blob(db.get_blob(t, r, f));} catch (const Exception &) {}
 }
}

static void check_all(Chooser &c, const string &bytes, bool generated)
{
 accept.clear();
 const Record_Id limit{int64_t(bytes.size())};
 reader(c, "interpreted database", bytes, [&](Abstract_File &file)
 {
  Readonly_Journal journal(file);
  Database db(limit);
  journal.replay_log(db);
  read_all(db, file);
  // reading again gives the same database
  Database again(limit);
  journal.replay_log(again);
  require(mc::dump(db) == mc::dump(again), "reading twice gives something else", "again");
 });
 const bool good = accept == "A";
 reader(c, "ignore_header", bytes, [&](Abstract_File &file)
 {
  Readonly_Journal journal(Journal_Construction_Lock(file, Recovery::ignore_header));
  Database db(limit);
  journal.replay_log(db);
  read_all(db, file);
 });
 reader(c, "raw dump", bytes, [&](Abstract_File &file)
 {
  Readonly_Journal journal(file);
  std::ostringstream out;
  Raw_Dump_Writable w(out);
  journal.play_until_checkpoint(w);
 });
 reader(c, "text dump", bytes, [&](Abstract_File &file)
 {
  Readonly_Journal journal(file);
  std::ostringstream out;
  Interpreter_Dump_Writable w(out, true);
  journal.play_until_checkpoint(w);
 });
 reader(c, "SQL dump", bytes, [&](Abstract_File &file)
 {
  // writes as many lines as there are records: no limit either
  if (!good)
   return;
  Readonly_Journal journal(file);
  std::ostringstream out;
  SQL_Dump_Writable w(out, &file);
  journal.replay_log(w);
 });
 reader(c, "conversion", bytes, [&](Abstract_File &file)
 {
  Readonly_Journal journal(file);
  Memory_File out;
  Writable_Journal writable(out);
  Database db(limit);
  Multiplexer both{db, writable};
  journal.replay_log(both);
 });
 if (good)
  reader(c, "exports", bytes, [&](Abstract_File &file)
  {
   Readonly_Journal journal(file);
   Database db(limit);
   journal.replay_log(db);
   std::ostringstream out;
   write_json(out, db, false);
   write_json(out, db, true);
   Memory_File packed;
   {
    Writable_Journal writable(packed);
    try {dump(db, writable);} catch (const Exception &) {} // blobs
   }
   Interpreter_Dump_Writable w(out, false);
   dump(db, w);
   SQL_Dump_Writable sql(out, &file);
   try {dump(db, sql);} catch (const Exception &) {}
   Database base(limit);
   journal.replay_log(base);
   try {merge(base, db);} catch (const Exception &) {}
   mc::dump(base);
  });
 reader(c, "client", bytes, [&](Abstract_File &file)
 {
  // does not limit the identifiers of records
  if (!good)
   return;
  Readonly_Database_Client client(file);
  mc::dump(client.get_database());
  client.pull();
 });
 if (generated)
 {
  reader(c, "generated read-only database", bytes, [&](Abstract_File &file)
  {
   g1::Readonly_Database db(file);
   g1::Readable readable(db);
   read_all(readable, file);
   for (const auto a: db.get_a_table())
    db.find_a_name(db.get_name(a));
   for (const auto b: db.get_b_table())
    db.find_b_xy(db.get_x(b), db.get_y(b));
   db.get_n();
   for (const auto &i: db.get_index_of_a_rv())
    require(db.is_valid(i.second), "an index contains a deleted record", "index");
   for (const auto &i: db.get_index_of_t_f())
    require(db.is_valid(i.second), "an index contains a deleted record", "index");
  });
  reader(c, "generated client", bytes, [&](Abstract_File &file)
  {
   g1::Readonly_Client client(file);
   client.pull();
   g1::Readable readable(client.get_database());
   mc::dump(readable);
  });
  c.note("generated writable database");
  Memory_File copy(Open_Mode::write_existing);
  copy.get_data() = bytes;
  reader(c, "generated writable database", bytes, [&](Abstract_File &)
  {
   g1::Writable_Database db(copy);
   g1::Readable readable(db);
   read_all(readable, copy);
  });
 }
 c.state(mc::hash_string(bytes));
 c.outcome(accept);
}

/////////////////////////////////////////////////////////////////////////////
// Prefixes
/////////////////////////////////////////////////////////////////////////////

// in the order of the type codes
enum {STRING, INT32, INT64, REFERENCE, BOOLEAN, FLOAT32, FLOAT64, INT8, INT16, BLOB, TYPES};

enum // operation codes
{
 CREATE = 1, DROP = 2, ADD = 3, DROP_FIELD = 4, INSERT = 5, DELETE = 6, APPEND = 8,
 COMMENT = 10, TIMESTAMP = 11, RENAME = 12, RENAME_FIELD = 13, VALID = 14,
 INSERT_VECTOR = 15, CUSTOM = 16, BLOB_OP = 19, DELETE_VECTOR = 20, UPDATE = 0x81
};

static vector<string> values(int type, bool few = false)
{
 switch (type)
 {
  case STRING:
   if (few) return {text("x")};
   return {text("x"), text(""), compact(1000) + "x", compact(1ull << 40) + "x", compact((1ull << 61) - 1)};
  case REFERENCE:
   if (few) return {ref(0)};
   return {ref(0), ref(-1), ref(5), ref((1ll << 61) - 2)};
  case BLOB:
   if (few) return {compact(41) + compact(3)};
   return {compact(41) + compact(3), compact(0) + compact(0), compact(41) + compact(1 << 24), compact((1ull << 61) - 1) + compact((1ull << 61) - 1), compact(40) + compact((1ull << 61) - 1), compact(1000) + compact(1)};
  case BOOLEAN: return few ? vector<string>{raw('\1')} : vector<string>{raw('\1'), raw('\2'), raw('\xff')};
  case INT8: return {raw(int8_t(-1))};
  case INT16: return {raw(int16_t(-1))};
  case INT32: return {raw(int32_t(-1))};
  case INT64: return {raw(int64_t(-1))};
  case FLOAT32: return few ? vector<string>{raw(1.0f)} : vector<string>{raw(1.0f), raw(uint32_t(0x7fc00000)), raw(uint32_t(0xff800000))};
  default: return few ? vector<string>{raw(1.0)} : vector<string>{raw(1.0), raw(uint64_t(0x7ff8000000000000)), raw(uint64_t(0x7ff0000000000000))};
 }
}

static string add_field(int table, const string &name, int type, int target = 0)
{
 return op(ADD) + compact(uint64_t(table)) + text(name) + op(type + 1) + (type == REFERENCE ? compact(uint64_t(target)) : string());
}

// Table 1 has a field of each type (identifiers 1 to 10), and records 0 and 2
static string typed_prefix()
{
 string s = op(CREATE) + text("t");
 for (int i = 0; i < TYPES; i++)
  s += add_field(1, "f" + std::to_string(i), i, 1);
 s += op(INSERT_VECTOR) + compact(1) + ref(0) + compact(3);
 s += op(DELETE) + compact(1) + ref(1);
 s += op(BLOB_OP) + text("abc");
 s += op(UPDATE) + compact(1) + ref(2) + compact(1) + text("xyz");
 return s;
}

// Tables and fields that come and go
static string dropped_prefix()
{
 string s = op(CREATE) + text("t") + op(CREATE) + text("u");
 s += add_field(1, "x", INT32) + add_field(2, "s", STRING) + add_field(2, "r", REFERENCE, 1) + add_field(2, "n", INT64);
 s += op(INSERT) + compact(1) + ref(0) + op(INSERT_VECTOR) + compact(2) + ref(0) + compact(2);
 s += op(UPDATE + 4 * STRING) + compact(2) + ref(0) + compact(1) + text("hello");
 s += op(UPDATE + 4 * REFERENCE) + compact(2) + ref(1) + compact(2) + ref(0);
 s += op(DROP_FIELD) + compact(2) + compact(1);
 s += op(UPDATE + 4 * INT32) + compact(1) + ref(0) + compact(1) + raw(int32_t(5));
 s += op(DROP) + compact(1);
 return s;
}

// Vectors of every type
static string vector_prefix()
{
 string s = op(CREATE) + text("t");
 for (int i = 0; i < TYPES; i++)
  s += add_field(1, "f" + std::to_string(i), i, 1);
 s += op(INSERT_VECTOR) + compact(1) + ref(0) + compact(2);
 for (int i = 0; i < TYPES; i++)
 {
  const string v = values(i, true)[0];
  s += op(UPDATE + 4 * i) + compact(1) + ref(0) + compact(uint64_t(i + 1)) + v;
  s += op(UPDATE + 4 * i + 2) + v; // next
  s += op(UPDATE + 4 * i + 3) + compact(1) + ref(0) + compact(uint64_t(i + 1)) + compact(2) + v + v;
  s += op(UPDATE + 4 * i + 1) + compact(uint64_t(i + 1)) + v; // last
 }
 s += op(UPDATE + 4 * INT32) + compact(1) + ref(1) + compact(2) + raw(int32_t(7)) + op(APPEND);
 s += op(RENAME) + compact(1) + text("z") + op(RENAME_FIELD) + compact(1) + compact(1) + text("zz");
 s += op(COMMENT) + text("hello") + op(TIMESTAMP) + raw(int64_t(0)) + op(VALID) + op(CUSTOM) + text("c");
 s += op(DELETE_VECTOR) + compact(1) + ref(0) + compact(2) + op(INSERT) + compact(1) + ref(1);
 return s;
}

// A file written by generated code
static string generated_prefix()
{
 static string result;
 if (result.empty())
 {
  Memory_File file;
  {
   g1::Writable_Database db(file);
   const auto b0 = db.new_b();
   const auto b1 = db.new_b();
   db.set_x(b0, 1);
   db.set_y(b0, 1);
   db.set_y(b1, 2);
   const auto a0 = db.new_a();
   const auto a1 = db.new_a();
   db.set_name(a0, "p");
   db.set_name(a1, "q");
   db.set_v(a0, 1);
   db.set_r(a0, b1);
   db.set_r(a1, b0);
   db.set_n(3);
   const auto t0 = db.new_vector_of_t(2);
   db.set_l(t0, 4);
   db.set_s(t0, "s");
   db.set_f(t0, 1.0f);
   db.set_bl(t0, db.write_blob("abc"));
   db.delete_b(b0);
   db.soft_checkpoint();
  }
  result = file.get_data().substr(41);
 }
 return result;
}

static const char *prefix_names[] = {"empty", "typed", "dropped", "vectors", "generated"};
static const int prefixes = 5;

static const string &prefix(int i)
{
 static const string all[prefixes] = {"", typed_prefix(), dropped_prefix(), vector_prefix(), generated_prefix()};
 return all[i];
}

/////////////////////////////////////////////////////////////////////////////
// All operations with parameters in and out of range
/////////////////////////////////////////////////////////////////////////////

// level 0: few operations, 1: quick tier, 2: thorough tier
static vector<string> alphabet(int level)
{
 const bool few = level == 0;
 vector<string> v;
 const vector<uint64_t> tables = few ? vector<uint64_t>{1, 2} : level == 1 ? vector<uint64_t>{0, 1, 2, 4, 0x10001} : vector<uint64_t>{0, 1, 2, 3, 4, 5, 0xffff, 0x10001, 1ull << 60};
 const vector<int64_t> records = few ? vector<int64_t>{0, 1, 3} : level == 1 ? vector<int64_t>{-1, 0, 1, 3, 1000, (1ll << 61) - 2} : vector<int64_t>{-1, 0, 1, 2, 3, 100, 1000, 1ll << 32, (1ll << 60), (1ll << 61) - 2};
 const vector<uint64_t> sizes = few ? vector<uint64_t>{1, 3} : level == 1 ? vector<uint64_t>{0, 1, 3, 1000, (1ull << 61) - 1} : vector<uint64_t>{0, 1, 2, 3, 50, 1000, 1ull << 32, (1ull << 61) - 1};
 const vector<uint64_t> fields = few ? vector<uint64_t>{1, 3} : vector<uint64_t>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0xffff, 0x10001};
 const vector<string> names = few ? vector<string>{text("n")} : vector<string>{text(""), text("n"), text("t"), text("a b"), compact(1000), compact(1ull << 60)};

 for (int code = 0; code < 256; code++)
  if (!few || code == VALID || code == APPEND || code == 0)
   v.push_back(op(code));
 for (const string &n: names)
 {
  v.push_back(op(CREATE) + n);
  v.push_back(op(COMMENT) + n);
  v.push_back(op(CUSTOM) + n);
 }
 v.push_back(op(TIMESTAMP) + raw(int64_t(-1)));
 v.push_back(op(TIMESTAMP) + raw(INT64_MAX));
 v.push_back(op(TIMESTAMP) + raw(INT64_MIN));
 for (const uint64_t n: sizes)
 {
  v.push_back(op(BLOB_OP) + compact(n));
  v.push_back(op(BLOB_OP) + compact(n) + "abc");
 }
 for (const uint64_t t: tables)
 {
  v.push_back(op(DROP) + compact(t));
  for (const string &n: names)
   v.push_back(op(RENAME) + compact(t) + n);
  for (int type = 0; type <= TYPES + 2; type++)
   if (type == REFERENCE + 1)
    for (const uint64_t target: tables)
     v.push_back(op(ADD) + compact(t) + text("n") + op(type) + compact(target));
   else if (!few || type == 0 || type == STRING + 1 || type == INT32 + 1 || type == TYPES + 1)
    v.push_back(op(ADD) + compact(t) + text("n") + op(type));
  if (!few)
   v.push_back(op(ADD) + compact(t) + text("n") + op(255));
  for (const uint64_t f: fields)
  {
   v.push_back(op(DROP_FIELD) + compact(t) + compact(f));
   v.push_back(op(RENAME_FIELD) + compact(t) + compact(f) + text("n"));
  }
  for (const int64_t r: records)
  {
   v.push_back(op(INSERT) + compact(t) + ref(r));
   v.push_back(op(DELETE) + compact(t) + ref(r));
   for (const uint64_t n: sizes)
   {
    v.push_back(op(INSERT_VECTOR) + compact(t) + ref(r) + compact(n));
    v.push_back(op(DELETE_VECTOR) + compact(t) + ref(r) + compact(n));
   }
  }
 }
 // fields that may have this type, and fields that can not
 auto is_chosen = [&](uint64_t table, uint64_t field, int type)
 {
  if (level != 1)
   return true;
  if (table == 1)
   return field == uint64_t(type + 1) || field == 1 || field == 11 || field == 0x10001;
  return field < 4 || field == 10;
 };
 for (int type = 0; type < TYPES; type++)
 {
  if (few && type != STRING && type != INT32 && type != BLOB && type != REFERENCE)
   continue;
  const int code = UPDATE + 4 * type;
  for (const string &x: values(type, few))
  {
   v.push_back(op(code + 2) + x);
   for (const uint64_t f: fields)
    v.push_back(op(code + 1) + compact(f) + x);
   for (const uint64_t t: tables)
    for (const int64_t r: records)
     for (const uint64_t f: fields)
      if (is_chosen(t, f, type))
       v.push_back(op(code) + compact(t) + ref(r) + compact(f) + x);
  }
  const string x = values(type, true)[0];
  for (const uint64_t t: tables)
   for (const int64_t r: records)
    for (const uint64_t f: fields)
     if (few ? f == uint64_t(type + 1) || f == 3 : is_chosen(t, f, type))
      for (const uint64_t n: sizes)
       v.push_back(op(code + 3) + compact(t) + ref(r) + compact(f) + compact(n) + x + x + x);
 }
 return v;
}

static void operations(Chooser &c, const vector<string> &first, const vector<string> &more, int depth)
{
 const int p = c.choose(prefixes);
 string body = prefix(p);
 string note = prefix_names[p];
 for (int d = 0; d < depth; d++)
 {
  const vector<string> &ops = d == 0 && depth == 1 ? first : more;
  const string &x = ops[size_t(c.choose(int(ops.size())))];
  if (d == 0)
   c.split();
  body += x;
  note += " + " + mc::show(x);
 }
 c.note(note);
 check_all(c, file(body), p == 4 || p == 0);
}

// All byte strings of a given length
static void bytes_part(Chooser &c, int length, const string &alphabet)
{
 const int p = c.choose(prefixes);
 string body = prefix(p);
 string s(1, char(c.choose(256)));
 c.split();
 for (int i = 1; i < length; i++)
  s += alphabet.empty() ? char(c.choose(256)) : alphabet[size_t(c.choose(int(alphabet.size())))];
 c.note(string(prefix_names[p]) + " + " + mc::show(s));
 check_all(c, file(body + s), p == 4 || p == 0);
}

// Corruption of the bytes of a valid file, header included
static void corruption(Chooser &c, int damages, const string &alphabet)
{
 const int p = 1 + c.choose(prefixes - 1);
 string f = file(prefix(p));
 size_t position = 0;
 for (int i = 0; i < damages; i++)
 {
  position += size_t(c.choose(int(f.size() - position)));
  if (i == 0)
   c.split();
  const int old = uint8_t(f[position]);
  int x;
  if (alphabet == "flip")
  {
   // a bit, or a special value
   static const int special[] = {0, 1, 0x0f, 0x7f, 0x80, 0xff};
   const int k = c.choose(8 + 6);
   x = k < 8 ? old ^ (1 << k) : special[k - 8];
  }
  else
   x = alphabet.empty() ? c.choose(256) : int(uint8_t(alphabet[size_t(c.choose(int(alphabet.size())))]));
  f[position] = char(x);
  c.note(string(prefix_names[p]) + " byte " + std::to_string(position) + ": " + std::to_string(old) + " -> " + std::to_string(x));
  position++;
  if (position >= f.size())
   break;
 }
 check_all(c, f, p == 4);
}

// Truncated files, with a checkpoint that follows or not, and every kind of
// checkpoint
static void truncation(Chooser &c)
{
 const int p = c.choose(prefixes);
 const string whole = file(prefix(p));
 const size_t size = size_t(c.choose(int(whole.size()) + 1));
 c.split();
 string f = whole.substr(0, size);
 const int mode = c.choose(9);
 const int64_t n = int64_t(whole.size());
 const int64_t z = int64_t(size);
 const int64_t all[9][4] =
 {
  {n, n, 0, 0}, {z, z, 0, 0}, {0, 0, -z, -z}, {z, z - 1, -z, 0}, {41, 41, -z, -n}, {-z, -z, z, z}, {INT64_MAX, INT64_MAX, INT64_MIN, INT64_MIN}, {40, 40, -40, -1}, {1, 1, -INT64_MAX, -INT64_MAX}
 };
 for (size_t i = 0; i < 32 && i < f.size(); i++)
  f[i] = reinterpret_cast<const char *>(all[mode])[i];
 c.note(string(prefix_names[p]) + " truncated to " + std::to_string(size) + " checkpoint mode " + std::to_string(mode));
 check_all(c, f, p == 4);
 if (mode == 1 && size == whole.size())
  {
   // joedb_convert only supports files where each operation has the encoding
   // that a single writer would choose
   string x = accept;
   x[5] = 'A';
   require(x.find('-') == string::npos, "a valid file is refused: " + accept, "valid");
  }
}

/////////////////////////////////////////////////////////////////////////////
int main(int argc, char **argv)
/////////////////////////////////////////////////////////////////////////////
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, "C22");
 const bool th = ex.is_thorough();
 static const vector<string> all = alphabet(th ? 2 : 1), few = alphabet(0);
 static const string interesting("\0\1\2\3\4\5\7\x0b\x1f\x20\x21\x3f\x40\x7f\x80\x81\x84\xa0\xe0\xff", 20);
 ex.explore("truncation", truncation, 1 << 20, 10);
 ex.explore("corruption", [=](Chooser &c) {corruption(c, 1, th ? "" : "flip");}, 1 << 20, 10);
 ex.explore("operation", [](Chooser &c) {operations(c, all, few, 1);}, 1 << 20, 10);
 ex.explore("operations", [](Chooser &c) {operations(c, all, few, 2);}, 1 << 20, 10);
 ex.explore("bytes_2", [=](Chooser &c) {bytes_part(c, 2, th ? "" : interesting);}, 1 << 20, 10);
 if (th)
 {
  ex.explore("bytes_3", [](Chooser &c) {bytes_part(c, 3, interesting);}, 1 << 20, 10);
  ex.explore("bytes_4", [](Chooser &c) {bytes_part(c, 4, interesting.substr(0, 10));}, 1 << 20, 10);
  ex.explore("corruption_2", [](Chooser &c) {corruption(c, 2, interesting.substr(0, 12));}, 1 << 20, 10);
 }
 return ex.finish
 (
  "model_checking",
  "every file of the stated space (all operations with parameters in and out of range after five prefixes, all byte strings of a given length, all corruptions of one byte, all truncations) is read by every reader under sanitizers, with limits on memory and time",
  {"files of less than 2 kb", "the interpreted database is given a limit for identifiers of records, as its documentation asks for files that are not trusted"}
 );
}
