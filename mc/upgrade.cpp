// C09: schema upgrades preserve data, run once, refuse incompatible files.
#include "explorer.h"
#include "dump.h"
#include "sim_file.h"

#include "mcdb_u1/u1/writable.h"
#include "mcdb_u1/u1/readonly.h"
#include "mcdb_u1/u1/Readable.h"
#include "mcdb_u1/u1/Client.h"
#include "mcdb_u1/u1/Readonly_Client.h"
#include "mcdb_u2/u2/writable.h"
#include "mcdb_u2/u2/readonly.h"
#include "mcdb_u2/u2/Readable.h"
#include "mcdb_u2/u2/Client.h"
#include "mcdb_u2/u2/Readonly_Client.h"
#include "mcdb_u3/u3/writable.h"
#include "mcdb_u3/u3/readonly.h"
#include "mcdb_u3/u3/Readable.h"
#include "mcdb_u3/u3/Client.h"
#include "mcdb_u3/u3/Readonly_Client.h"

#include "joedb/interpreted/Database.h"
#include "joedb/Multiplexer.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Upgradable_File.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Out_Of_Date.h"

#include <memory>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

/////////////////////////////////////////////////////////////////////////////
// Upgrade functions
/////////////////////////////////////////////////////////////////////////////

static int fail_in_custom = 0; // 1: set_lang throws, 2: second throws
static int calls[3];

template<typename DB> static void set_lang(DB &db)
{
 ++calls[1];
 const auto english = db.new_language();
 db.set_name(english, "English");
 db.set_code(english, "en");
 if (fail_in_custom == 1)
  throw Exception("set_lang");
 for (const auto person: db.get_person_table())
  db.set_lang(person, english);
}

void mc::u2::Writable_Database::set_lang(Writable_Database &db) {::set_lang(db);}
void mc::u3::Writable_Database::set_lang(Writable_Database &db) {::set_lang(db);}

void mc::u3::Writable_Database::second(Writable_Database &db)
{
 ++calls[2];
 int count = 0;
 for (const auto person: db.get_person_table())
 {
  db.set_full_name(person, db.get_full_name(person) + "!");
  count++;
 }
 if (fail_in_custom == 2)
  throw Exception("second");
 db.set_volume(db.get_volume() + 10 * count);
}

/////////////////////////////////////////////////////////////////////////////
// Model: the upgrade, written by hand for the interpreted database
/////////////////////////////////////////////////////////////////////////////

static Table_Id T(int i) {return Table_Id(uint16_t(i));}
static Field_Id F(int i) {return Field_Id(uint16_t(i));}

template<typename Fn> static void for_used(Database &db, Table_Id t, Fn f)
{
 for (Record_Id r{0}; r < db.get_freedom(t).get_size(); ++r)
  if (db.get_freedom(t).is_used(r))
   f(r);
}

static void upgrade_to_1(Database &m)
{
 m.create_table("person");
 m.add_field(T(1), "name", Type::string());
 m.create_table("old");
 m.add_field(T(2), "x", Type::int32());
}

static void upgrade_to_2(Database &m)
{
 m.create_table("language");
 m.add_field(T(3), "name", Type::string());
 m.add_field(T(3), "code", Type::string());
 m.add_field(T(3), "rank", Type::int32());
 m.add_field(T(1), "lang", Type::reference(T(3)));
 for_used(m, T(1), [&](Record_Id r){m.update_reference(T(1), r, F(2), Record_Id{1});});
 m.insert_into(T(3), Record_Id{0});
 m.update_string(T(3), Record_Id{0}, F(1), "English");
 m.update_string(T(3), Record_Id{0}, F(2), "en");
 for_used(m, T(1), [&](Record_Id r){m.update_reference(T(1), r, F(2), Record_Id{0});});
 m.add_field(T(1), "height", Type::float32());
 for_used(m, T(1), [&](Record_Id r){m.update_float32(T(1), r, F(3), 1.5f);});
}

static void upgrade_to_3(Database &m)
{
 m.rename_field(T(1), F(1), "full_name");
 m.drop_field(T(1), F(3));
 m.create_table("settings");
 m.insert_into(T(4), Record_Id{0});
 m.add_field(T(4), "volume", Type::int32());
 m.update_int32(T(4), Record_Id{0}, F(1), 5);
 m.add_field(T(4), "title", Type::string());
 m.update_string(T(4), Record_Id{0}, F(2), "untitled");
 m.rename_table(T(2), "older");
 int count = 0;
 for_used(m, T(1), [&](Record_Id r)
 {
  m.update_string(T(1), r, F(1), string(m.get_string(T(1), r, F(1))) + "!");
  count++;
 });
 m.update_int32(T(4), Record_Id{0}, F(1), 5 + 10 * count);
 m.drop_table(T(2));
 m.create_table("old");
 m.add_field(T(5), "y", Type::int64());
 m.add_field(T(1), "flag", Type::boolean());
 for_used(m, T(1), [&](Record_Id r){m.update_boolean(T(1), r, F(4), true);});
}

static void upgrade_model(Database &m, int from, int to)
{
 if (from < 1 && to >= 1)
  upgrade_to_1(m);
 if (from < 2 && to >= 2)
  upgrade_to_2(m);
 if (from < 3 && to >= 3)
  upgrade_to_3(m);
}

static string interpreted_text(const string &image)
{
 mc::View file(image);
 Readonly_Journal journal(file);
 Database db;
 journal.replay_log(db);
 return mc::dump(db);
}

/////////////////////////////////////////////////////////////////////////////
// Versions
/////////////////////////////////////////////////////////////////////////////

template<int v> struct Version;

#define VERSION(v) \
template<> struct Version<v>\
{\
 using DB = mc::u##v::Writable_Database;\
 using RO = mc::u##v::Readonly_Database;\
 using Client = mc::u##v::Client;\
 using Readonly_Client = mc::u##v::Readonly_Client;\
 using Readable = mc::u##v::Readable;\
 using Database = mc::u##v::Database;\
};
VERSION(1)
VERSION(2)
VERSION(3)

// Data written by a version, in the database and in the model
template<int v> static void data(typename Version<v>::DB &db, Database &m, int script, int seed)
{
 auto name = [&](auto p, const string &s)
 {
  if constexpr (v <= 2) db.set_name(p, s);
  else db.set_full_name(p, s);
  m.update_string(T(1), p.get_record_id(), F(1), s);
 };
 auto person = [&](const string &s)
 {
  const auto p = db.new_person();
  m.insert_into(T(1), p.get_record_id());
  name(p, s);
  return p;
 };
 if (script == 0)
  return;
 const string s = "v" + to_string(v) + to_string(seed);
 const auto a = person("a" + s);
 if (script == 1)
  return;
 const auto b = person("b" + s);
 const auto vec = db.new_vector_of_person(2);
 m.insert_vector(T(1), vec.get_record_id(), 2);
 name(vec[1], "vector" + s);
 if constexpr (v <= 2)
 {
  const auto o = db.new_old();
  m.insert_into(T(2), o.get_record_id());
  db.set_x(o, 100 + seed);
  m.update_int32(T(2), o.get_record_id(), F(1), 100 + seed);
 }
 if constexpr (v >= 2)
 {
  const auto l = db.new_language();
  m.insert_into(T(3), l.get_record_id());
  db.set_code(l, "x" + s);
  m.update_string(T(3), l.get_record_id(), F(2), "x" + s);
  db.set_rank(l, -seed);
  m.update_int32(T(3), l.get_record_id(), F(3), -seed);
  db.set_lang(b, l);
  m.update_reference(T(1), b.get_record_id(), F(2), l.get_record_id());
 }
 if constexpr (v == 2)
 {
  db.set_height(b, 2.5f);
  m.update_float32(T(1), b.get_record_id(), F(3), 2.5f);
 }
 if constexpr (v == 3)
 {
  db.set_volume(seed);
  m.update_int32(T(4), Record_Id{0}, F(1), seed);
  db.set_flag(b, true);
  m.update_boolean(T(1), b.get_record_id(), F(4), true);
 }
 if (script == 2)
 {
  db.delete_person(a);
  m.delete_from(T(1), a.get_record_id());
 }
}

enum How {writable, client, readonly, readonly_client, upgradable, how_count};

struct World
{
 string image;
 vector<mc::Event> log;
 std::unique_ptr<Database> model{new Database()};
 int version = 0;
 int seed = 0;
 Recovery recovery = Recovery::none; // overwrite after a crash
};

template<typename R, typename DB> static string text(DB &db) {return mc::dump(R(db));}

struct Read_Only_Image: public Readonly_Memory_File
{
 Read_Only_Image(const string &s): Readonly_Memory_File(s.data(), s.size()) {}
};

// Open with one version. Returns whether it was possible, compares the content.
template<int v> static bool open(World &w, How how, Recovery recovery, std::function<bool(const mc::Event &)> die, int script, const string &expected, bool &dead)
{
 using V = Version<v>;
 auto check = [&](const string &got)
 {
  if (!dead)
   require(got == expected, "content after opening with version " + to_string(v) + " is\n" + got + "instead of\n" + expected, "content");
 };
 w.log.clear();
 dead = false;
 if (how == readonly)
 {
  mc::View file(w.image);
  typename V::RO db(file);
  check(text<typename V::Readable>(db));
  return true;
 }
 if (how == readonly_client)
 {
  mc::View file(w.image);
  typename V::Readonly_Client client(file);
  check(text<typename V::Readable>(client.get_database()));
  return true;
 }
 if (how == upgradable)
 {
  const string copy = w.image;
  {
   Upgradable_File<Read_Only_Image> file(copy);
   typename V::DB db(file, recovery);
   check(text<typename V::Readable>(db));
   db.soft_checkpoint();
  }
  require(copy == w.image, "an upgradable read-only file was modified", "upgradable");
  return true;
 }

 std::unique_ptr<mc::Sim_File> file(new mc::Sim_File(w.image, w.log, Open_Mode::shared_write));
 file->die = die;
 struct Fatal
 {
  mc::Sim_File &f; bool &dead; World &w;
  ~Fatal() {dead = f.dead; if (dead) {w.log.push_back(f.fatal);}}
 };
 if (how == writable)
 {
  Fatal fatal{*file, dead, w};
  typename V::DB db(*file, recovery);
  dead = file->dead;
  check(text<typename V::Readable>(db));
  if (!dead)
  {
   const string before = w.image;
   // an opening changes the file only to upgrade it
   if (w.version == v)
    require(w.log.empty(), "opening a file that is up to date wrote to it", "write_on_open");
   if (script)
   {
    data<v>(db, *w.model, script, ++w.seed);
    db.soft_checkpoint();
   }
  }
 }
 else
 {
  Fatal fatal{*file, dead, w};
  typename V::Client db(*file, Connection::dummy, Content_Check::fast, recovery);
  dead = file->dead;
  check(text<typename V::Readable>(db.get_database()));
  if (!dead)
  {
   if (w.version == v)
    require(w.log.empty(), "opening a file that is up to date wrote to it", "write_on_open");
   if (script)
   {
    db.transaction([&](typename V::DB &d){data<v>(d, *w.model, script, ++w.seed);});
   }
  }
 }
 return true;
}

static bool open_any(World &w, int v, How how, Recovery recovery, std::function<bool(const mc::Event &)> die, int script, const string &expected, bool &dead)
{
 if (v == 1) return open<1>(w, how, recovery, die, script, expected, dead);
 if (v == 2) return open<2>(w, how, recovery, die, script, expected, dead);
 return open<3>(w, how, recovery, die, script, expected, dead);
}

// A copy of the model of a file
static void copy_model(const string &image, Database &m)
{
 mc::View file(image);
 Readonly_Journal journal(file);
 journal.replay_log(m);
}

// Open with version v, check everything. The state of the file may be old (crashed upgrade).
static void step(Chooser &c, World &w, int v, How how, int script, bool may_crash, bool may_throw)
{
 const int old_version = w.version;
 const string old_image = w.image;
 const bool is_reader = how == readonly || how == readonly_client;
 w.model.reset(new Database());
 Database &upgraded = *w.model;
 if (w.version)
  copy_model(w.image, upgraded);
 const string old_text = mc::dump(upgraded);
 upgrade_model(upgraded, w.version, v);
 const string new_text = mc::dump(upgraded);

 // crash
 int crash = 0, torn = 0;
 std::function<bool(const mc::Event &)> die;
 int n = 0;
 if (may_crash && how < readonly && w.version < v)
 {
  crash = c.choose(2) ? 1 + c.choose(30) : 0;
  if (crash)
  {
   torn = c.choose(3);
   die = [&](const mc::Event &e)
   {
    ++n;
    if (n != crash)
     return false;
    if (torn && e.kind == mc::Event::write)
     mc::apply(w.image, e.offset, e.data.data(), torn == 1 ? e.data.size() / 2 : e.data.size());
    return true;
   };
  }
 }
 fail_in_custom = may_throw && how != readonly && w.version < v ? c.choose(3) : 0;
 calls[1] = calls[2] = 0;

 c.note("open with version " + to_string(v) + " how=" + to_string(how) + " crash=" + to_string(crash) + " torn=" + to_string(torn) +
  " throw=" + to_string(fail_in_custom) + " script=" + to_string(script) + ", file has version " + to_string(w.version));

 const bool valid = v >= w.version && (!is_reader || v == w.version);
 bool thrown = false, out_of_date = false, dead = false;
 string message;
 try
 {
  open_any(w, v, how, w.recovery, die, script, new_text, dead);
 }
 catch (const Out_Of_Date &e)
 {
  thrown = true;
  out_of_date = true;
  message = e.what();
 }
 catch (const Exception &e)
 {
  thrown = true;
  message = e.what();
 }
 const int failing = fail_in_custom;
 fail_in_custom = 0;
 c.transition();

 if (crash && !dead)
  throw mc::Skip(); // fewer writes than that

 const bool custom_throws = (failing == 1 && w.version < 2 && v >= 2) || (failing == 2 && w.version < 3 && v >= 3);
 if (failing && !custom_throws)
  throw mc::Skip();
 if (!valid)
 {
  require(thrown, "a file with version " + to_string(w.version) + " was opened by version " + to_string(v), "accepted");
  require(w.image == old_image, "a refused file was modified", "refused_modified");
  if (is_reader && v > w.version && w.version)
   require(out_of_date, "the error is not Out_Of_Date", "out_of_date");
  return;
 }
 if (custom_throws && !dead)
 {
  require(thrown, "an exception in an upgrade function was not reported", "custom_exception");
  if (how != upgradable)
  {
   const string text = w.image.size() > 41 ? interpreted_text(w.image) : string();
   require(text == old_text, "the file changed though the upgrade failed:\n" + text + "instead of\n" + old_text, "custom_exception");
  }
  // the same upgrade must then work
  w.recovery = Recovery::overwrite;
  if (how != upgradable)
   step(c, w, v, how, 0, false, false);
  return;
 }
 if (!dead)
 {
  require(!thrown, "opening a valid file failed: " + message, "refused");
  // upgrade functions were called once
  const int expected_1 = how < readonly || how == upgradable ? (w.version < 2 && v >= 2) : 0;
  const int expected_2 = how < readonly || how == upgradable ? (w.version < 3 && v >= 3) : 0;
  require(calls[1] == expected_1 && calls[2] == expected_2,
   "upgrade functions were called " + to_string(calls[1]) + " and " + to_string(calls[2]) + " times", "calls");
  if (is_reader || how == upgradable)
   require(w.image == old_image, "a reader modified the file", "reader_modified");
  else
  {
   w.version = v;
   const string text = interpreted_text(w.image);
   const string wanted = mc::dump(*w.model);
   require(text == wanted, "after the upgrade the file contains\n" + text + "instead of\n" + wanted, "file_content");
  }
 }
 else
 {
  // entirely old, or entirely upgraded
  string text;
  if (w.image.size() >= 41)
  {
   try
   {
    text = interpreted_text(w.image);
   }
   catch (const Exception &e)
   {
    require(old_version == 0, string("the file can not be read after a crash: ") + e.what(), "crash");
   }
  }
  const string data_text = mc::dump(*w.model); // crash during the last checkpoint
  require(text == old_text || text == new_text || (script && text == data_text), "after a crash the file contains\n" + text + "instead of\n" + old_text + "or\n" + new_text, "crash_atomic");
  const bool done = text != old_text;
  w.version = done ? v : old_version;
  if (old_version == 0 && !done && w.image.size() < 41)
   w.image.clear(); // the header itself was not completely written
  w.recovery = Recovery::overwrite;
  step(c, w, v, how, 0, false, false);
  return;
 }
}

static void upgrade(Chooser &c, bool thorough)
{
 World w;
 const int origin = c.choose(4);
 const int script = c.choose(4);
 if (origin == 0 && script)
  throw mc::Skip();
 c.split();
 if (origin)
 {
  Database m;
  bool dead;
  w.version = 0;
  upgrade_model(*w.model, 0, origin);
  const string t = mc::dump(*w.model);
  open_any(w, origin, writable, Recovery::none, {}, script, t, dead);
  w.version = origin;
  require(interpreted_text(w.image) == mc::dump(*w.model), "data of the origin", "origin");
 }
 // three openings
 bool crashed = false;
 for (int i = 0; i < (thorough ? 4 : 3); i++)
 {
  const int v = 1 + c.choose(3);
  const How how = How(c.choose(i == 0 || thorough ? int(how_count) : 3));
  const int s = how < readonly && v >= w.version ? c.choose(thorough ? 3 : 2) * 2 : 0;
  if (w.version == 0 && (how == upgradable || how == readonly || how == readonly_client))
   throw mc::Skip();
  step(c, w, v, how, s, i == 0, i == 0);
  if (w.version && i == 0)
  {
   // whatever happened, nothing in the file is lost or repeated
   c.state(mc::hash_string(interpreted_text(w.image)));
  }
 }
 c.outcome(w.version ? interpreted_text(w.image) : string());
}

// Files that do not have the expected schema
static void incompatible(Chooser &c)
{
 // operations of a schema, one of them may be wrong
 const int kind = c.choose(9);
 const int length = c.choose(6);
 const bool rows = c.flip();
 const int v = 1 + c.choose(3);
 const How how = How(c.choose(int(how_count)));
 c.split();
 c.note("kind " + to_string(kind) + " length " + to_string(length) + " version " + to_string(v));
 Memory_File file;
 bool wrong = false;
 Database model;
 {
  Writable_Journal journal(file);
  Multiplexer w{model, journal};
  int n = 0;
  auto op = [&](const std::function<void()> &f){if (n++ < length) f();};
  op([&]{if (kind == 1) {w.create_table("persom"); wrong = true;} else w.create_table("person");});
  op([&]{
   if (kind == 2) {w.add_field(T(1), "nale", Type::string()); wrong = true;}
   else if (kind == 3) {w.add_field(T(1), "name", Type::blob()); wrong = true;}
   else w.add_field(T(1), "name", Type::string());
  });
  if (length >= 2 && rows)
  {
   w.insert_into(T(1), Record_Id{0});
   if (kind != 3)
    w.update_string(T(1), Record_Id{0}, F(1), "toto");
  }
  op([&]{if (kind == 4) {w.rename_table(T(1), "x"); wrong = true;} else w.create_table("old");});
  op([&]{
   if (kind == 4) return;
   if (kind == 5) {w.add_field(T(1), "x", Type::int32()); wrong = true;}
   else if (kind == 6) {w.custom("set_lang"); wrong = true;}
   else if (kind == 7) {w.drop_field(T(1), F(1)); wrong = true;}
   else w.add_field(T(2), "x", Type::int32());
  });
  op([&]{
   if (wrong) return;
   if (kind == 8) {w.create_table("langage"); wrong = true;}
   else {w.create_table("language"); if (v < 2) wrong = true;}
  });
  journal.soft_checkpoint();
 }
 const int version = v;
 const string image = file.get_data();
 World w;
 w.image = image;
 calls[1] = calls[2] = 0;
 bool thrown = false, dead;
 string message;
 const bool reader = how == readonly || how == readonly_client;
 Database expected;
 {
  Readonly_Memory_File f(image.data(), image.size());
  Readonly_Journal j(f);
  j.replay_log(expected);
 }
 string text;
 if (!wrong)
 {
  // finish the schema by hand
  auto has = [&](int n){return length >= n;};
  Database &m = expected;
  if (!has(1)) m.create_table("person");
  if (!has(2)) m.add_field(T(1), "name", Type::string());
  if (!has(3)) m.create_table("old");
  if (!has(4)) m.add_field(T(2), "x", Type::int32());
  if (v >= 2 && has(5))
  {
   // the rest of version 2, after the creation of the table
   m.add_field(T(3), "name", Type::string());
   m.add_field(T(3), "code", Type::string());
   m.add_field(T(3), "rank", Type::int32());
   m.add_field(T(1), "lang", Type::reference(T(3)));
   m.insert_into(T(3), Record_Id{0});
   m.update_string(T(3), Record_Id{0}, F(1), "English");
   m.update_string(T(3), Record_Id{0}, F(2), "en");
   m.add_field(T(1), "height", Type::float32());
   for_used(m, T(1), [&](Record_Id r)
   {
    m.update_reference(T(1), r, F(2), Record_Id{0});
    m.update_float32(T(1), r, F(3), 1.5f);
   });
   if (v >= 3)
    upgrade_to_3(m);
  }
  else
  {
   if (v >= 2) upgrade_to_2(m);
   if (v >= 3) upgrade_to_3(m);
  }
  text = mc::dump(expected);
 }
 w.version = -1;
 const bool exact = v == 1 && length == 4 && !wrong;
 const bool valid = !wrong && (!reader || exact);
 try
 {
  open_any(w, v, how, Recovery::none, {}, 0, text, dead);
 }
 catch (const Exception &e)
 {
  thrown = true;
  message = e.what();
 }
 c.transition();
 c.state(mc::hash_string(image));
 c.outcome(to_string(thrown) + w.image);
 require(thrown == !valid, valid ? "a compatible file was refused: " + message : "an incompatible file was accepted", "compatible");
 if (thrown || reader || exact)
  require(w.image == image, "the file was modified", "refused_modified");
 else if (how < readonly)
  require(interpreted_text(w.image) == text, "wrong content of the upgraded file", "file_content");
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, argc > 1 ? argv[1] : "");
 const bool t = ex.is_thorough();
 ex.explore("incompatible", incompatible);
 ex.explore("upgrade", [&](Chooser &c){upgrade(c, t);});
 return ex.finish
 (
  "model_checking",
  "All sequences of openings, by three versions of a generated database and in five ways, of files written by each of them; "
  "the upgrade is interrupted before and inside each of its writes, and by exceptions in upgrade functions. Content is compared with the same upgrade written by hand.",
  {"writes reach the file in order (see C01 for other disk models)"}
 );
}
