// C08: generated code, interpreted database and replayed journal agree.
#include "explorer.h"
#include "dump.h"

#include "mcdb_g1/g1/writable.h"
#include "mcdb_g1/g1/readonly.h"
#include "mcdb_g1/g1/Readable.h"
#include "mcdb_g1/g1/Multiplexer.h"
#include "mcdb_g1/g1/Readonly_Client.h"

#include "joedb/interpreted/Database.h"
#include "joedb/Multiplexer.h"
#include "joedb/journal/Readonly_Journal.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/error/Destructor_Logger.h"

#include <array>
#include <memory>
#include <optional>

using namespace joedb;
using mc::Chooser;
using mc::require;
namespace g1 = mc::g1;
using DB = g1::Writable_Database;
using std::string;
using std::to_string;
using std::vector;
using mc::show;

/////////////////////////////////////////////////////////////////////////////
// Model
/////////////////////////////////////////////////////////////////////////////

using Row = vector<string>;
using Key = vector<string>;

struct Table_Model
{
 Row defaults;
 std::map<int, Row> mem;
 std::map<int, Row> file;
};

struct Index_Model
{
 int table;
 vector<int> fields;
 bool unique;
 std::map<int, Key> entries;
 // documented for unique indexes; others follow each change of each column
 bool trigger(int field) const
 {
  if (unique)
   return field == fields.back();
  return std::find(fields.begin(), fields.end(), field) != fields.end();
 }
 bool has(const Key &k) const
 {
  for (const auto &[i, x]: entries)
   if (x == k)
    return true;
  return false;
 }
};

enum {B, A, S, T};
enum {NAME, AV, RV, XY, TL, TF};

struct Model
{
 Table_Model t[4];
 Index_Model x[6] =
 {
  {A, {0}, true, {}}, {A, {1}, false, {}}, {A, {2, 1}, false, {}}, {B, {0, 1}, true, {}},
  {T, {9}, true, {}}, {T, {4}, false, {}}
 };
 bool uncertain = false; // after a failed update of a vector

 Model()
 {
  t[B].defaults = {"0", "0"};
  t[A].defaults = {show(""), "0", show(Record_Id::null)};
  t[S].defaults = {"0"};
  t[S].mem[0] = t[S].file[0] = t[S].defaults;
  t[T].defaults = {show(""), show(Blob()), show(Record_Id::null), "0", show(0.0f), show(0.0), "0", "0", "0", "0"};
 }

 static Key key(const Index_Model &i, const Row &r)
 {
  Key k;
  for (const int f: i.fields)
   k.push_back(r[size_t(f)]);
  return k;
 }

 bool used(int table, int id) const {return t[table].mem.count(id) != 0;}
 bool used(int table, int id, int n) const
 {
  for (int i = 0; i < n; i++)
   if (!used(table, id + i))
    return false;
  return true;
 }

 void insert(int table, int id)
 {
  t[table].mem[id] = t[table].file[id] = t[table].defaults;
 }

 void erase(int table, int id)
 {
  t[table].mem.erase(id);
  t[table].file.erase(id);
  for (auto &i: x)
   if (i.table == table)
    i.entries.erase(id);
 }

 // returns whether it must succeed
 bool set(int table, int field, int id, const string &v)
 {
  if (!used(table, id))
   return false;
  t[table].mem[id][size_t(field)] = v;
  for (auto &i: x)
   if (i.table == table && i.trigger(field))
   {
    i.entries.erase(id);
    const Key k = key(i, t[table].mem[id]);
    if (i.unique && i.has(k))
     return false;
    i.entries[id] = k;
   }
  t[table].file[id][size_t(field)] = v;
  return true;
 }

 bool set_vector(int table, int field, int id, const vector<string> &v)
 {
  const int n = int(v.size());
  if (!used(table, id, n))
   return false;
  for (int k = 0; k < n; k++)
   t[table].mem[id + k][size_t(field)] = v[size_t(k)];
  for (auto &i: x)
   if (i.table == table && i.trigger(field))
   {
    for (int k = 0; k < n; k++)
     i.entries.erase(id + k);
    for (int k = 0; k < n; k++)
    {
     const Key y = key(i, t[table].mem[id + k]);
     if (i.unique && i.has(y))
     {
      uncertain = true;
      for (int j = 0; j < n; j++)
       i.entries.erase(id + j);
      return false;
     }
     i.entries[id + k] = y;
    }
   }
  for (int k = 0; k < n; k++)
   t[table].file[id + k][size_t(field)] = v[size_t(k)];
  return true;
 }

 // what a replay of the file gives for the indexes: those of the valid updates
 void reopen()
 {
  for (auto &y: t)
   y.mem = y.file;
 }

 string text(bool file) const
 {
  static const char *schema[4] =
  {
   "table 1 b\n field 1 x int8\n field 2 y int16\n",
   "table 2 a\n field 1 name string\n field 2 v int8\n field 3 r reference(1)\n",
   "table 3 s\n field 1 n int32\n",
   "table 4 t\n field 1 s string\n field 2 bl blob\n field 3 r reference(4)\n field 4 b boolean\n field 5 f float32\n field 6 d float64\n"
   " field 7 o int8\n field 8 p int16\n field 9 q int32\n field 10 l int64\n"
  };
  string s;
  for (int i = 0; i < 4; i++)
  {
   s += schema[i];
   for (const auto &[id, row]: file ? t[i].file : t[i].mem)
   {
    s += " " + to_string(id);
    for (const auto &v: row)
     s += " " + v;
    s += "\n";
   }
  }
  return s;
 }

 string index_text() const
 {
  string s;
  for (const auto &i: x)
  {
   for (const auto &[id, k]: i.entries)
   {
    s += to_string(id) + ":";
    for (const auto &y: k)
     s += y + ",";
   }
   s += ";";
  }
  return s;
 }
};

// The index that results from replaying the file: an update that failed is not
// in the file, so that its record has the key of its last valid update.
struct Both
{
 Model live;
 Model file; // all rows and indexes as they are after reopening
};

/////////////////////////////////////////////////////////////////////////////
// Access to the generated code
/////////////////////////////////////////////////////////////////////////////

template<typename I> static string id_text(I id) {return show(id.get_record_id());}

struct Table_Api
{
 std::function<int(DB &)> create;
 std::function<void(DB &, int)> insert;
 std::function<void(DB &, int)> erase;
 std::function<int(DB &, int)> create_vector;
 std::function<void(DB &, int, int)> erase_vector;
 std::function<void(DB &)> clear;
};

#define TABLE_API(t) Table_Api\
{\
 [](DB &db) {return int(db.new_##t().get_id());},\
 [](DB &db, int id) {db.insert_##t(g1::id_of_##t(id));},\
 [](DB &db, int id) {db.delete_##t(g1::id_of_##t(id));},\
 [](DB &db, int n) {return int(db.new_vector_of_##t(size_t(n)).get_id());},\
 [](DB &db, int id, int n) {db.delete_vector_of_##t(g1::id_of_##t(id), size_t(n));},\
 [](DB &db) {db.clear_##t##_table();}\
}

static const Table_Api api[4] = {TABLE_API(b), TABLE_API(a), Table_Api{}, TABLE_API(t)};

static string text(const g1::Readable &r) {return mc::dump(r);}

template<typename I> static string key_text(I k)
{
 if constexpr (std::is_same_v<I, g1::id_of_b>) return id_text(k);
 else return show(k);
}

template<typename... X> static Key keys_of(const std::tuple<X...> &t)
{
 return std::apply([](const auto &... x) {return Key{key_text(x)...};}, t);
}
template<typename X> static Key keys_of(const X &x) {return Key{key_text(x)};}

template<typename Map> static void check_index(const Map &map, const Index_Model &model, const char *name, bool uncertain)
{
 std::map<int, Key> got;
 bool first = true;
 typename Map::key_type previous{};
 for (const auto &[k, id]: map)
 {
  require(first || !(k < previous), string("index ") + name + " is not in order", "index_order");
  require(first || !model.unique || previous < k, string("unique index ") + name + " has two records for a key", "index_unique");
  first = false;
  previous = k;
  require(got.emplace(int(id.get_id()), keys_of(k)).second, string("index ") + name + " contains a record twice", "index_twice");
 }
 if (!uncertain)
 {
  string a, b;
  for (const auto &[i, k]: got) {a += to_string(i) + ":"; for (const auto &s: k) a += s + ",";}
  for (const auto &[i, k]: model.entries) {b += to_string(i) + ":"; for (const auto &s: k) b += s + ",";}
  require(a == b, string("index ") + name + " is " + a + " instead of " + b, "index_content");
 }
}

template<typename D, typename Id> static void check_unique_navigation(D &db, const Index_Model &m, vector<Id> in_order,
 Id (D::*next)(Id), Id (D::*previous)(Id))
{
 for (size_t i = 0; i < in_order.size(); i++)
 {
  const Id n = (db.*next)(in_order[i]);
  const Id p = (db.*previous)(in_order[i]);
  require(n == (i + 1 < in_order.size() ? in_order[i + 1] : Id()), "next in index is wrong", "index_next");
  require(p == (i > 0 ? in_order[i - 1] : Id()), "previous in index is wrong", "index_previous");
 }
}

template<typename R> static std::set<int> ids_of(const R &range)
{
 std::set<int> s;
 size_t n = 0;
 for (const auto id: range)
 {
  s.insert(int(id.get_id()));
  ++n;
  require(n < 1000, "range does not end", "range");
 }
 require(n == s.size(), "range contains a record twice", "range");
 require(range.size() == n && range.empty() == (n == 0), "size of a range", "range");
 return s;
}

static std::set<int> model_range(const Index_Model &m, const Key &k)
{
 std::set<int> s;
 for (const auto &[i, x]: m.entries)
  if (x == k)
   s.insert(i);
 return s;
}

static const vector<string> strings = {"", "p", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "z"};

template<typename C, typename D> static void check_table(const C &table, D &db, const std::map<int, Row> &rows, const char *name)
{
 std::set<int> ids;
 int count = 0;
 for (const auto x: table)
 {
  ids.insert(int(x.get_id()));
  require(++count < 1000, string("iteration over ") + name + " does not end", "table_iteration");
  require(db.is_valid(x), "is_valid is false for a record of the table", "table_valid");
 }
 std::set<int> expected;
 for (const auto &[i, r]: rows)
  expected.insert(i);
 require(ids == expected && size_t(count) == expected.size(), string("iteration over ") + name + " is wrong", "table_iteration");
 std::set<int> back;
 auto i = table.end();
 for (int k = 0; k < count; k++)
  back.insert(int((*--i).get_id()));
 require(back == expected, string("backward iteration over ") + name + " is wrong", "table_iteration");
 require(table.get_size() == count && table.is_empty() == (count == 0), "size of a table", "table_size");
 auto copy = table;
 for (int k = 0; k < 8; k++)
  require(copy.is_valid_at(size_t(k)) == (expected.count(k) != 0), "is_valid_at", "table_valid");
 // by hand
 vector<int> v;
 for (auto id = db.next(table.get_end()); id != table.get_end(); id = db.next(id))
 {
  v.push_back(int(id.get_id()));
  require(v.size() < 1000, "next does not end", "table_next");
 }
 require(std::set<int>(v.begin(), v.end()) == expected, "next is wrong", "table_next");
 if (count)
 {
  require(int(table.first().get_id()) == v[0] && int(table.last().get_id()) == v.back(), "first or last", "table_first");
  require(int(db.previous(table.get_end()).get_id()) == v.back(), "previous", "table_next");
 }
}

// Everything that can be seen of a generated database. D: const lookups are
// done through Database.
static void check_database(g1::Database &db, const Model &m, const char *what)
{
 try
 {
  const string got = text(g1::Readable(db));
  const string wanted = m.text(false);
  require(got == wanted, "content is\n" + got + "instead of\n" + wanted, "content");
  check_table(db.get_b_table(), db, m.t[B].mem, "b");
  check_table(db.get_a_table(), db, m.t[A].mem, "a");
  check_table(db.get_s_table(), db, m.t[S].mem, "s");
  check_table(db.get_t_table(), db, m.t[T].mem, "t");

  for (const auto &[id, row]: m.t[A].mem)
  {
   const g1::id_of_a i(id);
   require(show(db.get_name(i)) == row[0] && show(db.get_v(i)) == row[1] && id_text(db.get_r(i)) == row[2], "getter", "getter");
  }
  for (const auto &[id, row]: m.t[B].mem)
  {
   const g1::id_of_b i(id);
   require(show(db.get_x(i)) == row[0] && show(db.get_y(i)) == row[1], "getter", "getter");
  }
  require(show(db.get_n()) == m.t[S].mem.at(0)[0], "getter", "getter");
  for (const auto &[id, row]: m.t[T].mem)
  {
   const g1::id_of_t i(id);
   require(show(db.get_s(i)) == row[0] && show(db.get_bl(i)) == row[1] && id_text(db.get_r(i)) == row[2] &&
    show(db.get_b(i)) == row[3] && show(db.get_f(i)) == row[4] && show(db.get_d(i)) == row[5] && show(db.get_o(i)) == row[6] &&
    show(db.get_p(i)) == row[7] && show(db.get_q(i)) == row[8] && show(db.get_l(i)) == row[9], "getter", "getter");
  }

  check_index(db.get_index_of_a_name(), m.x[NAME], "a_name", m.uncertain);
  check_index(db.get_index_of_a_v(), m.x[AV], "a_v", m.uncertain);
  check_index(db.get_index_of_a_rv(), m.x[RV], "a_rv", m.uncertain);
  check_index(db.get_index_of_b_xy(), m.x[XY], "b_xy", m.uncertain);
  check_index(db.get_index_of_t_l(), m.x[TL], "t_l", m.uncertain);
  check_index(db.get_index_of_t_f(), m.x[TF], "t_f", m.uncertain);

  if (m.uncertain)
  {
   // indexed records have their current key, others are as before
   for (const auto &[k, id]: db.get_index_of_a_name())
    require(show(k) == m.t[A].mem.at(int(id.get_id()))[0], "stale key in a unique index", "index_content");
   for (const auto &[i, k]: m.x[NAME].entries)
    require(std::any_of(db.get_index_of_a_name().begin(), db.get_index_of_a_name().end(), [&](const auto &e){return e.second.get_id() == i;}),
     "a record not concerned by a failed update left the index", "index_content");
   for (const auto &[k, id]: db.get_index_of_b_xy())
    require(keys_of(k) == Model::key(m.x[XY], m.t[B].mem.at(int(id.get_id()))) ||
     (m.x[XY].entries.count(int(id.get_id())) && m.x[XY].entries.at(int(id.get_id())) == keys_of(k)), "stale key in a unique index", "index_content");
   return;
  }

  for (const string &s: strings)
  {
   const auto r = model_range(m.x[NAME], {show(s)});
   require(int(db.find_a_name(s).get_id()) == (r.empty() ? -1 : *r.begin()), "find_a_name", "find");
  }
  for (int v = -1; v <= 2; v++)
  {
   require(ids_of(db.find_a_v(int8_t(v))) == model_range(m.x[AV], {to_string(v)}), "find_a_v", "find");
   for (int r = -1; r <= 1; r++)
    require(ids_of(db.find_a_rv(g1::id_of_b(r), int8_t(v))) == model_range(m.x[RV], {show(Record_Id(r)), to_string(v)}), "find_a_rv", "find");
   for (int y = 0; y <= 2; y++)
   {
    const auto r = model_range(m.x[XY], {to_string(v), to_string(y)});
    require(int(db.find_b_xy(int8_t(v), int16_t(y)).get_id()) == (r.empty() ? -1 : *r.begin()), "find_b_xy", "find");
   }
  }
  {
   vector<g1::id_of_a> v;
   for (const auto &[k, id]: db.get_index_of_a_name())
    v.push_back(id);
   check_unique_navigation<g1::Database>(db, m.x[NAME], v, &g1::Database::next_a_name, &g1::Database::previous_a_name);
  }
  {
   vector<g1::id_of_b> v;
   for (const auto &[k, id]: db.get_index_of_b_xy())
    v.push_back(id);
   check_unique_navigation<g1::Database>(db, m.x[XY], v, &g1::Database::next_b_xy, &g1::Database::previous_b_xy);
  }
  {
   auto v = db.sorted_a([&](g1::id_of_a i, g1::id_of_a j){return db.get_v(i) < db.get_v(j);});
   require(v.size() == m.t[A].mem.size(), "size of sorted_a", "sorted");
   for (size_t i = 1; i < v.size(); i++)
    require(db.get_v(v[i - 1]) <= db.get_v(v[i]), "sorted_a is not sorted", "sorted");
  }
 }
 catch (mc::Violation &v)
 {
  v.message = string(what) + ": " + v.message;
  throw;
 }
}

static string interpreted_text(const string &bytes)
{
 Readonly_Memory_File file(bytes.data(), bytes.size());
 Readonly_Journal journal(file);
 Database db;
 journal.replay_log(db);
 return mc::dump(db);
}

static string freedom_text(const g1::Database &db)
{
 const g1::Readable r(db);
 string s;
 for (int t = 1; t <= 4; t++)
 {
  const Freedom_Keeper &k = r.get_freedom(Table_Id(uint16_t(t)));
  s += k.is_dense() ? 'd' : 'l';
  s += to_string(k.size()) + ":" + to_string(to_underlying(k.get_first_used())) + "," + to_string(to_underlying(k.get_first_free())) + ":";
  for (Record_Id i{0}; i < k.get_size(); ++i)
   s += to_string(to_underlying(k.get_next(i))) + ",";
 }
 return s;
}

/////////////////////////////////////////////////////////////////////////////
// Operations: they change the database and the model
/////////////////////////////////////////////////////////////////////////////

struct System
{
 Memory_File file;
 std::unique_ptr<DB> db;
 std::unique_ptr<g1::Readonly_Client> follower;
 Both m;
 bool skip = false; // this step is not possible here
 int max_id;

 System(int max_id): max_id(max_id)
 {
  db.reset(new DB(file));
 }
};

struct Op
{
 string name;
 std::function<void(System &)> apply;
};

static void expect(System &s, bool valid, const std::function<void()> &f)
{
 bool thrown = false;
 string message;
 try
 {
  f();
 }
 catch (const Exception &e)
 {
  thrown = true;
  message = e.what();
 }
 require(!valid || !thrown, "a valid operation was refused: " + message, "refused");
 require(valid || thrown, "an invalid operation was accepted", "accepted");
}

static bool both(System &s, const std::function<bool(Model &)> &f)
{
 const bool r = f(s.m.live);
 if (r && !f(s.m.file))
  mc::fail("an update is valid in memory but not in the file, because a previous update failed", "update_after_unique_failure");
 return r;
}

static void created(System &s, int table, int id, int n)
{
 for (int k = 0; k < n; k++)
 {
  require(id >= 0 && !s.m.live.used(table, id + k), "an identifier in use was given to a new record", "new_used");
  s.m.live.insert(table, id + k);
  s.m.file.insert(table, id + k);
 }
}

static void structure_ops(vector<Op> &ops, int table, int ids, bool vectors)
{
 const string n = "bast"[table] + string(" ");
 auto fits = [table](System &s, int count)
 {
  // the next identifier must stay in range
  return int(s.m.live.t[table].mem.size()) + count <= s.max_id;
 };
 ops.push_back({n + "new", [=](System &s){
  if (!fits(s, 1)) {s.skip = true; return;}
  created(s, table, api[table].create(*s.db), 1);
 }});
 for (int i = -1; i < ids; i++)
 {
  ops.push_back({n + "insert " + to_string(i), [=](System &s){
   const bool valid = i >= 0 && !s.m.live.used(table, i);
   expect(s, valid, [&]{api[table].insert(*s.db, i);});
   if (valid)
    both(s, [&](Model &m){m.insert(table, i); return true;});
  }});
  ops.push_back({n + "delete " + to_string(i), [=](System &s){
   const bool valid = s.m.live.used(table, i);
   expect(s, valid, [&]{api[table].erase(*s.db, i);});
   if (valid)
    both(s, [&](Model &m){m.erase(table, i); return true;});
  }});
 }
 ops.push_back({n + "clear", [=](System &s){
  expect(s, true, [&]{api[table].clear(*s.db);});
  while (!s.m.live.t[table].mem.empty())
  {
   const int i = s.m.live.t[table].mem.begin()->first;
   both(s, [&](Model &m){m.erase(table, i); return true;});
  }
 }});
 if (vectors)
 {
  for (int k: {0, 1, 2})
   ops.push_back({n + "new vector " + to_string(k), [=](System &s){
    const g1::Readable r(*s.db);
    if (int(r.get_freedom(Table_Id(uint16_t(table + 1))).size()) + k > s.max_id + 1) {s.skip = true; return;}
    created(s, table, api[table].create_vector(*s.db, k), k);
   }});
  for (int i = -1; i < ids; i++)
   for (int k: {2, 3})
    ops.push_back({n + "delete vector " + to_string(i) + " " + to_string(k), [=](System &s){
     const bool valid = s.m.live.used(table, i, k);
     expect(s, valid, [&]{api[table].erase_vector(*s.db, i, k);});
     if (valid)
      for (int j = 0; j < k; j++)
       both(s, [&](Model &m){m.erase(table, i + j); return true;});
    }});
 }
}

// Values: pairs of what is given to the setter and the text in the model.
// how: 0 = setter, 1 = vector of one or two, 2 = Writable interface
template<typename Value> static void set_ops
(
 vector<Op> &ops, int table, int field, int ids, const vector<Value> &values, const vector<string> &texts,
 std::function<void(DB &, int, Value)> set,
 std::function<void(DB &, int, int, const vector<Value> &)> set_vector,
 const string &name,
 bool vectors
)
{
 for (int i = -1; i < ids; i++)
  for (size_t v = 0; v < values.size(); v++)
   ops.push_back({"set " + name + " " + to_string(i) + " " + texts[v], [=](System &s){
    const bool valid = both(s, [&](Model &m){return m.set(table, field, i, texts[v]);});
    expect(s, valid, [&]{set(*s.db, i, values[v]);});
   }});
 if (vectors)
  for (int i = -1; i < ids; i++)
   for (int k: {0, 1, 2, 3})
    for (size_t v = 0; v < values.size(); v++)
     for (size_t w = 0; w < values.size(); w++)
      if ((k >= 2 || w == 0) && (k >= 1 || v == 0))
      {
       if ((k == 0 || k == 3) && i > 0)
        continue;
       ops.push_back({"set vector " + name + " " + to_string(i) + " " + to_string(k) + " " + texts[v] + " " + texts[w], [=](System &s){
        vector<Value> x; vector<string> y;
        for (int j = 0; j < k; j++)
        {
         x.push_back(values[j ? w : v]);
         y.push_back(texts[j ? w : v]);
        }
        if (k == 0)
        {
         if (i < 0) // allowed or not: no effect
          return;
         expect(s, true, [&]{set_vector(*s.db, i, k, x);});
         return;
        }
        const bool valid = both(s, [&](Model &m){return m.set_vector(table, field, i, y);});
        expect(s, valid, [&]{set_vector(*s.db, i, k, x);});
       }});
      }
}

#define SET_OPS(ops, T, t, field, fname, type, ids, values, texts, vectors)\
 set_ops<type>(ops, T, field, ids, values, texts,\
  [](DB &db, int i, type v){db.set_##fname(g1::id_of_##t(i), v);},\
  [](DB &db, int i, int n, const vector<type> &v){\
   db.update_vector_of_##fname(g1::id_of_##t(i), size_t(n), [&](auto &span){for (int k = 0; k < n; k++) span[size_t(k)] = v[size_t(k)];});},\
  #t "." #fname, vectors)

// through joedb::Writable
static void multiplexer_ops(vector<Op> &ops, int ids)
{
 auto add = [&](const string &name, std::function<bool(Model &)> f, std::function<void(Writable &)> g)
 {
  ops.push_back({"writable " + name, [=](System &s){
   const bool valid = both(s, f);
   g1::Multiplexer multiplexer(*s.db);
   Writable &w = multiplexer;
   expect(s, valid, [&]{g(w);});
  }});
 };
 for (int i = 0; i < ids; i++)
 {
  const Record_Id r{i};
  add("insert a " + to_string(i), [=](Model &m){if (m.used(A, i)) return false; m.insert(A, i); return true;},
   [=](Writable &w){w.insert_into(Table_Id{2}, r);});
  add("delete a " + to_string(i), [=](Model &m){if (!m.used(A, i)) return false; m.erase(A, i); return true;},
   [=](Writable &w){w.delete_from(Table_Id{2}, r);});
  for (const char *v: {"p", "z"})
   add("update a.name " + to_string(i) + v, [=](Model &m){return m.set(A, 0, i, show(string(v)));},
    [=](Writable &w){w.update_string(Table_Id{2}, r, Field_Id{1}, v);});
  add("update a.r " + to_string(i), [=](Model &m){return m.set(A, 2, i, show(Record_Id{0}));},
   [=](Writable &w){w.update_reference(Table_Id{2}, r, Field_Id{3}, Record_Id{0});});
  add("insert vector a 2 " + to_string(i), [=](Model &m){
    if (m.used(A, i) || m.used(A, i + 1)) return false;
    m.insert(A, i); m.insert(A, i + 1); return true;},
   [=](Writable &w){w.insert_vector(Table_Id{2}, r, 2);});
  add("delete vector a 2 " + to_string(i), [=](Model &m){
    if (!m.used(A, i, 2)) return false;
    m.erase(A, i); m.erase(A, i + 1); return true;},
   [=](Writable &w){w.delete_vector(Table_Id{2}, r, 2);});
  add("update vector a.v " + to_string(i), [=](Model &m){return m.set_vector(A, 1, i, {"1", "0"});},
   [=](Writable &w){const int8_t v[2] = {1, 0}; w.update_vector_int8(Table_Id{2}, r, Field_Id{2}, 2, v);});
  add("update vector a.name " + to_string(i), [=](Model &m){return m.set_vector(A, 0, i, {show("p"), show("z")});},
   [=](Writable &w){const string v[2] = {"p", "z"}; w.update_vector_string(Table_Id{2}, r, Field_Id{1}, 2, v);});
 }
}

static void reopen_op(vector<Op> &ops)
{
 ops.push_back({"reopen", [](System &s){
  s.db->soft_checkpoint();
  s.db.reset();
  s.db.reset(new DB(s.file));
  s.m.live = s.m.file;
 }});
 ops.push_back({"reopen after hard checkpoint", [](System &s){
  s.db->hard_checkpoint();
  s.db.reset();
  s.db.reset(new DB(s.file));
  s.m.live = s.m.file;
 }});
}

static const Op soft_op = {"soft checkpoint", [](System &s){s.db->soft_checkpoint();}};

// Complete check: the live database, and all the ways to read the file
static void check_all(System &s)
{
 check_database(*s.db, s.m.live, "database");
 s.db->soft_checkpoint();
 check_database(*s.db, s.m.live, "database after checkpoint");
 const string bytes = s.file.get_data();
 const string wanted = s.m.file.text(false);
 {
  const string got = interpreted_text(bytes);
  require(got == wanted, "interpreted database is\n" + got + "instead of\n" + wanted, "interpreted");
 }
 {
  Readonly_Memory_File file(bytes.data(), bytes.size());
  g1::Readonly_Database db(file);
  check_database(db, s.m.file, "read-only database");
 }
 {
  Memory_File file(Open_Mode::write_existing);
  file.get_data() = bytes;
  {
   DB db(file);
   check_database(db, s.m.file, "reopened database");
  }
  // no upgrade is needed: the journal itself did not change
  require(file.get_data().size() == bytes.size(), "reopening changed the file", "reopen_write");
 }
}

static void run(Chooser &c, const vector<Op> &ops, int max_id, bool follow)
{
 System s(max_id);
 if (follow)
 {
  s.db->soft_checkpoint();
  s.follower.reset(new g1::Readonly_Client(s.file));
 }
 while (true)
 {
  const int k = c.choose(int(ops.size()));
  const bool again = c.replaying();
  c.note(ops[size_t(k)].name);
  ops[size_t(k)].apply(s);
  if (s.skip)
   throw mc::Skip();
  if (follow)
  {
   s.db->soft_checkpoint();
   s.follower->pull();
   if (!again)
   {
    auto &db = const_cast<g1::Database &>(s.follower->get_database());
    check_database(db, s.m.file, "following client");
   }
  }
  if (!again)
  {
   c.transition();
   const uint64_t h = mc::hash_string(s.m.live.text(false) + s.m.live.index_text() + s.m.file.text(false) + s.m.file.index_text() + freedom_text(*s.db));
   c.state(h);
   c.outcome(s.m.live.text(false));
   check_all(s);
   if (s.m.live.uncertain)
    throw mc::Skip();
   c.prune(h);
  }
 }
}

/////////////////////////////////////////////////////////////////////////////
// A file that is written by the interpreter
/////////////////////////////////////////////////////////////////////////////

struct External_Op
{
 string name;
 std::function<void(Writable &)> write;
 std::function<bool(Model &)> model;
};

static void external(Chooser &c, int max_id)
{
 static vector<External_Op> ops;
 if (ops.empty())
 {
  for (int i = 0; i < max_id; i++)
  {
   const Record_Id r{i};
   ops.push_back({"insert a " + to_string(i), [=](Writable &w){w.insert_into(Table_Id{2}, r);},
    [=](Model &m){if (m.used(A, i)) return false; m.insert(A, i); return true;}});
   ops.push_back({"delete a " + to_string(i), [=](Writable &w){w.delete_from(Table_Id{2}, r);},
    [=](Model &m){if (!m.used(A, i)) return false; m.erase(A, i); return true;}});
   for (const char *v: {"p", "z"})
    ops.push_back({"update a.name " + to_string(i) + v, [=](Writable &w){w.update_string(Table_Id{2}, r, Field_Id{1}, v);},
     [=](Model &m){return m.set(A, 0, i, show(v));}});
   if (i + 1 < max_id)
   {
    ops.push_back({"insert vector a " + to_string(i), [=](Writable &w){w.insert_vector(Table_Id{2}, r, 2);},
     [=](Model &m){if (m.used(A, i) || m.used(A, i + 1)) return false; m.insert(A, i); m.insert(A, i + 1); return true;}});
    ops.push_back({"delete vector a " + to_string(i), [=](Writable &w){w.delete_vector(Table_Id{2}, r, 2);},
     [=](Model &m){if (!m.used(A, i, 2)) return false; m.erase(A, i); m.erase(A, i + 1); return true;}});
    ops.push_back({"update vector a.name " + to_string(i), [=](Writable &w){const string v[2] = {"z", "p"}; w.update_vector_string(Table_Id{2}, r, Field_Id{1}, 2, v);},
     [=](Model &m){return m.set_vector(A, 0, i, {show("z"), show("p")});}});
    ops.push_back({"update vector a.v " + to_string(i), [=](Writable &w){const int8_t v[2] = {1, 0}; w.update_vector_int8(Table_Id{2}, r, Field_Id{2}, 2, v);},
     [=](Model &m){return m.set_vector(A, 1, i, {"1", "0"});}});
   }
  }
 }
 Memory_File file;
 {
  DB db(file);
  db.soft_checkpoint();
 }
 string log;
 Model m;
 bool duplicate = false;
 {
  Writable_Journal journal(file);
  Database db;
  journal.replay_log(db);
  Multiplexer multiplexer{db, journal};
  Writable &w = multiplexer;
  while (true)
  {
   const External_Op &op = ops[size_t(c.choose(int(ops.size())))];
   const bool again = c.replaying();
   c.note(op.name);
   Model before = m;
   bool refused = false;
   try
   {
    op.write(w);
   }
   catch (const Exception &)
   {
    refused = true;
   }
   const bool valid = op.model(m);
   if (refused)
   {
    require(!valid, "a valid operation was refused", "refused");
    m = before;
   }
   else if (!valid)
    duplicate = true; // the interpreter knows nothing of indexes
   if (!again)
   {
    c.transition();
    journal.soft_checkpoint();
    Memory_File copy(Open_Mode::write_existing);
    copy.get_data() = file.get_data();
    bool failed = false;
    try
    {
     DB reopened(copy);
     check_database(reopened, m, "generated database");
    }
    catch (const Exception &e)
    {
     failed = true;
    }
    require(failed == duplicate, duplicate ? "a file with duplicate keys in a unique index was opened" : "a valid file was refused", "external");
    require(!failed || copy.get_data() == file.get_data(), "a refused file was modified", "external_modified");
    Readonly_Memory_File ro(file.get_data().data(), file.get_data().size());
    failed = false;
    try
    {
     g1::Readonly_Database reopened(ro);
     check_database(reopened, m, "generated read-only database");
    }
    catch (const Exception &e)
    {
     failed = true;
    }
    require(failed == duplicate, "opening for reading disagrees with opening for writing", "external");
    if (duplicate)
     throw mc::Skip();
    string lists;
    {
     const Freedom_Keeper &k = db.get_freedom(Table_Id{2});
     lists += k.is_dense() ? 'd' : 'l';
     for (Record_Id i{-2}; i < k.get_size(); ++i)
      lists += to_string(to_underlying(k.get_next(i))) + ",";
    }
    const uint64_t h = mc::hash_string(m.text(false) + m.index_text() + lists);
    c.state(h);
    c.outcome(m.text(false));
    c.prune(h);
   }
  }
 }
}

// Large identifiers and vectors without data
static void sizes(Chooser &c)
{
 const int n = vector<int>{1, 10, 100, 1000}[size_t(c.choose(4))];
 const int how = c.choose(3);
 const bool data = c.flip();
 c.split();
 c.note(to_string(n) + " " + to_string(how) + " " + to_string(data));
 Memory_File file;
 {
  DB db(file);
  int id = n - 1;
  if (how == 0)
   db.insert_b(g1::id_of_b(id));
  else if (how == 1)
   db.new_vector_of_b(size_t(n));
  else
  {
   for (int i = 0; i < n; i++)
    db.new_b();
  }
  if (data)
   db.set_x(g1::id_of_b(id), 5);
  db.soft_checkpoint();
 }
 c.transition();
 c.state(uint64_t(n * 100 + how * 10 + data));
 try
 {
  DB db(file);
  require(db.get_b_table().get_size() == (how ? n : 1), "wrong number of records", "sizes");
  require(db.get_x(g1::id_of_b(n - 1)) == (data ? 5 : 0), "wrong value", "sizes");
  const string a = mc::dump(g1::Readable(db));
  c.outcome(a);
  require(a == interpreted_text(file.get_data()), "interpreted database differs", "sizes");
 }
 catch (const Exception &e)
 {
  mc::fail(string("a file written by generated code can not be opened again: ") + e.what(), "record_id_larger_than_file");
 }
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, argc > 1 ? argv[1] : "");
 const bool t = ex.is_thorough();
 const vector<string> n3 = {"", "p", strings[2]};
 const vector<string> n3t = {show(""), show("p"), show(strings[2])};
 const vector<string> n2 = {"p", "z"};
 const vector<string> n2t = {show("p"), show("z")};
 const vector<int8_t> v2 = {0, 1};
 const vector<string> v2t = {"0", "1"};
 const vector<int16_t> w2 = {0, 1};

 static vector<Op> unique, multi, pair, mixed, follow, writable, types;
 // unique index on a string
 structure_ops(unique, A, 3, true);
 SET_OPS(unique, A, a, 0, name, string, 3, n2, n2t, true);
 reopen_op(unique);
 // non-unique indexes sharing a column
 structure_ops(multi, A, 2, true);
 SET_OPS(multi, A, a, 1, v, int8_t, 2, v2, v2t, true);
 SET_OPS(multi, A, a, 2, r, g1::id_of_b, 2, (vector<g1::id_of_b>{g1::id_of_b(), g1::id_of_b(0)}), (vector<string>{show(Record_Id::null), show(Record_Id{0})}), true);
 reopen_op(multi);
 // unique index on two columns
 structure_ops(pair, B, 2, true);
 SET_OPS(pair, B, b, 0, x, int8_t, 2, v2, v2t, true);
 SET_OPS(pair, B, b, 1, y, int16_t, 2, w2, v2t, true);
 reopen_op(pair);
 // several tables
 structure_ops(mixed, A, 2, false);
 structure_ops(mixed, B, 2, false);
 SET_OPS(mixed, A, a, 0, name, string, 2, n3, n3t, false);
 SET_OPS(mixed, A, a, 2, r, g1::id_of_b, 2, (vector<g1::id_of_b>{g1::id_of_b(), g1::id_of_b(1)}), (vector<string>{show(Record_Id::null), show(Record_Id{1})}), false);
 SET_OPS(mixed, B, b, 1, y, int16_t, 2, w2, v2t, false);
 mixed.push_back({"set n", [](System &s){s.db->set_n(7); s.m.live.set(S, 0, 0, "7"); s.m.file.set(S, 0, 0, "7");}});
 mixed.push_back({"new b with values", [](System &s){
  if (s.m.live.t[B].mem.size() >= 2) {s.skip = true; return;}
  int id = -1;
  bool thrown = false;
  const auto before = s.m.live.t[B].mem;
  try {id = int(s.db->new_b(1, 1).get_id());} catch (const Exception &) {thrown = true;}
  if (thrown)
  {
   for (auto x: s.db->get_b_table())
    if (!before.count(int(x.get_id())))
     id = int(x.get_id());
   require(id >= 0, "no record", "new_all");
  }
  created(s, B, id, 1);
  bool valid = both(s, [&](Model &m){return m.set(B, 0, id, "1");});
  valid = valid && both(s, [&](Model &m){return m.set(B, 1, id, "1");});
  require(valid != thrown, "new with values", "new_all");
 }});
 reopen_op(mixed);
 // follower
 structure_ops(follow, A, 2, true);
 SET_OPS(follow, A, a, 0, name, string, 2, n2, n2t, true);
 SET_OPS(follow, A, a, 1, v, int8_t, 2, v2, v2t, false);
 // Writable interface, mixed with the API
 multiplexer_ops(writable, 2);
 structure_ops(writable, A, 2, true);
 SET_OPS(writable, A, a, 0, name, string, 2, n2, n2t, false);
 // all types
 structure_ops(types, T, 2, true);
 {
  using std::numeric_limits;
  const vector<float> f = {-0.0f, 1.5f, numeric_limits<float>::infinity()};
  const vector<double> d = {1e-300, -numeric_limits<double>::infinity(), numeric_limits<double>::quiet_NaN()};
  const vector<int8_t> o = {-128, 127};
  const vector<int16_t> p = {-32768, 32767};
  const vector<int32_t> q = {INT32_MIN, INT32_MAX};
  const vector<int64_t> l = {INT64_MIN, INT64_MAX};
  const vector<bool> bb = {true};
  auto texts = [](const auto &v){vector<string> r; for (const auto x: v) r.push_back(show(x)); return r;};
  const vector<string> ss = {string("\0\xff", 2), string(300, 'x')};
  const vector<g1::id_of_t> r = {g1::id_of_t(0), g1::id_of_t(1ll << 60), g1::id_of_t(-1)};
  vector<string> rt;
  for (auto x: r) rt.push_back(show(x.get_record_id()));
  const vector<Blob> bl = {Blob(60, 2), Blob(1ll << 60, 1ll << 60)};
  SET_OPS(types, T, t, 0, s, string, 2, ss, texts(ss), true);
  SET_OPS(types, T, t, 1, bl, Blob, 2, bl, texts(bl), true);
  SET_OPS(types, T, t, 2, r, g1::id_of_t, 2, r, rt, true);
  SET_OPS(types, T, t, 3, b, char, 2, (vector<char>{1}), (vector<string>{"1"}), true);
  SET_OPS(types, T, t, 4, f, float, 2, f, texts(f), true);
  SET_OPS(types, T, t, 5, d, double, 2, d, texts(d), true);
  SET_OPS(types, T, t, 6, o, int8_t, 2, o, texts(o), true);
  SET_OPS(types, T, t, 7, p, int16_t, 2, p, texts(p), true);
  SET_OPS(types, T, t, 8, q, int32_t, 2, q, texts(q), true);
  SET_OPS(types, T, t, 9, l, int64_t, 2, l, texts(l), true);
  types.push_back({"write a blob", [](System &s){
   if (!s.m.live.used(T, 0)) {s.skip = true; return;}
   const string data(300, 'b');
   const Blob b = s.db->write_blob(data);
   s.db->set_bl(g1::id_of_t(0), b);
   both(s, [&](Model &m){return m.set(T, 1, 0, show(b));});
   require(s.db->read_blob(b) == data, "wrong blob", "blob");
   s.db->soft_checkpoint();
   require(s.db->read_blob(b) == data, "wrong blob", "blob");
   Readonly_Memory_File file(s.file.get_data().data(), s.file.get_data().size());
   g1::Readonly_Database db(file);
   require(file.read_blob(db.get_bl(g1::id_of_t(0))) == data, "wrong blob", "blob");
  }});
  for (int i = 0; i < 2; i++)
   types.push_back({"t delete and insert again " + to_string(i), [i](System &s){
    if (!s.m.live.used(T, i)) {s.skip = true; return;}
    api[T].erase(*s.db, i);
    api[T].insert(*s.db, i);
    both(s, [&](Model &m){m.erase(T, i); m.insert(T, i); return true;});
   }});
  types.push_back({"t delete and new vector", [](System &s){
   if (!s.m.live.used(T, 0) || !s.m.live.used(T, 1)) {s.skip = true; return;}
   api[T].erase(*s.db, 0);
   api[T].erase(*s.db, 1);
   both(s, [&](Model &m){m.erase(T, 0); m.erase(T, 1); return true;});
   created(s, T, api[T].create_vector(*s.db, 2), 2);
  }});
  reopen_op(types);
 }
 ex.explore("sizes", [&](Chooser &c){sizes(c);});
 ex.explore_states("unique", [&](Chooser &c){run(c, unique, 3, false);}, t ? 1000 : 5);
 ex.explore_states("multi", [&](Chooser &c){run(c, multi, 2, false);}, t ? 1000 : 6);
 ex.explore_states("pair", [&](Chooser &c){run(c, pair, 2, false);}, t ? 1000 : 6);
 ex.explore_states("mixed", [&](Chooser &c){run(c, mixed, 2, false);}, t ? 7 : 5);
 ex.explore_states("follow", [&](Chooser &c){run(c, follow, 2, true);}, t ? 1000 : 6);
 ex.explore_states("writable", [&](Chooser &c){run(c, writable, 2, false);}, t ? 1000 : 6);
 ex.explore_states("types", [&](Chooser &c){run(c, types, 2, false);}, t ? 4 : 3);
 ex.explore_states("external", [&](Chooser &c){external(c, t ? 4 : 3);}, t ? 1000 : 6);
 return ex.finish
 (
  "model_checking",
  "Operations, valid and invalid, are applied through the generated API (or joedb::Writable), and to a model. After each operation, the content, "
  "iteration, indexes and lookups of the live generated database are compared with the model; the file is read again by generated code "
  "(writable, read-only, following client) and by the interpreted database, and all are compared with the model.",
  {"NaN is not used as a key of an index", "after a failed update of a vector with a unique index, only what the documentation promises is required"}
 );
}
