// C06: the interpreted database follows a relational model.
// C07: identifiers are allocated, freed and enumerated like a set.
#include "explorer.h"
#include "dump.h"

#include "joedb/interpreted/Database.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/Multiplexer.h"

#include <climits>
#include <functional>
#include <memory>

using namespace joedb;
using mc::Chooser;
using mc::require;

/////////////////////////////////////////////////////////////////////////////
// C07
/////////////////////////////////////////////////////////////////////////////

struct Set_Model
{
 int size = 0;
 std::set<int> used;
 bool is_used(int64_t i) const {return i >= 0 && i < size && used.count(int(i));}
 bool used_vector(int64_t i, uint64_t n) const
 {
  if (i < 0 || n > uint64_t(size) || i + int64_t(n) > size)
   return false;
  for (uint64_t k = 0; k < n; k++)
   if (!is_used(i + int64_t(k)))
    return false;
  return true;
 }
 bool free_vector(int64_t i, uint64_t n) const
 {
  if (i < 0)
   return false;
  for (uint64_t k = 0; k < n && i + int64_t(k) < size; k++)
   if (is_used(i + int64_t(k)))
    return false;
  return true;
 }
};

template<typename K> static std::vector<int> forward(const K &k, Record_Id list, int limit)
{
 std::vector<int> v;
 for (Record_Id i = k.get_next(list); i != list; i = k.get_next(i))
 {
  v.push_back(int(to_underlying(i)));
  require(int(v.size()) <= limit, "iteration forward does not end", "iteration");
  require(v.back() >= 0, "iteration leaves the list", "iteration");
 }
 return v;
}

template<typename K> static std::vector<int> backward(const K &k, Record_Id list, int limit)
{
 std::vector<int> v;
 for (Record_Id i = k.get_previous(list); i != list; i = k.get_previous(i))
 {
  v.push_back(int(to_underlying(i)));
  require(int(v.size()) <= limit, "iteration backward does not end", "iteration");
  require(v.back() >= 0, "iteration leaves the list", "iteration");
 }
 return v;
}

static const std::vector<uint64_t> &range_sizes()
{
 static const std::vector<uint64_t> v =
 {
  1, 2, 3, 4, 5, 6, 7, 100,
  uint64_t(INT64_MAX) - 3, uint64_t(INT64_MAX), uint64_t(INT64_MAX) + 1, UINT64_MAX - 3, UINT64_MAX - 1, UINT64_MAX
 };
 return v;
}

template<typename K> static void check_keeper(const K &k, const Set_Model &m, bool dense_keeper)
{
 require(to_underlying(k.get_size()) == m.size, "size is " + std::to_string(to_underlying(k.get_size())) + " instead of " + std::to_string(m.size), "size");
 require(int(k.size()) == m.size, "size()", "size");
 require(to_underlying(k.get_used_count()) == int(m.used.size()), "used count is " + std::to_string(to_underlying(k.get_used_count())), "count");
 static const int64_t extreme[] = {-3, -2, -1, INT64_MAX - 1, INT64_MAX, INT64_MIN, INT64_MIN + 1};
 std::vector<int64_t> ids(extreme, extreme + 7);
 for (int i = 0; i <= m.size + 3; i++)
  ids.push_back(i);
 for (const int64_t i: ids)
 {
  require(k.is_used(Record_Id(i)) == m.is_used(i), "is_used(" + std::to_string(i) + ") is wrong", "is_used");
  if (i >= 0)
   require(k.is_free(Record_Id(i)) == !m.is_used(i), "is_free(" + std::to_string(i) + ") is wrong", "is_free");
  for (const uint64_t n: range_sizes())
  {
   require(k.is_used_vector(Record_Id(i), n) == m.used_vector(i, n), "is_used_vector(" + std::to_string(i) + ", " + std::to_string(n) + ") is wrong", "is_used_vector");
   // beyond the end of the address space, a range is not free nor used
   if (n < (1ull << 62) && i < int64_t(1) << 62)
    require(k.is_free_vector(Record_Id(i), n) == m.free_vector(i, n), "is_free_vector(" + std::to_string(i) + ", " + std::to_string(n) + ") is wrong", "is_free_vector");
  }
 }
 const std::vector<int> f = forward(k, Freedom_Keeper_Constants::used_list, m.size + 1);
 require(f.size() == m.used.size() && std::set<int>(f.begin(), f.end()) == m.used, "iteration forward does not visit each used record exactly once", "iteration");
 std::vector<int> b = backward(k, Freedom_Keeper_Constants::used_list, m.size + 1);
 std::reverse(b.begin(), b.end());
 require(f == b, "iterations forward and backward differ", "iteration");
 require(to_underlying(k.get_first_used()) == (f.empty() ? to_underlying(Freedom_Keeper_Constants::used_list) : f[0]), "first used", "iteration");
 if (k.is_dense())
 {
  // dense means: the used identifiers are 0..n-1
  require(m.used.empty() || *m.used.rbegin() == int(m.used.size()) - 1, "dense, but the used identifiers are not the first ones", "dense");
 }
}

template<typename K> static uint64_t keeper_hash(const K &k, const Set_Model &m)
{
 std::string s = std::to_string(m.size) + (k.is_dense() ? "d" : "l");
 for (const int i: forward(k, Freedom_Keeper_Constants::used_list, m.size + 1))
  s += "," + std::to_string(i);
 s += ";";
 for (const int i: forward(k, Freedom_Keeper_Constants::free_list, m.size + 1))
  s += "," + std::to_string(i);
 return mc::hash_string(s);
}

struct Keeper_Op {std::string name; int kind; int a, b;};

static std::vector<Keeper_Op> keeper_ops(const Set_Model &m, int max_size)
{
 std::vector<Keeper_Op> v;
 auto add = [&](const std::string &name, int kind, int a = 0, int b = 0) {v.push_back(Keeper_Op{name, kind, a, b});};
 if (int(m.used.size()) < max_size && (int(m.used.size()) < m.size || m.size < max_size))
  add("allocate", 0);
 if (m.size < max_size)
  add("push_back", 1);
 for (int s = 0; s <= max_size; s++)
  if (s != m.size)
   add("resize " + std::to_string(s), 2, s);
 for (int i = 0; i < m.size; i++)
  if (m.is_used(i))
   add("free " + std::to_string(i), 3, i);
  else
   add("use " + std::to_string(i), 4, i);
 for (int i = 0; i <= m.size; i++)
  for (int n = 0; i + n <= m.size; n++)
  {
   if (n == 1)
    continue;
   if (n && m.used_vector(i, uint64_t(n)))
    add("free_vector " + std::to_string(i) + " " + std::to_string(n), 5, i, n);
   if (m.free_vector(i, uint64_t(n)))
    add("use_vector " + std::to_string(i) + " " + std::to_string(n), 6, i, n);
  }
 return v;
}

template<typename K> static void keeper_step(K &k, Set_Model &m, const Keeper_Op &op)
{
 switch (op.kind)
 {
  case 0:
  {
   const Record_Id r = k.get_free_record();
   const int i = int(to_underlying(r));
   require(i >= 0 && i < int(k.size()), "allocated identifier " + std::to_string(i) + " is out of range", "allocate");
   require(!m.is_used(i), "identifier " + std::to_string(i) + " is allocated twice", "allocate");
   require(int(k.size()) == m.size || int(k.size()) == m.size + 1, "allocation changed the size", "allocate");
   m.size = int(k.size());
   k.use(r);
   m.used.insert(i);
  }
  break;
  case 1:
  {
   const int i = int(to_underlying(k.push_back()));
   require(i == m.size, "push_back returns " + std::to_string(i), "push_back");
   m.size++;
  }
  break;
  case 2: k.resize(Record_Id(op.a)); m.size = std::max(m.size, op.a); break;
  case 3: k.free(Record_Id(op.a)); m.used.erase(op.a); break;
  case 4: k.use(Record_Id(op.a)); m.used.insert(op.a); break;
  case 5: k.free_vector(Record_Id(op.a), size_t(op.b)); for (int i = 0; i < op.b; i++) m.used.erase(op.a + i); break;
  case 6: k.use_vector(Record_Id(op.a), size_t(op.b)); for (int i = 0; i < op.b; i++) m.used.insert(op.a + i); break;
 }
}

template<typename K> static void keeper(Chooser &c, int max_size, int depth)
{
 K k;
 Set_Model m;
 if (!c.replaying())
  check_keeper(k, m, false);
 for (int d = 0; d < depth; d++)
 {
  const std::vector<Keeper_Op> ops = keeper_ops(m, max_size);
  const int x = c.choose(int(ops.size()) + 1);
  if (x == int(ops.size()))
   break;
  c.note(ops[size_t(x)].name);
  keeper_step(k, m, ops[size_t(x)]);
  c.transition();
  if (!c.replaying())
   check_keeper(k, m, false);
  if (d == 1)
   c.split();
  c.state(keeper_hash(k, m));
  c.outcome(std::to_string(m.size) + " " + std::to_string(m.used.size()));
  c.prune(keeper_hash(k, m));
 }
}

// A dense keeper refuses what would make holes, and reports it
static void dense_keeper(Chooser &c, int max_size, int depth)
{
 Dense_Freedom_Keeper k;
 Set_Model m;
 for (int d = 0; d < depth; d++)
 {
  const std::vector<Keeper_Op> ops = keeper_ops(m, max_size);
  const int x = c.choose(int(ops.size()) + 1);
  if (x == int(ops.size()))
   break;
  const Keeper_Op &op = ops[size_t(x)];
  c.note(op.name);
  Set_Model after = m;
  bool done = true;
  switch (op.kind)
  {
   case 3: done = k.free(Record_Id(op.a)); after.used.erase(op.a); break;
   case 4: done = k.use(Record_Id(op.a)); after.used.insert(op.a); break;
   case 5: done = k.free_vector(Record_Id(op.a), size_t(op.b)); for (int i = 0; i < op.b; i++) after.used.erase(op.a + i); break;
   case 6: done = k.use_vector(Record_Id(op.a), size_t(op.b)); for (int i = 0; i < op.b; i++) after.used.insert(op.a + i); break;
   default: keeper_step(k, after, op);
  }
  if (done)
   m = after;
  else
  {
   const bool dense = after.used.empty() || *after.used.rbegin() == int(after.used.size()) - 1;
   // refusing is only a matter of efficiency, but must change nothing
   (void)dense;
  }
  c.transition();
  if (!c.replaying())
   check_keeper(k, m, true);
  c.state(keeper_hash(k, m));
  c.outcome(std::to_string(m.size) + " " + std::to_string(m.used.size()));
  c.prune(keeper_hash(k, m));
 }
}

// The same through the tables of a database
static void table_identifiers(Chooser &c, int max_id, int depth)
{
 Database db;
 db.create_table("t");
 db.add_field(Table_Id(1), "f", Type::int32());
 std::set<int> used;
 auto check = [&]()
 {
  const Freedom_Keeper &fk = db.get_freedom(Table_Id(1));
  Set_Model m;
  m.size = int(fk.size());
  m.used = used;
  require(used.empty() || *used.rbegin() < m.size, "used record beyond the size");
  check_keeper(fk, m, false);
  for (int i = -1; i <= max_id + 2; i++)
   require(db.is_used(Table_Id(1), Record_Id(i)) == (used.count(i) > 0), "is_used(" + std::to_string(i) + ")");
 };
 for (int d = 0; d < depth; d++)
 {
  const int kind = c.choose(5);
  if (kind == 4)
   break;
  const int id = c.choose(max_id + 2) - 1;
  const int n = kind < 2 ? 1 : c.choose(max_id + 3);
  if (n == 0)
   throw mc::Skip();
  Set_Model m;
  m.size = max_id + 10;
  m.used = used;
  static const char *name[] = {"insert", "delete", "insert_vector", "delete_vector"};
  c.note(std::string(name[kind]) + " " + std::to_string(id) + " " + std::to_string(n));
  if ((kind == 0 || kind == 2) && id + n - 1 > max_id)
   throw mc::Skip();
  const bool inserting = kind == 0 || kind == 2;
  const bool valid = inserting ? m.free_vector(id, uint64_t(n)) : m.used_vector(id, uint64_t(n));
  bool done = false;
  try
  {
   switch (kind)
   {
    case 0: db.insert_into(Table_Id(1), Record_Id(id)); break;
    case 1: db.delete_from(Table_Id(1), Record_Id(id)); break;
    case 2: db.insert_vector(Table_Id(1), Record_Id(id), size_t(n)); break;
    case 3: db.delete_vector(Table_Id(1), Record_Id(id), size_t(n)); break;
   }
   done = true;
  }
  catch (const std::exception &) {}
  require(done == valid, done ? "an invalid operation was accepted" : "a valid operation was refused", "table");
  if (done)
   for (int i = 0; i < n; i++)
    if (inserting)
     used.insert(id + i);
    else
     used.erase(id + i);
  c.transition();
  if (!c.replaying())
   check();
  if (d == 0)
   c.split();
  Set_Model now;
  now.size = int(db.get_freedom(Table_Id(1)).size());
  now.used = used;
  const uint64_t h = keeper_hash(db.get_freedom(Table_Id(1)), now);
  c.state(h);
  c.outcome(std::to_string(used.size()));
  c.prune(h);
 }
}

/////////////////////////////////////////////////////////////////////////////
// C06
/////////////////////////////////////////////////////////////////////////////

struct Refused {};

struct Relational
{
 struct Field {std::string name; std::string type; std::string def;};
 struct Table
 {
  std::string name;
  std::map<int, Field> fields;
  int next_field = 1;
  std::map<int, std::map<int, std::string>> records;
 };
 std::map<int, Table> tables;
 int next_table = 1;

 static bool identifier(const std::string &s)
 {
  // letters, digits and single underscores, not starting with a digit
  if (s.empty() || isdigit((unsigned char)s[0]))
   return false;
  for (size_t i = 0; i < s.size(); i++)
  {
   if (!(isalnum((unsigned char)s[i]) || s[i] == '_') || (unsigned char)s[i] > 127)
    return false;
   if (i && s[i] == '_' && s[i - 1] == '_')
    return false;
  }
  return true;
 }

 Table &table(int t) {const auto i = tables.find(t); if (i == tables.end()) throw Refused(); return i->second;}
 Field &field(int t, int f) {Table &x = table(t); const auto i = x.fields.find(f); if (i == x.fields.end()) throw Refused(); return i->second;}
 void check(bool b) {if (!b) throw Refused();}

 bool table_name_used(const std::string &n) const
 {
  for (const auto &[i, t]: tables)
   if (t.name == n)
    return true;
  return false;
 }

 void create_table(const std::string &n)
 {
  check(identifier(n) && !table_name_used(n));
  tables[next_table++].name = n;
 }
 void drop_table(int t) {table(t); tables.erase(t);}
 void rename_table(int t, const std::string &n) {table(t); check(identifier(n) && !table_name_used(n)); tables[t].name = n;}
 static bool field_name_used(const Table &t, const std::string &n)
 {
  for (const auto &[i, f]: t.fields)
   if (f.name == n)
    return true;
  return false;
 }
 void add_field(int t, const std::string &n, const std::string &type, const std::string &def)
 {
  Table &x = table(t);
  check(identifier(n) && !field_name_used(x, n));
  for (auto &[r, v]: x.records)
   v[x.next_field] = def;
  x.fields[x.next_field++] = Field{n, type, def};
 }
 void drop_field(int t, int f)
 {
  field(t, f);
  tables[t].fields.erase(f);
  for (auto &[r, v]: tables[t].records)
   v.erase(f);
 }
 void rename_field(int t, int f, const std::string &n)
 {
  field(t, f);
  check(identifier(n) && !field_name_used(tables[t], n));
  tables[t].fields[f].name = n;
 }
 bool used(Table &t, int r) {return t.records.count(r) > 0;}
 void insert(int t, int r, int n)
 {
  Table &x = table(t);
  check(r >= 0);
  for (int i = 0; i < n; i++)
   check(!used(x, r + i));
  for (int i = 0; i < n; i++)
  {
   auto &v = x.records[r + i];
   for (const auto &[f, field]: x.fields)
    v[f] = field.def;
  }
 }
 void erase(int t, int r, int n)
 {
  Table &x = table(t);
  for (int i = 0; i < n; i++)
   check(used(x, r + i));
  for (int i = 0; i < n; i++)
   x.records.erase(r + i);
 }
 void update(int t, int r, int f, const std::string &type, const std::vector<std::string> &values)
 {
  check(field(t, f).type == type);
  for (size_t i = 0; i < values.size(); i++)
   check(used(tables[t], r + int(i)));
  for (size_t i = 0; i < values.size(); i++)
   tables[t].records[r + int(i)][f] = values[i];
 }

 std::string text() const
 {
  std::string out;
  for (const auto &[id, t]: tables)
  {
   out += "table " + std::to_string(id) + " " + t.name + "\n";
   for (const auto &[f, field]: t.fields)
    out += " field " + std::to_string(f) + " " + field.name + " " + field.type + "\n";
   for (const auto &[r, v]: t.records)
   {
    out += " " + std::to_string(r);
    for (const auto &[f, value]: v)
     out += " " + value;
    out += "\n";
   }
  }
  return out;
 }
};

struct Op
{
 std::string name;
 std::function<void(Writable &)> real;
 std::function<void(Relational &)> model;
};

static void add(std::vector<Op> &v, const std::string &name, std::function<void(Writable &)> real, std::function<void(Relational &)> model)
{
 v.push_back(Op{name, real, model});
}

static Table_Id T(int x) {return Table_Id(uint16_t(x));}
static Field_Id F(int x) {return Field_Id(uint16_t(x));}
static Record_Id R(int x) {return Record_Id(x);}
static std::string str(int x) {return std::to_string(x);}

// What is not visible, but may influence what comes next
static std::string hidden(const Database &db)
{
 std::string s;
 for (const auto &[t, name]: db.get_tables())
 {
  const Freedom_Keeper &fk = db.get_freedom(t);
  Set_Model m;
  m.size = int(fk.size());
  s += str(m.size) + (fk.is_dense() ? "d" : "l");
  for (const int i: forward(fk, Freedom_Keeper_Constants::used_list, m.size + 1))
   s += "," + str(i);
  s += ";";
  for (const int i: forward(fk, Freedom_Keeper_Constants::free_list, m.size + 1))
   s += "," + str(i);
  for (const auto &[f, fname]: db.get_fields(t))
   for (int i = 0; i < m.size; i++)
    s += " " + mc::value_text(db, t, R(i), f);
  s += "\n";
 }
 return s;
}

static void run(Chooser &c, const std::vector<Op> &ops, int setup, int depth, Record_Id max_record_id, int split_at)
{
 Destructor_Logger::remove_logger();
 Memory_File file;
 auto journal = std::make_unique<Writable_Journal>(file);
 Database db(max_record_id);
 Multiplexer both{db, *journal};
 Relational model;
 const std::vector<std::string> table_names{"a", "b", "c", "", "1a", "a__b", "a b", "\xc3\xa9"};
 const std::vector<std::string> field_names{"x", "y", "z", "", "1a", "a__b"};

 auto check = [&](const std::string &what)
 {
  const std::string expected = model.text();
  const std::string got = mc::dump(db);
  require(expected == got, "after " + what + ", the database is\n" + got + "instead of\n" + expected, "content");
  // names
  for (const std::string &n: table_names)
  {
   int id = 0;
   for (const auto &[i, t]: model.tables)
    if (t.name == n)
     id = i;
   require(int(to_underlying(db.find_table(n))) == id, "find_table " + n, "find_table");
  }
  for (const auto &[i, t]: model.tables)
   for (const std::string &n: field_names)
   {
    int id = 0;
    for (const auto &[j, f]: t.fields)
     if (f.name == n)
      id = j;
    require(int(to_underlying(db.find_field(T(i), n))) == id, "find_field " + n, "find_field");
   }
  for (int t = 0; t <= model.next_table; t++)
   for (int f = 0; f <= 4; f++)
   {
    std::string type = "null";
    const auto i = model.tables.find(t);
    if (i != model.tables.end() && i->second.fields.count(f))
     type = i->second.fields[f].type;
    require(mc::type_text(db.get_field_type(T(t), F(f))) == type, "type of field", "field_type");
   }
  for (const auto &[i, t]: model.tables)
  {
   const Freedom_Keeper &fk = db.get_freedom(T(i));
   Set_Model m;
   m.size = int(fk.size());
   for (const auto &[r, v]: t.records)
    m.used.insert(r);
   check_keeper(fk, m, false);
  }
 };

 auto check_replay = [&]()
 {
  Memory_File copy;
  journal->flush();
  copy.get_data() = file.get_data();
  Readonly_Journal reader(Journal_Construction_Lock(copy, Recovery::ignore_header));
  Database replayed(max_record_id);
  try
  {
   reader.raw_play_until(replayed, journal->get_position());
  }
  catch (const std::exception &e)
  {
   mc::fail(std::string("the journal cannot be replayed: ") + e.what(), "replay");
  }
  require(mc::dump(replayed) == model.text(), "the journal gives\n" + mc::dump(replayed) + "instead of\n" + model.text(), "replay");
 };

 for (int d = 0; d < setup + depth; d++)
 {
  const Op *op;
  if (d < setup)
   op = &ops[size_t(d)];
  else
  {
   const int x = c.choose(int(ops.size()) + 1 - setup);
   if (x == int(ops.size()) - setup)
    break;
   op = &ops[size_t(x + setup)];
  }
  Relational after = model;
  bool valid = true;
  try {op->model(after);} catch (const Refused &) {valid = false;}
  const int64_t position = journal->get_position();
  bool done = false;
  std::string error;
  try {op->real(both); done = true;} catch (const std::exception &e) {error = e.what();}
  c.note(op->name + (done ? "" : " (refused: " + error + ")"));
  c.transition();
  if (!c.replaying())
  {
   if (valid)
   {
    require(done, "valid operation refused: " + op->name + ": " + error, "refused");
    model = after;
   }
   else
   {
    require(!done, "invalid operation accepted: " + op->name, "accepted");
    require(journal->get_position() == position, "refused operation written: " + op->name, "written");
   }
   check(op->name);
  }
  else if (valid)
   model = after;
  if (d < setup)
   continue;
  const std::string s = model.text() + hidden(db) + str(model.next_table);
  uint64_t h = mc::hash_string(s);
  for (const auto &[i, t]: model.tables)
   h = h * 31 + uint64_t(t.next_field);
  if (d == setup + split_at)
   c.split();
  c.state(h);
  c.outcome(model.text());
  c.prune(h);
  if (!c.replaying())
   check_replay();
 }
}

static std::string int_text(int x) {return mc::show(int32_t(x));}

static void add_int_updates(std::vector<Op> &v, int t, int r, int f)
{
 for (int x: {0, 7})
  add(v, "update " + str(t) + " " + str(r) + " " + str(f) + " := " + str(x), [=](Writable &w){w.update_int32(T(t), R(r), F(f), x);}, [=](Relational &m){m.update(t, r, f, "int32", {int_text(x)});});
}

static void add_int_vector(std::vector<Op> &v, int t, int r, int f, int n)
{
 add(v, "update_vector " + str(t) + " " + str(r) + " " + str(f) + " size " + str(n),
  [=](Writable &w){std::vector<int32_t> x; for (int i = 0; i < n; i++) x.push_back(7 + i % 2); w.update_vector_int32(T(t), R(r), F(f), size_t(n), &x[0]);},
  [=](Relational &m){std::vector<std::string> x; for (int i = 0; i < n; i++) x.push_back(int_text(7 + i % 2)); m.update(t, r, f, "int32", x);});
}

static void add_insert(std::vector<Op> &v, int t, int r) {add(v, "insert " + str(t) + " " + str(r), [=](Writable &w){w.insert_into(T(t), R(r));}, [=](Relational &m){m.insert(t, r, 1);});}
static void add_delete(std::vector<Op> &v, int t, int r) {add(v, "delete " + str(t) + " " + str(r), [=](Writable &w){w.delete_from(T(t), R(r));}, [=](Relational &m){m.erase(t, r, 1);});}
static void add_insert_vector(std::vector<Op> &v, int t, int r, int n) {add(v, "insert_vector " + str(t) + " " + str(r) + " " + str(n), [=](Writable &w){w.insert_vector(T(t), R(r), size_t(n));}, [=](Relational &m){m.insert(t, r, n);});}
static void add_delete_vector(std::vector<Op> &v, int t, int r, int n) {add(v, "delete_vector " + str(t) + " " + str(r) + " " + str(n), [=](Writable &w){w.delete_vector(T(t), R(r), size_t(n));}, [=](Relational &m){m.erase(t, r, n);});}
static void add_create(std::vector<Op> &v, const std::string &n) {add(v, "create_table " + mc::show(n), [=](Writable &w){w.create_table(n);}, [=](Relational &m){m.create_table(n);});}
static void add_string_update(std::vector<Op> &v, int t, int r, int f)
{
 for (const char *x: {"", "s"})
  add(v, "update " + str(t) + " " + str(r) + " " + str(f) + " := " + mc::show(std::string(x)), [=](Writable &w){w.update_string(T(t), R(r), F(f), x);}, [=](Relational &m){m.update(t, r, f, "string", {mc::show(std::string(x))});});
}
static void add_string_vector(std::vector<Op> &v, int t, int r, int f, int n)
{
 add(v, "update_vector_string " + str(t) + " " + str(r) + " " + str(f) + " size " + str(n),
  [=](Writable &w){std::vector<std::string> x(size_t(n), "v"); w.update_vector_string(T(t), R(r), F(f), size_t(n), &x[0]);},
  [=](Relational &m){m.update(t, r, f, "string", std::vector<std::string>(size_t(n), mc::show(std::string("v"))));});
}
static void add_add_field(std::vector<Op> &v, int t, const std::string &n, int type)
{
 static const char *types[] = {"int32", "string", "reference(1)", "blob", "float64", "boolean", "int8", "int16", "int64", "float32"};
 const Type real[] = {Type::int32(), Type::string(), Type::reference(T(1)), Type::blob(), Type::float64(), Type::boolean(), Type::int8(), Type::int16(), Type::int64(), Type::float32()};
 const std::string def[] = {mc::show(int32_t(0)), mc::show(std::string()), mc::show(Record_Id::null), mc::show(Blob()), mc::show(0.0), mc::show(false), mc::show(int8_t(0)), mc::show(int16_t(0)), mc::show(int64_t(0)), mc::show(0.0f)};
 const Type ty = real[type];
 const std::string tn = types[type], d = def[type];
 add(v, "add_field " + str(t) + " " + mc::show(n) + " " + tn, [=](Writable &w){w.add_field(T(t), n, ty);}, [=](Relational &m){m.add_field(t, n, tn, d);});
}

static std::vector<Op> data_ops(int max_id)
{
 std::vector<Op> v;
 add_create(v, "a");
 add_add_field(v, 1, "x", 0);
 // end of the setup
 for (int r = -1; r <= max_id; r++)
 {
  add_insert(v, 1, r);
  add_delete(v, 1, r);
  for (int n = 2; r + n - 1 <= max_id; n++)
   add_insert_vector(v, 1, r, n);
  for (int n = 2; r + n - 1 <= max_id + 1; n++)
  {
   add_delete_vector(v, 1, r, n);
   add_int_vector(v, 1, r, 1, n);
  }
  add_int_updates(v, 1, r, 1);
 }
 // invalid in all states
 add_insert(v, 2, 0);
 add_delete(v, 0, 0);
 add_insert_vector(v, 2, 0, 2);
 add_delete_vector(v, 2, 0, 1);
 add_int_updates(v, 2, 0, 1);
 add_int_updates(v, 1, 0, 2);
 add_int_vector(v, 1, 0, 2, 2);
 add_string_update(v, 1, 0, 1);
 add_string_vector(v, 1, 0, 1, 2);
 return v;
}

static std::vector<Op> schema_ops(bool large)
{
 std::vector<Op> v;
 for (const char *n: {"a", "b"})
  add_create(v, n);
 for (int t = 1; t <= 2; t++)
 {
  add(v, "drop_table " + str(t), [=](Writable &w){w.drop_table(T(t));}, [=](Relational &m){m.drop_table(t);});
  for (const char *n: {"a", "c"})
   add(v, "rename_table " + str(t) + " " + n, [=](Writable &w){w.rename_table(T(t), n);}, [=](Relational &m){m.rename_table(t, n);});
 }
 add(v, "rename_table 1 to an invalid name", [=](Writable &w){w.rename_table(T(1), "a-b");}, [=](Relational &m){m.rename_table(1, "a-b");});
 for (const char *n: {"", "1a", "a__b", "a b", "\xc3\xa9"})
  add_create(v, n);
 for (int t = 1; t <= 2; t++)
 {
  add_add_field(v, t, "x", 0);
  add_add_field(v, t, "y", 1);
 }
 if (large)
  add_add_field(v, 1, "x", 2);
 add_add_field(v, 1, "1a", 0);
 add_add_field(v, 3, "x", 0);
 for (int f = 1; f <= 2; f++)
 {
  add(v, "drop_field 1 " + str(f), [=](Writable &w){w.drop_field(T(1), F(f));}, [=](Relational &m){m.drop_field(1, f);});
  for (const char *n: {"x", "z"})
   add(v, "rename_field 1 " + str(f) + " " + n, [=](Writable &w){w.rename_field(T(1), F(f), n);}, [=](Relational &m){m.rename_field(1, f, n);});
 }
 add(v, "rename_field 1 1 to an invalid name", [=](Writable &w){w.rename_field(T(1), F(1), "a__b");}, [=](Relational &m){m.rename_field(1, 1, "a__b");});
 add_insert(v, 1, 0);
 add_insert(v, 2, 1);
 add_insert_vector(v, 1, 1, 2);
 add_delete(v, 1, 0);
 add_int_updates(v, 1, 0, 1);
 add_int_updates(v, 2, 1, 1);
 add_string_update(v, 1, 0, 2);
 add_string_update(v, 1, 1, 1);
 return v;
}

// Two fields of every type, with values
static std::vector<Op> type_ops(int type)
{
 std::vector<Op> v;
 add_create(v, "a");
 add_insert_vector(v, 1, 0, 2);
 // end of setup
 add_add_field(v, 1, "x", type);
 add_add_field(v, 1, "y", 1);
 add_insert(v, 1, 2);
 add_insert_vector(v, 1, 2, 2);
 add_delete(v, 1, 0);
 add_delete(v, 1, 1);
 add_insert(v, 1, 0);
 add(v, "drop_field 1 1", [=](Writable &w){w.drop_field(T(1), F(1));}, [=](Relational &m){m.drop_field(1, 1);});
 for (int r = 0; r <= 2; r++)
 {
  #define TYPE_MACRO(cpp_type, return_type, type_id, R_, W_)\
  {\
   static const cpp_type value[2] = {mc_value_##type_id[0], mc_value_##type_id[1]};\
   std::string tn = #type_id;\
   if (tn == "reference")\
    tn = "reference(1)";\
   add(v, "update_" + tn + " " + str(r), [=](Writable &w){w.update_##type_id(T(1), R(r), F(1), value[1]);}, [=](Relational &m){m.update(1, r, 1, tn, {mc::show(return_type(value[1]))});});\
   add(v, "update_vector_" + tn + " " + str(r), [=](Writable &w){w.update_vector_##type_id(T(1), R(r), F(1), 2, value);}, [=](Relational &m){m.update(1, r, 1, tn, {mc::show(cpp_type(value[0])), mc::show(cpp_type(value[1]))});});\
  }
  static const std::string mc_value_string[2] = {"ab", "c"};
  static const int32_t mc_value_int32[2] = {5, -6};
  static const int64_t mc_value_int64[2] = {5, -(1ll << 40)};
  static const Record_Id mc_value_reference[2] = {Record_Id(1), Record_Id(0)};
  static const char mc_value_boolean[2] = {0, 1};
  static const float mc_value_float32[2] = {1.5f, -0.25f};
  static const double mc_value_float64[2] = {1.5, 1e300};
  static const int8_t mc_value_int8[2] = {5, -128};
  static const int16_t mc_value_int16[2] = {5, -3000};
  static const Blob mc_value_blob[2] = {Blob(41, 1), Blob(50, 0)};
  #include "joedb/TYPE_MACRO.h"
 }
 return v;
}

// Allocation failures in the middle of an insertion
static void huge(Chooser &c)
{
 Destructor_Logger::remove_logger();
 Database db;
 db.create_table("a");
 const int fields = c.choose(3);
 for (int i = 0; i < fields; i++)
  db.add_field(T(1), std::string(1, char('x' + i)), i ? Type::string() : Type::int32());
 const int before = c.choose(3);
 if (before == 1)
  db.insert_into(T(1), R(0));
 else if (before == 2)
  db.insert_into(T(1), R(1));
 const std::string dump = mc::dump(db);
 static const uint64_t sizes[] = {1ull << 60, (1ull << 61) - 1, 1ull << 62, uint64_t(INT64_MAX), 1ull << 63, UINT64_MAX - 3, UINT64_MAX};
 const int kind = c.choose(4);
 const uint64_t n = sizes[c.choose(7)];
 const int r = c.choose(3) - 1;
 c.note(str(fields) + " fields, state " + str(before) + ", kind " + str(kind) + " record " + str(r) + " size " + std::to_string(n));
 bool done = false;
 const bool table_without_fields = !fields;
 if (table_without_fields && kind < 2)
  throw mc::Skip(); // nothing is allocated per record
 // elsewhere than at the end, records are allocated one by one, until memory is full
 if (kind == 0 && r >= 0 && r != int(to_underlying(db.get_freedom(T(1)).get_size())) && !db.is_used(T(1), R(r)))
  throw mc::Skip();
 try
 {
  switch (kind)
  {
   case 0: db.insert_vector(T(1), R(r), n); break;
   case 1: db.insert_into(T(1), Record_Id(int64_t(n))); break;
   case 2: db.delete_vector(T(1), R(r), n); break;
   case 3: {int32_t x = 0; db.update_vector_int32(T(1), R(r), F(1), n, &x);} break;
  }
  done = true;
 }
 catch (const std::exception &e) {c.note(e.what());}
 require(!done, "accepted", "huge");
 require(mc::dump(db) == dump, "a refused operation changed the database", "huge_content");
 // the database is still usable
 for (int i = 0; i < 5; i++)
 {
  const bool used = db.is_used(T(1), R(i));
  if (!used)
   db.insert_into(T(1), R(i));
  require(db.is_used(T(1), R(i)), "cannot insert", "huge_after");
  if (fields)
   db.update_int32(T(1), R(i), F(1), 7 + i);
 }
 for (int i = 0; i < 5; i++)
 {
  if (fields)
   require(db.get_int32(T(1), R(i), F(1)) == 7 + i, "wrong value", "huge_after");
  if (fields > 1)
   require(db.get_string(T(1), R(i), F(2)).empty(), "wrong value", "huge_after");
 }
 c.transition();
 c.state(mc::hash_string(mc::dump(db) + hidden(db)));
 c.outcome(mc::dump(db));
}

int main(int argc, char **argv)
{
 const std::string id = argc > 1 ? argv[1] : "";
 mc::Explorer ex(argc, argv, id);
 const bool t = ex.is_thorough();
 if (id == "C07")
 {
  ex.explore_states("keeper", [&](Chooser &c){keeper<Freedom_Keeper>(c, t ? 7 : 5, 1000);});
  ex.explore_states("list_keeper", [&](Chooser &c){keeper<List_Freedom_Keeper>(c, t ? 6 : 5, 1000);});
  ex.explore_states("dense_keeper", [&](Chooser &c){dense_keeper(c, t ? 12 : 8, 1000);});
  ex.explore_states("table", [&](Chooser &c){table_identifiers(c, t ? 5 : 4, 1000);});
  return ex.finish
  (
   "model_checking",
   "All reachable states of the identifier keepers (and of a table of the interpreted database) up to the stated number of identifiers, "
   "closed under all operations; in every state, every test, range test and iteration is compared with a set.",
   {"preconditions of the keepers are respected (they are checked by their callers, see C06 and C08)"}
  );
 }
 if (id == "C06")
 {
  static const std::vector<Op> data = data_ops(2);
  static const std::vector<Op> data3 = data_ops(3);
  static const std::vector<Op> schema = schema_ops(t);
  ex.explore_states("data", [&](Chooser &c){run(c, data, 2, 1000, Record_Id::null, 1);});
  if (t)
   ex.explore_states("data_larger", [&](Chooser &c){run(c, data3, 2, 1000, Record_Id::null, 1);});
  ex.explore_states("limited", [&](Chooser &c){run(c, data, 2, 1000, R(5), 1);});
  ex.explore_states("schema", [&](Chooser &c){run(c, schema, 0, 1000, Record_Id::null, 1);}, t ? 10 : 7);
  for (int i = 0; i < 10; i++)
  {
   static std::vector<Op> ops[10];
   ops[i] = type_ops(i);
   ex.explore_states("type" + str(i), [&, i](Chooser &c){run(c, ops[i], 2, 1000, Record_Id::null, 1);}, t ? 10 : 7);
  }
  ex.explore("huge", [&](Chooser &c){huge(c);});
  return ex.finish
  (
   "model_checking",
   "Operations (valid and invalid) are applied to an interpreted database combined with a journal, and to a relational model. "
   "After each operation, the content, names and identifiers are compared, and in each new state the journal is replayed. "
   "The data parts are closed (all reachable states); schema and type parts cover all sequences of the stated length.",
   {"states are identified by their content, identifier lists and values of unused records"}
  );
 }
 std::cerr << "unknown property\n";
 return 2;
}
