// C27: fan-out and filtering deliver exactly the selected operations.
#include "explorer.h"
#include "dump.h"

#include "joedb/Multiplexer.h"
#include "joedb/Selective_Writable.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Writable_Journal.h"
#include "joedb/concurrency/Writable_Database_Client.h"

#include <functional>
#include <memory>

using namespace joedb;
using mc::Chooser;
using mc::require;

static Table_Id T(int x) {return Table_Id(x);}
static Record_Id R(int64_t x) {return Record_Id(x);}
static Field_Id F(int x) {return Field_Id(x);}

enum Kind {schema, data, information, control, blob};

struct Op
{
 std::string name;
 Kind kind;
 std::function<void(Writable &)> f;
};
using Ops = std::vector<Op>;

#define OP(kind, text) Op{#text, kind, [](Writable &w) {text;}}

template<typename X> static X example(int i) {return X(i * 37 % 100);}
template<> bool example<bool>(int i) {return i & 1;}
template<> char example<char>(int i) {return char(i & 1);}
template<> std::string_view example<std::string_view>(int i) {static const char *s[] = {"", "abc", "d", "ef"}; return s[i & 3];}
template<> std::string example<std::string>(int i) {return std::string(example<std::string_view>(i));}
template<> Record_Id example<Record_Id>(int i) {return R(i - 1);}
template<> Blob example<Blob>(int i) {return Blob(41 + i, 3);}

// Every event, in several variants
static Ops all_operations()
{
 Ops ops
 {
  OP(schema, w.create_table("t1")), OP(schema, w.create_table("")), OP(schema, w.drop_table(T(1))), OP(schema, w.drop_table(T(7))),
  OP(schema, w.rename_table(T(1), "u")), OP(schema, w.add_field(T(1), "f", Type::int32())), OP(schema, w.add_field(T(2), "r", Type::reference(T(1)))),
  OP(schema, w.drop_field(T(1), F(2))), OP(schema, w.rename_field(T(2), F(1), "g")), OP(schema, w.custom("c")),
  OP(information, w.comment("hello")), OP(information, w.comment("")), OP(information, w.timestamp(12)), OP(information, w.timestamp(-1)), OP(information, w.valid_data()),
  OP(control, w.flush()), OP(control, w.start_writing(5)), OP(control, w.end_writing(9)), OP(control, w.soft_checkpoint()), OP(control, w.hard_checkpoint()),
  OP(data, w.insert_into(T(1), R(0))), OP(data, w.insert_into(T(3), R(1ll << 40))), OP(data, w.delete_from(T(1), R(2))),
  OP(data, w.insert_vector(T(1), R(3), 4)), OP(data, w.insert_vector(T(1), R(3), 0)), OP(data, w.insert_vector(T(2), R(0), 1)),
  OP(data, w.delete_vector(T(1), R(3), 4)), OP(data, w.delete_vector(T(1), R(3), 1)),
  OP(blob, w.on_blob(Blob(50, 3))), OP(blob, w.on_blob(Blob())), OP(blob, w.write_blob("xyz")), OP(blob, w.write_blob("")),
 };
 #define TYPE_MACRO(type, return_type, type_id, Rd, W)\
 for (int i = 0; i < 3; i++)\
  ops.push_back(Op{"update_" #type_id " " + std::to_string(i), data, [i](Writable &w) {w.update_##type_id(T(1 + i), R(i * 5), F(3 - i), example<return_type>(i));}});\
 for (size_t n = 0; n < 4; n++)\
  ops.push_back(Op{"update_vector_" #type_id " " + std::to_string(n), data, [n](Writable &w)\
  {\
   std::unique_ptr<type[]> v(new type[4]);\
   for (size_t i = 0; i < n; i++) v[i] = type(example<type>(int(i + n)));\
   w.update_vector_##type_id(T(1), R(2), F(4), n, v.get());\
  }});
 #include "joedb/TYPE_MACRO.h"
 return ops;
}

// A recorder of everything, which may want blobs, and has a position
class Target: public mc::Recorder
{
 public:
  int64_t position = 0;
  bool wants = false;
  Target() {checkpoints = true;}
  int64_t get_position() const override {return position;}
  void flush() override {ops.push_back("flush");}
  void start_writing(int64_t p) override {ops.push_back("start_writing " + std::to_string(p));}
  void end_writing(int64_t p) override {ops.push_back("end_writing " + std::to_string(p));}
  void on_blob(Blob b) override {ops.push_back("on_blob " + mc::show(b));}
  bool wants_blob_data() const override {return wants;}
  Blob write_blob(std::string_view s) override {ops.push_back("write_blob " + mc::show(s)); position += 10; return Blob(position, int64_t(s.size()));}
};

static std::vector<std::string> direct(const std::vector<const Op *> &sequence, bool wants, bool vectors = true)
{
 Target t;
 t.wants = wants;
 t.keep_vectors = vectors;
 for (const Op *op: sequence)
  if (wants || op->name.find("write_blob") == std::string::npos)
   op->f(t);
 return t.ops;
}

static std::string text(const std::vector<std::string> &v)
{
 std::string s;
 for (const auto &x: v)
  s += " " + x + "\n";
 return s;
}

static std::unique_ptr<Multiplexer> multiplexer(std::vector<Target> &t, size_t n)
{
 if (n == 0) return std::make_unique<Multiplexer>(std::initializer_list<std::reference_wrapper<Writable>>{});
 if (n == 1) return std::make_unique<Multiplexer>(std::initializer_list<std::reference_wrapper<Writable>>{t[0]});
 if (n == 2) return std::make_unique<Multiplexer>(std::initializer_list<std::reference_wrapper<Writable>>{t[0], t[1]});
 return std::make_unique<Multiplexer>(std::initializer_list<std::reference_wrapper<Writable>>{t[0], t[1], t[2]});
}

static void forward(Chooser &c, int depth)
{
 static const Ops ops = all_operations();
 const size_t n = size_t(c.choose(4));
 const int wants = c.choose(1 << n); // which targets want blobs
 c.split();
 const bool nested = n > 0 && c.flip();
 std::vector<Target> t(n);
 for (size_t i = 0; i < n; i++)
  t[i].wants = wants >> i & 1;
 auto inner = multiplexer(t, n);
 Target last;
 Multiplexer outer{*inner, last};
 Writable &w = nested ? static_cast<Writable &>(outer) : *inner;
 std::vector<const Op *> sequence;
 for (int d = 0; d < depth; d++)
 {
  sequence.push_back(&ops[size_t(c.choose(int(ops.size())))]);
  c.note(sequence.back()->name);
  sequence.back()->f(w);
  c.transition();
  for (size_t i = 0; i < n; i++)
  {
   const auto expected = direct(sequence, t[i].wants);
   require(t[i].ops == expected, "target " + std::to_string(i) + " received\n" + text(t[i].ops) + "instead of\n" + text(expected), "forward");
  }
  if (nested)
  {
   const auto expected = direct(sequence, false);
   require(last.ops == expected, "the last target received\n" + text(last.ops) + "instead of\n" + text(expected), "forward");
  }
  require(w.wants_blob_data() == (wants != 0), "wants_blob_data", "wants");
 }
 // a blob goes to each target that wants it; with one such target its identifier is returned
 const Blob b = w.write_blob("more");
 for (size_t i = 0; i < n; i++)
 {
  auto expected = direct(sequence, t[i].wants);
  if (t[i].wants) expected.push_back("write_blob " + mc::show("more"));
  require(t[i].ops == expected, "blob of target " + std::to_string(i), "blob");
 }
 if (wants && !(wants & (wants - 1)))
 {
  const Target &x = t[wants == 1 ? 0 : wants == 2 ? 1 : 2];
  require(b.get_position() == x.position && b.get_size() == 4, "the identifier of the blob is not the one of the target that stores it", "blob_result");
  require(w.get_position() == x.position, "position", "position");
 }
 c.state(mc::hash_string(std::to_string(n) + std::to_string(wants) + text(direct(sequence, true))));
 c.outcome(std::to_string(n));
}

static void filter(Chooser &c, int depth)
{
 static const Ops ops = all_operations();
 const int mode = 1 + c.choose(7);
 c.split();
 Target t;
 t.keep_vectors = false;
 t.position = 77;
 Selective_Writable w(t, Selective_Writable::Mode(mode));
 std::vector<const Op *> selected;
 bool has_blobs = false;
 for (int d = 0; d < depth; d++)
 {
  const Op &op = ops[size_t(c.choose(int(ops.size())))];
  c.note(op.name);
  const size_t before = t.ops.size();
  op.f(w);
  c.transition();
  if (op.kind == blob)
  {
   has_blobs = has_blobs || op.name.find("on_blob") != std::string::npos;
   require(t.ops.size() == before, "a blob passes the filter", "filter_blob");
  }
  else if (op.name.find("flush") != std::string::npos)
  {
   // not an operation of the journal: it may be forwarded or not
   while (t.ops.size() > before)
   {
    require(t.ops.back() == "flush", "flush becomes " + t.ops.back(), "filter_flush");
    t.ops.pop_back();
   }
  }
  else if (op.kind == control || (op.kind == schema && (mode & 1)) || (op.kind == data && (mode & 2)) || (op.kind == information && (mode & 4)))
   selected.push_back(&op);
  const auto expected = direct(selected, false, false);
  require(t.ops == expected, "mode " + std::to_string(mode) + ": received\n" + text(t.ops) + "instead of\n" + text(expected), "filter");
  require(w.has_blobs() == has_blobs, "has_blobs", "has_blobs");
  require(!w.wants_blob_data(), "a filter wants blobs but does not write them", "filter_wants");
  require(w.get_position() == 77, "position", "filter_position");
 }
 c.state(mc::hash_string(std::to_string(mode) + text(t.ops)));
 c.outcome(std::to_string(mode));
}

/////////////////////////////////////////////////////////////////////////////
// Databases
/////////////////////////////////////////////////////////////////////////////

// vectors are expanded
class Expander: public Loop_Writable
{
 private:
  Database &db;
 public:
  Expander(Database &db): db(db) {}
  void create_table(const std::string &name) override {db.create_table(name);}
  void drop_table(Table_Id t) override {db.drop_table(t);}
  void rename_table(Table_Id t, const std::string &name) override {db.rename_table(t, name);}
  void add_field(Table_Id t, const std::string &name, Type type) override {db.add_field(t, name, type);}
  void drop_field(Table_Id t, Field_Id f) override {db.drop_field(t, f);}
  void rename_field(Table_Id t, Field_Id f, const std::string &name) override {db.rename_field(t, f, name);}
  void insert_into(Table_Id t, Record_Id r) override {db.insert_into(t, r);}
  void delete_from(Table_Id t, Record_Id r) override {db.delete_from(t, r);}
  #define TYPE_MACRO(type, return_type, type_id, Rd, W)\
  void update_##type_id(Table_Id t, Record_Id r, Field_Id f, return_type v) override {db.update_##type_id(t, r, f, v);}
  #include "joedb/TYPE_MACRO.h"
};

// Fields 1.. of table 1: one of each type
static const int fields = 1
#define TYPE_MACRO(type, return_type, type_id, Rd, W) + 1
#include "joedb/TYPE_MACRO.h"
- 1;

static Ops setup()
{
 Ops ops {OP(schema, w.create_table("t"))};
 ops.push_back(OP(schema, w.add_field(T(1), "string", Type::string())));
 ops.push_back(OP(schema, w.add_field(T(1), "int32", Type::int32())));
 ops.push_back(OP(schema, w.add_field(T(1), "int64", Type::int64())));
 ops.push_back(OP(schema, w.add_field(T(1), "reference", Type::reference(T(1)))));
 ops.push_back(OP(schema, w.add_field(T(1), "boolean", Type::boolean())));
 ops.push_back(OP(schema, w.add_field(T(1), "float32", Type::float32())));
 ops.push_back(OP(schema, w.add_field(T(1), "float64", Type::float64())));
 ops.push_back(OP(schema, w.add_field(T(1), "int8", Type::int8())));
 ops.push_back(OP(schema, w.add_field(T(1), "int16", Type::int16())));
 ops.push_back(OP(schema, w.add_field(T(1), "blob", Type::blob())));
 return ops;
}

// own_storage: the values are first written into the storage of the target, if it has one
template<typename X> static X *storage(X *own, std::vector<X> &buffer) {return own ? own : buffer.data();}

static Ops database_alphabet()
{
 Ops ops
 {
  OP(data, w.insert_into(T(1), R(0))), OP(data, w.insert_into(T(1), R(2))), OP(data, w.insert_vector(T(1), R(0), 3)), OP(data, w.insert_vector(T(1), R(1), 2)),
  OP(data, w.delete_from(T(1), R(0))), OP(data, w.delete_from(T(1), R(1))), OP(data, w.delete_vector(T(1), R(0), 3)), OP(data, w.delete_vector(T(1), R(1), 2)),
  OP(data, w.insert_into(T(2), R(0))), OP(data, w.delete_from(T(1), R(5))), OP(data, w.insert_into(T(1), R(-1))),
  OP(schema, w.create_table("t")), OP(schema, w.create_table("u")), OP(schema, w.drop_table(T(2))), OP(schema, w.rename_table(T(2), "v")), OP(schema, w.rename_table(T(1), "u")),
  OP(schema, w.add_field(T(1), "string", Type::int8())), OP(schema, w.add_field(T(2), "x", Type::reference(T(1)))), OP(schema, w.drop_field(T(1), F(5))), OP(schema, w.rename_field(T(1), F(2), "x")),
  OP(information, w.comment("c")), OP(information, w.valid_data()),
 };
 int f = 0;
 #define TYPE_MACRO(type, return_type, type_id, Rd, W)\
 f++;\
 ops.push_back(Op{"update_" #type_id, data, [f](Writable &w) {w.update_##type_id(T(1), R(0), F(f), example<return_type>(1));}});\
 ops.push_back(Op{"update_vector_" #type_id, data, [f](Writable &w)\
 {\
  std::unique_ptr<type[]> v(new type[2]);\
  for (size_t i = 0; i < 2; i++) v[i] = type(example<type>(int(i + 2)));\
  w.update_vector_##type_id(T(1), R(1), F(f), 2, v.get());\
 }});
 #include "joedb/TYPE_MACRO.h"
 ops.push_back(OP(data, w.update_int32(T(1), R(7), F(2), 3)));
 ops.push_back(OP(data, w.update_int32(T(1), R(0), F(3), 3)));
 return ops;
}

static bool apply(const Op &op, Writable &w)
{
 try {op.f(w); return true;}
 catch (const std::exception &) {return false;}
}

static void databases(Chooser &c, int depth)
{
 static const Ops ops = database_alphabet();
 Database plain;
 Memory_File file;
 Writable_Journal journal(file);
 Database first;
 Database second, looped;
 Expander expander(looped);
 Multiplexer both{first, journal};
 Multiplexer all{both, second, expander};
 Memory_File client_file;
 Writable_Database_Client client(client_file);

 for (const Op &op: setup())
 {
  op.f(plain);
  op.f(all);
  client.transaction([&](const Readable &, Writable &w) {op.f(w);});
 }
 for (int d = 0; d < depth; d++)
 {
  const Op &op = ops[size_t(c.choose(int(ops.size())))];
  c.note(op.name);
  if (d == 0) c.split();
  const int64_t position = journal.get_position();
  const bool ok = apply(op, plain);
  const bool ok2 = apply(op, all);
  require(ok == ok2, "an operation is refused by the database or by the multiplexer only", "refused");
  if (!ok)
  {
   require(journal.get_position() == position, "an operation refused by the first target is delivered to the next one", "refused_forwarded");
   require(mc::dump(second) == mc::dump(plain), "an operation refused by the first target is delivered to the next one", "refused_forwarded");
   throw mc::Skip();
  }
  client.transaction([&](const Readable &, Writable &w) {op.f(w);});
  c.transition();
  const std::string expected = mc::dump(plain);
  for (const Database *db: std::initializer_list<const Database *>{&first, &second, &looped, &client.get_database()})
   require(mc::dump(*db) == expected, "a database fed through a multiplexer is\n" + mc::dump(*db) + "instead of\n" + expected, "database");
  {
   // the same, read from the journal: vectors are read into the storage of one of the targets
   Memory_File copy;
   journal.soft_checkpoint();
   copy.get_data() = file.get_data();
   Readonly_Journal reader{Journal_Construction_Lock(copy)};
   Database a, b, l;
   mc::Recorder r;
   Expander e(l);
   Multiplexer m{r, a, e, b};
   reader.replay_log(m);
   for (const Database *db: {&a, &b, &l})
    require(mc::dump(*db) == expected, "a database replayed through a multiplexer is\n" + mc::dump(*db) + "instead of\n" + expected, "database_replay");
   // a filter separates schema and data
   copy.get_data() = file.get_data();
   Readonly_Journal again{Journal_Construction_Lock(copy)};
   Database s, x;
   Selective_Writable only_schema(s, Selective_Writable::Mode::schema), everything(x, Selective_Writable::Mode::all);
   Multiplexer n{only_schema, everything};
   again.replay_log(n);
   require(mc::dump(x) == expected, "a database replayed through a filter is\n" + mc::dump(x) + "instead of\n" + expected, "database_filter");
   for (const auto &[t, name]: s.get_tables())
    require(s.get_size(t) == R(0), "data passes a filter of the schema", "database_filter");
   std::string fields_of_schema, fields_expected;
   for (const auto &[t, name]: s.get_tables()) for (const auto &[f, fname]: s.get_fields(t)) fields_of_schema += std::to_string(int(to_underlying(t))) + name + std::to_string(int(to_underlying(f))) + fname;
   for (const auto &[t, name]: plain.get_tables()) for (const auto &[f, fname]: plain.get_fields(t)) fields_expected += std::to_string(int(to_underlying(t))) + name + std::to_string(int(to_underlying(f))) + fname;
   require(fields_of_schema == fields_expected, "the schema that passes a filter", "database_filter");
  }
  c.state(mc::hash_string(expected));
  c.outcome(expected);
  c.prune(mc::hash_string(expected));
 }
}

// Writing a vector in place, through a multiplexer
static void storage_part(Chooser &c)
{
 const int order = c.choose(4);
 const int f = 1 + c.choose(fields);
 c.split();
 const int rows = c.choose(4);
 const int start = c.choose(4);
 const size_t size = size_t(c.choose(4));
 Database a, b;
 Memory_File file;
 Writable_Journal journal(file);
 Target t;
 const auto make = [&]() -> std::unique_ptr<Multiplexer>
 {
  using L = std::initializer_list<std::reference_wrapper<Writable>>;
  switch (order)
  {
   case 0: return std::make_unique<Multiplexer>(L{a, b, journal, t});
   case 1: return std::make_unique<Multiplexer>(L{t, journal, b, a});
   case 2: return std::make_unique<Multiplexer>(L{journal, a, b});
   default: return std::make_unique<Multiplexer>(L{journal, t});
  }
 };
 const auto m = make();
 Database plain;
 Multiplexer all{plain, *m};
 for (const Op &op: setup())
  op.f(all);
 all.insert_vector(T(1), R(0), size_t(rows));
 int n = 0;
 #define TYPE_MACRO(type, return_type, type_id, Rd, W)\
 if (++n == f)\
 {\
  std::unique_ptr<type[]> v(new type[4]);\
  for (size_t i = 0; i < 4; i++) v[i] = type(example<type>(int(i + 1)));\
  size_t capacity = 99;\
  type *own = m->get_own_##type_id##_storage(T(1), R(start), F(f), capacity);\
  size_t expected_capacity = 0;\
  const type *p = plain.get_own_##type_id##_storage(T(1), R(start), F(f), expected_capacity);\
  if (order == 3)\
   require(!own && capacity == 0, "storage that does not exist", "storage");\
  else\
   require(bool(own) == bool(p) && (!p || capacity == expected_capacity), "storage", "storage");\
  if (size_t(start) + size <= size_t(rows) && size > 0)\
  {\
   plain.update_vector_##type_id(T(1), R(start), F(f), size, v.get());\
   if (own)\
   {\
    for (size_t i = 0; i < size; i++) own[i] = v[i];\
    m->update_vector_##type_id(T(1), R(start), F(f), size, own);\
   }\
   else\
    m->update_vector_##type_id(T(1), R(start), F(f), size, v.get());\
  }\
 }
 #include "joedb/TYPE_MACRO.h"
 const std::string expected = mc::dump(plain);
 if (order < 3)
 {
  require(mc::dump(a) == expected, "first database:\n" + mc::dump(a) + "instead of\n" + expected, "storage_database");
  require(mc::dump(b) == expected, "second database:\n" + mc::dump(b) + "instead of\n" + expected, "storage_database");
 }
 journal.soft_checkpoint();
 Memory_File copy;
 copy.get_data() = file.get_data();
 Readonly_Journal reader{Journal_Construction_Lock(copy)};
 Database d;
 reader.replay_log(d);
 require(mc::dump(d) == expected, "journal:\n" + mc::dump(d) + "instead of\n" + expected, "storage_database");
 c.transition();
 c.state(mc::hash_string(std::to_string(order) + std::to_string(start) + std::to_string(size) + expected));
 c.outcome(expected);
}

// The first targets are skipped (set_start_index)
static void start_index(Chooser &c)
{
 static const Ops ops = all_operations();
 const size_t n = 1 + size_t(c.choose(3));
 const size_t index = size_t(c.choose(int(n) + 1));
 c.split();
 std::vector<Target> t(n);
 auto m = multiplexer(t, n);
 std::vector<const Op *> before, after;
 const auto go = [&](std::vector<const Op *> &v)
 {
  const Op &op = ops[size_t(c.choose(int(ops.size())))];
  c.note(op.name);
  v.push_back(&op);
  op.f(*m);
  c.transition();
 };
 go(before);
 m->set_start_index(index);
 go(after);
 for (size_t i = 0; i < n; i++)
 {
  auto expected = direct(before, false);
  if (i >= index)
   for (const auto &x: direct(after, false))
    expected.push_back(x);
  require(t[i].ops == expected, "target " + std::to_string(i) + " received\n" + text(t[i].ops) + "instead of\n" + text(expected), "start_index");
 }
 c.state(mc::hash_string(std::to_string(n) + std::to_string(index) + text(direct(before, true)) + text(direct(after, true))));
 c.outcome(std::to_string(n) + std::to_string(index));
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, "C27");
 const bool th = ex.is_thorough();
 ex.explore("forward", [=](Chooser &c) {forward(c, th ? 3 : 2);});
 ex.explore("filter", [=](Chooser &c) {filter(c, th ? 3 : 2);});
 ex.explore("start_index", start_index);
 ex.explore("storage", storage_part);
 ex.explore_states("databases", [=](Chooser &c) {databases(c, th ? 7 : 4);}, th ? 7 : 4, 60);
 return ex.finish
 (
  "model_checking",
  "every sequence of events, of every kind and type, to the stated length, through every small multiplexer and every filter, is compared with what a target receives directly; every state of a database to the stated depth is fed through multiplexers",
  {"at most 4 targets", "flush is not an operation of the journal: a filter may drop it"}
 );
}
