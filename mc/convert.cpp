// C19: packing, merging, converting and dumping preserve the data.
// C20: the textual form of data reads back to the same data.
#include "convert.h"

/////////////////////////////////////////////////////////////////////////////
// Consumers of a history
/////////////////////////////////////////////////////////////////////////////

static bool is_schema_op(const std::string &s)
{
 for (const char *p: {"create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom"})
  if (s.compare(0, std::strlen(p), p) == 0)
   return true;
 return false;
}

static std::string schema_ops(Readonly_Journal &journal)
{
 mc::Recorder r;
 journal.rewind();
 journal.raw_play_until_checkpoint(r);
 std::string out;
 for (const auto &s: r.ops)
  if (is_schema_op(s))
   out += s + "\n";
 return out;
}

// A journal over the bytes of a file
struct Reader
{
 Memory_File file;
 std::unique_ptr<Readonly_Journal> journal;
 Reader(const std::string &bytes)
 {
  file.get_data() = bytes;
  journal = std::make_unique<Readonly_Journal>(Journal_Construction_Lock(file));
 }
};

static void check_pack(const std::string &bytes, const Database &db, bool has_blobs)
{
 Reader in(bytes);
 Memory_File out;
 bool done = false;
 std::string error;
 {
  Writable_Journal journal(out);
  try {pack(*in.journal, journal); done = true;}
  catch (const std::exception &e) {error = e.what();}
 }
 if (has_blobs)
 {
  require(!done, "a file with blobs was packed", "pack_blobs");
  return;
 }
 require(done, "cannot pack: " + error, "pack");
 Reader packed(out.get_data());
 Database copy;
 packed.journal->replay_log(copy);
 require(mc::dump(copy) == mc::dump(db), "packed database:\n" + mc::dump(copy) + "instead of:\n" + mc::dump(db), "pack");
 Reader again(bytes);
 require(schema_ops(*packed.journal) == schema_ops(*again.journal), "packing changed the schema operations", "pack_schema");

 // identifiers given to new tables and fields continue in the same way
 Database next, next_copy;
 {
  Reader a(bytes), b(out.get_data());
  a.journal->replay_log(next);
  b.journal->replay_log(next_copy);
 }
 for (Database *d: {&next, &next_copy})
 {
  for (const auto &[t, name]: std::map<Table_Id, std::string>(d->get_tables()))
   d->add_field(t, "fresh", Type::int8());
  d->create_table("fresh");
 }
 require(mc::dump(next) == mc::dump(next_copy), "after packing, new tables and fields get other identifiers", "pack_identifiers");
}

// Only what a pack may write: insertions and updates of live records
static void check_pack_size(const std::string &bytes)
{
 Reader in(bytes);
 mc::Recorder r;
 pack(*in.journal, r);
 std::set<std::string> inserted;
 for (const auto &s: r.ops)
 {
  require(s.compare(0, 6, "delete") != 0, "the packed file contains " + s, "pack_delete");
  if (s.compare(0, 6, "insert") == 0)
   require(inserted.insert(s).second, "inserted twice: " + s, "pack_twice");
 }
}

static void check_dump(const Database &db)
{
 for (const bool schema_only: {false, true})
 {
  Memory_File file;
  {
   Writable_Journal journal(file);
   dump(db, journal, schema_only);
   journal.soft_checkpoint();
  }
  Database copy;
  Reader r(file.get_data());
  r.journal->replay_log(copy);
  const std::string got = snapshot(copy, true).text(), expected = snapshot(db, true, schema_only).text();
  require(got == expected, "dump gives:\n" + got + "instead of:\n" + expected, "dump");
  // dense identifiers
  int next = 1;
  for (const auto &[t, name]: copy.get_tables())
   require(int(to_underlying(t)) == next++, "identifiers of tables after a dump", "dump");
 }
}

static void check_dump_data(const std::string &bytes, const Database &db)
{
 Memory_File file;
 Database copy;
 {
  Writable_Journal journal(file);
  Reader r(bytes);
  Selective_Writable filter(journal, Selective_Writable::Mode::schema);
  r.journal->raw_play_until_checkpoint(filter);
  dump_data(db, journal);
 }
 Reader r(file.get_data());
 r.journal->replay_log(copy);
 require(mc::dump(copy) == mc::dump(db), "dump_data gives:\n" + mc::dump(copy) + "instead of:\n" + mc::dump(db), "dump_data");
}

static void check_convert(const std::string &bytes, const Database &db, bool has_blobs, const Snapshot &snap)
{
 mc::Recorder a, b;
 Memory_File file;
 Reader r(bytes);
 {
  Reader in(bytes);
  Writable_Journal journal(file);
  in.journal->play_until(journal, in.journal->get_checkpoint());
  journal.soft_checkpoint();
 }
 Reader out(file.get_data());
 out.journal->raw_play_until_checkpoint(a);
 r.journal->raw_play_until_checkpoint(b);
 if (!has_blobs)
  require(a.text() == b.text(), "converting changes the operations:\n" + a.text() + "instead of:\n" + b.text(), "convert");
 Database copy;
 Reader again(file.get_data());
 again.journal->replay_log(copy);
 if (!has_blobs)
  require(mc::dump(copy) == mc::dump(db), "convert gives:\n" + mc::dump(copy) + "instead of:\n" + mc::dump(db), "convert");
 else
 {
  // blobs move, but keep their bytes
  Memory_File source;
  source.get_data() = bytes;
  const std::string got = snapshot(copy, false, false, &file).text(), expected = snapshot(db, false, false, &source).text();
  require(got == expected, "convert gives:\n" + got + "instead of:\n" + expected, "convert_blobs");
 }
}

/////////////////////////////////////////////////////////////////////////////
// JSON
/////////////////////////////////////////////////////////////////////////////

static void check_json(const Database &db, bool base64)
{
 const Snapshot s = snapshot(db);
 std::ostringstream out;
 const int error = write_json(out, db, base64);
 Json j;
 try {j = Json_Parser(out.str()).parse();}
 catch (const std::string &e) {mc::fail("invalid JSON: " + e + "\n" + out.str(), "json_syntax");}
 bool bad_utf8 = false, bad_float = false;
 require(j.kind == 'o' && j.members.size() == s.tables.size(), "number of tables in JSON", "json_tables");
 // position of each record
 std::map<int, std::map<int64_t, int64_t>> position;
 for (const auto &t: s.tables)
 {
  int64_t n = 0;
  for (const auto &[id, row]: t.rows)
   position[t.id][id] = n++;
 }
 for (size_t i = 0; i < s.tables.size(); i++)
 {
  const auto &t = s.tables[i];
  require(j.members[i].first == t.name, "table " + j.members[i].first + " instead of " + t.name, "json_tables");
  const Json &o = j.members[i].second;
  require(o.kind == 'o' && o.members.size() == t.fields.size() + 1, "number of fields in JSON", "json_fields");
  require(o.members[0].first == "__size" && o.members[0].second.kind == 'n' && o.members[0].second.text == str(int64_t(t.rows.size())), "__size is " + o.members[0].second.text, "json_size");
  for (size_t f = 0; f < t.fields.size(); f++)
  {
   require(o.members[f + 1].first == t.fields[f].name, "field name in JSON", "json_fields");
   const Json &a = o.members[f + 1].second;
   require(a.kind == 'a' && a.items.size() == t.rows.size(), "number of values in JSON", "json_values");
   size_t n = 0;
   for (const auto &[id, row]: t.rows)
   {
    const Value &v = row[f];
    const Json &x = a.items[n++];
    const std::string where = "JSON of table " + t.name + " record " + str(id) + " field " + t.fields[f].name + ": " + x.text;
    switch (v.type)
    {
     case Type::Type_Id::string:
      require(x.kind == 's', where, "json_value");
      if (base64)
       require(base64_decode_reference(x.text) == v.string, where, "json_base64");
      else if (!valid_utf8(v.string))
       bad_utf8 = true;
      else
       require(x.text == v.string, where + " instead of " + mc::show(v.string), "json_string");
     break;
     case Type::Type_Id::reference:
     {
      std::string expected;
      const int target = t.fields[f].target;
      if (!s.find(target))
       expected = str(v.integer);
      else
      {
       const auto &p = position[target];
       const auto k = p.find(v.integer);
       expected = str(k == p.end() ? int64_t(-1) : k->second);
      }
      require(x.kind == 'n' && x.text == expected, where + " instead of " + expected, "json_reference");
     }
     break;
     case Type::Type_Id::blob:
      require(x.kind == 'a' && x.items.size() == 2 && x.items[0].text == str(v.blob.get_position()) && x.items[1].text == str(v.blob.get_size()), where, "json_blob");
     break;
     case Type::Type_Id::boolean:
      require(x.kind == 'b' && x.text == (v.integer ? "true" : "false"), where, "json_boolean");
     break;
     case Type::Type_Id::float32:
     case Type::Type_Id::float64:
      require(x.kind == 'n', where, "json_float");
      if (!std::isfinite(v.real))
      {
       bad_float = true;
       require(x.text == "0", where, "json_float");
      }
      else
       require(same_number(x.text, v), where + " instead of " + mc::show(v.real), number_key(x.text, v, "json_float"));
     break;
     default:
      require(x.kind == 'n' && x.text == str(v.integer), where + " instead of " + str(v.integer), "json_integer");
    }
   }
  }
 }
 require(((error & JSON_Error::utf8) != 0) == bad_utf8, bad_utf8 ? "strings that are not UTF-8 are not reported" : "valid strings are reported as not UTF-8", "json_utf8_report");
 require(((error & JSON_Error::infnan) != 0) == bad_float, "report of inf and nan", "json_infnan_report");
}

/////////////////////////////////////////////////////////////////////////////
// SQL
/////////////////////////////////////////////////////////////////////////////

static void check_sql(const std::string &bytes, const Database &db, bool blobs, const char *key = "sql_syntax")
{
 Memory_File file;
 file.get_data() = bytes;
 const Abstract_File *reader = blobs ? &file : nullptr;
 {
  std::ostringstream out;
  SQL_Dump_Writable w(out, reader);
  Reader r(bytes);
  r.journal->replay_log(w);
  Sql sql;
  try {sql.run(out.str());} catch (const std::string &e) {mc::fail("SQL of the history: " + e + "\n" + out.str(), key);}
  sql.compare(snapshot(db), reader, true, "of the history:\n" + out.str());
 }
 {
  std::ostringstream out;
  SQL_Dump_Writable w(out, reader);
  dump(db, w);
  Sql sql;
  try {sql.run(out.str());} catch (const std::string &e) {mc::fail("SQL of the database: " + e + "\n" + out.str(), key);}
  sql.compare(snapshot(db), reader, false, "of the database:\n" + out.str());
 }
}

static void dump_and_compare(std::stringstream &text, const Database &db, const char *key = "text_dump")
{
 Interpreter_Dump_Writable w(text, false);
 dump(db, w);
 Database copy;
 Interpreter interpreter(copy, copy, Record_Id::null);
 interpreter.set_echo(false);
 interpreter.set_rethrow(true);
 std::ostringstream out;
 try {interpreter.main_loop(text, out);}
 catch (const std::exception &e) {mc::fail("the text dump of the database is refused: " + std::string(e.what()) + "\n" + text.str(), "text_refused");}
 const std::string got = snapshot(copy, true).text(), expected = snapshot(db, true).text();
 require(got == expected, "the text of the database gives:\n" + got + "instead of:\n" + expected, key);
}

/////////////////////////////////////////////////////////////////////////////
// The text of a history, interpreted, gives the same database (C20)
/////////////////////////////////////////////////////////////////////////////

static void check_text(const std::string &bytes, const Database &db, bool has_blobs)
{
 {
  std::stringstream text;
  {
   Interpreter_Dump_Writable w(text, true);
   Reader r(bytes);
   r.journal->play_until(w, r.journal->get_checkpoint());
  }
  Memory_File file;
  Writable_Journal journal(file);
  Database copy;
  Multiplexer both{copy, journal};
  Interpreter interpreter(copy, both, Record_Id::null);
  interpreter.set_echo(false);
  interpreter.set_rethrow(true);
  std::ostringstream out;
  try {interpreter.main_loop(text, out);}
  catch (const std::exception &e) {mc::fail("the text dump of the history is refused: " + std::string(e.what()) + "\n" + text.str(), "text_refused");}
  if (!has_blobs)
  {
   // the text does not know the identifier of a table that was dropped
   const std::string got = snapshot(copy, false, false, nullptr, true).text(), expected = snapshot(db, false, false, nullptr, true).text();
   require(got == expected, "the text of the history gives:\n" + got + "instead of:\n" + expected + "text:\n" + text.str(), "text_history");
   journal.soft_checkpoint();
   Reader r(bytes), q(file.get_data());
   mc::Recorder x, y;
   r.journal->raw_play_until_checkpoint(x);
   q.journal->raw_play_until_checkpoint(y);
   if (text.str().find("__unknown_table__") == std::string::npos)
    require(x.text() == y.text(), "the text of the history gives other operations:\n" + y.text() + "instead of:\n" + x.text(), "text_operations");
  }
 }
 std::stringstream text;
 dump_and_compare(text, db);
}

// Every line of a displayed table has the announced width
static void check_table_display(const Database &db)
{
 for (const int width: {0, 1, 2, 3, 5, 25})
  for (const auto &[t, name]: db.get_tables())
  {
   std::stringstream in("table " + name + " " + str(width) + "\n"), out;
   Readable_Interpreter interpreter(db);
   interpreter.set_echo(false);
   interpreter.set_rethrow(true);
   interpreter.main_loop(in, out);
   std::vector<std::string> lines;
   std::string line;
   while (std::getline(out, line))
    lines.push_back(line);
   const Snapshot s = snapshot(db);
   const auto *table = s.find(int(to_underlying(t)));
   require(lines.size() == 3 + table->rows.size(), "number of lines of a table", "table_lines");
   const size_t expected = lines[0].size();
   require(lines[0] == std::string(expected, '-') && lines[2] == lines[0], "lines of dashes", "table_lines");
   for (size_t i = 1; i < lines.size(); i++)
    if (i != 2)
     require(display_width(lines[i]) == expected, "line " + mc::show(lines[i]) + " has width " + str(int64_t(display_width(lines[i]))) + " instead of " + str(int64_t(expected)), "table_width");
   size_t n = 3;
   for (const auto &[id, row]: table->rows)
   {
    std::istringstream iss(lines[n++]);
    int64_t x = -1;
    iss >> x;
    require(x == id, "identifier in a table", "table_id");
   }
  }
}

/////////////////////////////////////////////////////////////////////////////
// All histories
/////////////////////////////////////////////////////////////////////////////

struct Op {std::string name; std::function<void(Writable &)> f;};
typedef std::vector<Op> Ops;

static Table_Id T(int x) {return Table_Id(uint16_t(x));}
static Field_Id F(int x) {return Field_Id(uint16_t(x));}
static Record_Id R(int64_t x) {return Record_Id(x);}

static void history(Chooser &c, const Ops &setup, const Ops &ops, int depth, bool text)
{
 Destructor_Logger::remove_logger();
 Memory_File file;
 auto journal = std::make_unique<Writable_Journal>(file);
 Database db;
 Multiplexer both{db, *journal};
 std::string log;
 bool has_blobs = false;
 auto step = [&](const Op &op)
 {
  const int64_t position = journal->get_position();
  try
  {
   op.f(both);
   if (is_schema_op(op.name) || op.name.compare(0, 4, "info") == 0)
    log += op.name + "\n";
   if (op.name.compare(0, 4, "blob") == 0)
    has_blobs = true;
   return true;
  }
  catch (const std::exception &)
  {
   if (op.name.compare(0, 4, "blob"))
    require(journal->get_position() == position, "a refused operation is written: " + op.name, "written");
   return false;
  }
 };
 for (const Op &op: setup)
  require(step(op), op.name, "setup");
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(int(ops.size()) + 1);
  if (x == int(ops.size()))
   break;
  c.note(ops[size_t(x)].name);
  if (!step(ops[size_t(x)]))
   throw mc::Skip();
  c.transition();
  if (d == 0)
   c.split();
  if (!c.replaying())
  {
   journal->soft_checkpoint();
   const std::string bytes = file.get_data();
   const Snapshot s = snapshot(db);
   if (!text)
   {
    check_pack(bytes, db, has_blobs);
    if (!has_blobs)
    {
     check_pack_size(bytes);
     check_dump_data(bytes, db);
    }
    check_dump(db);
    check_convert(bytes, db, has_blobs, s);
    check_json(db, false);
    check_json(db, true);
    check_sql(bytes, db, false);
    if (has_blobs)
     check_sql(bytes, db, true);
   }
   else
   {
    check_text(bytes, db, has_blobs);
    check_table_display(db);
   }
  }
  std::string h = mc::dump(db) + log + (has_blobs ? "B" : "");
  for (const auto &[t, name]: db.get_tables())
   h += str(int64_t(db.get_freedom(t).size())) + (db.get_freedom(t).is_dense() ? "d" : "l");
  const uint64_t hash = mc::hash_string(h);
  c.state(hash);
  c.outcome(mc::dump(db));
  c.prune(hash);
 }
}

#define OP(text, code) Op{text, [](Writable &w) {code;}}

static const std::string nasty = std::string("q\"'\\;\n--\0\x7f\xc3\xa9??/", 15);

static Ops schema_setup()
{
 return Ops
 {
  OP("create_table a", w.create_table("a")),
  OP("add_field a x int32", w.add_field(T(1), "x", Type::int32())),
  OP("create_table b", w.create_table("b")),
  OP("add_field b r references a", w.add_field(T(2), "r", Type::reference(T(1)))),
  OP("add_field b q references b", w.add_field(T(2), "q", Type::reference(T(2)))),
 };
}

static Ops schema_alphabet()
{
 return Ops
 {
  OP("insert b 0", w.insert_into(T(2), R(0))),
  OP("insert b 2", w.insert_into(T(2), R(2))),
  OP("insert_vector a 0 2", w.insert_vector(T(1), R(0), 2)),
  OP("delete a 0", w.delete_from(T(1), R(0))),
  OP("delete b 0", w.delete_from(T(2), R(0))),
  OP("update a 1 x", w.update_int32(T(1), R(1), F(1), 7)),
  OP("update b 0 r := 1", w.update_reference(T(2), R(0), F(1), R(1))),
  OP("update b 0 r := 5", w.update_reference(T(2), R(0), F(1), R(5))),
  OP("update b 2 q := 0", w.update_reference(T(2), R(2), F(2), R(0))),
  OP("update b 0 q := 0", w.update_reference(T(2), R(0), F(2), R(0))),
  OP("drop_table a", w.drop_table(T(1))),
  OP("drop_table b", w.drop_table(T(2))),
  OP("create_table c", w.create_table("c")),
  OP("create_table a again", w.create_table("a")),
  OP("rename_table b z", w.rename_table(T(2), "z")),
  OP("add_field a y references b", w.add_field(T(1), "y", Type::reference(T(2)))),
  OP("add_field b s string", w.add_field(T(2), "s", Type::string())),
  OP("add_field table 3 t references a", w.add_field(T(3), "t", Type::reference(T(1)))),
  OP("insert table 3", w.insert_into(T(3), R(1))),
  OP("update table 3", w.update_reference(T(3), R(1), F(1), R(1))),
  OP("update b 0 s", w.update_string(T(2), R(0), F(3), nasty)),
  OP("drop_field b r", w.drop_field(T(2), F(1))),
  OP("drop_field a x", w.drop_field(T(1), F(1))),
  OP("rename_field b q w", w.rename_field(T(2), F(2), "w")),
 };
}

static Ops information_alphabet()
{
 return Ops
 {
  OP("info comment", w.comment("hello")),
  OP("info comment nasty", w.comment(nasty)),
  OP("info comment SQL", w.comment("x\nDROP TABLE \"a\";\r\nDROP TABLE \"a\";\rDROP TABLE \"a\";")),
  OP("info comment text", w.comment("\ndrop_table a\n\"\ndrop_table a\n")),
  OP("info comment empty", w.comment("")),
  OP("custom f", w.custom("f")),
  OP("info timestamp", w.timestamp(0)),
  OP("info timestamp now", w.timestamp(1700000000)),
  OP("info timestamp negative", w.timestamp(-1)),
  OP("info timestamp minimum", w.timestamp(INT64_MIN)),
  OP("info timestamp maximum", w.timestamp(INT64_MAX)),
  OP("info valid_data", w.valid_data()),
  OP("info flush", w.flush()),
  OP("insert a 0", w.insert_into(T(1), R(0))),
  OP("update a 0 x", w.update_int32(T(1), R(0), F(1), -1)),
  OP("blob empty", w.write_blob("")),
  OP("blob", w.write_blob(nasty)),
 };
}

template<typename X> static void add_values(Ops &ops, const char *name, Field_Id f, void (Writable::*update)(Table_Id, Record_Id, Field_Id, X), const std::vector<X> &values)
{
 int i = 0;
 for (const X v: values)
  ops.push_back(Op{std::string("update ") + name + " value " + std::to_string(i++), [=](Writable &w) {(w.*update)(T(1), R(0), f, v);}});
}

static Ops types_setup()
{
 return Ops
 {
  OP("create_table t", w.create_table("t")),
  OP("add_field 1", w.add_field(T(1), "s", Type::string())),
  OP("add_field 2", w.add_field(T(1), "i8", Type::int8())),
  OP("add_field 3", w.add_field(T(1), "i16", Type::int16())),
  OP("add_field 4", w.add_field(T(1), "i32", Type::int32())),
  OP("add_field 5", w.add_field(T(1), "i64", Type::int64())),
  OP("add_field 6", w.add_field(T(1), "f32", Type::float32())),
  OP("add_field 7", w.add_field(T(1), "f64", Type::float64())),
  OP("add_field 8", w.add_field(T(1), "b", Type::boolean())),
  OP("add_field 9", w.add_field(T(1), "r", Type::reference(T(1)))),
  OP("add_field 10", w.add_field(T(1), "l", Type::blob())),
  OP("insert", w.insert_into(T(1), R(0))),
 };
}

static Ops types_alphabet(bool special_floats)
{
 Ops ops;
 add_values<int8_t>(ops, "int8", F(2), &Writable::update_int8, {0, 1, -1, 'a', '"', ' ', 127, -128});
 add_values<int16_t>(ops, "int16", F(3), &Writable::update_int16, {1, -1, INT16_MAX, INT16_MIN});
 add_values<int32_t>(ops, "int32", F(4), &Writable::update_int32, {1, -1, INT32_MAX, INT32_MIN});
 add_values<int64_t>(ops, "int64", F(5), &Writable::update_int64, {1, -1, INT64_MAX, INT64_MIN, 1ll << 53, (1ll << 53) + 1});
 add_values<float>(ops, "float32", F(6), &Writable::update_float32, {1.0f, -0.0f, 0.1f, 1e10f, 123456.0f, 1e-45f, 3.40282e38f});
 add_values<double>(ops, "float64", F(7), &Writable::update_float64, {1.0, -0.0, 0.1, 1e22, 5e-324, 1e-5, 1.79769e308, 123456.0});
 if (special_floats)
 {
  add_values<float>(ops, "special float32", F(6), &Writable::update_float32, {INFINITY, -INFINITY, NAN});
  add_values<double>(ops, "special float64", F(7), &Writable::update_float64, {INFINITY, -INFINITY, double(NAN)});
 }
 add_values<bool>(ops, "boolean", F(8), &Writable::update_boolean, {true, false});
 add_values<Record_Id>(ops, "reference", F(9), &Writable::update_reference, {R(0), R(-1), R(1), R(1ll << 40)});
 add_values<std::string_view>(ops, "string", F(1), &Writable::update_string, {"", " ", "a b", nasty, "null", "\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "\xff", "#", "\t", "NULL", "\x1b[0m", "=", "\\x41", "\\101", "a\\", "\""});
 ops.push_back(OP("delete", w.delete_from(T(1), R(0))));
 ops.push_back(OP("insert", w.insert_into(T(1), R(0))));
 ops.push_back(OP("insert 1", w.insert_into(T(1), R(1))));
 return ops;
}

static Ops vector_alphabet()
{
 return Ops
 {
  OP("insert_vector 1 3", w.insert_vector(T(1), R(1), 3)),
  OP("insert 5", w.insert_into(T(1), R(5))),
  OP("delete 1", w.delete_from(T(1), R(1))),
  OP("delete_vector 0 2", w.delete_vector(T(1), R(0), 2)),
  OP("delete_vector 2 2", w.delete_vector(T(1), R(2), 2)),
  OP("vector string", std::string v[2]; v[0] = nasty; v[1] = ""; w.update_vector_string(T(1), R(1), F(1), 2, v)),
  OP("vector int8", int8_t v[2]; v[0] = -5; v[1] = 5; w.update_vector_int8(T(1), R(1), F(2), 2, v)),
  OP("vector int16", int16_t v[2]; v[0] = -5; v[1] = 5; w.update_vector_int16(T(1), R(2), F(3), 2, v)),
  OP("vector int64", int64_t v[1]; v[0] = -5; w.update_vector_int64(T(1), R(2), F(5), 1, v)),
  OP("vector float64", double v[2]; v[0] = -5; v[1] = 0.1; w.update_vector_float64(T(1), R(2), F(7), 2, v)),
  OP("vector boolean", char v[2]; v[0] = 1; v[1] = 0; w.update_vector_boolean(T(1), R(2), F(8), 2, v)),
  OP("vector reference", Record_Id v[2]; v[0] = R(2); v[1] = R(-1); w.update_vector_reference(T(1), R(2), F(9), 2, v)),
  OP("vector size 0", int32_t v = 0; w.update_vector_int32(T(1), R(0), F(4), 0, &v)),
  OP("insert_vector size 0", w.insert_vector(T(1), R(1), 0)),
  OP("delete_vector size 0", w.delete_vector(T(1), R(1), 0)),
 };
}

// Blobs: written, referred to by two records, and forgotten
static Ops blob_alphabet()
{
 static const auto put = [](Writable &w, int r, const std::string &s)
 {
  w.update_blob(T(1), R(r), F(10), w.write_blob(s));
 };
 return Ops
 {
  OP("blob x", put(w, 0, "x")),
  OP("blob nasty", put(w, 0, nasty)),
  OP("blob empty", put(w, 0, "")),
  OP("blob other record", put(w, 1, "yy")),
  OP("blob large", put(w, 1, std::string(10000, 'z'))),
  OP("blob lost", w.write_blob("lost")),
  OP("insert 1", w.insert_into(T(1), R(1))),
  OP("update blob null", w.update_blob(T(1), R(0), F(10), Blob())),
  OP("delete 0", w.delete_from(T(1), R(0))),
  OP("update int32", w.update_int32(T(1), R(0), F(4), 3)),
 };
}

/////////////////////////////////////////////////////////////////////////////
// Merging
/////////////////////////////////////////////////////////////////////////////

static void merge_check(const std::vector<Database *> &dbs, Database &merged)
{
 Snapshot expected = snapshot(*dbs[0]);
 for (size_t i = 1; i < dbs.size(); i++)
 {
  const Snapshot s = snapshot(*dbs[i]);
  std::map<int, int64_t> base;
  for (auto &t: expected.tables)
  {
   base[t.id] = merged.get_freedom(T(t.id)).size();
   require(t.rows.empty() || t.rows.rbegin()->first < base[t.id], "size of the merged table", "merge_size");
  }
  for (auto &t: expected.tables)
   for (const auto &[id, row]: s.find(t.id)->rows)
   {
    auto v = row;
    for (size_t f = 0; f < t.fields.size(); f++)
     if (v[f].type == Type::Type_Id::reference && v[f].integer >= 0)
     {
      const auto k = base.find(t.fields[f].target);
      if (k != base.end())
       v[f].integer += k->second;
     }
    t.rows[id + base[t.id]] = v;
   }
  const std::string before = mc::dump(*dbs[i]);
  merge(merged, *dbs[i]);
  require(mc::dump(*dbs[i]) == before, "merging modified a source", "merge_source");
  const std::string got = snapshot(merged).text();
  require(got == expected.text(), "merged:\n" + got + "instead of:\n" + expected.text(), "merge");
 }
}

static void merge_part(Chooser &c, const Ops &setup, const Ops &ops, int count, int depth)
{
 std::vector<std::unique_ptr<Database>> dbs;
 for (int i = 0; i < count; i++)
 {
  dbs.push_back(std::make_unique<Database>());
  for (const Op &op: setup)
   op.f(*dbs.back());
 }
 std::vector<int> history;
 Ops first; // operations made on the first database, for a copy
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(int(ops.size()) * count + 1);
  if (x == int(ops.size()) * count)
   break;
  const size_t which = size_t(x) % size_t(count);
  const Op &op = ops[size_t(x) / size_t(count)];
  c.note("database " + std::to_string(which) + ": " + op.name);
  try {op.f(*dbs[which]);} catch (const std::exception &) {throw mc::Skip();}
  if (which == 0)
   first.push_back(op);
  c.transition();
  if (d == 0)
   c.split();
  if (!c.replaying())
  {
   Database merged;
   for (const Op &o: setup)
    o.f(merged);
   for (const Op &o: first)
    o.f(merged);
   std::vector<Database *> v;
   for (auto &p: dbs)
    v.push_back(p.get());
   merge_check(v, merged);
  }
  std::string h;
  for (auto &p: dbs)
  {
   h += mc::dump(*p) + "|";
   for (const auto &[t, name]: p->get_tables())
    h += str(int64_t(p->get_freedom(t).size())) + (p->get_freedom(t).is_dense() ? "d" : "l");
  }
  const uint64_t hash = mc::hash_string(h);
  c.state(hash);
  c.outcome(h);
  c.prune(hash);
 }
}

static Ops merge_setup()
{
 return Ops
 {
  OP("", w.create_table("gone")),
  OP("", w.create_table("a")),
  OP("", w.create_table("b")),
  OP("", w.add_field(T(2), "x", Type::string())),
  OP("", w.add_field(T(2), "self", Type::reference(T(2)))),
  OP("", w.add_field(T(2), "forward", Type::reference(T(3)))),
  OP("", w.add_field(T(3), "back", Type::reference(T(2)))),
  OP("", w.add_field(T(3), "lost", Type::reference(T(1)))),
  OP("", w.add_field(T(3), "flag", Type::boolean())),
  OP("", w.drop_table(T(1))),
 };
}

static Ops merge_alphabet()
{
 return Ops
 {
  OP("insert a 0", w.insert_into(T(2), R(0))),
  OP("insert a 1", w.insert_into(T(2), R(1))),
  OP("insert b 0", w.insert_into(T(3), R(0))),
  OP("insert b 2", w.insert_into(T(3), R(2))),
  OP("delete a 0", w.delete_from(T(2), R(0))),
  OP("delete b 0", w.delete_from(T(3), R(0))),
  OP("a0 x", w.update_string(T(2), R(0), F(1), "v")),
  OP("a0 self := 1", w.update_reference(T(2), R(0), F(2), R(1))),
  OP("a1 forward := 0", w.update_reference(T(2), R(1), F(3), R(0))),
  OP("a1 forward := 7", w.update_reference(T(2), R(1), F(3), R(7))),
  OP("b0 back := 0", w.update_reference(T(3), R(0), F(1), R(0))),
  OP("b2 lost := 3", w.update_reference(T(3), R(2), F(2), R(3))),
  OP("b0 lost := 3", w.update_reference(T(3), R(0), F(2), R(3))),
  OP("b0 flag", w.update_boolean(T(3), R(0), F(3), true)),
 };
}

static Ops merge_types_alphabet()
{
 Ops ops = types_alphabet(true);
 Ops result;
 for (const Op &op: ops)
  if (op.name.find("value 3") != std::string::npos || op.name.find("value 1") != std::string::npos || op.name.compare(0, 6, "update") != 0)
   if (op.name.find("value 1") == std::string::npos || op.name.back() == '1')
    result.push_back(op);
 return result;
}

#include "convert_tools.h"
#include "convert_text.h"

// Numbers that have no representation in JSON, nor in SQL
static void special_floats(Chooser &c)
{
 Memory_File file;
 Database db;
 Writable_Journal journal(file);
 Multiplexer both{db, journal};
 for (const Op &op: types_setup())
  op.f(both);
 Ops ops;
 for (const Op &op: types_alphabet(true))
  if (op.name.find("special") != std::string::npos)
   ops.push_back(op);
 const Op &op = ops[size_t(c.choose(int(ops.size())))];
 c.note(op.name);
 op.f(both);
 journal.soft_checkpoint();
 const std::string bytes = file.get_data();
 check_pack(bytes, db, false);
 check_dump(db);
 check_convert(bytes, db, false, snapshot(db));
 check_json(db, false);
 c.transition();
 c.state(mc::hash_string(bytes));
 c.outcome(mc::dump(db));
 check_sql(bytes, db, false, "sql_inf_nan");
}

// Numbers that need more than 6 digits
static void long_floats(Chooser &c, bool text)
{
 Memory_File file;
 Database db;
 Writable_Journal journal(file);
 Multiplexer both{db, journal};
 for (const Op &op: types_setup())
  op.f(both);
 Ops ops;
 add_values<float>(ops, "float32", F(6), &Writable::update_float32, {16777217.0f, 1.0f / 3, FLT_MAX, FLT_MIN, FLT_EPSILON + 1});
 add_values<double>(ops, "float64", F(7), &Writable::update_float64, {1.0 / 3, DBL_MAX, DBL_MIN, DBL_EPSILON + 1, 1234567.0, 3.14159265359});
 const Op &op = ops[size_t(c.choose(int(ops.size())))];
 const int kind = text ? 0 : c.choose(3);
 c.note(op.name);
 op.f(both);
 journal.soft_checkpoint();
 const std::string bytes = file.get_data();
 c.transition();
 c.state(mc::hash_string(bytes));
 c.outcome(mc::dump(db));
 if (text)
 {
  std::stringstream s;
  s.precision(17);
  dump_and_compare(s, db);
  s.str("");
  s.precision(6);
  dump_and_compare(s, db, "float_precision");
 }
 else if (kind == 0)
 {
  check_pack(bytes, db, false);
  check_dump(db);
  check_convert(bytes, db, false, snapshot(db));
 }
 else if (kind == 1)
  check_json(db, false);
 else
  check_sql(bytes, db, false);
}

/////////////////////////////////////////////////////////////////////////////
int main(int argc, char **argv)
/////////////////////////////////////////////////////////////////////////////
{
 Destructor_Logger::remove_logger();
 const std::string id = argc > 1 ? argv[1] : "C19";
 mc::Explorer ex(argc, argv, id);
 const bool th = ex.is_thorough();
 const bool text = id == "C20";
 ex.explore_states("schema", [=](Chooser &c) {history(c, schema_setup(), schema_alphabet(), th ? 7 : 4, text);}, th ? 7 : 4, 60);
 ex.explore_states("information", [=](Chooser &c) {history(c, schema_setup(), information_alphabet(), th ? 5 : 3, text);}, th ? 5 : 3, 60);
 ex.explore_states("types", [=](Chooser &c) {history(c, types_setup(), types_alphabet(text), th ? 4 : 2, text);}, th ? 4 : 2, 60);
 ex.explore_states("vectors", [=](Chooser &c) {history(c, types_setup(), vector_alphabet(), th ? 8 : 5, text);}, th ? 8 : 5, 60);
 ex.explore_states("blobs", [=](Chooser &c) {history(c, types_setup(), blob_alphabet(), th ? 6 : 4, text);}, th ? 6 : 4, 60);
 if (!text)
 {
  ex.explore("special_floats", special_floats);
  ex.explore("long_floats", [=](Chooser &c) {long_floats(c, false);});
  ex.explore_states("merge_two", [=](Chooser &c) {merge_part(c, merge_setup(), merge_alphabet(), 2, th ? 8 : 5);}, th ? 8 : 5, 60);
  ex.explore_states("merge_three", [=](Chooser &c) {merge_part(c, merge_setup(), merge_alphabet(), 3, th ? 6 : 4);}, th ? 6 : 4, 60);
  ex.explore_states("merge_types", [=](Chooser &c) {merge_part(c, types_setup(), merge_types_alphabet(), 2, th ? 5 : 3);}, th ? 5 : 3, 60);
  tools_part(ex, th);
 }
 else
 {
  ex.explore("long_floats", [=](Chooser &c) {long_floats(c, true);});
  text_parts(ex, th);
 }
 return ex.finish
 (
  "model_checking",
  "every state reached by operations of the alphabet, to the stated depth, is packed, dumped, converted, exported and merged, and the results are parsed by independent readers",
  {"small alphabets of schemas and values"}
 );
}
