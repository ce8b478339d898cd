// The tools, on real files in a scratch directory.
#include "scratch.h"
#include "joedb/ui/inplace_pack.h"
#include "joedb/journal/File.h"
#include <fstream>
#include <iostream>

int joedb_convert_main(int argc, char **argv);
int joedb_pack_main(int argc, char **argv);
int joedb_merge_main(int argc, char **argv);
int joedb_to_json_main(int argc, char **argv);
int joedb_logdump_main(int argc, char **argv);

static std::string path(const std::string &name) {return mc::scratch() + "/" + name;}

static bool exists(const std::string &p) {return ::access(p.c_str(), F_OK) == 0;}

static std::string content(const std::string &p)
{
 std::ifstream f(p, std::ios::binary);
 std::stringstream s;
 s << f.rdbuf();
 return s.str();
}

static void put_file(const std::string &p, const std::string &bytes)
{
 std::ofstream f(p, std::ios::binary | std::ios::trunc);
 f << bytes;
}

struct Tool_Result {int code; std::string out, err;};

static Tool_Result tool(int (*main)(int, char **), std::vector<std::string> args)
{
 args.insert(args.begin(), "tool");
 std::vector<char *> argv;
 for (auto &a: args)
  argv.push_back(&a[0]);
 argv.push_back(nullptr);
 std::ostringstream out, err;
 std::istringstream in;
 std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf()), *i = std::cin.rdbuf(in.rdbuf());
 Tool_Result r;
 r.code = main(int(args.size()), argv.data());
 std::cout.rdbuf(o);
 std::cerr.rdbuf(e);
 std::cin.rdbuf(i);
 std::cin.clear();
 r.out = out.str();
 r.err = err.str();
 return r;
}

// a database is not copyable
struct Loaded
{
 Database db;
 explicit Loaded(const std::string &bytes)
 {
  Reader r(bytes);
  r.journal->replay_log(db);
 }
};

static std::string ops_of(const std::string &bytes, int64_t until)
{
 Reader r(bytes);
 mc::Recorder rec;
 r.journal->raw_play_until(rec, until);
 return rec.text();
}

static void interpret(const std::string &text, Writable &w, Readable &db)
{
 std::stringstream in(text);
 Interpreter interpreter(db, w, Record_Id::null);
 interpreter.set_echo(false);
 interpreter.set_rethrow(true);
 std::ostringstream out;
 try {interpreter.main_loop(in, out);}
 catch (const std::exception &e) {mc::fail("the output of joedb_logdump is refused: " + std::string(e.what()) + "\n" + text, "logdump_refused");}
}

static void tools_history(Chooser &c, const Ops &setup, const Ops &ops, int depth)
{
 mc::empty_directory(mc::scratch());
 Memory_File file;
 std::string bytes;
 std::vector<int64_t> positions;
 bool has_blobs = false;
 {
  Writable_Journal journal(file);
  Database db;
  Multiplexer both{db, journal};
  positions.push_back(journal.get_position());
  auto step = [&](const Op &op)
  {
   op.f(both);
   if (op.name.compare(0, 4, "blob") == 0)
    has_blobs = true;
   positions.push_back(journal.get_position());
  };
  const int start = c.choose(2);
  if (start)
   for (const Op &op: setup)
    step(op);
  for (int d = 0; start && d < depth; d++)
  {
   const int x = c.choose(int(ops.size()) + 1);
   if (x == int(ops.size()))
    break;
   c.note(ops[size_t(x)].name);
   try {step(ops[size_t(x)]);} catch (const std::exception &) {throw mc::Skip();}
   if (d == 0)
    c.split();
  }
  journal.soft_checkpoint();
  positions.push_back(journal.get_position());
  bytes = file.get_data();
 }
 const Loaded loaded(bytes);
 const Database &db = loaded.db;
 const std::string expected = mc::dump(db);
 const std::string in = path("in.joedb"), out = path("out.joedb");
 put_file(in, bytes);
 const int what = c.choose(7);
 switch (what)
 {
  case 0: // convert, whole
  {
   c.note("joedb_convert");
   const Tool_Result r = tool(joedb_convert_main, {in, out});
   require(r.code == 0, "joedb_convert fails: " + r.err, "convert_tool");
   require(ops_of(content(out), int64_t(content(out).size())) == ops_of(bytes, int64_t(bytes.size())) || has_blobs, "joedb_convert changes the operations", "convert_tool");
   if (!has_blobs)
    require(mc::dump(Loaded(content(out)).db) == expected, "joedb_convert gives:\n" + mc::dump(Loaded(content(out)).db) + "instead of:\n" + expected, "convert_tool");
   // the output exists
   const std::string before = content(out);
   const Tool_Result again = tool(joedb_convert_main, {in, out});
   require(again.code != 0, "joedb_convert overwrites its output", "convert_overwrite");
   require(content(out) == before, "joedb_convert modified an existing file", "convert_overwrite");
  }
  break;
  case 1: // convert until some checkpoint
  {
   const int64_t until = positions[size_t(c.choose(int(positions.size())))];
   c.note("joedb_convert --until " + str(until));
   const Tool_Result r = tool(joedb_convert_main, {"--until", str(until), in, out});
   require(r.code == 0, "joedb_convert fails: " + r.err, "convert_tool");
   const std::string converted = content(out);
   if (!has_blobs)
    require(ops_of(converted, int64_t(converted.size())) == ops_of(bytes, until), "joedb_convert --until does not stop there", "convert_until");
  }
  break;
  case 2: // damaged header
  {
   c.note("joedb_convert --ignore_header");
   std::string damaged = bytes;
   for (size_t i = 5 + 4; i < 5 + 4 + 32; i++)
    damaged[i] = 0;
   put_file(in, damaged);
   const Tool_Result refused = tool(joedb_convert_main, {in, out});
   const bool created = exists(out);
   if (bytes.size() > 41)
    require(refused.code != 0, "a damaged header is accepted", "convert_header");
   if (created)
    ::unlink(out.c_str());
   const Tool_Result r = tool(joedb_convert_main, {"--ignore_header", in, out});
   require(r.code == 0, "joedb_convert --ignore_header fails: " + r.err, "convert_tool");
   const std::string converted = content(out);
   if (!has_blobs)
    require(ops_of(converted, int64_t(converted.size())) == ops_of(bytes, int64_t(bytes.size())), "joedb_convert --ignore_header changes the operations", "convert_header");
   require(content(in) == damaged, "the input was modified", "convert_input");
   put_file(in, bytes);
  }
  break;
  case 3:
  {
   c.note("joedb_pack");
   const Tool_Result r = tool(joedb_pack_main, {in, out});
   require((r.code == 0) == !has_blobs, "joedb_pack: " + r.err, "pack_tool");
   if (r.code == 0)
    require(mc::dump(Loaded(content(out)).db) == expected, "joedb_pack gives:\n" + mc::dump(Loaded(content(out)).db) + "instead of:\n" + expected, "pack_tool");
  }
  break;
  case 4:
  {
   const bool b64 = c.flip();
   c.note("joedb_to_json");
   const Tool_Result r = tool(joedb_to_json_main, b64 ? std::vector<std::string>{"--base64", in} : std::vector<std::string>{in});
   std::ostringstream s;
   const int error = write_json(s, db, b64);
   require(r.code == 0 && r.out == s.str(), "joedb_to_json gives " + r.out + "instead of " + s.str(), "json_tool");
   require((r.err.find("--base64") != std::string::npos) == ((error & JSON_Error::utf8) != 0), "warning of joedb_to_json", "json_tool");
  }
  break;
  case 5:
  {
   const int option = c.choose(6);
   static const char *options[] = {"", "--sql", "--schema_only", "--load", "--blob", "--print_checkpoint"};
   c.note(std::string("joedb_logdump ") + options[option]);
   const Tool_Result r = tool(joedb_logdump_main, option ? std::vector<std::string>{options[option], in} : std::vector<std::string>{in});
   require(r.code == 0, "joedb_logdump: " + r.err, "logdump");
   if (option == 1)
   {
    Sql sql;
    try {sql.run(r.out);} catch (const std::string &e) {mc::fail("joedb_logdump --sql: " + e + "\n" + r.out, "logdump_sql");}
    sql.compare(snapshot(db), nullptr, true, r.out);
   }
   else if (option == 2)
   {
    Database copy;
    Memory_File f;
    Writable_Journal journal(f);
    Multiplexer both{copy, journal};
    interpret(r.out, both, copy);
    journal.soft_checkpoint();
    std::string x;
    {
     Reader rd(bytes);
     x = schema_ops(*rd.journal);
    }
    if (r.out.find("__unknown_table__") == std::string::npos)
     require(ops_of(f.get_data(), int64_t(f.get_data().size())) == x, "joedb_logdump --schema_only gives:\n" + r.out + "instead of:\n" + x, "logdump_schema");
   }
   else
   {
    Database copy;
    interpret(r.out, copy, copy);
    require(snapshot(copy, false, false, nullptr, true).text() == snapshot(db, false, false, nullptr, true).text(), "joedb_logdump gives:\n" + r.out, "logdump");
   }
  }
  break;
  case 6:
  {
   const int obstacle = c.choose(2);
   c.note(obstacle ? "inplace_pack with an obstacle" : "inplace_pack");
   if (obstacle)
    put_file(in + ".packed", "precious");
   bool done = false;
   std::string error;
   try {inplace_pack(in); done = true;} catch (const std::exception &e) {error = e.what();}
   if (obstacle || has_blobs)
   {
    require(!done, "inplace_pack should fail", "inplace_pack");
    require(content(in) == bytes, "inplace_pack failed and modified the file", "inplace_pack");
    if (obstacle)
     require(content(in + ".packed") == "precious", "inplace_pack overwrote a file", "inplace_pack");
   }
   else
   {
    require(done, "inplace_pack: " + error, "inplace_pack");
    require(mc::dump(Loaded(content(in)).db) == expected, "inplace_pack gives:\n" + mc::dump(Loaded(content(in)).db) + "instead of:\n" + expected, "inplace_pack");
    require(content(in + ".unpacked") == bytes, "inplace_pack does not keep the original", "inplace_pack");
    require(!exists(in + ".packed"), "inplace_pack leaves a file", "inplace_pack");
   }
   if (done)
    put_file(in, bytes);
  }
  break;
 }
 require(content(in) == bytes, "the tool modified its input", "tool_input");
 c.transition();
 c.state(mc::hash_string(bytes + std::to_string(what)));
 c.outcome(expected);
}

// joedb_merge on all sequences of files
static void tools_merge(Chooser &c, int length)
{
 mc::empty_directory(mc::scratch());
 const int n = 1 + c.choose(length);
 std::vector<std::string> args;
 std::vector<int> kinds;
 static std::vector<std::string> bytes;
 if (bytes.empty())
 {
  auto make = [](const std::vector<Ops> &parts)
  {
   Memory_File file;
   {
    Writable_Journal journal(file);
    for (const Ops &ops: parts)
     for (const Op &op: ops)
      op.f(journal);
    journal.soft_checkpoint();
   }
   bytes.push_back(file.get_data());
  };
  const Ops s = merge_setup();
  make({s}); // 0: empty
  make({s, Ops // 1: dense
  {
   OP("", w.insert_vector(T(2), R(0), 2)),
   OP("", w.update_reference(T(2), R(0), F(2), R(1))),
   OP("", w.update_string(T(2), R(1), F(1), "one")),
   OP("", w.insert_into(T(3), R(0))),
   OP("", w.update_reference(T(3), R(0), F(1), R(1))),
  }});
  make({s, Ops // 2: holes
  {
   OP("", w.insert_vector(T(2), R(0), 3)),
   OP("", w.update_reference(T(2), R(2), F(2), R(0))),
   OP("", w.delete_from(T(2), R(1))),
   OP("", w.insert_into(T(3), R(2))),
   OP("", w.update_reference(T(3), R(2), F(1), R(2))),
   OP("", w.update_reference(T(2), R(0), F(3), R(2))),
  }});
  make({s, Ops{OP("", w.create_table("more"))}}); // 3: other schema
  make({s, Ops{OP("", w.insert_into(T(2), R(0))), OP("", w.comment("x")), OP("", w.delete_from(T(2), R(0)))}}); // 4: emptied
  bytes.push_back("joedb, but not really a joedb file at all, whatever"); // 5: damaged
  bytes.push_back(""); // 6: missing
 }
 for (int i = 0; i < n; i++)
 {
  const int k = c.choose(7);
  if (i == 0)
   c.split();
  kinds.push_back(k);
  const std::string p = path("f" + str(k));
  if (k != 6)
   put_file(p, bytes[size_t(k)]);
  args.push_back(p);
 }
 std::string note;
 for (const int k: kinds)
  note += " " + str(k);
 c.note("joedb_merge" + note);
 const std::string out = path("out.joedb");
 args.push_back(out);
 const Tool_Result r = tool(joedb_merge_main, args);
 // reference
 int first = -1, errors = 0;
 std::vector<int> merged;
 for (const int k: kinds)
  if (k >= 5)
   errors++;
  else if (first < 0)
  {
   first = k;
   merged.push_back(k);
  }
  else if ((k == 3) != (first == 3))
   errors++;
  else
   merged.push_back(k);
 require((r.code == 0) == (first >= 0), "joedb_merge returns " + str(r.code) + ": " + r.err, "merge_tool");
 if (first >= 0)
 {
  require((r.err.find("Number of errors: " + str(errors)) != std::string::npos) == (errors > 0), "joedb_merge does not report its errors: " + r.err, "merge_tool_errors");
  Loaded expected_file(bytes[size_t(first)]);
  Database &expected = expected_file.db;
  for (size_t i = 1; i < merged.size(); i++)
   merge(expected, Loaded(bytes[size_t(merged[i])]).db);
  const std::string got = mc::dump(Loaded(content(out)).db);
  require(got == mc::dump(expected), "joedb_merge gives:\n" + got + "instead of:\n" + mc::dump(expected), "merge_tool");
  c.outcome(got);
 }
 for (const int k: kinds)
  if (k != 6)
   require(content(path("f" + str(k))) == bytes[size_t(k)], "joedb_merge modified its input", "merge_tool_input");
 c.transition();
 c.state(mc::hash_string(note));
}

static void tools_part(mc::Explorer &ex, bool th)
{
 Ops ops = schema_alphabet();
 for (const Op &op: information_alphabet())
  ops.push_back(op);
 ex.explore("tools", [=](Chooser &c) {tools_history(c, schema_setup(), ops, th ? 3 : 2);});
 ex.explore("tool_merge", [=](Chooser &c) {tools_merge(c, th ? 5 : 3);});
}
