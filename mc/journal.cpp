// C05: a journal replays exactly what was written to it.
#include "explorer.h"
#include "recorder.h"

#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"

#include <limits>
#include <memory>

using namespace joedb;
using mc::Chooser;
using mc::require;

struct Op {std::string name; std::function<void(Writable &)> f;};

static std::vector<Op> ops;
static void add(std::vector<Op> &v, const std::string &name, std::function<void(Writable &)> f) {v.push_back(Op{name, f});}

static Table_Id T(int64_t x) {return Table_Id(x);}
static Record_Id R(int64_t x) {return Record_Id(x);}
static Field_Id F(int64_t x) {return Field_Id(x);}

// What a reader must deliver for one operation
static void expected(const Op &op, bool blob_data, std::string &out)
{
 mc::Recorder r;
 op.f(r);
 for (const std::string &s: r.ops)
 {
  if (s.rfind("update_vector_", 0) == 0)
  {
   // a vector of size 0 is no update at all
   std::istringstream i(s);
   std::string a, b, c, d, n;
   i >> a >> b >> c >> d >> n;
   if (n == "0")
    continue;
  }
  if (s.rfind("write_blob ", 0) == 0)
  {
   // replayed as on_blob, then write_blob if data is wanted
   mc::Recorder x;
   struct Catch: public Dummy_Writable
   {
    size_t size = 0;
    Blob write_blob(std::string_view v) override {size = v.size(); return Blob();}
    bool wants_blob_data() const override {return true;}
   } catcher;
   op.f(catcher);
   out += "on_blob +" + std::to_string(catcher.size) + "\n";
   if (blob_data)
    out += s + "\n";
  }
  else
   out += s + "\n";
 }
}

struct Session
{
 Memory_File file;
 std::unique_ptr<Writable_Journal> journal;
 std::vector<int> written;
 const std::vector<Op> &alphabet;
 std::vector<int64_t> ends;
 int checkpointed = 0;

 // a reader that follows step by step
 std::unique_ptr<Readonly_Journal> follower;
 mc::Recorder follower_recorder;

 // a copy made by following
 Memory_File copy_file;
 std::unique_ptr<Writable_Journal> copy;
 std::unique_ptr<Readonly_Journal> copier;

 Session(const std::vector<Op> &alphabet): alphabet(alphabet)
 {
  journal = std::make_unique<Writable_Journal>(file);
 }

 std::string text(int n, bool blob_data) const
 {
  std::string r;
  for (int i = 0; i < n; i++)
   expected(alphabet[size_t(written[size_t(i)])], blob_data, r);
  return r;
 }

 void write(int i)
 {
  alphabet[size_t(i)].f(*journal);
  written.push_back(i);
  ends.push_back(journal->get_position());
 }

 void checkpoint(bool hard)
 {
  if (hard)
   journal->hard_checkpoint();
  else
   journal->soft_checkpoint();
  checkpointed = int(written.size());
 }

 void reopen()
 {
  checkpoint(false);
  journal.reset();
  follower.reset();
  follower_recorder.ops.clear();
  journal = std::make_unique<Writable_Journal>(file);
  mc::Recorder r;
  journal->play_until_checkpoint(r);
  require(r.text() == text(checkpointed, true), "replay by the writer after reopening:\n" + r.text() + "instead of\n" + text(checkpointed, true));
 }

 void follow()
 {
  if (!follower)
  {
   follower = std::make_unique<Readonly_Journal>(file);
   follower_recorder.ops.clear();
  }
  else
   follower->pull();
  require(follower->get_checkpoint() == (checkpointed ? ends[size_t(checkpointed - 1)] : Header::ssize), "follower does not see the last checkpoint");
  follower->play_until_checkpoint(follower_recorder);
  require(follower_recorder.text() == text(checkpointed, true), "replay by following:\n" + follower_recorder.text() + "instead of\n" + text(checkpointed, true));
 }

 void self_replay()
 {
  // reading with the writer itself, then writing again
  checkpoint(false);
  mc::Recorder r;
  journal->replay_log(r);
  require(r.text() == text(checkpointed, true), "replay by the writer itself:\n" + r.text() + "instead of\n" + text(checkpointed, true));
 }

 void copy_step()
 {
  if (!copy)
  {
   copy = std::make_unique<Writable_Journal>(copy_file);
   copier = std::make_unique<Readonly_Journal>(file);
  }
  else
   copier->pull();
  copier->play_until_checkpoint(*copy);
  require(copy->get_checkpoint() == copy->get_position(), "copy not checkpointed");
  check_reader(copy_file, "copy of the journal");
 }

 void check_reader(Abstract_File &f, const std::string &what)
 {
  Readonly_Journal reader(f);
  mc::Recorder r;
  reader.replay_log(r);
  require(r.text() == text(checkpointed, true), what + ":\n" + r.text() + "instead of\n" + text(checkpointed, true));
 }

 void final_checks()
 {
  checkpoint(false);
  if (follower)
   follow();
  if (copy)
   copy_step();

  const std::string full = text(checkpointed, true);
  check_reader(file, "replay");

  {
   Readonly_Journal reader(file);
   mc::Recorder r;
   r.blob_data = false;
   reader.replay_log(r);
   const std::string expected = text(checkpointed, false);
   require(r.text() == expected, "replay without blobs:\n" + r.text() + "instead of\n" + expected);
   // twice with the same reader
   mc::Recorder r2;
   reader.replay_log(r2);
   require(r2.text() == full, "second replay by the same reader:\n" + r2.text() + "instead of\n" + full);
  }

  {
   // operation by operation
   Readonly_Journal reader(file);
   mc::Recorder r;
   int done = 0;
   for (const int64_t end: ends)
   {
    reader.play_until(r, end);
    require(reader.get_position() == end, "partial replay stops at another position");
    done++;
   }
   require(r.text() == full, "replay operation by operation:\n" + r.text() + "instead of\n" + full);
  }

  {
   Readonly_Journal reader(file);
   mc::Recorder r;
   reader.raw_play_until_checkpoint(r);
   require(r.text() == full, "raw replay:\n" + r.text() + "instead of\n" + full);
   reader.rewind();
   mc::Recorder r2;
   while (reader.get_position() < reader.get_checkpoint())
    reader.one_step(r2);
   require(r2.text() == full, "replay by steps:\n" + r2.text() + "instead of\n" + full);
  }

  {
   // with comments giving the position after each operation
   Readonly_Journal reader(file);
   mc::Recorder r;
   reader.replay_with_checkpoint_comments(r);
   std::string e;
   for (size_t i = 0; i < written.size(); i++)
   {
    if (ends[i] == (i ? ends[i - 1] : Header::ssize))
     continue;
    expected(alphabet[size_t(written[i])], true, e);
    e += "comment " + mc::show(std::to_string(ends[i])) + "\n";
   }
   require(r.text() == e, "replay with comments:\n" + r.text() + "instead of\n" + e);
  }

  {
   // two steps into a journal that is already ahead of the reader
   Memory_File target_file;
   Writable_Journal target(target_file);
   const size_t half = ends.size() / 2;
   Readonly_Journal reader(file);
   if (half)
    reader.play_until(target, ends[half - 1]);
   Readonly_Journal again(file);
   again.play_until_checkpoint(target);
   // positions are the same unless there are blobs references, which are kept
   Readonly_Journal check(target_file);
   mc::Recorder r;
   check.replay_log(r);
   require(r.text() == full, "replay into a journal that had the beginning:\n" + r.text() + "instead of\n" + full);
  }

  {
   // A copy of the bytes by pull_from
   Memory_File target_file;
   Writable_Journal target(target_file);
   Readonly_Journal source(file);
   const size_t third = ends.size() / 3;
   if (third)
    target.pull_from(source, ends[third]);
   target.pull_from(source);
   require(target.get_checkpoint() == source.get_checkpoint(), "pull_from: wrong checkpoint");
   Readonly_Journal check(target_file);
   mc::Recorder r;
   check.replay_log(r);
   require(r.text() == full, "replay of pulled journal");
  }
 }

 uint64_t hash() const
 {
  return mc::hash_bytes(file.get_data().data(), file.get_data().size());
 }
};

// control: 0 soft, 1 hard, 2 reopen, 3 follow, 4 self replay, 5 flush, 6 copy
static void control(Session &s, int k)
{
 switch (k)
 {
  case 0: s.checkpoint(false); break;
  case 1: s.checkpoint(true); break;
  case 2: s.reopen(); break;
  case 3: s.checkpoint(false); s.follow(); break;
  case 4: s.self_replay(); break;
  case 5: s.journal->flush(); break;
  case 6: s.checkpoint(false); s.copy_step(); break;
  case 7: s.follow(); break; // sees the previous checkpoint
 }
}
static const char *control_name[] = {"soft", "hard", "reopen", "follow", "self_replay", "flush", "copy", "late_follow"};

static void sequence(Chooser &c, const std::vector<Op> &alphabet, int length, int controls, int pad)
{
 Destructor_Logger::remove_logger();
 Session s(alphabet);
 const int n = int(alphabet.size()) - (pad >= 0 ? 1 : 0);
 int last_control = -1;
 for (int i = 0; i < length; i++)
 {
  const int x = c.choose(n + controls);
  if (x < n)
  {
   c.note(alphabet[size_t(x)].name);
   s.write(x);
   last_control = -1;
  }
  else
  {
   const int k = x - n;
   if (k == last_control)
    throw mc::Skip(); // doing the same twice in a row adds nothing
   last_control = k;
   c.note(control_name[k]);
   control(s, k);
  }
  c.transition();
  if (i == 1 || (i == 0 && length == 1))
   c.split();
 }
 s.final_checks();
 c.state(s.hash());
 c.outcome(std::to_string(s.file.get_data().size()));
}

static std::vector<Op> context_alphabet()
{
 std::vector<Op> v;
 for (int t = 1; t <= 2; t++)
  for (int r = 0; r < (t == 1 ? 3 : 1); r++)
   add(v, "insert", [=](Writable &w){w.insert_into(T(t), R(r));});
 add(v, "insert_vector", [](Writable &w){w.insert_vector(T(1), R(0), 2);});
 add(v, "insert_vector1", [](Writable &w){w.insert_vector(T(1), R(1), 1);});
 add(v, "delete", [](Writable &w){w.delete_from(T(1), R(1));});
 add(v, "delete_vector", [](Writable &w){w.delete_vector(T(1), R(0), 2);});
 for (int t = 1; t <= 2; t++)
  for (int r = 0; r < (t == 1 ? 3 : 2); r++)
   for (int f = 1; f <= (t == 1 && r < 2 ? 2 : 1); f++)
    add(v, "update_int32", [=](Writable &w){w.update_int32(T(t), R(r), F(f), 7 * t + 3 * r + f);});
 add(v, "update_string", [](Writable &w){w.update_string(T(1), R(1), F(1), "s");});
 add(v, "update_vector", [](Writable &w){const int32_t x[2] = {5, 6}; w.update_vector_int32(T(1), R(0), F(1), 2, x);});
 add(v, "update_vector0", [](Writable &w){const int32_t x[1] = {5}; w.update_vector_int32(T(1), R(1), F(2), 0, x);});
 add(v, "write_blob", [](Writable &w){w.write_blob("blob");});
 add(v, "custom", [](Writable &w){w.custom("custom");});
 add(v, "create_table", [](Writable &w){w.create_table("x");});
 return v;
}

static std::vector<Op> value_alphabet()
{
 std::vector<Op> v;
 const std::vector<std::string> strings = {"", "a", std::string(1, '\0'), std::string("a\0b\xff\n\"", 6), std::string(31, 'x'), std::string(32, 'y'), std::string(8191, 'z'), std::string(8192, 'u'), std::string(4096, 'v'), std::string(70000, 'w')};
 const std::vector<int64_t> ids = {0, 1, 30, 31, 32, 8190, 8191, 8192, (1 << 21) - 2, (1 << 21) - 1, 1 << 21, (1ll << 29) - 2, (1ll << 29) - 1, 1ll << 29, (1ll << 37) - 2, 1ll << 37, (1ll << 45) - 2, 1ll << 45, (1ll << 53) - 2, (1ll << 53), (1ll << 60)};
 for (const auto &s: strings)
 {
  add(v, "create_table", [=](Writable &w){w.create_table(s);});
  add(v, "rename_table", [=](Writable &w){w.rename_table(T(1), s);});
  add(v, "rename_field", [=](Writable &w){w.rename_field(T(1), F(2), s);});
  add(v, "add_field", [=](Writable &w){w.add_field(T(1), s, Type::string());});
  add(v, "custom", [=](Writable &w){w.custom(s);});
  add(v, "comment", [=](Writable &w){w.comment(s);});
  add(v, "blob", [=](Writable &w){w.write_blob(s);});
  add(v, "update_string", [=](Writable &w){w.update_string(T(1), R(0), F(1), s);});
 }
 #define TYPE_MACRO(a, b, type_id, c, d)\
 if (Type::Type_Id::type_id != Type::Type_Id::reference)\
  add(v, "add_field " #type_id, [=](Writable &w){w.add_field(T(1), "f", Type(Type::Type_Id::type_id));});
 #include "joedb/TYPE_MACRO.h"
 for (const int64_t i: ids)
 {
  add(v, "drop_table", [=](Writable &w){w.drop_table(T(i));});
  add(v, "drop_field", [=](Writable &w){w.drop_field(T(i), F(i));});
  add(v, "add_reference", [=](Writable &w){w.add_field(T(i), "ref", Type::reference(T(i)));});
  add(v, "insert", [=](Writable &w){w.insert_into(T(i), R(i));});
  add(v, "insert1", [=](Writable &w){w.insert_into(T(1), R(i));});
  add(v, "insert_vector", [=](Writable &w){w.insert_vector(T(1), R(i), size_t(i));});
  add(v, "delete", [=](Writable &w){w.delete_from(T(i), R(i));});
  add(v, "delete_vector", [=](Writable &w){w.delete_vector(T(1), R(i), size_t(i));});
  add(v, "update_reference", [=](Writable &w){w.update_reference(T(1), R(i), F(1), R(i));});
  add(v, "update_int8", [=](Writable &w){w.update_int8(T(1), R(i), F(i), int8_t(i));});
  add(v, "update_blob", [=](Writable &w){w.update_blob(T(1), R(0), F(1), Blob(i, i / 2));});
 }
 add(v, "update_reference null", [=](Writable &w){w.update_reference(T(1), R(0), F(1), R(-1));});
 add(v, "timestamp", [=](Writable &w){w.timestamp(0);});
 add(v, "timestamp-", [=](Writable &w){w.timestamp(-1);});
 add(v, "timestamp max", [=](Writable &w){w.timestamp(std::numeric_limits<int64_t>::max());});
 add(v, "valid_data", [=](Writable &w){w.valid_data();});
 for (const int64_t i: {int64_t(0), int64_t(1), int64_t(-1), int64_t(127), int64_t(-128), int64_t(32767), int64_t(-32768), int64_t(INT32_MAX), int64_t(INT32_MIN), INT64_MAX, INT64_MIN})
 {
  add(v, "int8", [=](Writable &w){w.update_int8(T(1), R(0), F(1), int8_t(i));});
  add(v, "int16", [=](Writable &w){w.update_int16(T(1), R(0), F(1), int16_t(i));});
  add(v, "int32", [=](Writable &w){w.update_int32(T(1), R(0), F(1), int32_t(i));});
  add(v, "int64", [=](Writable &w){w.update_int64(T(1), R(0), F(1), i);});
 }
 for (const bool b: {false, true})
  add(v, "boolean", [=](Writable &w){w.update_boolean(T(1), R(0), F(1), b);});
 for (const double d: {0.0, -0.0, 1.5, -1e300, 5e-324, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
 {
  add(v, "float32", [=](Writable &w){w.update_float32(T(1), R(0), F(1), float(d));});
  add(v, "float64", [=](Writable &w){w.update_float64(T(1), R(0), F(1), d);});
 }
 for (const size_t n: {0, 1, 2, 31, 32, 512, 513, 3000})
 {
  add(v, "vector string", [=](Writable &w){std::vector<std::string> x; for (size_t i = 0; i <= n; i++) x.push_back(std::string(i % 5, char('a' + i % 26))); w.update_vector_string(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector int32", [=](Writable &w){std::vector<int32_t> x; for (size_t i = 0; i <= n; i++) x.push_back(int32_t(i * 77777)); w.update_vector_int32(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector int64", [=](Writable &w){std::vector<int64_t> x; for (size_t i = 0; i <= n; i++) x.push_back(int64_t(i) * -777777777777ll); w.update_vector_int64(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector int16", [=](Writable &w){std::vector<int16_t> x; for (size_t i = 0; i <= n; i++) x.push_back(int16_t(i * 777)); w.update_vector_int16(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector int8", [=](Writable &w){std::vector<int8_t> x; for (size_t i = 0; i <= n; i++) x.push_back(int8_t(i * 7)); w.update_vector_int8(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector boolean", [=](Writable &w){std::vector<char> x; for (size_t i = 0; i <= n; i++) x.push_back(char(i & 1)); w.update_vector_boolean(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector reference", [=](Writable &w){std::vector<Record_Id> x; for (size_t i = 0; i <= n; i++) x.push_back(R(int64_t(i * i * i) - 1)); w.update_vector_reference(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector float32", [=](Writable &w){std::vector<float> x; for (size_t i = 0; i <= n; i++) x.push_back(float(i) * 1.1f); w.update_vector_float32(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector float64", [=](Writable &w){std::vector<double> x; for (size_t i = 0; i <= n; i++) x.push_back(double(i) * 1.1); w.update_vector_float64(T(1), R(0), F(1), n, &x[0]);});
  add(v, "vector blob", [=](Writable &w){std::vector<Blob> x; for (size_t i = 0; i <= n; i++) x.push_back(Blob(int64_t(i * 1000), int64_t(i))); w.update_vector_blob(T(1), R(0), F(1), n, &x[0]);});
 }
 return v;
}

// Every type, in the three encodings (full, same record, next record)
static std::vector<Op> types_alphabet()
{
 std::vector<Op> v;
 for (int r = 0; r < 2; r++)
 {
  const bool b = r;
  add(v, "insert", [=](Writable &w){w.insert_into(T(1), R(r));});
  add(v, "string", [=](Writable &w){w.update_string(T(1), R(r), F(1), "str");});
  add(v, "int8", [=](Writable &w){w.update_int8(T(1), R(r), F(1), -3);});
  add(v, "int16", [=](Writable &w){w.update_int16(T(1), R(r), F(1), -300);});
  add(v, "int32", [=](Writable &w){w.update_int32(T(1), R(r), F(1), -300000);});
  add(v, "int64", [=](Writable &w){w.update_int64(T(1), R(r), F(1), -30000000000ll);});
  add(v, "reference", [=](Writable &w){w.update_reference(T(1), R(r), F(1), R(77));});
  add(v, "boolean", [=](Writable &w){w.update_boolean(T(1), R(r), F(1), b);});
  add(v, "float32", [=](Writable &w){w.update_float32(T(1), R(r), F(1), 1.5f);});
  add(v, "float64", [=](Writable &w){w.update_float64(T(1), R(r), F(1), 2.5);});
  add(v, "blob", [=](Writable &w){w.update_blob(T(1), R(r), F(1), Blob(50, 5));});
  add(v, "vector", [=](Writable &w){const double x[2] = {1, 2}; w.update_vector_float64(T(1), R(r), F(1), 2, x);});
 }
 add(v, "int32 f2", [=](Writable &w){w.update_int32(T(1), R(1), F(2), 5);});
 return v;
}

// Operations to be placed across the end of the buffer
static std::vector<Op> boundary_alphabet()
{
 std::vector<Op> v;
 add(v, "insert", [](Writable &w){w.insert_into(T(1), R(0));});
 add(v, "insert big", [](Writable &w){w.insert_into(T(1ll << 50), R(1ll << 50));});
 add(v, "int64", [](Writable &w){w.update_int64(T(1), R(0), F(1), 0x123456789abcdefll);});
 add(v, "string", [](Writable &w){w.update_string(T(1), R(0), F(1), "0123456789");});
 add(v, "string8", [](Writable &w){w.update_string(T(1), R(0), F(1), "01234567");});
 add(v, "string5000", [](Writable &w){w.update_string(T(1), R(0), F(1), std::string(5000, 'q'));});
 add(v, "blob", [](Writable &w){w.write_blob("blobblobblob");});
 add(v, "blob0", [](Writable &w){w.write_blob("");});
 add(v, "blob5000", [](Writable &w){w.write_blob(std::string(5000, 'B'));});
 add(v, "vector", [](Writable &w){const int64_t x[3] = {1, -2, 3}; w.update_vector_int64(T(1), R(0), F(1), 3, x);});
 add(v, "vector big", [](Writable &w){std::vector<int64_t> x(600, -5); w.update_vector_int64(T(1), R(0), F(1), 600, &x[0]);});
 add(v, "vector strings", [](Writable &w){const std::string x[3] = {"", "abcdefgh", "abcdefghi"}; w.update_vector_string(T(1), R(0), F(1), 3, x);});
 add(v, "timestamp", [](Writable &w){w.timestamp(-2);});
 add(v, "blob ref", [](Writable &w){w.update_blob(T(1), R(0), F(1), Blob(1ll << 40, 1ll << 40));});
 return v;
}

static void boundary(Chooser &c, int length, int from, int to)
{
 static const std::vector<Op> base = boundary_alphabet();
 const int pad = from + c.choose(to - from);
 c.note("after a comment of " + std::to_string(pad) + " bytes");
 c.split();
 std::vector<Op> alphabet = base;
 add(alphabet, "pad", [=](Writable &w){w.comment(std::string(size_t(pad), 'c'));});
 Destructor_Logger::remove_logger();
 Session s(alphabet);
 // the comment uses 2 more bytes for its size and one for its code
 s.write(int(base.size()));
 for (int i = 0; i < length; i++)
 {
  const int n = int(base.size());
  const int x = c.choose(n + (i == 1 ? 3 : 0));
  if (x < n)
  {
   c.note(base[size_t(x)].name);
   s.write(x);
  }
  else
  {
   static const int k[3] = {0, 4, 2};
   c.note(control_name[k[x - n]]);
   control(s, k[x - n]);
  }
  c.transition();
 }
 s.final_checks();
 c.state(s.hash());
 c.outcome(std::to_string(s.file.get_data().size()));
}

// Writers that do not read: each client appends to the file in turn, and only
// skips what the others wrote.
static void clients(Chooser &c, int length)
{
 Destructor_Logger::remove_logger();
 static const std::vector<Op> alphabet = []()
 {
  std::vector<Op> v;
  add(v, "insert 0", [](Writable &w){w.insert_into(T(1), R(0));});
  add(v, "insert 1", [](Writable &w){w.insert_into(T(1), R(1));});
  add(v, "insert 2", [](Writable &w){w.insert_into(T(1), R(2));});
  add(v, "update 0", [](Writable &w){w.update_int32(T(1), R(0), F(1), 5);});
  add(v, "update 1", [](Writable &w){w.update_int32(T(1), R(1), F(1), 6);});
  add(v, "update f2", [](Writable &w){w.update_int32(T(1), R(1), F(2), 6);});
  return v;
 }();

 struct Shared_File: public Memory_File
 {
  Memory_File &base;
  Shared_File(Memory_File &base): Memory_File(Open_Mode::shared_write), base(base) {}
  int64_t get_size() const override {return base.get_size();}
  size_t pread(char *data, size_t size, int64_t offset) const override {return base.pread(data, size, offset);}
  void pwrite(const char *data, size_t size, int64_t offset) override {base.pwrite(data, size, offset);}
 };

 Memory_File base;
 Shared_File files[2] = {base, base};
 std::unique_ptr<Writable_Journal_Client> client[2];
 for (int i = 0; i < 2; i++)
  client[i] = std::make_unique<Writable_Journal_Client>(files[i]);
 std::string written;
 for (int i = 0; i < length; i++)
 {
  const int k = c.choose(2);
  const int x = c.choose(int(alphabet.size()) + 1);
  if (x == int(alphabet.size()))
  {
   c.note("client " + std::to_string(k) + " restarts");
   client[k].reset();
   client[k] = std::make_unique<Writable_Journal_Client>(files[k]);
  }
  else
  {
   c.note("client " + std::to_string(k) + " " + alphabet[size_t(x)].name);
   client[k]->transaction([&](Writable_Journal &j){alphabet[size_t(x)].f(j);});
   expected(alphabet[size_t(x)], true, written);
  }
  if (i == 0)
   c.split();
  c.transition();
 }
 Readonly_Journal reader(base);
 mc::Recorder r;
 reader.replay_log(r);
 require(r.text() == written, "journal written by two clients:\n" + r.text() + "instead of\n" + written, "journal_client_context");
 c.state(mc::hash_string(written));
}

int main(int argc, char **argv)
{
 mc::Explorer ex(argc, argv, "C05");
 const bool t = ex.is_thorough();
 static const std::vector<Op> context = context_alphabet();
 static const std::vector<Op> values = value_alphabet();
 static const std::vector<Op> types = types_alphabet();
 ex.explore("context", [&](Chooser &c){sequence(c, context, t ? 5 : 4, 0, -1);});
 ex.explore("context_with_checkpoints", [&](Chooser &c){sequence(c, context, t ? 5 : 4, 8, -1);});
 ex.explore("values", [&](Chooser &c){sequence(c, values, 2, t ? 3 : 1, -1);});
 ex.explore("types", [&](Chooser &c){sequence(c, types, t ? 4 : 3, 0, -1);});
 ex.explore("boundary", [&](Chooser &c){boundary(c, t ? 3 : 2, 4096 - 55, 4096 + 12);});
 ex.explore("boundary2", [&](Chooser &c){boundary(c, t ? 2 : 1, 2 * 4096 - 60, 2 * 4096 + 20);});
 ex.explore("journal_clients", [&](Chooser &c){clients(c, t ? 6 : 4);});
 return ex.finish
 (
  "model_checking",
  "Every sequence of operations of the stated length over the alphabets (operation contexts, boundary values, all types and encodings, "
  "operations placed at every offset around the end of the buffer), with checkpoints, flushes, reopenings and followers at every place, "
  "run on the real journal classes, and replayed in every way; the oracle is the sequence of operations that were written. States are distinct journal files.",
  {"files in memory", "identifiers below 2^60"}
 );
}
