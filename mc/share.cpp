// C04: processes that share a file behave as if their transactions ran one at
// a time.
//
// The real clients, on the real joedb::File, over simulated system calls. Each
// "process" is a task of a cooperative scheduler, and every system call is a
// scheduling point. All interleavings are enumerated.
#include "explorer.h"
#include "coop.h"
#include "sim_posix.h"
#include "sim_file.h"
#include "dump.h"

#include "mcdb_s1/s1/writable.h"
#include "mcdb_s1/s1/Client.h"

#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Readonly_Database_Client.h"
#include "joedb/journal/File.h"
#include "joedb/error/Destructor_Logger.h"

#include <algorithm>
#include <memory>
#include <set>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

static const char * const path = "/mc-sim/shared.joedb";

struct Abort_Transaction: public std::runtime_error
{
 Abort_Transaction(): std::runtime_error("abort") {}
};

/////////////////////////////////////////////////////////////////////////////
// Units of data. Each unit is made of two operations.
/////////////////////////////////////////////////////////////////////////////
static string unit_text(const string &id, size_t size)
{
 string s = "#" + id + "#";
 s.resize(std::max(s.size(), size), '.');
 return s;
}

static string unit_id(const string &s)
{
 if (s.empty() || s[0] != '#')
  return "?";
 const size_t i = s.find('#', 1);
 if (i == string::npos || s.find_first_not_of('.', i + 1) != string::npos)
  return "damaged";
 return s.substr(1, i - 1);
}

class Collector: public Writable
{
 public:
  vector<string> ids;
  vector<string> records; // ids of those that are in records
  int started = 0;
  bool schema_written = false;
  vector<string> schema;

  void insert_vector(Table_Id, Record_Id, size_t) override {}
  void delete_vector(Table_Id, Record_Id, size_t) override {}
  void timestamp(int64_t t) override {started += t == 7;}
  void insert_into(Table_Id, Record_Id) override {started++;}
  void comment(const string &s) override
  {
   if (s.compare(0, 9, "Automatic"))
    ids.push_back(unit_id(s));
  }
  void update_string(Table_Id, Record_Id, Field_Id, std::string_view x) override
  {
   ids.push_back(unit_id(string(x)));
   records.push_back(ids.back());
  }
  void create_table(const string &name) override {schema.push_back("table " + name);}
  void add_field(Table_Id t, const string &name, Type) override {schema.push_back("field " + to_string(to_underlying(t)) + name);}
};

static string join(const vector<string> &v)
{
 string r;
 for (const string &s: v)
  r += s + " ";
 return r;
}

struct World
{
 Chooser &c;
 mc::Sim_Posix posix;
 vector<string> committed;            // in the order in which commits returned
 std::set<string> may_appear;         // being committed, or committed
 std::map<string, vector<string>> before; // what was seen by each unit
 vector<vector<string>> final_views;
 vector<vector<string>> reader_views;
 int reached = 0, finished = 0;
 int tail_garbage = 0; // transactions were aborted or killed
 size_t processes = 0;
 bool abandoned = false;
 mc::Coop coop; // destroyed first

 World(Chooser &c): c(c), coop(c)
 {
  posix.coop = &coop;
  posix.torn_below = 41;
  coop.on_death = [this](mc::Task &t)
  {
   posix.close_all(t);
   if (abandoned)
    return;
   tail_garbage++;
   reached |= 1 << (t.name[0] - 'A');
   finished |= 1 << (t.name[0] - 'A');
  };
  coop.killable = [](const mc::Task &t) {return t.where != "end of pwrite head" && t.where != "barrier";};
  coop.shared_state = [this]()
  {
   uint64_t h = posix.hash();
   for (const string &s: committed)
    h = mc::hash_string(s, h);
   h = mc::hash_string("|", h);
   for (const string &s: may_appear)
    h = mc::hash_string(s, h);
   for (const auto &v: final_views)
    h = mc::hash_string("f" + join(v), h);
   for (const auto &v: reader_views)
    h = mc::hash_string("r" + join(v), h);
   for (const auto &[id, v]: before)
    h = mc::hash_string(id + join(v), h);
   h += uint64_t(reached) * 31 + uint64_t(finished) * 1009 + uint64_t(tail_garbage) * 77777;
   return h;
  };
 }

 Collector parse(int64_t until = -1)
 {
  mc::View view(posix.inodes[path].data);
  Readonly_Journal journal{Journal_Construction_Lock(view)};
  Collector result;
  if (until < 0)
   until = journal.get_checkpoint();
  require(until <= journal.get_checkpoint(), "a client is ahead of the file");
  journal.play_until(result, until);
  require(journal.get_position() == until, "the checkpoint is not between two operations");
  require(result.started == int(result.ids.size()), "a transaction is cut");
  for (const string &s: result.ids)
   require(s != "?" && s != "damaged", "damaged data in the file");
  return result;
 }

 // What a client that holds the lock sees. Called at the start of each unit.
 void check_view(const vector<string> &view, const string &unit, const vector<string> &own)
 {
  for (const string &s: committed)
   require(std::count(view.begin(), view.end(), s) == 1, unit + " does not see " + s + " (sees " + join(view) + ")", "lost_transaction");
  for (const string &s: view)
   require(may_appear.count(s), unit + " sees " + s + " which was not committed", "uncommitted_data");
  require
  (
   view.size() >= own.size() && vector<string>(view.end() - long(own.size()), view.end()) == own,
   unit + " does not see what its own transaction wrote"
  );
 }

 mc::Task *self() {return coop.running();}
};

/////////////////////////////////////////////////////////////////////////////
// Processes
/////////////////////////////////////////////////////////////////////////////
struct Process
{
 World &w;
 const string name;
 int count = 0;
 bool usable = false;

 Process(World &w, const string &name): w(w), name(name) {}
 virtual ~Process() = default;

 virtual void open(File &file) = 0;
 virtual void close() = 0;
 virtual int64_t checkpoint() = 0;
 virtual vector<string> view() = 0;
 virtual void write(const string &text) = 0;
 virtual void transaction(const std::function<void()> &f) = 0;
 virtual void locked(const std::function<void(Client_Lock &)> &f) = 0;
 virtual Writable_Client &client() = 0;

 std::unique_ptr<File> file;

 string start_unit(vector<string> &own)
 {
  const string id = name + to_string(count++);
  const vector<string> v = view();
  w.self()->learn(join(v));
  w.check_view(v, id, own);
  w.before[id] = v;
  own.push_back(id);
  return id;
 }

 void unit(vector<string> &own, size_t size)
 {
  const string id = start_unit(own);
  write(unit_text(id, size));
 }

 void commit(vector<string> &own, size_t from = 0)
 {
  for (size_t i = from; i < own.size(); i++)
   w.may_appear.insert(own[i]);
 }

 void committed(const vector<string> &own, size_t from = 0)
 {
  for (size_t i = from; i < own.size(); i++)
   w.committed.push_back(own[i]);
 }

 // the client contains data that was not committed
 void refuses()
 {
  usable = false;
  bool refused = false;
  try
  {
   transaction([&]()
   {
    mc::fail(name + ": a transaction starts from the remains of an aborted one", "inconsistent_client");
   });
  }
  catch (const joedb::Exception &)
  {
   refused = true;
  }
  require(refused, name + ": a transaction was possible after an aborted one", "inconsistent_client");
 }

 bool try_open()
 {
  try
  {
   file = std::make_unique<File>(path, Open_Mode::shared_write);
   open(*file);
  }
  catch (const joedb::Exception &e)
  {
   require(w.tail_garbage, name + ": cannot open the file: " + e.what(), "cannot_open");
   w.self()->learn(uint64_t(5));
   file.reset();
   return false;
  }
  return true;
 }

 void shut()
 {
  close();
  file.reset();
 }

 void run(const string &program)
 {
  usable = try_open();

  for (const char op: program)
  {
   if (!usable)
    break;
   vector<string> own;
   switch (op)
   {
    case 't': case 'b': case 'h': case 's': case 'm':
     client().set_hard_checkpoint(op == 'h');
     transaction([&]()
     {
      unit(own, op == 'b' ? 5000 : op == 's' ? 90 : op == 'm' ? 290 : 150);
      commit(own);
     });
     committed(own);
     break;

    case '2': // two units in a transaction
     transaction([&]()
     {
      unit(own, 150);
      const string id = name + to_string(count++);
      w.before[id] = w.before[own[0]];
      w.before[id].push_back(own[0]);
      own.push_back(id);
      write(unit_text(id, 150));
      commit(own);
     });
     committed(own);
     break;

    case 'e':
     client().pull_push();
     break;

    case 'p':
     client().pull();
     {
      const vector<string> v = view();
      for (const string &s: w.committed)
       if (s[0] == name[0])
        require(std::count(v.begin(), v.end(), s) == 1, name + " does not see its own " + s + " after a pull");
     }
     break;

    case 'a': case 'A':
     try
     {
      w.tail_garbage++;
      transaction([&]()
      {
       unit(own, op == 'A' ? 5000 : 150);
       throw Abort_Transaction();
      });
      mc::fail(name + ": exception lost in a transaction");
     }
     catch (const Abort_Transaction &)
     {
     }
     refuses();
     break;

    case 'x': // nothing was written: the client remains usable
     try
     {
      transaction([&]() {throw Abort_Transaction();});
      mc::fail(name + ": exception lost in a transaction");
     }
     catch (const Abort_Transaction &)
     {
     }
     break;

    case 'l': // two checkpoints under the same lock
     locked([&](Client_Lock &lock)
     {
      unit(own, 150);
      commit(own);
      lock.checkpoint_and_push();
      committed(own);
      const vector<string> first = own;
      unit(own, 150);
      commit(own);
      lock.checkpoint_and_push_unlock();
      committed(own, 1);
     });
     break;

    case 'u': // the second part is cancelled
     w.tail_garbage++;
     locked([&](Client_Lock &lock)
     {
      unit(own, 150);
      commit(own);
      lock.checkpoint_and_push();
      committed(own);
      unit(own, 150);
      lock.unlock();
     });
     refuses();
     break;

    case 'c': // nothing is written, and the lock is cancelled
     locked([&](Client_Lock &lock)
     {
      lock.unlock();
     });
     break;

    case 'o':
     shut();
     usable = try_open();
     break;
   }
  }

  if (!usable && file)
  {
   shut();
   // a client that failed can be replaced (unless it left a tail)
   usable = try_open();
  }

  const int index = name[0] - 'A';
  w.reached |= 1 << index;
  w.coop.yield("barrier", [this, index]()
  {
   const int previous = (1 << index) - 1;
   return w.reached == (1 << w.processes) - 1 && (w.finished & previous) == previous;
  });

  if (usable)
  {
   client().pull();
   vector<string> v = view();
   w.final_views.push_back(v);
   shut();
  }

  w.finished |= 1 << index;
 }
};

struct Journal_Process: public Process
{
 using Process::Process;
 std::unique_ptr<Writable_Journal_Client> j;
 Writable_Journal *writing = nullptr;

 void open(File &file) override {j = std::make_unique<Writable_Journal_Client>(file);}
 void close() override {j.reset();}
 int64_t checkpoint() override {return j->get_journal().get_checkpoint();}
 Writable_Client &client() override {return *j;}
 vector<string> view() override {return w.parse(checkpoint()).ids;}
 void write(const string &text) override
 {
  writing->timestamp(7);
  writing->comment(text);
 }
 void transaction(const std::function<void()> &f) override
 {
  j->transaction([&](Writable_Journal &journal)
  {
   writing = &journal;
   f();
  });
 }
 void locked(const std::function<void(Client_Lock &)> &f) override
 {
  Writable_Journal_Client_Lock lock(*j);
  writing = &lock.get_journal();
  f(lock);
 }
};

struct Database_Process: public Process
{
 using Process::Process;
 std::unique_ptr<Writable_Database_Client> d;
 Writable *writing = nullptr;

 void open(File &file) override {d = std::make_unique<Writable_Database_Client>(file);}
 void close() override {d.reset();}
 int64_t checkpoint() override {return d->get_journal().get_checkpoint();}
 Writable_Client &client() override {return *d;}

 vector<string> view() override
 {
  const Collector all = w.parse(checkpoint());
  vector<string> r;
  const Database &db = d->get_database();
  if (!db.get_tables().empty())
   for (Record_Id i{0}; i < db.get_freedom(Table_Id(1)).get_size(); ++i)
    if (db.get_freedom(Table_Id(1)).is_used(i))
     r.push_back(unit_id(db.get_string(Table_Id(1), i, Field_Id(1))));
  require(r == all.records, name + ": the database differs from its journal: " + join(r) + "/ " + join(all.records), "database_differs");
  return all.ids;
 }

 void write(const string &text) override
 {
  const Database &db = d->get_database();
  const Record_Id id = db.get_freedom(Table_Id(1)).get_size();
  writing->insert_into(Table_Id(1), id);
  writing->update_string(Table_Id(1), id, Field_Id(1), text);
 }

 void transaction(const std::function<void()> &f) override
 {
  d->transaction([&](const Readable &, Writable &writable)
  {
   writing = &writable;
   f();
  });
 }
 void locked(const std::function<void(Client_Lock &)> &f) override
 {
  Writable_Database_Client_Lock lock(*d);
  writing = &lock.get_writable();
  f(lock);
 }
};

struct Generated_Process: public Process
{
 using Process::Process;
 std::unique_ptr<mc::s1::Client> d;
 mc::s1::Writable_Database *writing = nullptr;

 void open(File &file) override {d = std::make_unique<mc::s1::Client>(file);}
 void close() override {d.reset();}
 int64_t checkpoint() override {return d->get_journal().get_checkpoint();}
 Writable_Client &client() override {return *d;}

 vector<string> view() override
 {
  const Collector all = w.parse(checkpoint());
  vector<string> r;
  for (const auto id: d->get_database().get_person_table())
   r.push_back(unit_id(d->get_database().get_name(id)));
  require(r == all.records, name + ": the database differs from its journal: " + join(r) + "/ " + join(all.records), "database_differs");
  return all.ids;
 }

 void write(const string &text) override
 {
  writing->set_name(writing->new_person(), text);
 }

 void transaction(const std::function<void()> &f) override
 {
  d->transaction([&](mc::s1::Writable_Database &db)
  {
   writing = &db;
   f();
  });
 }
 void locked(const std::function<void(Client_Lock &)> &f) override
 {
  mc::s1::Client_Lock lock(*d);
  writing = &lock.get_database();
  f(lock);
 }
};

// Follows the file without ever locking its tail
static void run_reader(World &w, const string &name, const string &program)
{
 std::unique_ptr<File> file;
 Collector seen;
 std::unique_ptr<Readonly_Journal> journal;
 std::unique_ptr<File> file2;
 vector<string> last;

 for (const char op: program)
 {
  const vector<string> committed = w.committed;
  w.self()->learn(join(committed));
  if (op == 'o' || !journal)
  {
   journal.reset();
   file2 = std::make_unique<File>(path, Open_Mode::read_existing);
   journal = std::make_unique<Readonly_Journal>(Journal_Construction_Lock(*file2));
   seen = Collector();
  }
  else
   journal->pull();
  journal->play_until_checkpoint(seen);
  require(journal->get_position() == journal->get_checkpoint(), name + ": the checkpoint is not between two operations", "torn_checkpoint");
  require(seen.started == int(seen.ids.size()), name + " sees a part of a transaction", "torn_checkpoint");
  for (const string &s: committed)
   require(std::count(seen.ids.begin(), seen.ids.end(), s) == 1, name + " does not see " + s, "stale_reader");
  for (const string &s: seen.ids)
   require(w.may_appear.count(s), name + " sees " + s + " which was not committed", "uncommitted_data");
  require(seen.ids.size() >= last.size() && std::equal(last.begin(), last.end(), seen.ids.begin()), name + " sees the history go backwards");
  last = seen.ids;
 }

 w.reader_views.push_back(last);
 w.reached |= 1 << (name[0] - 'A');
 w.finished |= 1 << (name[0] - 'A');
}

/////////////////////////////////////////////////////////////////////////////
struct Config
{
 string kinds;              // one character for each process
 vector<string> programs[4];
 bool missing = true;       // the file may be missing
 int kills = 0;
 int bound = -1;            // preemptions
};

static void body(Chooser &c, const Config &config)
{
 Destructor_Logger::remove_logger();
 const string &kinds = config.kinds;
 const bool missing = config.missing && c.flip();
 vector<string> programs;
 for (size_t i = 0; i < kinds.size(); i++)
 {
  int first = 0;
  if (i && kinds[i] == kinds[i - 1] && config.programs[i] == config.programs[i - 1])
   for (first = 0; config.programs[i][size_t(first)] != programs[i - 1];)
    first++; // symmetry
  const int n = int(config.programs[i].size());
  programs.push_back(config.programs[i][size_t(first + c.choose(n - first))]);
  c.note(string(1, char('A' + i)) + " (" + kinds[i] + "): " + programs.back());
 }
 c.split();

 World w(c);
 struct Abandon {World &w; ~Abandon() {w.abandoned = true;}} abandon{w};
 w.coop.max_kills = config.kills;
 w.coop.preemption_bounded = config.bound >= 0;
 w.processes = kinds.size();

 if (!missing)
 {
  w.may_appear.insert("base");
  w.committed.push_back("base");
  File file(path, Open_Mode::write_existing_or_create_new);
  if (kinds.find('g') != string::npos)
  {
   mc::s1::Writable_Database db(file);
   db.set_name(db.new_person(), unit_text("base", 100));
   db.hard_checkpoint();
  }
  else
  {
   Writable_Journal journal(file);
   journal.create_table("t");
   journal.add_field(Table_Id(1), "s", Type::string());
   journal.insert_into(Table_Id(1), Record_Id(0));
   journal.update_string(Table_Id(1), Record_Id(0), Field_Id(1), unit_text("base", 100));
   journal.hard_checkpoint();
  }
 }

 for (size_t i = 0; i < kinds.size(); i++)
 {
  const string name(1, char('A' + i));
  mc::Task &task = w.coop.spawn(name, [&w, name, kind = kinds[i], program = programs[i]]()
  {
   if (kind == 'r')
    run_reader(w, name, program);
   else
   {
    std::unique_ptr<Process> p;
    if (kind == 'j')
     p = std::make_unique<Journal_Process>(w, name);
    else if (kind == 'd')
     p = std::make_unique<Database_Process>(w, name);
    else
     p = std::make_unique<Generated_Process>(w, name);
    p->run(program);
   }
  });
  task.learn(kinds[i] + programs[i]); // the rest of the program is part of the state
 }

 w.coop.run();

 // The final content
 const Collector all = w.parse();
 c.note("final: " + join(all.ids));
 for (const string &s: w.committed)
  require(std::count(all.ids.begin(), all.ids.end(), s) == 1, "committed transaction " + s + " is in the final file " + to_string(std::count(all.ids.begin(), all.ids.end(), s)) + " times: " + join(all.ids), "lost_transaction");
 for (size_t i = 0; i < all.ids.size(); i++)
 {
  const string &s = all.ids[i];
  require(w.may_appear.count(s), s + " is in the final file but was not committed", "uncommitted_data");
  if (s != "base")
   require(w.before[s] == vector<string>(all.ids.begin(), all.ids.begin() + long(i)), s + " did not see what is before it in the final file: " + join(all.ids) + "/ " + join(w.before[s]), "not_serial");
 }
 for (const auto &v: w.final_views)
  require(v == all.ids, "a process ends with " + join(v) + "instead of " + join(all.ids), "final_view");
 for (const auto &v: w.reader_views)
  require(v.size() <= all.ids.size() && std::equal(v.begin(), v.end(), all.ids.begin()), "a reader saw " + join(v) + "but the final content is " + join(all.ids));
 {
  vector<string> schema = all.schema;
  std::sort(schema.begin(), schema.end());
  require(std::adjacent_find(schema.begin(), schema.end()) == schema.end(), "the schema was created twice");
 }
 c.outcome(join(all.ids) + to_string(w.final_views.size()));

 // The file can be opened again
 {
  File file(path, Open_Mode::write_existing);
  Writable_Journal journal{Journal_Construction_Lock(file, w.tail_garbage ? Recovery::overwrite : Recovery::none)};
  Collector again;
  journal.replay_log(again);
  require(again.ids == all.ids, "the content changed when the file was opened again");
 }
}

int main(int argc, char **argv)
{
 mc::Explorer ex(argc, argv, "C04");
 const bool t = ex.is_thorough();

 const vector<string> one{"t", "b", "h", "2", "e", "p", "a", "A", "l", "u", "c", "xt"};
 vector<string> two;
 for (const char *x: {"t", "p", "l", "h", "c", "e"})
  for (const char *y: {"t", "a", "u", "p", "o", "b"})
   two.push_back(string(x) + y);
 vector<string> both = one;
 both.insert(both.end(), two.begin(), two.end());

 const vector<string> few{"t", "l", "a", "p", "b"};
 const vector<string> readers{"p", "pp", "po", "ppp"};
 const vector<string> openers{"", "t", "p", "ot", "to"};

 auto explore = [&](const string &name, const Config &config)
 {
  ex.explore(name, [&](Chooser &c) {body(c, config);}, config.bound < 0 ? 1000 : config.bound);
 };

 for (const char *kinds: {"jj", "dd", "gg", "jd", "jg"})
 {
  Config config; config.kinds = kinds;
  const bool same = kinds[0] == kinds[1];
  config.programs[0] = config.programs[1] = t ? both : same ? one : few;
  config.missing = kinds != string("dd") && kinds != string("jd");
  explore(string("two_") + kinds, config);
 }
 for (const char *kinds: {"jj", "gg"})
 {
  Config config; config.kinds = kinds;
  config.programs[0] = config.programs[1] = openers;
  explore(string("openers_") + kinds, config);
 }
 for (const char *kinds: {"jr", "gr", "dr"})
 {
  Config config; config.kinds = kinds;
  config.missing = false;
  config.programs[0] = t ? both : one;
  config.programs[1] = t ? readers : vector<string>{"pp", "po"};
  explore(string("reader_") + kinds, config);
 }
 {
  Config config; config.kinds = "jr";
  config.missing = false;
  const vector<string> sizes = t ? vector<string>{"s", "t", "m", "h"} : vector<string>{"s", "m"};
  for (const string &x: sizes)
   for (const string &y: sizes)
    for (const string &z: sizes)
     config.programs[0].push_back(x + y + z);
  if (!t)
   for (const char *x: {"hss", "shs", "hsm", "ssh"})
    config.programs[0].push_back(x);
  config.programs[1] = {"pp"};
  explore("reader_torn", config);
 }
 for (const char *kinds: {"jj", "jr", "gg"})
 {
  Config config; config.kinds = kinds;
  config.kills = 1;
  config.programs[0] = t ? both : kinds[0] == 'g' ? vector<string>{"t", "h", "l", "b"} : one;
  config.programs[1] = kinds[0] == 'g' && !t ? vector<string>{"t", "p"} : kinds[1] == 'r' ? readers : vector<string>{"t", "p", "tt", "l"};
  config.missing = kinds[1] != 'r';
  explore(string("kill_") + kinds, config);
 }
 {
  Config config; config.kinds = "jjj";
  config.programs[0] = config.programs[1] = config.programs[2] = t ? vector<string>{"t", "l", "a", "p", "b", "h", "u"} : vector<string>{"t", "a"};
  explore("three_jjj", config);
 }
 {
  Config config; config.kinds = "jjr";
  config.missing = false;
  config.programs[0] = config.programs[1] = t ? few : vector<string>{"t", "h"};
  config.programs[2] = {"pp"};
  explore("three_jjr", config);
 }
 return ex.finish
 (
  "model_checking",
  "Every interleaving, at each system call (and in the middle of each write to the header), of processes that run every combination of the "
  "listed programs, on the real File and clients over simulated system calls; executions that reach a known global state are cut. "
  "States are distinct global states (file, locks, what each process learnt).",
  {
   "system calls other than writes to the header are atomic", "a process only depends on the results of its system calls",
   "open file description locks behave as in the simulation (C26 checks that the kernel does)"
  }
 );
}
