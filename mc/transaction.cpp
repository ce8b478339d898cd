// C13: transactions that throw, for every kind of client and of connection.
#include "explorer.h"
#include "coop.h"
#include "net.h"
#include "sim_file.h"
#include "recorder.h"

#include "joedb/concurrency/File_Connection.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Disconnection.h"
#include "joedb/journal/Memory_File.h"

#include "mcdb_s1/s1/writable.h"
#include "mcdb_s1/s1/Client.h"

#include <algorithm>
#include <memory>
#include <set>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

struct Abort_1: public std::runtime_error {Abort_1(): std::runtime_error("abort") {}};

static string get_data(const Memory_File &f) {return string(f.get_data().begin(), f.get_data().end());}

static void set_data(Memory_File &f, const string &s)
{
 f.resize(s.size());
 static_cast<Abstract_File &>(f).pwrite(s.data(), s.size(), 0);
}

/////////////////////////////////////////////////////////////////////////////
// Memory shared by several clients, with locks
/////////////////////////////////////////////////////////////////////////////
struct Shared_Memory
{
 Memory_File file;
 std::map<int64_t, const void *> exclusive;
 std::map<int64_t, std::set<const void *>> shared;
};

// Writing fails (no space left), completely or after the first half
struct Disk_Fault
{
 int countdown = -1;
 bool half = false;
 bool happened = false;

 template<typename F> void pwrite(size_t size, const F &write)
 {
  if (happened || (countdown >= 0 && countdown-- == 0))
  {
   if (half && !happened)
    write(size / 2);
   happened = true;
   throw joedb::Exception("no space left");
  }
  write(size);
 }
};

struct Local_File: public Abstract_File
{
 Memory_File &m;
 Disk_Fault &fault;
 Local_File(Memory_File &m, Disk_Fault &fault): Abstract_File(Open_Mode::write_existing), m(m), fault(fault) {}
 int64_t get_size() const override {return m.get_size();}
 size_t pread(char *data, size_t size, int64_t offset) const override {return static_cast<Abstract_File &>(m).pread(data, size, offset);}
 void pwrite(const char *data, size_t size, int64_t offset) override
 {
  fault.pwrite(size, [&](size_t n) {static_cast<Abstract_File &>(m).pwrite(data, n, offset);});
 }
};

struct Shared_File: public Abstract_File
{
 Shared_Memory &m;
 Disk_Fault &fault;
 Shared_File(Shared_Memory &m, Disk_Fault &fault): Abstract_File(Open_Mode::shared_write), m(m), fault(fault) {}
 ~Shared_File() override
 {
  for (auto &[k, v]: m.exclusive) if (v == this) v = nullptr;
  for (auto &[k, v]: m.shared) v.erase(this);
 }
 int64_t get_size() const override {return m.file.get_size();}
 size_t pread(char *data, size_t size, int64_t offset) const override {return static_cast<Abstract_File &>(m.file).pread(data, size, offset);}
 void pwrite(const char *data, size_t size, int64_t offset) override
 {
  fault.pwrite(size, [&](size_t n) {static_cast<Abstract_File &>(m.file).pwrite(data, n, offset);});
 }
 void exclusive_lock(int64_t start, int64_t) override
 {
  const void *&x = m.exclusive[start];
  require(!x || x == this, "the lock was not released", "lock_leak");
  for (const void *y: m.shared[start])
   require(y == this, "the shared lock was not released", "lock_leak");
  x = this;
 }
 void shared_lock(int64_t start, int64_t) override
 {
  const void *x = m.exclusive[start];
  require(!x || x == this, "the lock was not released", "lock_leak");
  m.shared[start].insert(this);
 }
 void unlock(int64_t start, int64_t) noexcept override
 {
  const void *&x = m.exclusive[start];
  if (x == this)
   x = nullptr;
  m.shared[start].erase(this);
 }
};

/////////////////////////////////////////////////////////////////////////////
// Transactions: a comment, some data, a comment
/////////////////////////////////////////////////////////////////////////////
struct Step_Counter
{
 int abort_at;  // -1: never
 int kind;
 int step = 0;
 static inline bool entered = false;
 void operator()()
 {
  entered = true;
  if (step++ == abort_at)
  {
   if (kind == 0)
    throw Abort_1();
   else
    throw 17;
  }
 }
};

static void write_unit(Writable_Journal &j, const string &id, int, Step_Counter &s)
{
 s();
 j.comment("#" + id);
 s();
 j.write_blob(id + "blob");
 s();
 j.timestamp(5);
 j.comment("#" + id + ".");
 s();
}

static void write_unit(Writable &w, const string &id, int record, Step_Counter &s)
{
 s();
 w.comment("#" + id);
 s();
 w.insert_into(Table_Id(1), Record_Id(record));
 s();
 w.update_string(Table_Id(1), Record_Id(record), Field_Id(1), id);
 w.comment("#" + id + ".");
 s();
}

static void write_unit(::mc::s1::Writable_Database &db, const string &id, int, Step_Counter &s)
{
 s();
 db.write_comment("#" + id);
 s();
 auto p = db.new_person();
 s();
 db.set_name(p, id);
 db.write_comment("#" + id + ".");
 s();
}

struct Published
{
 string data;
 vector<string> ids;
 int64_t checkpoint = 0;
};

static char unit_type = 'J';

static Published parse(const string &data, const string &what)
{
 Published r;
 r.data = data;
 try
 {
  mc::View view(r.data);
  Readonly_Journal journal{Journal_Construction_Lock(view)};
  mc::Recorder rec;
  journal.replay_log(rec);
  r.checkpoint = journal.get_checkpoint();
  string current;
  int inside = 0;
  for (const string &op: rec.ops)
  {
   const size_t i = op.find("\"#");
   if (i == string::npos)
   {
    inside++;
    continue;
   }
   string id = op.substr(i + 2);
   id = id.substr(0, id.find('"'));
   if (id.back() == '.')
   {
    static std::map<char, int> expected; // all transactions are made of the same operations
    int &e = expected[unit_type];
    if (!e)
     e = inside;
    require(current + "." == id && inside >= 2 && inside == e, what + ": incomplete transaction " + id, "incomplete");
    r.ids.push_back(current);
    current.clear();
   }
   else
   {
    require(current.empty(), what + ": transaction " + current + " is not complete", "incomplete");
    current = id;
    inside = 0;
   }
  }
  require(current.empty(), what + ": transaction " + current + " is not complete", "incomplete");
 }
 catch (const joedb::Exception &e)
 {
  mc::fail(what + " cannot be read: " + e.what(), "unreadable");
 }
 return r;
}

static string join(const vector<string> &v) {string r; for (const string &s: v) r += s + " "; return r;}

/////////////////////////////////////////////////////////////////////////////
// Clients
/////////////////////////////////////////////////////////////////////////////
struct Any_Client
{
 virtual ~Any_Client() = default;
 virtual void transaction(const string &id, int record, Step_Counter s) = 0;
 // with a lock: writes; mode u: unlock, w: destructor, l: push and unlock, y: push, then throw, n: push, then unlock, c: checkpoint without pushing
 virtual void lock(const string &id, const string &id2, int record, char mode, const std::function<void()> &pushed) = 0;
 virtual Client &get() = 0;
 virtual Writable_Client &writable() = 0;
};

template<class C, class L> struct Client_Of: public Any_Client
{
 std::unique_ptr<C> client;

 static auto &target(L &lock)
 {
  if constexpr (std::is_same_v<L, Writable_Journal_Client_Lock>)
   return lock.get_journal();
  else if constexpr (std::is_same_v<L, Writable_Database_Client_Lock>)
   return lock.get_writable();
  else
   return lock.get_database();
 }

 Client_Of(Abstract_File &file, Connection &connection, Recovery recovery)
 {
  if constexpr (std::is_same_v<C, Writable_Database_Client>)
   client = std::make_unique<C>(file, connection, Content_Check::fast, Record_Id::null, recovery);
  else
   client = std::make_unique<C>(file, connection, Content_Check::fast, recovery);
 }

 void transaction(const string &id, int record, Step_Counter s) override
 {
  if constexpr (std::is_same_v<C, Writable_Database_Client>)
   client->transaction([&](const Readable &, Writable &w) {write_unit(w, id, record, s);});
  else
   client->transaction([&](auto &w) {write_unit(w, id, record, s); return 3;});
 }

 void lock(const string &id, const string &id2, int record, char mode, const std::function<void()> &pushed) override
 {
  L lock(*client);
  Step_Counter never{-1, 0};
  if (mode == 'u' || mode == 'w')
  {
   Step_Counter s{2, 0};
   try {write_unit(target(lock), id, record, s);} catch (const Abort_1 &) {}
   if (mode == 'u')
    lock.unlock();
   return;
  }
  write_unit(target(lock), id, record, never);
  if (mode == 'c')
   lock.do_checkpoint();
  else if (mode == 'l')
  {
   lock.checkpoint_and_push_unlock();
   pushed();
  }
  else
  {
   lock.checkpoint_and_push();
   pushed();
   if (mode == 'n')
    lock.unlock();
   else
   {
    Step_Counter s{2, 0};
    write_unit(target(lock), id2, record + 1, s);
   }
  }
 }

 Client &get() override {return *client;}
 Writable_Client &writable() override {return *client;}
};

struct Simple_Connector: public Connector
{
 mc::Net &net;
 const string name, path;
 Simple_Connector(mc::Net &net, const string &name, const string &path): net(net), name(name), path(path) {}
 std::unique_ptr<Channel> new_channel() const override {return std::make_unique<mc::Net_Channel>(net, name, path);}
};

struct Config
{
 string backends = "DHFSRV";
 string types = "JIG";
 string ops;
 int depth = 3;
 bool faults = false;
 bool disk = false; // writing fails

};

struct World
{
 Chooser &c;
 const char backend, type;
 mc::Coop coop;
 mc::Net net;
 const string path;
 Shared_Memory shared; // the file that is published
 std::unique_ptr<Writable_Journal_Client> server_client;
 std::unique_ptr<Server> server;
 vector<string> committed;
 std::set<string> maybe;
 int unit_count = 0;
 int fault_countdown = -1;
 bool fault_happened = false;
 std::set<string> published; // bytes already looked at
 string last;

 struct Peer
 {
  string name;
  Memory_File local;
  Disk_Fault disk;
  std::unique_ptr<Local_File> local_file;
  std::unique_ptr<Shared_File> shared_file;
  std::unique_ptr<mc::Net_Channel> channel;
  std::unique_ptr<Simple_Connector> connector;
  std::unique_ptr<Server_File> server_file;
  std::unique_ptr<Connection> connection;
  std::unique_ptr<Any_Client> client;
  bool aborted = false;
  bool tail = false; // its file may have aborted data at its end
  bool failed = false;
 };
 Peer a, b;
 bool tail_left = false; // an exclusive file may have aborted data at its end

 static const string &initial_file()
 {
  static string r;
  if (r.empty())
  {
   Memory_File f;
   {
    ::mc::s1::Client client(f);
   }
   r = get_data(f);
  }
  return r;
 }

 bool has_server() const {return backend == 'S' || backend == 'R' || backend == 'V';}
 bool is_exclusive() const {return backend == 'D' || backend == 'F';}

 World(Chooser &c, char backend, char type): c(c), backend(backend), type(type), coop(c), net(coop), path(mc::scratch() + "/s")
 {
  unit_type = type;
  a.name = "A";
  b.name = "B";
  set_data(shared.file, initial_file());
  for (Peer *p: {&a, &b})
   set_data(p->local, initial_file());
  if (has_server())
  {
   ::unlink(path.c_str());
   server_client = std::make_unique<Writable_Journal_Client>(shared.file);
   server = std::make_unique<Server>(Logger::dummy_logger, 0, 1, path, *server_client, std::chrono::milliseconds(0));
   net.settle();
   net.fault = [this](const string &name, const char *what)
   {
    if (name != "A" || fault_countdown < 0)
     return false;
    if (fault_countdown-- > 0)
     return false;
    this->c.note(string("fault: ") + what);
    fault_happened = true;
    return true;
   };
  }
  look();
 }

 ~World()
 {
  fault_countdown = -1;
  close(a);
  close(b);
  if (server)
   server->stop();
  server.reset();
  server_client.reset();
 }

 void close(Peer &p)
 {
  p.client.reset();
  p.connection.reset();
  p.server_file.reset();
  p.connector.reset();
  p.channel.reset();
  p.shared_file.reset();
  p.local_file.reset();
  p.disk = {};
  if (has_server())
   net.settle();
 }

 std::unique_ptr<Any_Client> make(Abstract_File &file, Connection &connection, Recovery recovery)
 {
  switch (type)
  {
   case 'J': return std::make_unique<Client_Of<Writable_Journal_Client, Writable_Journal_Client_Lock>>(file, connection, recovery);
   case 'I': return std::make_unique<Client_Of<Writable_Database_Client, Writable_Database_Client_Lock>>(file, connection, recovery);
   default: return std::make_unique<Client_Of<::mc::s1::Client, ::mc::s1::Client_Lock>>(file, connection, recovery);
  }
 }

 void open_once(Peer &p, Recovery recovery)
 {
  close(p);
  p.local_file = std::make_unique<Local_File>(backend == 'D' ? shared.file : p.local, p.disk);
  switch (backend)
  {
   case 'D': p.client = make(*p.local_file, Connection::dummy, recovery); break;
   case 'H':
    p.shared_file = std::make_unique<Shared_File>(shared, p.disk);
    p.client = make(*p.shared_file, Connection::dummy, recovery);
   break;
   case 'F':
    try
    {
     p.connection = std::make_unique<File_Connection>(shared.file);
    }
    catch (const joedb::Exception &e)
    {
     mc::fail(string("the server journal cannot be opened: ") + e.what(), "server_journal");
    }
    p.client = make(*p.local_file, *p.connection, recovery);
   break;
   case 'S':
    p.channel = std::make_unique<mc::Net_Channel>(net, p.name, path);
    p.connection = std::make_unique<Server_Connection>(*p.channel, Logger::dummy_logger, std::chrono::milliseconds(0));
    p.client = make(*p.local_file, *p.connection, recovery);
   break;
   case 'R':
    p.connector = std::make_unique<Simple_Connector>(net, p.name, path);
    p.connector->set_keep_alive_interval(std::chrono::milliseconds(0));
    p.connection = std::make_unique<Robust_Connection>(*p.connector, Logger::dummy_logger);
    p.client = make(*p.local_file, *p.connection, recovery);
   break;
   case 'V':
    p.connector = std::make_unique<Simple_Connector>(net, p.name, path);
    p.connector->set_keep_alive_interval(std::chrono::milliseconds(0));
    p.server_file = std::make_unique<Server_File>(*p.connector, Logger::dummy_logger);
    p.client = make(*p.server_file, *p.server_file, recovery);
   break;
  }
 }

 void open(Peer &p)
 {
  if (is_exclusive())
   close(&p == &a ? b : a);
  string message;
  // an aborted transaction may have left something after the checkpoint
  for (const Recovery recovery: {Recovery::none, Recovery::overwrite})
  {
   try
   {
    open_once(p, recovery);
    p.aborted = p.failed = false;
    return;
   }
   catch (const joedb::Exception &e)
   {
    message = e.what();
   }
   catch (const mc::Connection_Lost &e)
   {
    message = e.what();
   }
   // the file of a client that aborted; it may be opened after recovery
   if (!p.tail && !((backend == 'D' || backend == 'H') && tail_left))
    break;
  }
  // its file has a transaction that could not be pushed, before another one
  if (pending(p) && message.find("diverged") != string::npos)
  {
   c.note(p.name + " has diverged");
   std::erase_if(maybe, [&](const string &m) {return m[0] == p.name[0];});
   p.tail = false;
   close(p);
   set_data(p.local, initial_file());
   return open(p);
  }
  mc::fail(p.name + " cannot be opened: " + message, "cannot_open");
 }

 bool pending(const Peer &p) const
 {
  return std::any_of(maybe.begin(), maybe.end(), [&](const string &m) {return m[0] == p.name[0];});
 }

 // what was published is what was committed
 void look()
 {
  if (has_server())
   net.settle();
  const string data = get_data(shared.file);
  if (data != last)
  {
   const Published p = parse(data, "the published journal");
   last = data;
   size_t n = 0;
   for (const string &id: p.ids)
   {
    if (n < committed.size() && committed[n] == id)
    {
    }
    else
    {
     require(maybe.count(id), "transaction " + id + " is published: " + join(p.ids), "published");
     maybe.erase(id);
     committed.insert(committed.begin() + long(n), id);
    }
    n++;
   }
   current_ids = p.ids;
  }
  require(current_ids == committed, "a committed transaction is missing: " + join(current_ids) + "/ " + join(committed), "lost");
 }
 vector<string> current_ids;

 string new_id(const string &name) {return name + to_string(unit_count++);}

 template<typename F> bool attempt(Peer &p, const string &what, bool must_succeed, const F &f)
 {
  try
  {
   f();
   c.note(p.name + " " + what + ": ok");
   return true;
  }
  catch (const std::exception &e)
  {
   c.note(p.name + " " + what + ": " + e.what());
   require(!must_succeed, p.name + ": unexpected failure of " + what + ": " + e.what(), "unexpected_failure");
   if (string(e.what()).find("diverged") != string::npos)
   {
    require(pending(p), p.name + " has diverged", "diverged");
    p.failed = true;
   }
  }
  catch (int)
  {
   c.note(p.name + " " + what + ": int");
   require(!must_succeed, p.name + ": unexpected exception during " + what, "unexpected_failure");
  }
  return false;
 }

 void act(Peer &p, char op, int fault = -1, bool disk = false, bool half = false)
 {
  if (op == 'r' || !p.client)
   open(p);
  if (op == 'r')
   return look();
  const bool was_pending = pending(p);
  const bool healthy = !p.aborted && !p.failed && !was_pending && fault < 0;
  const int record = unit_count + 1;
  const string id = new_id(p.name), id2 = op == 'y' ? new_id(p.name) : string();
  const string what = string(1, op) + " " + id;
  if (disk)
   p.disk.countdown = fault, p.disk.half = half;
  else
   fault_countdown = fault;
  fault_happened = false;
  Step_Counter::entered = false;
  auto missed = [&]()
  {
   if (fault_happened)
    p.failed = true;
   if (p.disk.happened)
   {
    c.note("no space left");
    p.failed = p.tail = tail_left = true;
   }
   p.disk = {};
   // not able to receive what it pulls: the rest of the reply was not read
   if (p.failed && disk && has_server() && !Step_Counter::entered)
    close(p);
  };
  switch (op)
  {
   case 't':
   {
    if (fault >= 0)
     maybe.insert(id);
    const bool ok = attempt(p, what, healthy, [&]() {p.client->transaction(id, record, {-1, 0});});
    if (ok)
    {
     require(!p.aborted, p.name + " could commit after an aborted transaction", "not_refused");
     maybe.erase(id);
     if (fault >= 0 || p.failed || was_pending)
      commit_in_order(p, id);
     else
      committed.push_back(id);
    }
    else if (fault >= 0 || p.failed)
     maybe.insert(id);
   }
   break;

   case '0': case '1': case '2': case '3': case '4':
   {
    const int step = op - '0';
    const bool ok = attempt(p, what, false, [&]() {p.client->transaction(id, record, step == 4 ? Step_Counter{1, 1} : Step_Counter{step, 0});});
    require(!ok, "no exception from a transaction that throws", "swallowed");
    if (step > 0 && Step_Counter::entered)
     p.aborted = p.tail = tail_left = true;
   }
   break;

   case 'l': case 'n': case 'y': case 'u': case 'w':
   {
    bool pushed = false;
    if (fault >= 0 && op != 'u' && op != 'w')
     maybe.insert(id);
    const bool ok = attempt(p, what, healthy && op != 'y', [&]()
    {
     p.client->lock(id, id2, record, op, [&]()
     {
      pushed = true;
      require(!p.aborted, p.name + " could commit after an aborted transaction", "not_refused");
      maybe.erase(id);
      if (fault >= 0 || p.failed || was_pending)
       commit_in_order(p, id);
      else
       committed.push_back(id);
      look();
     });
    });
    if ((op == 'u' || op == 'w' || op == 'y') && Step_Counter::entered)
     p.aborted = p.tail = tail_left = true;
    if (ok && (op == 'l' || op == 'n'))
     require(pushed, "lock: not pushed", "not_pushed");
    if (!pushed && p.failed && op != 'u' && op != 'w')
     maybe.insert(id);
   }
   break;

   // complete, but not pushed by itself
   case 'c':
    maybe.insert(id);
    attempt(p, what, healthy, [&]()
    {
     p.client->lock(id, id2, record, op, []() {});
     require(!p.aborted, p.name + " could commit after an aborted transaction", "not_refused");
    });
   break;

   case 'Q':
    attempt(p, what, healthy, [&]() {p.client->get().push_if_ahead(p.client->get().get_journal_checkpoint() + 1000);});
   break;

   case 'p':
    attempt(p, what, healthy, [&]() {p.client->get().pull();});
   break;

   case 'q':
    attempt(p, what, healthy, [&]() {p.client->get().push_if_ahead();});
   break;
  }
  fault_countdown = -1;
  missed();
  look();
  if (p.failed && backend == 'V')
   close(p); // its tail is lost with it
 }

 // a transaction that was acknowledged: those of the same client that failed may be published before
 void commit_in_order(Peer &p, const string &id)
 {
  if (has_server())
   net.settle();
  const Published n = parse(get_data(shared.file), "the published journal");
  require(!n.ids.empty() && n.ids.back() == id, "acknowledged transaction " + id + " is not published: " + join(n.ids), "lost");
  for (size_t i = committed.size(); i + 1 < n.ids.size(); i++)
  {
   require(maybe.count(n.ids[i]), "transaction " + n.ids[i] + " is published", "published");
   maybe.erase(n.ids[i]);
   committed.push_back(n.ids[i]);
  }
  committed.push_back(id);
 }
};

static void body(Chooser &c, const Config &config)
{
 Destructor_Logger::remove_logger();
 const char backend = config.backends[size_t(c.choose(int(config.backends.size())))];
 const char type = config.types[size_t(c.choose(int(config.types.size())))];
 c.note(string("connection ") + backend + ", client " + type);
 World w(c, backend, type);
 const string b_ops = "tp";
 if (!w.is_exclusive())
  w.open(w.b);
 string last;
 for (int i = 0; i < config.depth; i++)
 {
  const int n = int(config.ops.size());
  const int x = c.choose(n + int(b_ops.size()));
  if (i == 0)
   c.split();
  if (x < n)
  {
   const char op = config.ops[size_t(x)];
   int fault = -1;
   if (config.faults && !(op >= '0' && op <= '4') && w.has_server() && op != 'r')
    fault = c.choose(9) - 1;
   if (config.disk && !(op >= '0' && op <= '4') && op != 'r')
    fault = c.choose(8) - 1;
   w.act(w.a, op, fault, config.disk, fault >= 0 && config.disk && c.flip());
   c.transition();
  }
  else
   w.act(w.b, b_ops[size_t(x - n)]);
 }
 // everybody can continue
 w.act(w.b, 't');
 if (w.a.client && !w.a.aborted && !w.a.failed)
  w.act(w.a, 't');
 for (int i = 0; i < 2; i++)
 {
  w.act(w.a, 'r');
  w.act(w.a, 't');
  if (!w.a.failed)
   break;
  require(i == 0, "A cannot commit", "cannot_commit");
 }
 w.act(w.b, 't');
 if (backend != 'D' && backend != 'H' && backend != 'V')
 {
  w.act(w.a, 'p');
  const Published p = parse(get_data(w.a.local), "the local file of A");
  require(p.ids == w.committed, "the local file of A has " + join(p.ids) + "instead of " + join(w.committed), "local");
 }
 c.outcome(to_string(w.committed.size()));
}

int main(int argc, char **argv)
{
 mc::Explorer ex(argc, argv, "C13");
 const bool t = ex.is_thorough();
 auto explore = [&](const string &name, const Config &config)
 {
  ex.explore(name, [&](Chooser &c) {body(c, config);});
 };
 Config config;
 config.ops = "t01234lnyuwprq";
 config.depth = t ? 4 : 3;
 for (const char backend: config.backends)
 {
  Config x = config;
  x.backends = string(1, backend);
  if (string("DHF").find(backend) != string::npos)
   x.depth++;
  explore(string("exceptions_") + backend, x);
 }
 config.ops = "tc2qQrp";
 config.depth = t ? 4 : 3;
 for (const char backend: config.backends)
 {
  Config x = config;
  x.backends = string(1, backend);
  x.depth++;
  explore(string("ahead_") + backend, x);
 }
 config.ops = "tlrp2";
 config.faults = true;
 config.depth = t ? 4 : 3;
 for (const char backend: {'S', 'R', 'V'})
 {
  Config x = config;
  x.backends = string(1, backend);
  if (!t && backend != 'S')
   x.ops = "tl2";
  explore(string("faults_") + backend, x);
 }
 config.faults = false;
 config.disk = true;
 config.ops = "tlrp2";
 for (const char backend: {'D', 'H', 'F', 'S'})
 {
  Config x = config;
  x.backends = string(1, backend);
  x.depth = t ? 4 : 3;
  if (backend == 'S')
   x.depth--;
  explore(string("disk_") + backend, x);
 }
 return ex.finish
 (
  "model_checking",
  "every sequence, up to the stated length, of transactions (complete, or throwing at each step, with transaction functions or with locks), pulls, pushes and reopenings of a client, and transactions and pulls of another client, for journal, interpreted and generated clients over exclusive and shared files, file connections, the real server, robust connections and server-backed files; faults_*: with every position of a loss of the connection",
  {
   "actions are executed one after the other (C04 and C10 interleave them)",
   "a transaction whose push fails may be published as a whole, at once or later (its client keeps it)",
  }
 );
}
