// C10, C11, C12, C13: the real server, and real clients.
//
// The server and the clients are tasks of a cooperative scheduler. They
// communicate with real sockets. Every order of their steps is enumerated.
#include "explorer.h"
#include "coop.h"
#include "net.h"
#include "sim_file.h"
#include "dump.h"

#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Robust_Connection.h"
#include "joedb/concurrency/Readonly_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Disconnection.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/File_Hasher.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <set>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

struct Abort_Transaction: public std::runtime_error
{
 Abort_Transaction(): std::runtime_error("abort") {}
};

/////////////////////////////////////////////////////////////////////////////
// Content of journals
/////////////////////////////////////////////////////////////////////////////
static string unit_text(const string &id, size_t size)
{
 string s = "#" + id + "#";
 s.resize(std::max(s.size(), size), '.');
 return s;
}

static string unit_id(const string &s)
{
 if (s.empty() || s[0] != '#')
  return "?";
 const size_t i = s.find('#', 1);
 if (i == string::npos || s.find_first_not_of('.', i + 1) != string::npos)
  return "damaged";
 return s.substr(1, i - 1);
}

static string join(const vector<string> &v)
{
 string r;
 for (const string &s: v)
  r += s + " ";
 return r;
}

class Collector: public Writable
{
 public:
  vector<string> ids;
  int started = 0;

  void insert_vector(Table_Id, Record_Id, size_t) override {}
  void delete_vector(Table_Id, Record_Id, size_t) override {}
  void timestamp(int64_t t) override {started += t == 7;}
  void comment(const string &s) override {ids.push_back(unit_id(s));}
};

static void write_unit(Writable &w, const string &text)
{
 w.timestamp(7);
 w.comment(text);
}

struct Content
{
 int64_t checkpoint = 0;
 string bytes; // up to the checkpoint, without the header
 vector<string> ids;
 bool operator==(const Content &c) const {return bytes == c.bytes;}
};

static Content parse(const string &data, const string &what)
{
 Content r;
 string copy = data;
 try
 {
  mc::View view(copy);
  Readonly_Journal journal{Journal_Construction_Lock(view)};
  Collector c;
  r.checkpoint = journal.get_checkpoint();
  require(r.checkpoint <= int64_t(data.size()), what + ": the checkpoint is after the end of the file", "bad_journal");
  r.bytes = data.substr(size_t(Header::ssize), size_t(r.checkpoint - Header::ssize));
  journal.replay_log(c);
  r.ids = c.ids;
  require(journal.get_position() == r.checkpoint && c.started == int(c.ids.size()), what + ": a transaction is cut", "bad_journal");
  for (const string &s: r.ids)
   require(s != "?" && s != "damaged", what + ": damaged data", "bad_journal");
 }
 catch (const joedb::Exception &e)
 {
  mc::fail(what + ": cannot be read: " + e.what(), "bad_journal");
 }
 return r;
}

static string make_file(const vector<string> &ids, bool soft = false)
{
 Memory_File f;
 {
  Writable_Journal j(f);
  for (const string &id: ids)
   write_unit(j, unit_text(id, 100));
  if (soft)
   j.soft_checkpoint();
  else
   j.hard_checkpoint();
 }
 return string(f.get_data().begin(), f.get_data().end());
}

static void set_data(Memory_File &f, const string &s)
{
 f.resize(s.size());
 f.pwrite(s.data(), s.size(), 0);
}

static string get_data(const Memory_File &f)
{
 return string(f.get_data().begin(), f.get_data().end());
}

/////////////////////////////////////////////////////////////////////////////
// A server and its clients
/////////////////////////////////////////////////////////////////////////////
struct Replica // local file of a client
{
 Memory_File file;
 bool acting = false; // between the start and the end of an operation that may push
 vector<string> pending; // (Server_File) what it may push
 bool remote = false; // Server_File
 string name;
};

// A file that is shared with other processes
struct Shared_File: public Abstract_File
{
 Memory_File &file;
 Shared_File(Memory_File &file): Abstract_File(Open_Mode::shared_write), file(file) {}
 int64_t get_size() const override {return file.get_size();}
 size_t pread(char *data, size_t size, int64_t offset) const override {return static_cast<Abstract_File &>(file).pread(data, size, offset);}
 void pwrite(const char *data, size_t size, int64_t offset) override {static_cast<Abstract_File &>(file).pwrite(data, size, offset);}
};

struct Pullonly_Connection: public Connection
{
 int64_t pull(Lock_Action lock_action, Data_Transfer data_transfer, Writable_Journal &journal, std::chrono::milliseconds wait) override
 {
  if (lock_action == Lock_Action::lock_before)
   throw Disconnection("cannot lock");
  return Connection::pull(lock_action, data_transfer, journal, wait);
 }
 int64_t push(const Readonly_Journal &, int64_t, int64_t, Unlock_Action) override {throw Disconnection("cannot push");}
 bool is_pullonly() const override {return true;}
};

struct World
{
 Chooser &c;
 mc::Coop coop;
 mc::Net net;
 const string path;

 Memory_File server_file;
 // W: writable, R: read-only file, P: connected to a pull-only server, S: shared file
 const char kind;
 int log_level = 0;
 Shared_File shared_file{server_file};
 Pullonly_Connection pullonly;
 std::unique_ptr<Abstract_File> readonly_file;
 std::unique_ptr<Client> server_client;
 std::unique_ptr<Server> server;

 std::deque<Replica> replicas;
 string server_data; // last content that was checked
 Content content;
 std::map<string, vector<string>> before; // what was seen by each unit
 std::set<string> acknowledged;
 bool ending = false;
 bool may_fail = false; // connections may break
 bool raw = false; // clients have no replicas
 bool hard = false; // the server makes hard checkpoints
 int64_t timeout;

 World(Chooser &c, const string &initial, int64_t timeout_ms = 0, bool hard = false, char kind = 'W', int log_level = 0):
  c(c), coop(c), net(coop),
  path(mc::scratch() + "/s"),
  kind(kind), log_level(log_level),
  hard(hard),
  timeout(timeout_ms)
 {
  if (!initial.empty())
   set_data(server_file, initial);
  start_server();
  look();
  net.content_hash = [this]() {return mc::hash_string(get_data(server_file));};
  coop.on_death = [this](mc::Task &t) {net.close_all(t);};
  coop.killable = [](const mc::Task &t) {return !t.daemon;};
  coop.shared_state = [this]()
  {
   look();
   uint64_t h = net.hash();
   h = mc::hash_string(server_data, h);
   for (const Replica &r: replicas)
    h = mc::hash_bytes(r.file.get_data().data(), r.file.get_data().size(), h);
   for (const string &s: acknowledged)
    h = mc::hash_string(s, h);
   for (const Replica &r: replicas)
    h = h * 31 + mc::hash_string((r.acting ? "+" : "-") + join(r.pending));
   return h;
  };
 }

 void start_server()
 {
  ::unlink(path.c_str());
  if (kind == 'R')
  {
   readonly_file = std::make_unique<mc::View>(server_file.get_data());
   server_client = std::make_unique<Readonly_Client>(*readonly_file);
  }
  else if (kind == 'P')
   server_client = std::make_unique<Writable_Journal_Client>(shared_file, pullonly, Content_Check::none);
  else
  {
   auto p = std::make_unique<Writable_Journal_Client>(kind == 'S' ? static_cast<Abstract_File &>(shared_file) : server_file);
   p->set_hard_checkpoint(hard);
   server_client = std::move(p);
  }
  server = std::make_unique<Server>(Logger::dummy_logger, log_level, 1, path, *server_client, std::chrono::milliseconds(timeout));
  net.settle();
 }

 void stop_server()
 {
  if (server)
   server->stop();
  server.reset();
  server_client.reset();
 }

 ~World()
 {
  ending = true;
  for (mc::Task &t: coop.get_tasks())
   if (std::find(net.threads.begin(), net.threads.end(), &t) == net.threads.end())
    coop.bury(t);
  stop_server();
 }

 Replica &new_replica(const string &name)
 {
  replicas.emplace_back();
  replicas.back().name = name;
  return replicas.back();
 }

 mc::Task *self() {return coop.running();}

 // Look at the server's file. The server grew by whole pushes only.
 void look()
 {
  const string data = get_data(server_file);
  if (data == server_data)
   return;
  const Content n = parse(data, "server");
  if (!server_data.empty() && !(n == content))
  {
   require(n.checkpoint >= content.checkpoint, "the server's checkpoint goes back", "server_goes_back");
   require(!n.bytes.compare(0, content.bytes.size(), content.bytes), "the server's content was modified: " + join(content.ids) + "-> " + join(n.ids), "server_modified");
   string pusher = raw ? "raw" : "";
   for (Replica &r: replicas)
    if (r.acting)
    {
     if (r.remote)
     {
      vector<string> v = content.ids;
      v.insert(v.end(), r.pending.begin(), r.pending.end());
      if (v == n.ids)
       pusher = r.name;
     }
     else
     {
      const string d = get_data(r.file);
      if (d.size() >= size_t(Header::ssize))
       if (parse(d, r.name) == n)
        pusher = r.name;
     }
    }
   require(!pusher.empty(), "the server grew by something that is not a whole push: " + join(content.ids) + "-> " + join(n.ids), "not_a_push");
   for (size_t i = 0; i < n.ids.size(); i++)
   {
    const auto b = before.find(n.ids[i]);
    if (b != before.end())
     require(b->second == vector<string>(n.ids.begin(), n.ids.begin() + long(i)), n.ids[i] + " was written after " + join(b->second) + "but the server has " + join(n.ids), "not_up_to_date");
   }
   for (const string &s: acknowledged)
    require(std::count(n.ids.begin(), n.ids.end(), s) == 1, "acknowledged push " + s + " is not in " + join(n.ids), "lost_push");
  }
  content = n;
  server_data = data;
 }

 void acknowledge(const string &s)
 {
  look();
  require(std::count(content.ids.begin(), content.ids.end(), s) == 1, s + " was acknowledged but the server has " + join(content.ids), "lost_push");
  if (hard)
  {
   mc::View view(server_data);
   Readonly_Journal journal{Journal_Construction_Lock(view)};
   require(journal.get_hard_checkpoint() == content.checkpoint, s + " was acknowledged but is not in the hard checkpoint of the server", "not_hard");
  }
  acknowledged.insert(s);
 }
};

struct Simple_Connector: public Connector
{
 mc::Net &net;
 const string name, path;
 Simple_Connector(mc::Net &net, const string &name, const string &path): net(net), name(name), path(path) {}
 std::unique_ptr<Channel> new_channel() const override {return std::make_unique<mc::Net_Channel>(net, name, path);}
};

/////////////////////////////////////////////////////////////////////////////
// A client that works on a replica
/////////////////////////////////////////////////////////////////////////////
struct Peer
{
 World &w;
 const string name;
 Replica &r;
 const char kind;
 Content_Check check = Content_Check::fast;
 int count = 0;

 std::unique_ptr<mc::Net_Channel> channel;
 std::unique_ptr<Server_Connection> connection;
 std::unique_ptr<Simple_Connector> connector;
 std::unique_ptr<Server_File> server_file;
 std::unique_ptr<mc::View> view;
 std::unique_ptr<Readonly_Client> readonly;
 std::unique_ptr<Writable_Journal_Client> client;
 bool failed = false;   // something failed since the connection
 bool conflict = false; // the replica contains something that is not in the server

 Peer(World &w, const string &name, Replica &r, char kind = 'j'): w(w), name(name), r(r), kind(kind) {}

 ~Peer() {disconnect();}

 void disconnect()
 {
  client.reset();
  readonly.reset();
  view.reset();
  server_file.reset();
  connector.reset();
  connection.reset();
  channel.reset();
  r.pending.clear();
 }

 const Client &any_client() const
 {
  if (readonly)
   return *readonly;
  return *client;
 }

 struct Acting
 {
  World &w;
  Replica &r;
  Acting(World &w, Replica &r): w(w), r(r) {r.acting = true;}
  ~Acting() {if (!w.coop.is_dead()) r.acting = false;} // what was sent may arrive
 };

 Content local() {return parse(get_data(r.file), name);}

 void agrees(const string &what)
 {
  w.look();
  if (kind == 'F')
  {
   require(client->get_journal_checkpoint() <= w.content.checkpoint + (r.pending.empty() ? 0 : 1000), name + ": the file is ahead of the server");
   return;
  }
  const Content l = local();
  const int64_t m = std::min(l.checkpoint, any_client().get_connection_checkpoint()) - Header::ssize;
  require(m <= int64_t(w.content.bytes.size()), name + ": " + what + ": the connection is ahead of the server");
  require(m <= 0 || !l.bytes.compare(0, size_t(m), w.content.bytes, 0, size_t(m)), name + " differs from the server after " + what + ": " + join(l.ids) + "/ " + join(w.content.ids), "diverged");
 }

 bool is_diverged()
 {
  w.look();
  if (kind == 'F')
   return false;
  const Content l = local();
  const size_t m = std::min(l.bytes.size(), w.content.bytes.size());
  return l.bytes.compare(0, m, w.content.bytes, 0, m) != 0;
 }

 void connect()
 {
  disconnect();
  if (kind == 'F')
  {
   connector = std::make_unique<Simple_Connector>(w.net, name, w.path);
   server_file = std::make_unique<Server_File>(*connector);
   client = std::make_unique<Writable_Journal_Client>(*server_file, *server_file, check);
   failed = false;
   r.remote = true;
   return;
  }
  channel = std::make_unique<mc::Net_Channel>(w.net, name, w.path);
  if (kind == 'R')
  {
   connection = std::make_unique<Server_Connection>(*channel);
   view = std::make_unique<mc::View>(r.file.get_data());
   readonly = std::make_unique<Readonly_Client>(*view, *connection, check);
   failed = false;
   agrees("connection");
   return;
  }
  connection = std::make_unique<Server_Connection>(*channel);
  client = std::make_unique<Writable_Journal_Client>(r.file, *connection, check, Recovery::overwrite);
  failed = false;
  agrees("connection");
 }

 void write(Writable &j, vector<string> &own, size_t size)
 {
  const string id = name + to_string(count++);
  vector<string> seen;
  if (kind == 'F')
  {
   w.look();
   require(client->get_journal_checkpoint() == w.content.checkpoint, name + " has the lock but is not up to date", "behind");
   seen = w.content.ids;
   r.pending.push_back(id);
  }
  else
   seen = local().ids;
  seen.insert(seen.end(), own.begin(), own.end());
  w.before[id] = seen;
  own.push_back(id);
  write_unit(j, unit_text(id, size));
 }

 void acknowledge(vector<string> &own)
 {
  for (const string &s: own)
   w.acknowledge(s);
  own.clear();
  r.pending.clear();
 }

 void all_acknowledged()
 {
  vector<string> v = kind == 'F' ? r.pending : local().ids;
  acknowledge(v);
 }

 void operation(char op)
 {
  Acting acting(w, r);
  vector<string> own;

  if (op == 'n')
   return connect();
  if (op == 'x')
   return disconnect();
  if (op == 'X') // abrupt
  {
   if (channel)
    channel->shut();
   return disconnect();
  }
  if (op == 'W') // someone else writes to the local file
  {
   Writable_Journal_Client off(r.file);
   off.transaction([&](Writable_Journal &j) {write(j, own, 60);});
   return;
  }
  if (op == 'f') // off-line
  {
   disconnect();
   Writable_Journal_Client off(r.file);
   off.transaction([&](Writable_Journal &j) {write(j, own, 60);});
   return;
  }

  if (readonly)
  {
   if (op == 'q')
   {
    if (readonly->push_if_ahead(std::numeric_limits<int64_t>::max()) >= local().checkpoint)
     all_acknowledged();
    require(readonly->get_connection_checkpoint() >= local().checkpoint, name + ": nothing was pushed");
   }
   else
    readonly->pull();
   agrees(string(1, op));
   return;
  }

  if (!client)
   return;

  switch (op)
  {
   case 't': case 'T': case 'h': case 'v':
    client->set_hard_checkpoint(op == 'h');
    client->set_valid_data(op == 'v');
    client->transaction([&](Writable_Journal &j)
    {
     agrees("lock");
     require(client->get_journal_checkpoint() == w.content.checkpoint || client->get_checkpoint_difference() > 0, name + " has the lock but is behind", "behind");
     write(j, own, op == 'T' ? 9000 : 100);
    });
    all_acknowledged();
   break;

   case 'p':
    client->pull();
   break;

   case 'w':
    client->pull(std::chrono::milliseconds(1000));
   break;

   case 'q':
    client->push_if_ahead();
   break;

   case 'l': // two pushes under the same lock
   {
    Writable_Journal_Client_Lock lock(*client);
    agrees("lock");
    write(lock.get_journal(), own, 100);
    lock.checkpoint_and_push();
    acknowledge(own);
    write(lock.get_journal(), own, 70);
    lock.checkpoint_and_push_unlock();
    acknowledge(own);
   }
   break;

   case 'u': // not pushed
   {
    Writable_Journal_Client_Lock lock(*client);
    agrees("lock");
    write(lock.get_journal(), own, 80);
    lock.do_checkpoint();
    lock.unlock();
   }
   break;

   case 'c': // just lock and unlock
   {
    Writable_Journal_Client_Lock lock(*client);
    agrees("lock");
    lock.unlock();
   }
   break;

   case 'a':
    try
    {
     client->transaction([&](Writable_Journal &j)
     {
      write(j, own, 100);
      throw Abort_Transaction();
     });
     mc::fail("exception lost");
    }
    catch (const Abort_Transaction &)
    {
    }
   break;
  }

  agrees(string(1, op));
 }

 // whether the operation is allowed to fail
 bool may_fail(char op)
 {
  if (op == 'q' || (op == 'n' && kind == 'R')) // someone else may have the lock
   for (const Replica &other: w.replicas)
    if (other.acting)
     return true;
  if (kind == 'F' && !r.pending.empty())
   return true;
  return w.may_fail || failed || is_diverged();
 }

 void run(const string &program)
 {
  for (const char op: program)
  {
   const bool may = may_fail(op);
   try
   {
    operation(op);
   }
   catch (const mc::Violation &)
   {
    throw;
   }
   catch (const std::exception &e)
   {
    w.self()->learn(string("failed"));
    w.c.note(name + ": " + op + " fails: " + e.what());
    require(may || may_fail(op), name + ": unexpected failure of " + op + ": " + e.what(), "unexpected_failure");
    failed = true;
    if (op == 'n')
     disconnect();
   }
   if (op == 'a')
    failed = true;
  }
 }
};

/////////////////////////////////////////////////////////////////////////////
/////////////////////////////////////////////////////////////////////////////
// Freed memory is destroyed, and is not used again too soon
/////////////////////////////////////////////////////////////////////////////
#include <malloc.h>
namespace mc
{
 inline bool poison = false;
 struct Quarantine
 {
  static constexpr size_t size = 512;
  void *p[size];
  size_t index;
 };
 inline Quarantine quarantine;

 inline void release(void *p) noexcept
 {
  if (poison && p)
  {
   const size_t n = malloc_usable_size(p);
   if (n <= 65536)
   {
    std::memset(p, 0xDB, n);
    std::swap(quarantine.p[quarantine.index], p);
    quarantine.index = (quarantine.index + 1) % Quarantine::size;
   }
  }
  std::free(p);
 }
}

#ifdef __SANITIZE_ADDRESS__
extern "C" const char *__asan_default_options() {return "detect_leaks=0:clear_shadow_mmap_threshold=1000000000:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:abort_on_error=1:handle_segv=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=256";}
extern "C" const char *__ubsan_default_options() {return "print_stacktrace=1:abort_on_error=1";}
#else
void operator delete(void *p) noexcept {mc::release(p);}
void operator delete(void *p, size_t) noexcept {mc::release(p);}
void operator delete[](void *p) noexcept {mc::release(p);}
void operator delete[](void *p, size_t) noexcept {mc::release(p);}
#endif

struct Config
{
 vector<string> programs[3];
 string locals[3]; // possible initial states of each replica
 int kills = 0;
 int bound = -1;
 bool cut = false;
 int64_t timeout = 0;
 int ticks = 0;
 bool full = false;
 string kinds = "jjj";
 bool server_hard = false;
 bool server_soft = false; // initial file of the server
 bool eager = false; // the server runs as soon as it can
 bool rescue = false; // somebody pushes when everybody waits for ever
 bool quiet = true; // initial connections are not interleaved
};

static const vector<string> base{"base1", "base2"};

static string initial_file(char x, const string &name)
{
 switch (x)
 {
  case 'S': return make_file(base);
  case 'B': return make_file({"base1"});
  case 'A': return make_file({"base1", "base2", name + "off"});
  case 'D': return make_file({"base1", "other"});
  case 'L': return make_file({"base1", "bBse2"});
  case 'M': return make_file({"other", "base2", "more"});
  default: return "";
 }
}

static void replicas_body(Chooser &c, const Config &config)
{
 Destructor_Logger::remove_logger();
 vector<string> programs;
 vector<char> locals;
 for (int i = 0; i < 3; i++)
 {
  if (config.programs[i].empty())
   break;
  programs.push_back(config.programs[i][size_t(c.choose(int(config.programs[i].size())))]);
  locals.push_back(config.locals[i][size_t(c.choose(int(config.locals[i].size())))]);
  c.note(string(1, char('A' + i)) + ": " + locals.back() + " " + programs.back());
 }
 c.split();

 World w(c, make_file(base, config.server_soft), config.timeout, config.server_hard);
 w.coop.max_kills = config.kills;
 w.coop.eager = config.eager;
 w.coop.preemption_bounded = config.bound >= 0;
 w.may_fail = config.ticks > 0;
 if (config.cut)
  w.net.cut = [](const string &, const char *data, size_t size) -> size_t
  {
   return size > 17 ? 30 : size > 1 ? size / 2 : size;
  };

 for (size_t i = 0; i < programs.size(); i++)
 {
  const string name(1, char('A' + i));
  Replica &r = w.new_replica(name);
  const string initial = initial_file(locals[i], name);
  if (!initial.empty())
   set_data(r.file, initial);
  else
   set_data(r.file, make_file({}));
  if (locals[i] == 'A')
   w.before[name + "off"] = base;
  mc::Task &task = w.coop.spawn(name, [&w, &r, &config, name, kind = config.kinds[i], program = programs[i]]()
  {
   Peer peer(w, name, r, kind);
   if (config.full)
    peer.check = Content_Check::full;
   if (config.quiet)
   {
    w.self()->quiet = true;
    peer.run("n");
    w.self()->quiet = false;
    peer.run(program);
   }
   else
    peer.run("n" + program);
  });
  task.learn(programs[i] + locals[i]);
 }
 if (config.ticks)
  w.net.spawn_clock(config.ticks);

 w.coop.run();
 w.net.settle();
 w.look();

 // The server still works
 {
  Replica &r = w.new_replica("Z");
  Peer peer(w, "Z", r);
  peer.operation('n');
  peer.operation('t');
  require(peer.local() == w.content, "the last client differs from the server");
 }
 c.outcome(join(w.content.ids));
 w.stop_server();
 w.look();
}

/////////////////////////////////////////////////////////////////////////////
// C11: the protocol, message by message, compared with a reference server
/////////////////////////////////////////////////////////////////////////////
static string encode_unit(const string &id, size_t size)
{
 Memory_File f;
 string r;
 {
  Writable_Journal j(f);
  write_unit(j, unit_text(id, size));
  j.soft_checkpoint();
 }
 return f.get_data().substr(size_t(Header::ssize));
}

static string integer(int64_t x) {return string((const char *)&x, 8);}
static int64_t integer(const string &s, size_t i) {int64_t x; std::memcpy(&x, s.data() + i, 8); return x;}

struct Reference
{
 enum class State {handshake, command, pull_wait, lock_wait, push, ended};

 struct Session
 {
  string name;
  State state = State::handshake;
  string in;                  // received, not used yet
  string out;                 // what must have been sent
  string request;             // being processed
  bool peer_closed = false;
  bool closed = false;        // the server closed the connection
  int64_t pull_deadline = 0;
  int64_t remaining = 0, block = 0;
  bool accepted = false;      // a push
  char status = 0;
  string data;
  int index = 0;
 };

 std::map<string, Session> sessions;
 std::deque<string> queue;
 std::deque<string> pull_waiters;
 string holder;
 int64_t lock_deadline = 0;
 const int64_t timeout;
 string bytes;                // of the server, with a header
 int64_t now = 0;
 int count = 0;
 bool writable = true;
 int served = 0, expired = 0, waited = 0;
 vector<string> granted;

 Reference(int64_t timeout_ms, const string &bytes): timeout(timeout_ms * 1000000), bytes(bytes) {}

 int64_t checkpoint() const {return int64_t(bytes.size());}

 void send(Session &s, const string &text)
 {
  if (s.peer_closed)
   end(s);
  else
   s.out += text;
 }

 void refresh(const Session &s)
 {
  if (holder == s.name && timeout > 0)
   lock_deadline = now + timeout;
 }

 void end(Session &s)
 {
  if (s.state == State::ended)
   return;
  s.state = State::ended;
  s.closed = true;
  release(s.name);
  for (auto *q: {&queue, &pull_waiters})
   q->erase(std::remove(q->begin(), q->end(), s.name), q->end());
 }

 void grant(Session &s)
 {
  holder = s.name;
  granted.push_back(s.name);
  lock_deadline = timeout > 0 ? now + timeout : 0;
 }

 void release(const string &name)
 {
  if (holder != name)
   return;
  holder.clear();
  lock_deadline = 0;
  if (!queue.empty())
  {
   Session &s = sessions[queue.front()];
   queue.pop_front();
   grant(s);
   s.state = State::command;
   after_lock(s);
   progress(s);
  }
 }

 void after_lock(Session &s)
 {
  const char code = s.request[0];
  const bool data = code == 'F' || code == 'G';
  const int64_t from = data ? integer(s.request, 9) : checkpoint();
  refresh(s);
  send(s, string(1, code) + integer(checkpoint()) + (data && from < checkpoint() ? bytes.substr(size_t(from)) : ""));
 }

 void pull(Session &s)
 {
  const char code = s.request[0];
  if (code == 'E' || code == 'G')
  {
   if (holder == s.name)
    return end(s);
   if (!holder.empty())
   {
    waited++;
    s.state = State::lock_wait;
    queue.push_back(s.name);
    return;
   }
   grant(s);
  }
  after_lock(s);
 }

 void end_push(Session &s)
 {
  if (s.accepted && s.data.size())
   bytes += s.data;
  if (s.request[0] == 'O')
   release(s.name);
  const auto waiters = pull_waiters;
  pull_waiters.clear();
  s.state = State::command;
  send(s, string(1, s.status));
  for (const string &n: waiters)
  {
   Session &x = sessions[n];
   x.state = State::command;
   pull(x);
   progress(x);
  }
 }

 // Commands that are completely received
 void progress(Session &s)
 {
  for (;;)
  {
   if (s.state == State::ended || s.state == State::pull_wait || s.state == State::lock_wait)
    return;

   if (s.state == State::handshake)
   {
    if (s.in.size() >= 13)
    {
     s.in.erase(0, 13);
     s.state = State::command;
     send(s, "joedb" + integer(19) + integer(s.index) + integer(checkpoint()) + (writable ? "W" : "R"));
     continue;
    }
   }
   else if (s.state == State::push)
   {
    if (int64_t(s.in.size()) >= s.block)
    {
     if (s.accepted)
      s.data += s.in.substr(0, size_t(s.block));
     s.in.erase(0, size_t(s.block));
     s.remaining -= s.block;
     if (s.remaining > 0)
     {
      s.block = std::min(s.remaining, int64_t(1 << 13));
      refresh(s);
     }
     else
      end_push(s);
     continue;
    }
   }
   else if (!s.in.empty())
   {
    const char code = s.in[0];
    if (code == 'M')
    {
     s.in.erase(0, 1);
     release(s.name);
     send(s, "M");
     continue;
    }
    if (!std::strchr("DEFGNO", code))
    {
     end(s);
     return;
    }
    if (s.in.size() >= 17)
    {
     s.request = s.in.substr(0, 17);
     s.in.erase(0, 17);
     served++;
     const int64_t x = integer(s.request, 1), y = integer(s.request, 9);
     if (code == 'N' || code == 'O')
     {
      if (!holder.empty() && holder != s.name)
       return end(s);
      if (holder.empty())
       grant(s);
      s.accepted = x == checkpoint();
      s.status = s.accepted ? code : 'C';
      s.data.clear();
      s.remaining = y - x;
      s.state = State::push;
      if (s.remaining > 0)
      {
       s.block = std::min(s.remaining, int64_t(1 << 13));
       refresh(s);
      }
      else
       end_push(s);
     }
     else if (x > 0 && y == checkpoint())
     {
      s.state = State::pull_wait;
      s.pull_deadline = x > int64_t(1) << 40 ? std::numeric_limits<int64_t>::max() : now + x * 1000000;
      pull_waiters.push_back(s.name);
     }
     else
      pull(s);
     continue;
    }
   }

   if (s.peer_closed)
    end(s);
   return;
  }
 }

 void advance(int64_t t)
 {
  for (;;)
  {
   int64_t first = lock_deadline;
   Session *waiter = nullptr;
   for (const string &n: pull_waiters)
    if (!first || sessions[n].pull_deadline < first)
    {
     waiter = &sessions[n];
     first = waiter->pull_deadline;
    }
   if (!first || first > t)
    break;
   now = first;
   if (waiter)
   {
    pull_waiters.erase(std::find(pull_waiters.begin(), pull_waiters.end(), waiter->name));
    waiter->state = State::command;
    pull(*waiter);
    progress(*waiter);
   }
   else
   {
    expired++;
    Session &s = sessions[holder];
    if (s.state == State::push && s.accepted)
    {
     s.accepted = false;
     s.status = 't';
    }
    release(holder);
   }
  }
  now = t;
 }
};

struct Lock_World: public World
{
 Reference reference;
 std::map<string, string> sent; // by the server, in each session
 std::map<string, bool> hung;   // the server closed the session
 int64_t start;
 int events = 0;

 static string strip(const string &s) {return s;}

 Lock_World(Chooser &c, const string &initial, int64_t timeout_ms, bool hard = false):
  World(c, initial, timeout_ms, hard),
  reference(timeout_ms, string(size_t(Header::ssize), ' ') + content.bytes)
 {
  reference.now = start = net.now;
  net.on_server_event = [this](const string &session, const string &data, bool is_sent, bool accepted, bool end)
  {
   if (ending)
    return;
   reference.advance(net.now);
   if (accepted)
   {
    Reference::Session &s = reference.sessions[session];
    s.name = session;
    s.index = reference.count++;
    by_peer[session.substr(0, 1)] = session;
   }
   else if (is_sent)
    sent[session] += data;
   else if (!end)
   {
    // fed when the client sends
   }
  };
  const auto f = coop.shared_state;
  coop.shared_state = [this, f]()
  {
   compare();
   return f() + uint64_t(reference.queue.size());
  };
 }

 std::map<string, string> by_peer;

 bool compared = true; // false: the server may be late, what it received first is not known
 bool exclusive = true; // locks do not expire
 string client_holder; // a client that knows that it has the lock

 void lock_obtained(const string &name)
 {
  if (!exclusive)
   return;
  look_holder();
  require(client_holder.empty() || client_holder == name, client_holder + " and " + name + " hold the lock at the same time", "two_holders");
  client_holder = name;
 }

 void lock_released(const string &name)
 {
  look_holder();
  if (client_holder == name)
   client_holder.clear();
 }

 void look_holder()
 {
  const size_t n = content.ids.size();
  look();
  if (!client_holder.empty())
   for (size_t i = n; i < content.ids.size(); i++)
    require(content.ids[i].substr(0, 1) == client_holder, content.ids[i] + " was pushed while " + client_holder + " held the lock", "push_without_lock");
 }

 void feed(const string &peer, const string &data)
 {
  if (!compared)
   return;
  reference.advance(net.now);
  Reference::Session &s = reference.sessions[by_peer[peer]];
  s.in += data;
  reference.progress(s);
 }

 void feed_close(const string &peer)
 {
  lock_released(peer);
  if (!compared)
   return;
  reference.advance(net.now);
  Reference::Session &s = reference.sessions[by_peer[peer]];
  s.peer_closed = true;
  reference.progress(s);
 }

 // The server has done all it could
 void compare()
 {
  if (ending)
   return;
  look_holder();
  if (!compared)
   return;
  reference.advance(net.now);
  for (const auto &[n, s]: reference.sessions)
  {
   const string &actual = sent[n];
   if (s.peer_closed)
    require(!actual.compare(0, std::min(actual.size(), s.out.size()), s.out, 0, std::min(actual.size(), s.out.size())), "wrong reply to " + n, "wrong_reply");
   else if (actual != s.out)
   {
    size_t i = 0;
    while (i < actual.size() && i < s.out.size() && actual[i] == s.out[i])
     i++;
    mc::fail
    (
     "session " + n + ": the server sent " + to_string(actual.size()) + " bytes instead of " + to_string(s.out.size()) + ", different at " + to_string(i) +
     (i < actual.size() ? string(", sent ") + actual[i] : "") + (i < s.out.size() ? string(", expected ") + s.out[i] : "") + ", holder " + reference.holder,
     actual.size() < s.out.size() ? "missing_reply" : "wrong_reply"
    );
   }
  }
  look();
  require(content.bytes == reference.bytes.substr(size_t(Header::ssize)), "the server's content is not what was pushed under the lock: " + join(content.ids), "wrong_content");
 }
};
struct Raw
{
 Lock_World &w;
 const string name;
 std::unique_ptr<mc::Net_Channel> channel;
 int64_t checkpoint = 0;
 int count = 0;
 bool open = false;

 Raw(Lock_World &w, const string &name): w(w), name(name) {}

 ~Raw() {if (!w.coop.is_dead()) close();}

 void send(const string &s)
 {
  channel->write(s.data(), s.size());
 }

 string receive(size_t n)
 {
  string s(n, 0);
  if (n)
   channel->read(&s[0], n);
  return s;
 }

 void connect()
 {
  close();
  channel = std::make_unique<mc::Net_Channel>(w.net, name, w.path);
  channel->on_sent = [this](const char *data, size_t size)
  {
   require(!w.compared || w.by_peer.count(name), "the server did not accept " + name, "not_accepted");
   w.feed(name, string(data, size));
  };
  open = true;
  if (!w.coop.running())
   w.net.settle();
  send("joedb" + integer(19));
  receive(5 + 8);
  receive(8);
  checkpoint = integer(receive(8), 0);
  receive(1);
 }

 void close()
 {
  if (open)
  {
   open = false;
   channel->shut();
   w.feed_close(name);
  }
  channel.reset();
 }

 void pull(char code, int64_t wait)
 {
  send(string(1, code) + integer(wait) + integer(checkpoint));
  receive(1);
  const int64_t n = integer(receive(8), 0);
  if (code == 'F' || code == 'G')
   receive(size_t(std::max(int64_t(0), n - checkpoint)));
  checkpoint = n;
  if (code == 'E' || code == 'G')
   w.lock_obtained(name);
 }

 void push(char code, int64_t from, size_t size)
 {
  const string id = name + to_string(count++);
  const string data = encode_unit(id, size);
  if (code == 'O')
   w.lock_released(name);
  send(string(1, code) + integer(from) + integer(from + int64_t(data.size())) + data);
  if (receive(1)[0] == code)
   checkpoint += int64_t(data.size());
 }

 void operation(char op)
 {
  switch (op)
  {
   case 'E': case 'G': case 'D': case 'F': pull(op, 0); break;
   case 'W': pull('F', 700 + name[0]); break; // never the same deadline
   case 'w': pull('D', 700 + name[0]); break;
   case 'I': pull('F', std::numeric_limits<int64_t>::max()); break;
   case 'V': pull('G', 1500 + name[0]); break;
   case 'M': w.lock_released(name); send("M"); receive(1); break;
   case 'N': case 'O': push(op, checkpoint, 100); break;
   case 'P': push('O', checkpoint, 9000); break;
   case 'p': push('N', checkpoint, 9000); break;
   case 'C': push('O', checkpoint - 7, 100); break;
   case 'c': push('N', checkpoint - 7, 100); break;
   case 'X': close(); break;
   case 'Q': send("Q"); receive(1); break;
   case 'R': connect(); break;
  }
 }

 void run(const string &program)
 {
  for (const char op: program)
  {
   try
   {
    operation(op);
   }
   catch (const mc::Connection_Lost &)
   {
    if (w.compared && w.by_peer.count(name))
     require(w.reference.sessions[w.by_peer[name]].closed, name + ": the server closed the session during " + op, "lost_session");
    w.self()->learn("lost");
    close();
    return;
   }
  }
 }
};

static void locks_body(Chooser &c, const Config &config)
{
 Destructor_Logger::remove_logger();
 vector<string> programs;
 for (int i = 0; i < 3; i++)
 {
  if (config.programs[i].empty())
   break;
  int first = 0;
  if (i && config.programs[i] == config.programs[i - 1])
   for (first = 0; config.programs[i][size_t(first)] != programs[size_t(i) - 1];)
    first++; // symmetry
  programs.push_back(config.programs[i][size_t(first + c.choose(int(config.programs[i].size()) - first))]);
  c.note(string(1, char('A' + i)) + ": " + programs.back());
 }
 c.split();

 mc::poison = true;
 Lock_World w(c, make_file(base), config.timeout);
 w.raw = true;
 w.coop.max_kills = config.kills;
 w.coop.eager = w.compared = config.eager;
 w.exclusive = !config.timeout;
 w.may_fail = true;
 w.net.cut = [](const string &, const char *data, size_t size) -> size_t
 {
  return size > 5000 ? 5000 : size;
 };
 w.coop.on_death = [&w](mc::Task &t)
 {
  w.net.close_all(t);
  if (!w.ending && w.by_peer.count(t.name))
   w.feed_close(t.name);
 };

 for (size_t i = 0; i < programs.size(); i++)
 {
  const string name(1, char('A' + i));
  mc::Task &task = w.coop.spawn(name, [&w, name, program = programs[i]]()
  {
   Raw raw(w, name);
   w.self()->quiet = true;
   raw.run("R");
   w.self()->quiet = false;
   raw.run(program);
  });
  task.learn(programs[i]);
 }
 if (config.ticks)
  w.net.spawn_clock(config.ticks);
 if (config.rescue)
  w.coop.on_idle = [&w, idle = w.coop.on_idle, rescued = false]() mutable
  {
   if (idle())
    return true;
   if (rescued)
    return false;
   rescued = true;
   Raw raw(w, "Y");
   raw.connect();
   raw.operation('O');
   return true;
  };

 w.coop.run();
 w.net.settle();
 w.compare();

 string grants;
 for (const string &s: w.reference.granted)
  grants += s;
 c.outcome(grants + "/" + join(w.content.ids) + "/" + to_string(w.reference.expired));
 c.note("lock granted to " + grants + ", expired " + to_string(w.reference.expired));
 if (w.compared)
  require(w.reference.holder.empty() && w.reference.queue.empty(), "the reference server is still locked");

 // everybody left: the lock can be obtained
 {
  Raw raw(w, "Z");
  raw.connect();
  raw.operation('E');
  raw.operation('F');
  raw.operation('O');
  w.compare();
 }
 w.net.settle();
 w.compare();
 w.ending = true;
 w.stop_server();
}

/////////////////////////////////////////////////////////////////////////////
// C12: any message
/////////////////////////////////////////////////////////////////////////////
// Data of any size that can be appended to a journal
static string any_data(int64_t size)
{
 string r;
 if (size >= 300)
 {
  static std::map<int64_t, string> cache;
  string &s = cache[size];
  if (s.empty())
   s = encode_unit("x", size_t(size) - 60);
  if (int64_t(s.size()) <= size)
   r = s;
 }
 r.resize(size_t(std::max<int64_t>(size, 0)), '\x0e'); // any number of them
 return r;
}

struct Attack
{
 int64_t cp; // checkpoint of the server
 bool full;  // the whole alphabet
 bool hashes; // only messages that read the file

 vector<int64_t> positions() const
 {
  constexpr int64_t M = std::numeric_limits<int64_t>::max();
  if (full)
   return {0, -1, 1, 40, 41, 42, cp - 1, cp, cp + 1, cp + 300, cp + 9000, int64_t(1) << 40, M, M - 40, -M - 1, -41, -4096, 131072 + 41 - cp};
  return {-1, 41, cp, cp + 300, M};
 }

 // a message, chosen in the alphabet
 string choose(Chooser &c) const
 {
  constexpr int64_t M = std::numeric_limits<int64_t>::max();
  static const string all_codes = "DEFGrHINOMQ?", hash_codes = "HIr";
  const string &codes = hashes ? hash_codes : all_codes;
  const char code = codes[size_t(c.choose(int(codes.size())))];
  const vector<int64_t> p = positions();
  auto position = [&]() {return p[size_t(c.choose(int(p.size())))];};
  switch (code)
  {
   case 'D': case 'E': case 'F': case 'G':
   {
    static const vector<int64_t> waits{0, 1, M, -1, M / 1000, M / 1000000, M / 1000000 + 1, -M - 1};
    const int64_t wait = waits[size_t(c.choose(full ? int(waits.size()) : 3))];
    return string(1, code) + integer(wait) + integer(position());
   }
   case 'r':
   {
    const int64_t from = position();
    return string(1, code) + integer(from) + integer(position());
   }
   case 'H': case 'I':
   {
    const int64_t from = position();
    return string(1, code) + integer(from) + string(32, c.flip() ? 'x' : 0);
   }
   case 'N': case 'O':
   {
    const int64_t from = position();
    const int64_t until = position();
    const __int128 size = __int128(until) - from;
    return string(1, code) + integer(from) + integer(until) + (size > 0 ? any_data(size > 10000 ? 10000 : int64_t(size)) : string());
   }
   case '?':
    if (full)
    {
     char x = char(c.choose(256));
     return string(1, std::strchr("DEFGrHINOMQ", x) ? 'Q' : x);
    }
    return string(1, 0);
  }
  return string(1, code);
 }
};

struct Attack_World: public World
{
 std::map<string, string> sent;

 Attack_World(Chooser &c, char kind, int log_level, bool big): World(c, make_big(big), 0, false, kind, log_level)
 {
  raw = true;
  net.content_hash = nullptr;
  coop.pruning = false;
  coop.shared_state = []() {return uint64_t(0);};
  net.on_server_event = [this](const string &session, const string &data, bool is_sent, bool, bool)
  {
   if (is_sent)
    sent[session.substr(0, 1)] += data;
  };
 }

 static string make_big(bool big)
 {
  static string s[2];
  string &r = s[big];
  if (r.empty())
  {
   Memory_File f;
   {
    Writable_Journal j(f);
    write_unit(j, unit_text("base1", 100));
    write_unit(j, unit_text("base2", big ? 132000 : 9000)); // larger than all buffers
    j.hard_checkpoint();
   }
   r = f.get_data();
  }
  return r;
 }

 void look_raw()
 {
  const string old = content.bytes;
  look();
  if (kind == 'R' || kind == 'P')
   require(content.bytes == old, "the file of a server that is not writable was changed", "readonly_changed");
 }
};

static string hex(const string &s)
{
 string r;
 for (const unsigned char x: s)
 {
  char b[8];
  std::snprintf(b, sizeof(b), x >= 33 && x < 127 ? "%c" : " %02x", x);
  r += b;
 }
 return r;
}

struct Victim // a normal session
{
 Attack_World &w;
 const string name;
 std::unique_ptr<mc::Net_Channel> channel;
 int64_t checkpoint = 0;
 int count = 0;

 Victim(Attack_World &w, const string &name): w(w), name(name)
 {
  try
  {
   channel = std::make_unique<mc::Net_Channel>(w.net, name, w.path);
   send("joedb" + integer(19));
   const string s = receive(30);
   require(s.substr(0, 5) == "joedb" && integer(s, 5) == 19, name + ": wrong handshake", "victim");
   checkpoint = integer(s, 21);
   require(checkpoint == w.content.checkpoint, name + ": wrong checkpoint in the handshake", "victim");
   require(s[29] == (w.kind == 'R' || w.kind == 'P' ? 'R' : 'W'), name + ": wrong mode in the handshake", "victim");
  }
  catch (const mc::Connection_Lost &e)
  {
   mc::fail(name + " cannot connect: " + e.what(), "victim");
  }
 }

 void send(const string &s) {channel->write(s.data(), s.size());}
 string receive(size_t n) {string s(n, 0); channel->read(&s[0], n); return s;}

 void check(bool can_lock)
 {
  try
  {
   const bool writable = w.kind == 'W' || w.kind == 'S';
   // pull
   send('F' + integer(0) + integer(int64_t(41)));
   require(receive(1) == "F", name + ": wrong reply to pull", "victim");
   checkpoint = integer(receive(8), 0);
   w.look_raw();
   require(checkpoint == w.content.checkpoint, name + ": wrong checkpoint", "victim");
   require(receive(w.content.bytes.size()) == w.content.bytes, name + ": pulled data differs from the file of the server", "victim");

   // read
   send('r' + integer(int64_t(45)) + integer(int64_t(60)));
   require(receive(9) == 'r' + integer(60) && receive(15) == w.content.bytes.substr(4, 15), name + ": wrong data read", "victim");

   // hash
   {
    mc::View view(w.server_data);
    Readonly_Journal journal{Journal_Construction_Lock(view)};
    const auto h = Journal_Hasher::get_full_hash(journal, 60);
    string text((const char *)h.data(), 32);
    send('I' + integer(60) + text);
    require(receive(1) == "I", name + ": wrong hash", "victim");
    text[3] ^= 1;
    send('I' + integer(60) + text);
    require(receive(1) == "h", name + ": a wrong hash was accepted", "victim");
   }

   // push
   if (writable && can_lock)
   {
    send('G' + integer(0) + integer(checkpoint));
    require(receive(1) == "G", name + ": wrong reply to lock", "victim");
    const int64_t n = integer(receive(8), 0);
    receive(size_t(n - checkpoint));
    checkpoint = n;
    w.look_raw();
    for (const char code: {'N', 'O'})
    {
     const string data = encode_unit(name + to_string(count++), 100);
     send(string(1, code) + integer(checkpoint) + integer(checkpoint + int64_t(data.size())) + data);
     require(receive(1)[0] == code, name + ": the push was not accepted", "victim");
     const string old = w.content.bytes;
     w.look_raw();
     require(w.content.bytes == old + data, name + ": the server does not contain what was pushed", "victim");
     checkpoint += int64_t(data.size());
    }
   }
  }
  catch (const mc::Connection_Lost &e)
  {
   mc::fail(name + " lost its connection: " + e.what(), "victim");
  }
 }
};

struct Attack_Config
{
 string kinds = "W";
 int messages = 1;
 bool full = true;
 bool cuts = false;
 bool handshakes = false;
 bool big = false; // file larger than all buffers
 bool bystander = false; // another session holds the lock
 int log_level = 0;
};

static void attack_body(Chooser &c, const Attack_Config &config)
{
 Destructor_Logger::remove_logger();
 const char kind = config.kinds[size_t(c.choose(int(config.kinds.size())))];
 c.note(string("server ") + kind);
 Attack_World w(c, kind, config.log_level, config.big);
 w.coop.eager = true;
 Attack attack;
 attack.cp = w.content.checkpoint;
 attack.full = config.full;
 attack.hashes = config.big;
 constexpr int64_t M = std::numeric_limits<int64_t>::max();

 vector<string> messages;
 if (config.handshakes)
 {
  static const vector<string> magic{"joedb", "joedc", string(5, 0), "Joedb"};
  static const vector<int64_t> versions{19, 18, 20, 0, -1, M, -M - 1};
  const string m = magic[size_t(c.choose(int(magic.size())))];
  messages.push_back(m + integer(versions[size_t(c.choose(int(versions.size())))]));
 }
 else
  messages.push_back("joedb" + integer(19));
 for (int i = 0; i < config.messages; i++)
  messages.push_back(attack.choose(c));
 int cut = -1;
 if (config.cuts)
 {
  // the last message is cut
  string &last = messages.back();
  const int n = int(std::min<size_t>(last.size(), 44));
  cut = c.choose(n + 3);
  last.resize(size_t(cut < n ? cut : cut == n ? last.size() - 1 : cut == n + 1 ? last.size() / 2 : std::min<size_t>(last.size(), 17 + 8192)));
 }
 c.split();
 const bool together = messages.size() > 2 && c.flip(); // all messages in one piece

 Victim b(w, "B");
 if (config.bystander)
 {
  b.send('E' + integer(0) + integer(b.checkpoint));
  b.receive(9);
 }

 mc::Task &task = w.coop.spawn("A", [&]()
 {
  try
  {
   mc::Net_Channel channel(w.net, "A", w.path);
   if (together)
   {
    string s;
    for (const string &m: messages)
     s += m;
    channel.write(s.data(), s.size());
   }
   else
    for (const string &m: messages)
    {
     if (m.size())
      channel.write(m.data(), m.size());
     c.note("message " + hex(m.substr(0, 44)) + (m.size() > 44 ? "... " + to_string(m.size()) : ""));
    }
   w.coop.yield("wait");
   w.look_raw();
  }
  catch (const mc::Connection_Lost &)
  {
  }
 });
 task.learn("A");

 // everything stops when the server has done all it could
 w.coop.run();
 w.net.settle();
 w.look_raw();
 w.net.close_all(task);
 w.net.settle();
 w.look_raw();

 // a session that waits for ever while it holds the lock does not notice that its client has gone
 bool held = false, blocked = false;
 for (const string &m: messages)
 {
  if (m.size() >= 17 && std::strchr("DEFG", m[0]) && integer(m, 1) > 1000 && held)
   blocked = true;
  if (m.size() && std::strchr("EGNO", m[0]))
   held = true;
 }

 // the bystander, and somebody else
 b.check(!blocked && !config.bystander);
 if (config.bystander)
 {
  b.send("M");
  require(b.receive(1) == "M", "B: cannot unlock", "victim");
 }
 {
  Victim z(w, "Z");
  z.check(!blocked);
 }
 w.net.settle();
 w.look_raw();

 c.outcome(to_string(w.content.bytes.size()) + " " + to_string(w.sent["A"].size()) + (w.sent["A"].size() > 30 ? w.sent["A"].substr(30, 1) : string()));
 w.ending = true;
 w.stop_server();
 w.look_raw();
}

int main(int argc, char **argv)
{
 const string id = argc > 1 ? argv[1] : "C10";
 mc::Explorer ex(argc, argv, id);
 const bool t = ex.is_thorough();

 if (id == "C10")
 {
  auto explore = [&](const string &name, const Config &config)
  {
   ex.explore(name, [&](Chooser &c) {replicas_body(c, config);}, config.bound < 0 ? 1000 : config.bound);
  };
  const vector<string> all{"t", "p", "l", "u", "c", "a", "q", "T", "h", "v"};
  auto pairs = [](const string &x, const string &y)
  {
   vector<string> r;
   for (const char i: x)
    for (const char j: y)
     r.push_back(string() + i + j);
   return r;
  };
  {
   Config config;
   config.programs[0] = all;
   for (const string &p: pairs("tplucaqTfxX", "tplucqTn"))
    config.programs[0].push_back(p);
   config.locals[0] = "ESBADLM";
   explore("one", config);
   config.full = true;
   explore("one_full", config);
   config.full = false;
   config.server_hard = true;
   explore("one_hard", config);
   config.server_soft = true;
   explore("one_hard_after_soft", config);
  }
  {
   Config config;
   config.programs[0] = {"tuq", "fnq", "fnt", "ut", "up", "fnp", "uut", "tut"};
   config.programs[1] = {"t", "l"};
   if (t)
   {
    for (const char *p: {"uq", "utq", "upt"})
     config.programs[0].push_back(p);
    config.programs[1].push_back("h");
   }
   config.locals[0] = config.locals[1] = "S";
   explore("offline", config);
  }
  {
   Config config;
   config.programs[0] = config.programs[1] = {"t", "l", "c", "p", "T", "u", "a", "w"};
   config.locals[0] = config.locals[1] = "S";
   explore("two", config);
  }
  {
   Config config;
   config.programs[0] = {"t", "p"};
   if (t)
    config.programs[0] = {"t", "p", "l", "q"};
   config.programs[1] = {"t"};
   config.locals[0] = "EBADLM";
   config.locals[1] = "S";
   config.quiet = false;
   explore("connect", config);
  }
  {
   Config config;
   config.kinds = "Fj";
   config.programs[0] = {"r", "t", "l", "c", "p", "T", "u", "a", "tr", "pr", "rt", "tt", "uq", "ut", "lt"};
   config.programs[1] = {"t", "l", "p", "T"};
   config.locals[0] = config.locals[1] = "S";
   explore("server_file", config);
  }
  {
   Config config;
   config.kinds = "Rj";
   config.programs[0] = {"q", "W", "Wq", "WWq", "WqWq", "xWnq", "qWp", "WWWWq"};
   config.programs[1] = {"t", "p"};
   config.locals[0] = "EBSADM";
   config.locals[1] = "S";
   explore("readonly_client", config);
  }
  {
   Config config;
   config.kills = 1;
   config.eager = true;
   config.cut = true;
   config.programs[0] = {"t", "l", "T", "u", "c", "w"};
   config.programs[1] = {"t", "p", "l"};
   config.locals[0] = config.locals[1] = "S";
   explore("kill", config);
  }
  {
   Config config;
   config.eager = true;
   for (int i = 0; i < 3; i++)
   {
    config.programs[i] = t ? vector<string>{"t", "p", "u", "l", "T", "a"} : vector<string>{"t", "p", "u"};
    config.locals[i] = "S";
   }
   explore("three", config);
  }
  return ex.finish
  (
   "model_checking",
   "every order of the steps (connect, send, receive, close, server's turn) of the real asio server and of its real clients, over programs of transactions, pulls, pushes, offline work, reconnections and kills; an execution that reaches an explored state is cut",
   {
    "a step of the server is one turn of its event loop: it processes all that it received; the server has one thread",
    "sockets keep the order of bytes and lose none of those that were sent before a close",
    "the programs of clients are those listed; at most three clients",
   }
  );
 }
 if (id == "C11")
 {
  auto explore = [&](const string &name, const Config &config)
  {
   ex.explore(name, [&](Chooser &c) {locks_body(c, config);});
  };
  const vector<string> all{"EM", "GO", "GNO", "ENM", "O", "N", "OO", "NM", "W", "VM", "VO", "EX", "EE", "MM", "GP", "P", "Ep", "C", "cM", "GCO", "D", "F", "Q", "EQ", "wN", "NC", "VEM", "WGO", "EPM"};
  const vector<string> few{"EM", "GO", "GNO", "N", "W", "VO", "EX", "EE", "P", "c", "EPM"};
  const vector<string> three{"EM", "GO", "W", "VO", "EX", "P", "NM", "C"};
  const vector<string> less{"EM", "W", "VO", "EX", "P"};
  {
   Config config;
   config.eager = true;
   config.programs[0] = config.programs[1] = all;
   explore("two", config);
   config.kills = 1;
   explore("two_kill", config);
  }
  {
   Config config;
   config.eager = true;
   config.programs[0] = config.programs[1] = t ? all : few;
   config.timeout = 1000;
   for (config.ticks = 1; config.ticks <= (t ? 3 : 2); config.ticks++)
    explore("two_timeout_" + to_string(config.ticks), config);
   config.ticks = 1;
   config.kills = 1;
   explore("two_timeout_kill", config);
  }
  {
   Config config;
   config.eager = true;
   config.programs[0] = config.programs[1] = config.programs[2] = t ? few : three;
   explore("three", config);
   config.kills = 1;
   if (!t)
    config.programs[0] = config.programs[1] = config.programs[2] = less;
   explore("three_kill", config);
   config.kills = 0;
   config.timeout = 1000;
   config.ticks = t ? 2 : 1;
   explore("three_timeout", config);
  }
  {
   // sessions that wait several times, leave, and come back
   Config config;
   config.eager = true;
   config.programs[0] = {"WWQ", "WWX", "wWO", "VMWQ", "WQRWQ", "QRO", "WXRW", "WNW", "NWW", "VWM", "WQRVO"};
   config.programs[1] = {"O", "WO", "GNOQ", "WWO", "VNM", "WQRO", "P"};
   explore("two_pulls", config);
   config.kills = 1;
   config.programs[0] = {"WWQ", "WWX", "wWO", "WQRWQ", "QRO", "WXRW", "WQRVO"}; // none that waits with the lock
   explore("two_pulls_kill", config);
  }
  {
   // waiting for ever
   Config config;
   config.eager = true;
   config.programs[0] = {"I", "IEM", "IO", "EMI"};
   config.programs[1] = {"GO", "GP", "EXRGO", "GCRGO"};
   config.programs[2] = {"EM", "W"};
   config.rescue = true;
   explore("three_forever", config);
  }
  {
   // the server may be late: clients send and leave, and time passes, between two steps of the server
   Config config;
   config.programs[0] = config.programs[1] = t ? few : three;
   explore("late", config);
   config.kills = 1;
   config.programs[0] = config.programs[1] = t ? three : less;
   explore("late_kill", config);
   config.timeout = 1000;
   config.ticks = 1;
   explore("late_timeout_kill", config);
  }
  return ex.finish
  (
   "model_checking",
   "every order of the messages, replies, disconnections, kills and expired timers of two or three sessions, over the listed programs of protocol messages; every reply is compared with a reference server (queue of locks, timeouts, waiting pulls); when the server is late, mutual exclusion is checked on what clients know",
   {
    "two deadlines never expire at the same instant, except in parts named late",
    "a session that waits does not notice the end of its connection before it is answered (as the real server)",
    "the programs of clients are those listed",
   }
  );
 }
 if (id == "C12")
 {
  auto explore = [&](const string &name, const Attack_Config &config)
  {
   ex.explore(name, [&](Chooser &c) {attack_body(c, config);});
  };
  Attack_Config config;
  config.kinds = "WRPS";
  explore("one", config);
  config.big = true;
  explore("one_big", config);
  config.big = false;
  config.log_level = 5;
  config.kinds = "W";
  config.full = false;
  explore("one_logged", config);
  config.log_level = 0;
  config.kinds = "WS";
  config.bystander = true;
  explore("one_locked", config);
  config.kinds = "WRPS";
  config.bystander = false;
  config.cuts = true;
  if (!t)
   config.kinds = "WS";
  explore("one_cut", config);
  config.kinds = "WRPS";
  config.handshakes = true;
  config.messages = 0;
  explore("handshakes_cut", config);
  config.cuts = false;
  config.messages = 1;
  config.kinds = t ? "WRPS" : "W";
  explore("handshakes", config);
  config.handshakes = false;
  config.messages = 2;
  config.kinds = t ? "WRPS" : "W";
  explore("two", config);
  if (t)
  {
   config.kinds = "W";
   config.full = true;
   explore("two_full", config);
   config.full = false;
   config.messages = 3;
   explore("three", config);
  }
  return ex.finish
  (
   "model_checking",
   "every sequence of messages up to the stated length over the alphabet of all commands with boundary positions, sizes, waits and hashes, whole or cut at every byte, sent to writable, read-only, pull-only and shared servers, with the address sanitizer; two normal sessions are checked afterwards, and the content of the server at each step",
   {
    "sizes and positions come from the stated boundary values",
    "one attacker at a time",
   }
  );
 }
 return 2;
}
