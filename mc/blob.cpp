// C18: a blob always reads back as the bytes that were written.
#include "explorer.h"
#include "dump.h"
#include "net.h"
#include "sim_file.h"

#include "joedb/Multiplexer.h"
#include "joedb/concurrency/Server.h"
#include "joedb/concurrency/Server_Connection.h"
#include "joedb/concurrency/Server_File.h"
#include "joedb/concurrency/Writable_Database_Client.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/interpreted/Database.h"
#include "joedb/journal/File.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/journal/Portable_File.h"
#include "joedb/journal/Writable_Journal.h"

#include <memory>

using namespace joedb;
using mc::Chooser;
using mc::require;
using std::string;
using std::to_string;
using std::vector;

struct Written
{
 Blob blob;
 string bytes;
};

static string content(int n, size_t size)
{
 string s(size, 0);
 for (size_t i = 0; i < size; i++)
  s[i] = char(i * 31 + size_t(n) * 7 + (i >> 8)); // every byte value, every operation code
 return s;
}

static void check_blob(const Abstract_File &file, const Written &w, const string &who, bool limits = true)
{
 string got;
 try
 {
  got = file.read_blob(w.blob);
 }
 catch (const joedb::Exception &e)
 {
  mc::fail(who + ": a blob of " + to_string(w.bytes.size()) + " bytes at " + to_string(w.blob.get_position()) + " cannot be read: " + e.what(), "unreadable");
 }
 if (got != w.bytes)
 {
  size_t i = 0;
  while (i < got.size() && i < w.bytes.size() && got[i] == w.bytes[i])
   i++;
  mc::fail(who + ": a blob of " + to_string(w.bytes.size()) + " bytes at " + to_string(w.blob.get_position()) + " reads as " + to_string(got.size()) + " bytes, different at " + to_string(i), "bytes");
 }
 if (!limits)
  return;
 // The limit of size
 const int64_t size = int64_t(w.bytes.size());
 for (const int64_t limit: {size, size + 1})
 {
  bool refused = false;
  string why;
  try
  {
   require(file.read_blob(w.blob, limit) == w.bytes, who + ": read_blob with a limit", "bytes");
  }
  catch (const joedb::Exception &e)
  {
   refused = true;
   why = e.what();
  }
  require(refused == (limit == size), who + ": limit of " + to_string(limit) + " bytes for a blob of " + to_string(size) + ": " + why, "limit");
 }
}

static void check_new_blob(const Written &w, size_t size)
{
 require(w.blob.get_size() == int64_t(size) && w.blob.get_position() >= 41, "position " + to_string(w.blob.get_position()) + " and size " + to_string(w.blob.get_size()) + " for a blob of " + to_string(size) + " bytes", "reference");
}

static const Table_Id T{1};
static const Field_Id text{1}, blob{2}, number{3};

static void schema(Writable &w)
{
 w.create_table("t");
 w.add_field(T, "text", Type::string());
 w.add_field(T, "blob", Type::blob());
 w.add_field(T, "number", Type::int64());
}

/////////////////////////////////////////////////////////////////////////////
// One journal
/////////////////////////////////////////////////////////////////////////////

static std::unique_ptr<Abstract_File> open_file(char kind, const string &path, Memory_File &memory, Open_Mode mode)
{
 if (kind == 'F')
  return std::make_unique<File>(path, mode);
 if (kind == 'P')
  return std::make_unique<Portable_File>(path, mode);
 struct Forward: public Abstract_File
 {
  Memory_File &f;
  Forward(Memory_File &f, Open_Mode mode): Abstract_File(mode), f(f) {}
  int64_t get_size() const override {return f.get_size();}
  size_t pread(char *data, size_t size, int64_t offset) const override {return static_cast<Abstract_File &>(f).pread(data, size, offset);}
  void pwrite(const char *data, size_t size, int64_t offset) override {static_cast<Abstract_File &>(f).pwrite(data, size, offset);}
 };
 return std::make_unique<Forward>(memory, mode);
}

struct Op
{
 enum Kind {write, write_unused, again, vector_of_blobs, string, number, soft, hard, flush, reopen} kind;
 size_t size = 0;
 const char *name;
};

static void check_all(const Database &db, const std::map<int64_t, Written> &by_position, const Abstract_File &file, const string &who, bool all_records = true)
{
 const auto &fk = db.get_freedom(T);
 for (Record_Id r{0}; r < fk.get_size(); ++r)
  if (fk.is_used(r))
  {
   const Blob b = db.get_blob(T, r, blob);
   if (b.is_null())
    continue;
   const auto i = by_position.find(b.get_position());
   require(i != by_position.end() && i->second.blob.get_size() == b.get_size(), who + ": a record contains a reference to a blob that was never written", "reference");
   check_blob(file, i->second, who);
  }
}

static void journal(Chooser &c, char kind, int depth, const vector<Op> &ops)
{
 const string path = mc::scratch() + "/blob";
 ::unlink(path.c_str());
 Memory_File memory;
 std::unique_ptr<Abstract_File> file, reading_file;
 std::unique_ptr<Writable_Journal> j;
 std::unique_ptr<Readonly_Journal> follower;
 Database followed;
 auto db = std::make_unique<Database>();
 std::unique_ptr<Multiplexer> m;
 std::map<int64_t, Written> by_position;
 vector<Written> stored;
 auto open = [&](bool existing)
 {
  m.reset();
  j.reset();
  file.reset();
  file = open_file(kind, path, memory, existing ? Open_Mode::write_existing : Open_Mode::create_new);
  j = std::make_unique<Writable_Journal>(*file);
  if (existing)
  {
   const string before = mc::dump(*db);
   db = std::make_unique<Database>();
   j->replay_log(*db);
   require(mc::dump(*db) == before, "content after opening again:\n" + mc::dump(*db) + "instead of\n" + before, "dump");
  }
  m.reset(new Multiplexer{*db, *j});
 };
 open(false);
 schema(*m);
 j->hard_checkpoint();
 reading_file = open_file(kind, path, memory, Open_Mode::read_existing);
 follower = std::make_unique<Readonly_Journal>(*reading_file);

 auto insert = [&](const Written &w)
 {
  const Record_Id r{to_underlying(db->get_freedom(T).get_size())};
  m->insert_into(T, r);
  m->update_blob(T, r, blob, w.blob);
 };

 int n = 0;
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(int(ops.size()) + 1);
  if (x == int(ops.size()))
   break;
  const Op &op = ops[size_t(x)];
  if (d == 0) c.split();
  c.note(string(op.name) + (op.size || op.kind <= Op::write_unused || op.kind == Op::string ? " " + to_string(op.size) : ""));
  switch (op.kind)
  {
   case Op::write:
   case Op::write_unused:
   {
    Written w;
    w.bytes = content(n++, op.size);
    // as the generated code does: the blob goes through all the writables
    w.blob = m->write_blob(w.bytes);
    check_new_blob(w, op.size);
    require(by_position.emplace(w.blob.get_position(), w).second, "two blobs at the same position", "reference");
    if (op.kind == Op::write)
    {
     insert(w);
     stored.push_back(w);
    }
   }
   break;
   case Op::again:
    if (!stored.empty())
     insert(stored.front());
   break;
   case Op::vector_of_blobs:
   {
    const Record_Id r{to_underlying(db->get_freedom(T).get_size())};
    m->insert_vector(T, r, 2);
    const Blob v[2] = {stored.empty() ? Blob() : stored.back().blob, stored.empty() ? Blob() : stored.front().blob};
    m->update_vector_blob(T, r, blob, 2, v);
   }
   break;
   case Op::string:
   {
    const Record_Id r{to_underlying(db->get_freedom(T).get_size())};
    m->insert_into(T, r);
    m->update_string(T, r, text, content(n++, op.size));
   }
   break;
   case Op::number:
   {
    const Record_Id r{to_underlying(db->get_freedom(T).get_size())};
    m->insert_into(T, r);
    m->update_int64(T, r, number, 0x1313131313131313ll + n++); // 0x13 is the code of a blob
   }
   break;
   case Op::soft: j->soft_checkpoint(); break;
   case Op::hard: j->hard_checkpoint(); break;
   case Op::flush: j->flush(); break;
   case Op::reopen:
    j->soft_checkpoint();
    open(true);
   break;
  }
  c.transition();
  // The writer, whether or not there was a checkpoint
  for (const auto &[p, w]: by_position)
   check_blob(*file, w, "the writer");
  check_all(*db, by_position, *file, "the writer");
  if (op.kind == Op::soft || op.kind == Op::hard || op.kind == Op::reopen)
  {
   if (kind == 'P')
   {
    follower.reset();
    reading_file.reset();
    reading_file = open_file(kind, path, memory, Open_Mode::read_existing);
    follower = std::make_unique<Readonly_Journal>(*reading_file);
    Database fresh;
    follower->replay_log(fresh);
    require(mc::dump(fresh) == mc::dump(*db), "content read by another process", "dump");
    check_all(fresh, by_position, *reading_file, "a reader");
   }
   else
   {
    follower->pull();
    follower->play_until_checkpoint(followed);
    require(mc::dump(followed) == mc::dump(*db), "content of a follower:\n" + mc::dump(followed) + "instead of\n" + mc::dump(*db), "dump");
    check_all(followed, by_position, *reading_file, "a follower");
   }
   for (const auto &[p, w]: by_position)
    check_blob(*reading_file, w, "a reader");
  }
 }
 j->soft_checkpoint();
 c.state(mc::hash_string(mc::dump(*db)));
 c.outcome(mc::dump(*db));
 open(true);
 for (const auto &[p, w]: by_position)
  check_blob(*file, w, "a reopened file");
 check_all(*db, by_position, *file, "a reopened file");
 // Replaying into another journal gives the same journal
 Memory_File copy;
 {
  Writable_Journal cj(copy);
  j->replay_log(cj);
  cj.soft_checkpoint();
 }
 require(copy.get_size() == j->get_checkpoint(), "replaying into another journal gives a file of " + to_string(copy.get_size()) + " bytes instead of " + to_string(j->get_checkpoint()), "replay");
 for (const auto &[p, w]: by_position)
  check_blob(copy, w, "a copy");
 follower.reset();
 reading_file.reset();
 m.reset();
 j.reset();
 file.reset();
 ::unlink(path.c_str());
}

static vector<Op> journal_ops(bool th)
{
 vector<Op> r;
 for (const size_t s: th ? vector<size_t>{0, 1, 5, 4000, 4095, 4096, 4097, 8200, 70000} : vector<size_t>{0, 5, 4096, 9000})
  r.push_back({Op::write, s, "blob"});
 r.push_back({Op::write_unused, 3, "unused blob"});
 r.push_back({Op::again, 0, "first blob again"});
 r.push_back({Op::vector_of_blobs, 0, "vector of blobs"});
 for (const size_t s: th ? vector<size_t>{4080, 4085, 4089, 4095, 10} : vector<size_t>{4089})
  r.push_back({Op::string, s, "string"});
 r.push_back({Op::number, 0, "number"});
 r.push_back({Op::soft, 0, "soft checkpoint"});
 r.push_back({Op::hard, 0, "hard checkpoint"});
 r.push_back({Op::flush, 0, "flush"});
 r.push_back({Op::reopen, 0, "reopen"});
 return r;
}

// A blob at every position with respect to the end of the buffer
static void boundary(Chooser &c, bool th)
{
 const int offset = c.choose(th ? 40 : 30);
 c.split();
 static const size_t sizes[] = {0, 1, 31, 32, 7000};
 const size_t size = sizes[c.choose(5)];
 const bool compact2 = c.flip();
 Memory_File file;
 Database db;
 Writable_Journal j(file);
 Multiplexer m{db, j};
 schema(m);
 m.insert_into(T, Record_Id{0});
 const int64_t wanted = Header::ssize + 4096 - 20 + offset;
 const int64_t length = wanted - j.get_position() - 10;
 m.update_string(T, Record_Id{0}, text, content(1, size_t(length)));
 c.note("after a string of " + to_string(length) + " bytes, a blob of " + to_string(size) + " bytes");
 Written w;
 w.bytes = content(2, size);
 w.blob = m.write_blob(w.bytes);
 check_new_blob(w, size);
 m.update_blob(T, Record_Id{0}, blob, w.blob);
 check_blob(file, w, "the writer");
 Written w2;
 w2.bytes = content(3, compact2 ? 40 : 2);
 w2.blob = m.write_blob(w2.bytes);
 m.insert_into(T, Record_Id{1});
 m.update_blob(T, Record_Id{1}, blob, w2.blob);
 j.soft_checkpoint();
 c.transition();
 Readonly_Journal reader(file);
 Database copy;
 reader.replay_log(copy);
 require(mc::dump(copy) == mc::dump(db), "content:\n" + mc::dump(copy) + "instead of\n" + mc::dump(db), "dump");
 check_blob(file, w, "the reader");
 check_blob(file, w2, "the reader");
 c.outcome(to_string(file.get_size()));
 c.state(uint64_t(file.get_size()));
}

/////////////////////////////////////////////////////////////////////////////
// Through a server
/////////////////////////////////////////////////////////////////////////////

struct Net_Connector: public Connector
{
 mc::Net &net;
 const string name, path;
 Net_Connector(mc::Net &net, const string &name, const string &path): net(net), name(name), path(path) {}
 std::unique_ptr<Channel> new_channel() const override {return std::make_unique<mc::Net_Channel>(net, name, path);}
};

struct World
{
 mc::Coop coop;
 mc::Net net;
 const string path;
 Memory_File server_file;
 std::unique_ptr<Writable_Journal_Client> server_client;
 std::unique_ptr<Server> server;

 World(Chooser &c): coop(c), net(coop), path(mc::scratch() + "/s")
 {
  ::unlink(path.c_str());
  {
   Writable_Journal j(server_file);
   schema(j);
   j.soft_checkpoint();
  }
  net.content_hash = [this]() {return mc::hash_string(server_file.get_data());};
  coop.on_death = [this](mc::Task &t) {net.close_all(t);};
  coop.killable = [](const mc::Task &t) {return !t.daemon;};
  server_client = std::make_unique<Writable_Journal_Client>(server_file);
  server = std::make_unique<Server>(Logger::dummy_logger, 0, 1, path, *server_client, std::chrono::milliseconds(0));
  net.settle();
 }

 ~World()
 {
  for (mc::Task &t: coop.get_tasks())
   if (std::find(net.threads.begin(), net.threads.end(), &t) == net.threads.end())
    coop.bury(t);
  server->stop();
  server.reset();
 }
};

// Works on a replica, or directly on the file of the server
struct Peer
{
 World &w;
 const string name;
 const char kind; // R: replica, F: file of the server
 Memory_File replica;
 std::unique_ptr<mc::Net_Channel> channel;
 std::unique_ptr<Server_Connection> connection;
 std::unique_ptr<Writable_Database_Client> client;
 Net_Connector connector;
 std::unique_ptr<Server_File> server_file;
 std::unique_ptr<Writable_Journal_Client> journal_client;

 Peer(World &w, const string &name, char kind): w(w), name(name), kind(kind), connector(w.net, name, w.path) {connect();}

 void connect()
 {
  close();
  if (kind == 'F')
  {
   server_file = std::make_unique<Server_File>(connector);
   journal_client = std::make_unique<Writable_Journal_Client>(*server_file, *server_file);
  }
  else
  {
   channel = std::make_unique<mc::Net_Channel>(w.net, name, w.path);
   connection = std::make_unique<Server_Connection>(*channel);
   client = std::make_unique<Writable_Database_Client>(replica, *connection);
  }
 }

 void close()
 {
  journal_client.reset();
  server_file.reset();
  client.reset();
  connection.reset();
  channel.reset();
 }

 ~Peer() {close();}

 const Abstract_File &file() const {return kind == 'F' ? static_cast<const Abstract_File &>(*server_file) : replica;}

 void pull()
 {
  if (kind == 'F')
   journal_client->pull();
  else
   client->pull();
 }

 // Each blob is followed by a comment
 vector<Written> transaction(const vector<string> &data)
 {
  vector<Written> r;
  auto f = [&](Writable &writable)
  {
   for (const string &s: data)
   {
    Written x;
    x.bytes = s;
    x.blob = writable.write_blob(s);
    check_new_blob(x, s.size());
    writable.comment("blob " + to_string(s.size()));
    r.push_back(x);
    for (const Written &y: r)
     check_blob(file(), y, name + ", during its transaction");
   }
  };
  if (kind == 'F')
   journal_client->transaction(f);
  else
   client->transaction([&](const Readable &, Writable &writable) {f(writable);});
  return r;
 }
};

static const vector<size_t> &remote_sizes(bool th)
{
 static const vector<size_t> a{0, 3, 8192, 20000}, b{0, 1, 4096, 8150, 8175, 8183, 8191, 8192, 8193, 20000};
 return th ? b : a;
}

static void remote(Chooser &c, const char *kinds, int depth, bool th)
{
 World w(c);
 vector<std::unique_ptr<Peer>> peers;
 for (const char *k = kinds; *k; k++)
  peers.push_back(std::make_unique<Peer>(w, string(1, char('a' + (k - kinds))), *k));
 vector<Written> all;
 vector<size_t> known(peers.size(), 0); // how many blobs each peer has
 const vector<size_t> &sizes = remote_sizes(th);
 const int per_peer = int(sizes.size()) + 3;
 for (int d = 0; d < depth; d++)
 {
  const int x = c.choose(int(peers.size()) * per_peer + 1);
  if (x == int(peers.size()) * per_peer)
   break;
  if (d == 0) c.split();
  const size_t p = size_t(x / per_peer);
  const int a = x % per_peer;
  Peer &peer = *peers[p];
  if (a < int(sizes.size()) + 1)
  {
   const vector<string> data = a < int(sizes.size()) ? vector<string>{content(d, sizes[size_t(a)])} : vector<string>{content(d, 10), content(d + 50, 0), content(d + 90, 9000)};
   c.note(peer.name + " (" + peer.kind + ") writes " + (data.size() == 1 ? "a blob of " + to_string(data[0].size()) : "three blobs"));
   for (Written &x: peer.transaction(data))
    all.push_back(x);
   known[p] = all.size();
  }
  else if (a == int(sizes.size()) + 1)
  {
   c.note(peer.name + " (" + peer.kind + ") pulls");
   peer.pull();
   known[p] = all.size();
  }
  else
  {
   c.note(peer.name + " (" + peer.kind + ") disconnects and connects again");
   peer.connect();
   if (peer.kind == 'F')
    known[p] = all.size();
   else
    ; // the connection does not pull
  }
  c.transition();
  for (const Written &x: all)
   check_blob(w.server_file, x, "the file of the server");
  for (size_t i = 0; i < peers.size(); i++)
   for (size_t k = 0; k < known[i]; k++)
    check_blob(peers[i]->file(), all[k], peers[i]->name);
 }
 w.net.settle();
 c.state(mc::hash_string(w.server_file.get_data()));
 c.outcome(to_string(all.size()));
 peers.clear();
}

// A peer writes blobs while another one reads those it knows
static void concurrent(Chooser &c, int blobs, bool th)
{
 World w(c);
 static const char *all_kinds[] = {"RF", "FF", "FR"};
 const char *kinds = all_kinds[c.choose(3)];
 const size_t size = c.flip() ? 9000 : 5;
 c.note(string("writer ") + kinds[0] + ", reader " + kinds[1] + ", blobs of " + to_string(size) + " bytes");
 c.split();
 vector<Written> all;
 {
  Writable_Journal_Client &client = *w.server_client;
  client.transaction([&](Writable &writable)
  {
   Written x;
   x.bytes = content(70, 500);
   x.blob = writable.write_blob(x.bytes);
   all.push_back(x);
  });
 }
 w.net.settle();
 size_t seen = 0;
 w.coop.preemption_bounded = true;
 w.coop.spawn("writer", [&]()
 {
  Peer peer(w, "writer", kinds[0]);
  for (int i = 0; i < blobs; i++)
   for (const Written &x: peer.transaction({content(i, size), content(i + 5, 3)}))
    all.push_back(x);
 });
 w.coop.spawn("reader", [&]()
 {
  Peer peer(w, "reader", kinds[1]);
  for (int i = 0; i < (th ? 3 : 2); i++)
  {
   const size_t n = all.size(); // pushed before the pull
   peer.pull();
   for (size_t k = 0; k < n; k++)
   {
    const Written x = all[k]; // the vector may grow meanwhile
    check_blob(peer.file(), x, "the reader", false);
   }
   seen = n;
   c.outcome(to_string(i) + "," + to_string(n));
  }
 });
 w.coop.run();
 for (const mc::Task &t: w.coop.get_tasks())
  if (t.error)
   std::rethrow_exception(t.error);
}

int main(int argc, char **argv)
{
 Destructor_Logger::remove_logger();
 mc::Explorer ex(argc, argv, "C18");
 const bool th = ex.is_thorough();
 static const vector<Op> ops = journal_ops(th);
 ex.explore("memory", [=](Chooser &c) {journal(c, 'M', 4, ops);});
 ex.explore("disk", [=](Chooser &c) {journal(c, 'F', 4, ops);});
 ex.explore("portable", [=](Chooser &c) {journal(c, 'P', th ? 4 : 3, ops);});
 ex.explore("boundary", [=](Chooser &c) {boundary(c, th);});
 ex.explore("remote_RF", [=](Chooser &c) {remote(c, "RF", th ? 4 : 3, false);});
 ex.explore("remote_FFR", [=](Chooser &c) {remote(c, "FFR", th ? 4 : 3, th);});
 ex.explore("concurrent", [=](Chooser &c) {concurrent(c, 1, th);}, th ? 3 : 2);
 return ex.finish
 (
  "model_checking",
  "every sequence of blob writes and other operations to the stated length, with sizes around the buffers, read by the writer, a follower, a reopened file, a copy, other clients of a server with a replica or without; schedules of a writer and a reader up to the stated number of preemptions",
  {"the file behaves as an array of bytes (C15)"}
 );
}
