// Crash consistency of journals (C01, C02, C03).
//
// A program is a sequence of steps (transactions, checkpoints, flushes, blobs,
// reopenings) run by the real Writable_Journal over a file that logs writes
// and syncs. A crash may happen at every event of the log. The surviving
// images are enumerated, and recovered by the real journal classes. Then a
// second program may run on the recovered file, and crash again.
#include "explorer.h"
#include "recorder.h"
#include "posix_sim.h"

#include "joedb/journal/Writable_Journal.h"
#include "joedb/journal/Memory_File.h"
#include "joedb/concurrency/Writable_Journal_Client.h"
#include "joedb/error/Destructor_Logger.h"
#include "joedb/error/Exception.h"

#include <memory>
#include <set>

using namespace joedb;
using mc::Chooser;
using mc::require;

enum class Disk {ordered, adversarial, kill};

struct Op {int64_t end; std::string text;};

struct Follower
{
 mc::View view;
 Readonly_Journal journal;
 mc::Recorder recorder;
 Follower(const std::string &image): view(image), journal(view) {}
};

struct World
{
 std::string image;
 std::vector<Op> history;
 std::set<int64_t> requested{Header::ssize};
 std::set<int64_t> requested_hard{Header::ssize};
 int64_t returned = 0;      // last checkpoint (hard or soft) that returned
 int64_t hard_returned = 0; // last hard checkpoint that returned
 int counter = 0;
 bool rewritten_lost = false;
 std::vector<std::unique_ptr<Follower>> followers;

 uint64_t hash() const
 {
  uint64_t h = mc::hash_string(image);
  for (const Op &o: history)
   h = mc::hash_string(o.text, h ^ uint64_t(o.end));
  for (const int64_t r: requested)
   h = mc::hash_bytes(&r, 8, h);
  for (const int64_t r: requested_hard)
   h = mc::hash_bytes(&r, 8, h);
  h = mc::hash_bytes(&returned, 8, h);
  h = mc::hash_bytes(&hard_returned, 8, h);
  return h;
 }
};

static std::string prefix_text(const World &w, int64_t until, bool &boundary)
{
 std::string r;
 boundary = until == Header::ssize;
 for (const Op &o: w.history)
 {
  if (o.end > until)
   break;
  r += o.text;
  if (o.end == until)
   boundary = true;
 }
 return r;
}

static void require_prefix(const World &w, int64_t position, const std::string &text, const std::string &what)
{
 bool boundary;
 const std::string expected = prefix_text(w, position, boundary);
 require(boundary, what + ": checkpoint " + std::to_string(position) + " is inside a transaction", "torn");
 require(expected == text, what + ": content up to " + std::to_string(position) + " is not what was written:\n" + text + "instead of\n" + expected, "content");
}

static std::string read_until(const std::string &image, bool hard, int64_t &position, const std::string &what)
{
 mc::View view(image);
 mc::Recorder recorder;
 try
 {
  Readonly_Journal journal(view);
  position = hard ? journal.get_hard_checkpoint() : journal.get_checkpoint();
  journal.play_until(recorder, position);
  require(journal.get_position() == position, what + ": reader stopped at " + std::to_string(journal.get_position()) + " instead of " + std::to_string(position), "torn");
 }
 catch (const std::exception &e)
 {
  mc::fail(what + ": cannot read the file: " + e.what(), "unreadable");
 }
 return recorder.text();
}

static bool contains(const std::set<int64_t> &s, int64_t x) {return s.find(x) != s.end();}

static std::string list(const std::set<int64_t> &s)
{
 std::string r;
 for (const int64_t x: s)
  r += ' ' + std::to_string(x);
 return r;
}

// Check a surviving image.
static void check_image(const World &w, const std::string &image, Disk disk, bool only_hard)
{
 const int64_t minimum = disk == Disk::kill ? w.returned : w.hard_returned;
 if (image.empty())
 {
  // (an empty journal loses nothing)
  require(minimum <= Header::ssize, "file is empty although a checkpoint had returned", "lost");
  return;
 }

 int64_t position;
 const std::string text = read_until(image, only_hard, position, "after the crash");
 require
 (
  position >= minimum,
  "recovered checkpoint = " + std::to_string(position) + ", but a checkpoint at " + std::to_string(minimum) + " had returned",
  "lost"
 );
 require
 (
  contains(only_hard ? w.requested_hard : w.requested, position),
  "recovered checkpoint = " + std::to_string(position) + " was never requested (requested:" + list(only_hard ? w.requested_hard : w.requested) + ")",
  "unrequested"
 );
 require_prefix(w, position, text, "after the crash");

 if (!only_hard)
 {
  // recovery for writing must agree
  std::string copy(image);
  std::vector<mc::Event> log;
  mc::Sim_File file(copy, log, Open_Mode::write_existing);
  try
  {
   Writable_Journal journal(Journal_Construction_Lock(file, Recovery::overwrite));
   require(journal.get_checkpoint() == position, "reader and recovering writer disagree about the checkpoint: " + std::to_string(position) + " and " + std::to_string(journal.get_checkpoint()), "disagree");
  }
  catch (const std::exception &e)
  {
   mc::fail(std::string("recovery with overwrite failed: ") + e.what(), "no_recovery");
  }
  int64_t position_after;
  const std::string text_after = read_until(copy, false, position_after, "after recovery");
  require(position_after == position && text_after == text, "content changed by recovery", "changed_by_recovery");
 }
}

struct Config
{
 Disk disk;
 bool soft = true;        // soft checkpoints in the alphabet
 bool followers = false;
 bool torn_slots = false;
 bool big = false;        // operations larger than the buffer
 bool posix = false;      // the real joedb::File
 bool client = false;     // transactions of a Writable_Journal_Client
 bool shared = false;     // shared_write
};

// Run one phase: open, steps, crash. w.image becomes a surviving image.
static void run_phase(Chooser &c, World &w, const Config &config, int max_steps, bool first, bool after_power_failure)
{
 const bool existed = !w.image.empty();
 const std::string base = w.image;
 std::vector<mc::Event> log;
 std::unique_ptr<mc::Sim_Core> file;
 const Open_Mode mode = config.shared ? Open_Mode::shared_write : existed ? Open_Mode::write_existing : Open_Mode::create_new;
 if (config.posix)
  file = std::make_unique<mc::Posix_Sim>(w.image, log, mode);
 else
  file = std::make_unique<mc::Sim_File>(w.image, log, mode);

 const auto look = [&]()
 {
  // other processes look at the file now
  if (file->dead || file->head_exclusive > 0 || w.image.size() < Header::size)
   return;
  try
  {
   auto f = std::make_unique<Follower>(w.image);
   w.followers.emplace_back(std::move(f));
  }
  catch (const joedb::Exception &e)
  {
   mc::fail(std::string("another reader cannot open the file: ") + e.what(), "reader_open");
  }
  for (auto &f: w.followers)
  {
   const int64_t before = f->journal.get_checkpoint();
   try
   {
    f->journal.pull();
    f->journal.play_until_checkpoint(f->recorder);
   }
   catch (const joedb::Exception &e)
   {
    mc::fail(std::string("a following reader failed: ") + e.what(), "reader_pull");
   }
   const int64_t after = f->journal.get_checkpoint();
   require(after >= before, "checkpoint went backwards for a following reader", "backwards");
   require(after >= w.returned, "a following reader sees " + std::to_string(after) + " after a checkpoint at " + std::to_string(w.returned) + " had returned", "stale_reader");
   require(contains(w.requested, after), "a following reader sees a checkpoint that was never requested", "unrequested");
   require(f->journal.get_position() == after, "following reader stopped at another position", "torn");
   require_prefix(w, after, f->recorder.text(), "following reader");
  }
  // keep only followers in different states (the last few are enough: they
  // differ by the moment when they were opened)
  if (w.followers.size() > 4)
   w.followers.erase(w.followers.begin() + 1);
 };

 if (config.followers)
 {
  file->before_event = look;
  file->after_unlock = look;
 }

 std::unique_ptr<Writable_Journal> plain_journal;
 std::unique_ptr<Writable_Journal_Client> client;
 Writable_Journal *journal = nullptr; // valid when it can be written to
 mc::Recorder recorder;

 const auto truncate_history = [&](int64_t position)
 {
  while (!w.history.empty() && w.history.back().end > position)
   w.history.pop_back();
  w.requested.erase(w.requested.upper_bound(position), w.requested.end());
  w.requested_hard.erase(w.requested_hard.upper_bound(position), w.requested_hard.end());
 };

 // After a power failure, the file must be opened with the overwrite option.
 const auto open = [&](bool may_be_dirty, bool must_recover)
 {
  const int64_t size = int64_t(w.image.size());
  // the constructor must not use more than what is in the file
  Recovery recovery = Recovery::none;
  int64_t position = 0;
  if (size > 0)
  {
   read_until(w.image, false, position, "before opening");
   if (position < size || must_recover)
    recovery = Recovery::overwrite;
   else if (may_be_dirty && c.flip())
    recovery = Recovery::overwrite;
   if (position < size)
   {
    mc::Sim_File probe(w.image, log, Open_Mode::write_existing);
    probe.ghost = w.image;
    probe.dead = true;
    bool refused = false;
    try {Writable_Journal j{probe};} catch (const joedb::Exception &) {refused = true;}
    require(refused, "a file with a dirty tail was opened for writing without recovery", "dirty_accepted");
   }
  }
  c.note(std::string(" open ") + (recovery == Recovery::overwrite ? "overwrite" : "none"));
  if (config.client)
  {
   client = std::make_unique<Writable_Journal_Client>(file->get_file(), Connection::dummy, Content_Check::fast, recovery);
   if (size > 0)
   {
    require(client->get_journal_checkpoint() == position, "client opens at another checkpoint", "disagree");
    truncate_history(position);
   }
   return;
  }
  plain_journal = std::make_unique<Writable_Journal>(Journal_Construction_Lock(file->get_file(), recovery));
  journal = plain_journal.get();
  if (size > 0)
  {
   require(journal->get_checkpoint() == position, "writer opens at another checkpoint", "disagree");
   truncate_history(position);
   // read everything, to be at the end
   mc::Recorder r;
   journal->play_until_checkpoint(r);
   require_prefix(w, position, r.text(), "writer after opening");
  }
  else
   journal->skip_directly_to(Header::ssize);
 };

 const auto op = [&](const std::function<void(Writable &)> &f)
 {
  recorder.ops.clear();
  f(recorder);
  f(*journal);
  // the recorder sees write_blob, the reader sees on_blob + write_blob
  std::string text;
  for (const std::string &s: recorder.ops)
  {
   if (s.rfind("write_blob", 0) == 0)
    text += "on_blob +" + std::to_string(s[12] == '<' ? 0 : (s.size() - 13)) + "\n";
   text += s + "\n";
  }
  w.history.push_back(Op{journal->get_position(), text});
 };

 const auto soft = [&]()
 {
  w.requested.insert(journal->get_position());
  const int64_t p = journal->get_position();
  journal->soft_checkpoint();
  if (file->dead)
   return;
  w.returned = std::max(w.returned, p);
 };

 const auto hard = [&]()
 {
  w.requested.insert(journal->get_position());
  w.requested_hard.insert(journal->get_position());
  const int64_t p = journal->get_position();
  journal->hard_checkpoint();
  if (file->dead)
   return;
  w.returned = std::max(w.returned, p);
  w.hard_returned = std::max(w.hard_returned, p);
 };

 const int steps = c.choose(max_steps + 1);
 c.note("phase with " + std::to_string(steps) + " steps");
 const auto die = [&](const mc::Event &e)
 {
  c.transition();
  return c.flip();
 };
 if (steps == 0)
  file->die = die;
 open(!first, !first && after_power_failure);
 for (int i = 0; i < steps; i++)
 {
  if (i + 1 == steps)
   file->die = die;
  const int n = ++w.counter;
  const std::string word = std::string("w") + char('a' + n % 26);
  static const char * const names[] =
   {"comment+hard", "comment", "comment+soft", "soft", "hard", "flush", "reopen", "blob", "big"};
  int choices[9], count = 0;
  choices[count++] = 0;
  choices[count++] = 1;
  if (config.soft)
   choices[count++] = 2;
  choices[count++] = 4;
  if (config.soft)
   choices[count++] = 3;
  choices[count++] = 5;
  choices[count++] = 6;
  choices[count++] = 7;
  if (config.big)
   choices[count++] = 8;
  if (config.client)
  {
   const int s = c.choose(5);
   c.note(std::string(" client ") + (s == 4 ? "reopen" : s == 3 ? "pull" : s == 2 ? "soft transaction" : s == 1 ? "hard transaction with a blob" : "hard transaction"));
   int64_t p = 0;
   switch (s)
   {
    case 0: case 1: case 2:
     client->set_hard_checkpoint(s < 2);
     client->transaction([&](Writable_Journal &j)
     {
      journal = &j;
      op([&](Writable &x){x.comment(word);});
      if (s == 1)
       op([&](Writable &x){x.write_blob(word);});
      p = j.get_position();
      w.requested.insert(p);
      if (s < 2)
       w.requested_hard.insert(p);
      journal = nullptr;
     });
     if (!file->dead)
     {
      w.returned = std::max(w.returned, p);
      if (s < 2)
       w.hard_returned = std::max(w.hard_returned, p);
     }
     break;
    case 3: client->pull(); break;
    case 4:
     client.reset();
     if (!file->dead)
      open(false, false);
     break;
   }
   c.transition();
   if (i == 0 && first)
    c.split();
   continue;
  }
  const int s = choices[c.choose(count)];
  c.note(std::string(" step ") + names[s]);
  switch (s)
  {
   case 0: op([&](Writable &x){x.comment(word);}); hard(); break;
   case 1: op([&](Writable &x){x.comment(word);}); break;
   case 2: op([&](Writable &x){x.comment(word);}); soft(); break;
   case 3: soft(); break;
   case 4: hard(); break;
   case 5: journal->flush(); break;
   case 6:
    client.reset();
    plain_journal.reset();
    if (!file->dead)
     open(false, false);
   break;
   case 7: op([&](Writable &x){x.write_blob(word);}); break;
   case 8: op([&](Writable &x){x.comment(std::string(4200, char('a' + n % 26)));}); break;
  }
  c.transition();
  if (i == 0 && first)
   c.split();
 }
 if (config.followers)
  look();

 // Crash
 const size_t k = log.size();
 const bool died = file->dead;
 const mc::Event fatal = file->fatal;
 file->dead = true;
 std::string image = w.image;

 std::string note = " crash " + std::string(!died ? "after the last step" : fatal.kind == mc::Event::write ? "before the write of " + std::to_string(fatal.data.size()) + " bytes at " + std::to_string(fatal.offset) : "before a sync");

 if (config.disk == Disk::kill)
 {
  if (died && fatal.kind == mc::Event::write && fatal.offset >= Header::ssize)
  {
   // a write may be cut short
   const size_t n = fatal.data.size();
   size_t cuts[3] = {0, 1, n / 2};
   int m = n > 2 ? 3 : n > 1 ? 2 : 1;
   const size_t cut = cuts[c.choose(m)];
   if (cut)
   {
    mc::apply(image, fatal.offset, fatal.data.data(), cut);
    note += ", write cut after " + std::to_string(cut) + " bytes";
   }
  }
 }
 else
 {
  // durable image, and pending writes
  std::string durable = base;
  std::vector<mc::Event> pending;
  for (size_t i = 0; i < k; i++)
  {
   const mc::Event &e = log[i];
   if (e.kind == mc::Event::write)
    pending.push_back(e);
   else
   {
    std::vector<mc::Event> still;
    for (const mc::Event &p: pending)
    {
     // datasync does not make a change of size durable
     if
     (
      e.kind == mc::Event::datasync &&
      p.offset + int64_t(p.data.size()) > int64_t(durable.size())
     )
      still.push_back(p);
     else
      mc::apply(durable, p.offset, p.data.data(), p.data.size());
    }
    pending = still;
   }
  }

  std::map<int64_t, std::vector<std::string>> slots;
  std::vector<mc::Event> body;
  for (const mc::Event &p: pending)
  {
   if (p.offset < 32 && p.data.size() <= 8)
    slots[p.offset].push_back(p.data);
   else
    body.push_back(p);
  }

  image = durable;
  bool created = !durable.empty();
  if (config.disk == Disk::ordered)
  {
   const int m = int(body.size());
   const int lost = c.choose(m + 1);
   for (int i = 0; i < m - lost; i++)
   {
    mc::apply(image, body[size_t(i)].offset, body[size_t(i)].data.data(), body[size_t(i)].data.size());
    created = true;
   }
   size_t torn_at = 0;
   if (lost && created)
   {
    const mc::Event &e = body[size_t(m - lost)];
    const size_t n = e.data.size();
    size_t cuts[4] = {0, n - 1, 1, n / 2};
    const size_t cut = cuts[c.choose(n > 3 ? 4 : n > 2 ? 3 : n > 1 ? 2 : 1)];
    if (cut)
     mc::apply(image, e.offset, e.data.data(), cut);
    torn_at = cut;
   }
   // Losing a write that overwrites an aborted tail is outside the model: the
   // size of the file does not tell. Only hard checkpoints are safe then.
   for (int i = m - lost; i < m; i++)
    if (created && body[size_t(i)].offset + int64_t(i == m - lost ? torn_at : 0) < int64_t(image.size()))
     w.rewritten_lost = true;
   if (lost)
    note += ", " + std::to_string(lost) + " writes lost";
  }
  else
  {
   for (size_t i = 0; i < body.size(); i++)
   {
    const mc::Event &e = body[i];
    // present, lost, torn; a hole reads as zeros if the file is extended
    const int how = c.choose(e.data.size() > 1 && e.offset >= Header::ssize ? 3 : 2);
    if (how == 0)
    {
     mc::apply(image, e.offset, e.data.data(), e.data.size());
     if (e.offset == 0)
      created = true;
    }
    else if (how == 2 && created)
     mc::apply(image, e.offset, e.data.data(), e.data.size() / 2);
    if (i == 0 && !created)
     break;
    if (how)
     note += ", write " + std::to_string(i) + (how == 1 ? " lost" : " torn");
   }
  }
  if (!created)
   image.clear();
  else
  {
   // the header is in one sector: at most one of its slots can be torn
   bool torn = false;
   for (const auto &[offset, values]: slots)
   {
    const int n = int(values.size());
    const int how = c.choose(config.torn_slots && !torn ? n + 2 : n + 1);
    if (how < n)
     mc::apply(image, offset, values[size_t(n - 1 - how)].data(), values[size_t(n - 1 - how)].size());
    else if (how == n + 1)
    {
     mc::apply(image, offset, values.back().data(), values.back().size() / 2);
     torn = true;
    }
    if (how)
     note += ", header slot at " + std::to_string(offset) + (how == n + 1 ? " torn" : how == n ? " lost" : " old");
   }
  }
 }
 c.note(note);

 // The process is gone. Its destructors must not do anything.
 file->before_event = nullptr;
 file->after_unlock = nullptr;
 client.reset();
 plain_journal.reset();
 file.reset();
 w.image = image;
}

static void body(Chooser &c, const std::vector<Config> &phases, const std::vector<int> &steps, bool only_hard)
{
 Destructor_Logger::remove_logger();
 World w;
 for (size_t i = 0; i < phases.size(); i++)
 {
  const Config &config = phases[i];
  run_phase(c, w, config, steps[i], i == 0, i > 0 && phases[i - 1].disk != Disk::kill);
  const bool last = i + 1 == phases.size();
  check_image(w, w.image, config.disk, (last && only_hard) || w.rewritten_lost);
  if (w.rewritten_lost)
   return;
  if (config.followers)
  {
   // whoever was following the file must still see it the same way
   for (auto &f: w.followers)
   {
    if (w.image.size() < Header::size)
     break;
    const int64_t before = f->journal.get_checkpoint();
    mc::View v(w.image);
    Readonly_Journal fresh(v);
    require(fresh.get_checkpoint() >= before, "after the crash the checkpoint is " + std::to_string(fresh.get_checkpoint()) + ", but a reader had already seen " + std::to_string(before), "backwards");
   }
  }
  c.outcome(std::to_string(w.image.size()) + " " + std::to_string(w.returned) + " " + std::to_string(w.hard_returned));
  if (!last)
  {
   const uint64_t h = w.hash();
   c.state(h);
   c.prune(h);
   if (w.image.empty())
   {
    w.history.clear();
    w.requested = {Header::ssize};
    w.requested_hard = {Header::ssize};
    w.returned = 0;
   }
   else if (config.disk != Disk::kill)
    w.returned = w.hard_returned;
  }
  else
   c.state(w.hash());
 }
}

int main(int argc, char **argv)
{
 const std::string property = argc > 1 ? argv[1] : "C01";
 mc::Explorer ex(argc, argv, property);
 const bool t = ex.is_thorough();

 const std::vector<std::string> assumptions =
 {
  "aligned 8-byte writes of the file header are not torn (except where stated), and the initial 41-byte header is written atomically",
  "the operating system and the device obey sync and datasync",
 };

 if (property == "C01")
 {
  Config o{Disk::ordered};
  Config ob{Disk::ordered}; ob.big = true;
  Config kill{Disk::kill};
  Config h{Disk::adversarial}; h.soft = false;
  ex.explore("ordered_1", [&](Chooser &c){body(c, {ob}, {t ? 5 : 4}, false);});
  ex.explore("ordered_2", [&](Chooser &c){body(c, {o, o}, {t ? 4 : 3, t ? 3 : 2}, false);});
  ex.explore("ordered_then_kill", [&](Chooser &c){body(c, {o, kill}, {t ? 4 : 3, t ? 3 : 2}, false);});
  ex.explore("ordered_3", [&](Chooser &c){body(c, {o, o, o}, {2, t ? 2 : 1, t ? 2 : 1}, false);});
  Config p = o; p.posix = true;
  Config cl = o; cl.client = true;
  ex.explore("posix_ordered", [&](Chooser &c){body(c, {p}, {t ? 4 : 3}, false);});
  ex.explore("client_ordered_2", [&](Chooser &c){body(c, {cl, cl}, {3, t ? 3 : 1}, false);});
  ex.explore("adversarial_hard", [&](Chooser &c){body(c, {h}, {t ? 5 : 4}, false);});
  ex.explore("adversarial_hard_2", [&](Chooser &c){body(c, {h, h}, {t ? 3 : 2, t ? 3 : 2}, false);});
 }
 else if (property == "C02")
 {
  Config a{Disk::adversarial}; a.torn_slots = true;
  Config ab = a; ab.big = true;
  Config o{Disk::ordered};
  Config kill{Disk::kill};
  ex.explore("adversarial_1", [&](Chooser &c){body(c, {a}, {t ? 5 : 4}, true);});
  ex.explore("ordered_then_adversarial", [&](Chooser &c){body(c, {o, a}, {t ? 3 : 2, t ? 3 : 2}, true);});
  Config pa = a; pa.posix = true;
  Config ca = a; ca.client = true;
  Config cpa = ca; cpa.posix = true;
  Config cs = ca; cs.shared = true;
  ex.explore("posix_adversarial", [&](Chooser &c){body(c, {pa}, {t ? 4 : 3}, true);});
  ex.explore("client_adversarial", [&](Chooser &c){body(c, {ca}, {t ? 6 : 4}, true);});
  ex.explore("client_posix_adversarial", [&](Chooser &c){body(c, {cpa}, {t ? 4 : 3}, true);});
  ex.explore("client_shared_adversarial", [&](Chooser &c){body(c, {cs}, {t ? 5 : 4}, true);});
  ex.explore("kill_then_adversarial", [&](Chooser &c){body(c, {kill, a}, {t ? 3 : 3, t ? 3 : 2}, true);});
 }
 else if (property == "C03")
 {
  Config kill{Disk::kill}; kill.followers = true;
  Config killb = kill; killb.big = true;
  ex.explore("kill_1", [&](Chooser &c){body(c, {killb}, {t ? 6 : 5}, false);});
  Config pk = kill; pk.posix = true;
  Config ck = kill; ck.client = true;
  ex.explore("posix_kill", [&](Chooser &c){body(c, {pk}, {t ? 4 : 3}, false);});
  ex.explore("client_kill", [&](Chooser &c){body(c, {ck, ck}, {t ? 4 : 3, t ? 3 : 2}, false);});
  ex.explore("kill_2", [&](Chooser &c){body(c, {kill, kill}, {t ? 4 : 3, t ? 3 : 2}, false);});
  ex.explore("kill_3", [&](Chooser &c){body(c, {kill, kill, kill}, {t ? 3 : 2, 2, 2}, false);});
 }
 return ex.finish
 (
  "fault_enumeration",
  "Every program of the given number of steps (transactions with hard, soft or no checkpoint, flushes, blobs, "
  "operations larger than the buffer, reopenings), every crash point in its last step, every surviving image of the disk "
  "model, then recovery and the next program. distinct_nontrivial counts the distinct (image, history, guarantee) "
  "combinations that were recovered and checked.",
  assumptions
 );
}
