// Exhaustive choice-sequence explorer.
//
// A harness is a deterministic function of the answers of Chooser::choose().
// The explorer enumerates all answer sequences depth-first (with an optional
// bound on the number of "deviations", i.e. non-zero answers given at points
// declared with a cost). Work is split over forked workers, so that a crash,
// an abort or a hang of the code under test is attributed to the sequence that
// caused it and reported as a violation. Every violation is replayed in a
// fresh process before it is reported.
#ifndef mc_explorer_declared
#define mc_explorer_declared

#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc
{
 inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
 {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
  {
   h ^= c[i];
   h *= 1099511628211ull;
  }
  h ^= h >> 29;
  return h;
 }

 inline uint64_t hash_string(const std::string &s, uint64_t h = 1469598103934665603ull)
 {
  return hash_bytes(s.data(), s.size(), h);
 }

 struct Violation
 {
  std::string message; // what is wrong
  std::string key;     // identifies the defect (for known findings)
 };

 struct Skip {};      // this execution belongs to another worker, or is pruned
 struct Bad_Replay {std::string why;}; // harness is not deterministic

 constexpr int max_points = 4096;

 struct Shared
 {
  std::atomic<uint64_t> heartbeat; // executions
  std::atomic<int> length;
  int choices[max_points];
  std::atomic<int> done;
  std::atomic<uint64_t> executions, states, transitions, outcomes, pruned;
  std::atomic<int> has_violation;
  std::atomic<int> capped;
  int violation_length;
  int violation_choices[max_points];
  char violation_message[8192];
  char violation_key[256];
  char annotation[4096];
 };

 struct Point {int n; int chosen; int cost;};

 class Chooser
 {
  public:
   const std::vector<int> &prefix;
   std::vector<Point> points;
   Shared *shared = nullptr;
   int deviations = 0;
   int bound;
   int worker = 0, workers = 1;
   bool tracing = false;
   std::vector<std::string> trace;
   std::unordered_set<uint64_t> *states = nullptr;
   std::unordered_set<uint64_t> *outcomes = nullptr;
   uint64_t *transitions = nullptr;
   std::unordered_map<uint64_t, uint64_t> *visited = nullptr;

   // breadth-first mode: root is the path to the state being expanded
   bool bfs = false;
   size_t root_size = 0;
   const std::unordered_set<uint64_t> *bfs_visited = nullptr;
   std::unordered_set<uint64_t> *bfs_local = nullptr;
   std::vector<std::pair<uint64_t, std::vector<int>>> *bfs_found = nullptr;

   Chooser(const std::vector<int> &prefix, int bound): prefix(prefix), bound(bound) {}

   // Pick one of n alternatives. If cost > 0, alternatives other than 0 use
   // that much of the deviation bound (and are skipped when it is exhausted).
   int choose(int n, int cost = 0)
   {
    if (n <= 0)
     throw Bad_Replay{"choose(0)"};
    const size_t i = points.size();
    int c = 0;
    if (i < prefix.size())
    {
     c = prefix[i];
     if (c >= n)
      throw Bad_Replay{"choice out of range at point " + std::to_string(i)};
    }
    if (int(i) >= max_points)
     throw Bad_Replay{"too many choice points"};
    points.push_back(Point{n, c, cost});
    if (cost && c)
     deviations += cost;
    if (shared)
    {
     shared->choices[i] = c;
     shared->length.store(int(i) + 1, std::memory_order_release);
    }
    return c;
   }

   bool flip(int cost = 0) {return choose(2, cost) != 0;}

   // Partition the tree between workers: call once, after some choices were
   // made, from driver code (an exception is thrown).
   void split()
   {
    if (workers <= 1)
     return;
    uint64_t h = 88172645463325252ull;
    for (const Point &p: points)
     h = (h ^ uint64_t(p.chosen + 1)) * 6364136223846793005ull + 1442695040888963407ull;
    h ^= h >> 33;
    if (int(h % uint64_t(workers)) != worker)
     throw Skip{};
   }

   // Call when the whole state of the execution (including everything the
   // oracle will look at) is summarised by h: the execution is dropped if the
   // same state was reached before by another sequence of choices, since all
   // its continuations were, or are being, explored from there. Only sound
   // when there is no deviation bound.
   void prune(uint64_t h)
   {
    if (bfs)
    {
     if (points.size() <= root_size)
      return;
     if (bfs_visited->count(h) || !bfs_local->insert(h).second)
      ++shared->pruned;
     else
     {
      std::vector<int> path;
      for (const Point &x: points)
       path.push_back(x.chosen);
      bfs_found->emplace_back(h, path);
     }
     throw Skip{};
    }
    if (!visited)
     return;
    uint64_t p = 1469598103934665603ull;
    for (const Point &x: points)
     p = (p ^ uint64_t(x.chosen + 1)) * 1099511628211ull;
    p ^= points.size();
    const auto i = visited->find(h);
    if (i == visited->end())
    {
     if (visited->size() < 8000000)
      visited->emplace(h, p);
    }
    else if (i->second != p)
    {
     if (shared)
      ++shared->pruned;
     throw Skip{};
    }
   }

   // Steps that an earlier execution went through already (and checked)
   bool replaying() const {return !tracing && points.size() < prefix.size();}

   // The step that was just made is the last one (with explore_states: prune
   // is going to throw). Checks with side effects can be made there.
   bool last_step() const
   {
    return bfs ? points.size() > root_size : tracing && points.size() >= prefix.size();
   }

   void note(const std::string &s) // appears in the replay output
   {
    if (tracing)
     trace.push_back(s);
   }

   void state(uint64_t h) {if (states && states->size() < 4000000) states->insert(h);}
   void state(const std::string &s) {state(hash_string(s));}
   void outcome(const std::string &s) {if (outcomes && outcomes->size() < 1000000) outcomes->insert(hash_string(s));}
   void transition(uint64_t n = 1) {if (transitions) *transitions += n;}
 };

 [[noreturn]] inline void fail(const std::string &message, const std::string &key = "")
 {
  throw Violation{message, key};
 }

 inline void require(bool b, const std::string &message, const std::string &key = "")
 {
  if (!b)
   fail(message, key);
 }

 struct Known {std::string property, key, text;};

 class Explorer
 {
  private:
   std::string property;
   std::string tier;
   std::string verif;
   int jobs;
   std::chrono::steady_clock::time_point start;
   double budget_s = 600;
   std::vector<Known> known;

   uint64_t executions = 0, states = 0, transitions = 0, outcomes = 0;
   int violations = 0;
   bool capped = false;
   std::vector<std::string> samples;
   std::vector<std::string> parts;
   std::set<std::string> known_seen;

   std::string replay_part;
   std::vector<int> replay_choices;
   bool replaying = false;

   std::unordered_set<uint64_t> state_set, outcome_set;
   uint64_t part_exec = 0, part_trans = 0, part_pruned = 0;
   bool part_capped = false;
   double bfs_t0 = 0;

   bool bfs = false, bfs_depth_done = false;
   int bfs_level = 0, bfs_max_level = 0;
   std::vector<std::vector<int>> bfs_frontier, bfs_next;
   std::unordered_set<uint64_t> bfs_visited;

   using Body = std::function<void(Chooser &)>;

   static std::string json_escape(const std::string &s)
   {
    std::string r;
    for (const unsigned char c: s)
    {
     if (c == '"' || c == '\\')
     {
      r += '\\';
      r += char(c);
     }
     else if (c < 0x20 || c >= 0x7f)
     {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
     }
     else
      r += char(c);
    }
    return r;
   }

   static bool advance(std::vector<int> &prefix, const std::vector<Point> &points, int bound, size_t root = 0)
   {
    for (size_t i = points.size(); i > root;)
    {
     --i;
     const Point &p = points[i];
     if (p.chosen + 1 < p.n)
     {
      if (p.cost)
      {
       int used = 0;
       for (size_t j = 0; j < i; j++)
        if (points[j].cost && points[j].chosen)
         used += points[j].cost;
       if (used + p.cost > bound)
        continue;
      }
      prefix.resize(i + 1);
      for (size_t j = 0; j < i; j++)
       prefix[j] = points[j].chosen;
      prefix[i] = p.chosen + 1;
      return true;
     }
    }
    return false;
   }

   // one execution; returns false and fills v when it is a violation
   static bool run_one(const Body &body, Chooser &c, Violation &v, bool &skipped)
   {
    skipped = false;
    try
    {
     body(c);
    }
    catch (const Violation &x)
    {
     v = x;
     return false;
    }
    catch (const Skip &)
    {
     skipped = true;
    }
    catch (const Bad_Replay &)
    {
     throw;
    }
    catch (const std::exception &e)
    {
     v = Violation{std::string("unexpected exception: ") + e.what(), "exception"};
     return false;
    }
    return true;
   }

   static Shared *map_shared(size_t n)
   {
    void *p = mmap(nullptr, n * sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
     perror("mmap");
     exit(2);
    }
    return (Shared *)p;
   }

   void worker_loop
   (
    Shared &shared,
    const Body &body,
    int bound,
    int worker,
    int workers,
    int out_fd
   )
   {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::vector<int> prefix;
    size_t root = size_t(worker);
    std::unordered_set<uint64_t> bfs_local;
    std::vector<std::pair<uint64_t, std::vector<int>>> bfs_found;
    if (bfs)
    {
     if (root >= bfs_frontier.size())
      _exit(0);
     prefix = bfs_frontier[root];
    }
    std::unordered_set<uint64_t> state_set, outcome_set;
    std::unordered_map<uint64_t, uint64_t> visited_map;
    uint64_t transition_count = 0;
    while (true)
    {
     Chooser c(prefix, bound);
     c.shared = &shared;
     c.worker = worker;
     c.workers = workers;
     c.states = &state_set;
     c.outcomes = &outcome_set;
     c.transitions = &transition_count;
     c.visited = &visited_map;
     if (bfs)
     {
      c.worker = 0;
      c.workers = 1;
      c.visited = nullptr;
      c.bfs = true;
      c.root_size = bfs_frontier[root].size();
      c.bfs_visited = &bfs_visited;
      c.bfs_local = &bfs_local;
      c.bfs_found = &bfs_found;
     }
     shared.length = 0;
     Violation v;
     bool skipped;
     bool ok;
     try
     {
      ok = run_one(body, c, v, skipped);
     }
     catch (const Bad_Replay &b)
     {
      fprintf(stderr, "harness error: %s\n", b.why.c_str());
      _exit(3);
     }
     ++shared.heartbeat;
     if (!skipped || bfs)
      ++shared.executions;
     if (!ok)
     {
      bool is_known = false;
      for (const Known &k: known)
       if (k.property == property && !v.key.empty() && k.key == v.key)
        is_known = true;
      if (is_known)
      {
       // remember it, and go on exploring
       const std::string line = "K" + v.key + "\n";
       if (write(out_fd, line.data(), line.size()) < 0) {}
      }
      else
      {
       shared.violation_length = int(c.points.size());
       for (size_t i = 0; i < c.points.size(); i++)
        shared.violation_choices[i] = c.points[i].chosen;
       snprintf(shared.violation_message, sizeof(shared.violation_message), "%s", v.message.c_str());
       snprintf(shared.violation_key, sizeof(shared.violation_key), "%s", v.key.c_str());
       shared.has_violation = 1;
       _exit(1);
      }
     }
     if (shared.done)
      _exit(0);
     if (elapsed() > budget_s)
     {
      shared.capped = 1;
      break;
     }
     if (!advance(prefix, c.points, bound, c.root_size))
     {
      if (!bfs)
       break;
      root += size_t(workers);
      if (root >= bfs_frontier.size())
       break;
      prefix = bfs_frontier[root];
     }
    }
    // write sets of hashes
    {
     std::string s;
     const uint64_t n1 = state_set.size(), n2 = outcome_set.size();
     s += "S";
     s.append((const char *)&n1, 8);
     s.append((const char *)&n2, 8);
     s.append((const char *)&transition_count, 8);
     for (const uint64_t h: state_set)
      s.append((const char *)&h, 8);
     for (const uint64_t h: outcome_set)
      s.append((const char *)&h, 8);
     for (const auto &[h, path]: bfs_found)
     {
      const uint64_t n = path.size();
      s += "N";
      s.append((const char *)&h, 8);
      s.append((const char *)&n, 8);
      s.append((const char *)path.data(), n * sizeof(int));
     }
     size_t done = 0;
     while (done < s.size())
     {
      const ssize_t n = write(out_fd, s.data() + done, s.size() - done);
      if (n <= 0)
       _exit(4);
      done += size_t(n);
     }
    }
    _exit(0);
   }

   // Replay one sequence in a child process.
   // result: 0 = ok, 1 = violation, 2 = crash, 3 = hang, 4 = harness error
   int replay_in_child
   (
    const Body &body,
    const std::vector<int> &choices,
    int bound,
    double timeout_s,
    std::string &message,
    std::string &key,
    std::string &trace
   )
   {
    Shared *shared = map_shared(1);
    new (shared) Shared();
    char name[] = "/tmp/mc_trace_XXXXXX";
    const int fd = mkstemp(name);
    const pid_t pid = fork();
    if (pid == 0)
    {
     prctl(PR_SET_PDEATHSIG, SIGKILL);
     Chooser c(choices, bound);
     c.tracing = true;
     c.shared = shared;
     Violation v;
     bool skipped;
     int result = 0;
     try
     {
      if (!run_one(body, c, v, skipped))
      {
       result = 1;
       snprintf(shared->violation_message, sizeof(shared->violation_message), "%s", v.message.c_str());
       snprintf(shared->violation_key, sizeof(shared->violation_key), "%s", v.key.c_str());
      }
     }
     catch (const Bad_Replay &b)
     {
      result = 4;
      snprintf(shared->violation_message, sizeof(shared->violation_message), "%s", b.why.c_str());
     }
     std::string t;
     for (const std::string &s: c.trace)
      t += s + "\n";
     if (write(fd, t.data(), t.size()) < 0) {}
     _exit(result);
    }
    int status = 0;
    double waited = 0;
    int result = -1;
    while (true)
    {
     const pid_t r = waitpid(pid, &status, WNOHANG);
     if (r == pid)
      break;
     usleep(2000);
     waited += 0.002;
     if (waited > timeout_s)
     {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      result = 3;
      message = "no termination within " + std::to_string(timeout_s) + " s";
      key = "hang";
      break;
     }
    }
    if (result < 0)
    {
     if (WIFEXITED(status) && WEXITSTATUS(status) != 99)
      result = WEXITSTATUS(status);
     else
      result = 2;
     if (result == 2)
     {
      message = WIFSIGNALED(status) ?
       std::string("crash: ") + strsignal(WTERMSIG(status)) :
       std::string("crash: sanitizer report");
      key = "crash";
     }
     else
     {
      message = shared->violation_message;
      key = shared->violation_key;
     }
    }
    close(fd);
    {
     std::ifstream f(name);
     std::stringstream ss;
     ss << f.rdbuf();
     trace = ss.str();
    }
    unlink(name);
    munmap(shared, sizeof(Shared));
    return result;
   }

   void report
   (
    const std::string &part,
    const std::vector<int> &choices,
    const std::string &message,
    const std::string &key,
    const std::string &trace
   )
   {
    violations++;
    mkdir((verif + "/replays").c_str(), 0777);
    const std::string path = verif + "/replays/" + property + "_" + part + ".txt";
    std::ofstream f(path);
    f << "property " << property << '\n';
    f << "part " << part << '\n';
    f << "choices";
    for (const int i: choices)
     f << ' ' << i;
    f << '\n';
    f << "key " << key << '\n';
    f << "message " << message << '\n';
    f << "trace\n" << trace;
    f.close();
    std::cout << "--- " << property << " / " << part << ": " << message << '\n' << trace;
    std::cout << "VIOLATION property=" << property << " replay=" << path << std::endl;
   }

  public:
   double elapsed() const
   {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
   }

   Explorer(int argc, char **argv, const std::string &property_id):
    property(property_id),
    start(std::chrono::steady_clock::now())
   {
    const char *t = getenv("VERIF_TIER");
    tier = t ? t : "quick";
    const char *v = getenv("VERIF_DIR");
    verif = v ? v : "/verif";
    const char *j = getenv("MC_JOBS");
    jobs = j ? atoi(j) : int(sysconf(_SC_NPROCESSORS_ONLN));
    if (jobs < 1)
     jobs = 1;
    for (int i = 1; i < argc; i++)
    {
     const std::string a(argv[i]);
     if (a == "--thorough")
      tier = "thorough";
     else if (a == "--quick")
      tier = "quick";
     else if (a == "--replay" && i + 1 < argc)
     {
      replaying = true;
      std::ifstream f(argv[++i]);
      std::string line;
      while (std::getline(f, line))
      {
       std::istringstream iss(line);
       std::string w;
       iss >> w;
       if (w == "part")
        iss >> replay_part;
       else if (w == "choices")
       {
        int x;
        while (iss >> x)
         replay_choices.push_back(x);
       }
       else if (w == "trace")
        break;
      }
     }
    }
    budget_s = is_thorough() ? 3000 : 420;
    if (const char *b = getenv("MC_BUDGET"))
     budget_s = atof(b);
    std::ifstream f(verif + "/known_findings.txt");
    std::string line;
    while (std::getline(f, line))
    {
     // KNOWN property=C01 key=xxx text
     std::istringstream iss(line);
     std::string a, b, c, rest;
     iss >> a >> b >> c;
     if (a != "KNOWN")
      continue;
     std::getline(iss, rest);
     if (b.rfind("property=", 0) == 0 && c.rfind("key=", 0) == 0)
      known.push_back(Known{b.substr(9), c.substr(4), rest});
    }
   }

   const std::string &get_property() const {return property;}
   bool is_thorough() const {return tier == "thorough";}
   bool found_violation() const {return violations > 0;}
   void set_jobs(int n) {jobs = n;}
   int get_jobs() const {return jobs;}

   // Explore all the executions of body. hang_s: time after which an
   // execution is considered stuck.
   void explore
   (
    const std::string &part,
    const Body &body,
    int bound = 1 << 20,
    double hang_s = 20
   )
   {
    if (replaying)
    {
     if (part == replay_part)
     {
      std::string message, key, trace;
      const int r = replay_in_child(body, replay_choices, bound, hang_s * 3, message, key, trace);
      std::cout << trace << "result = " << r << ' ' << message << '\n';
      if (r != 0)
      {
       violations++;
       std::cout << "VIOLATION property=" << property << " replay=(given)\n";
      }
     }
     return;
    }
    if (violations)
     return;

    const double t0 = bfs ? bfs_t0 : elapsed();
    Shared *shared = map_shared(size_t(jobs));
    std::vector<pid_t> pids(static_cast<size_t>(jobs));
    std::vector<std::string> files;
    std::cout.flush();
    std::cerr.flush();
    for (int i = 0; i < jobs; i++)
    {
     new (shared + i) Shared();
     char name[] = "/tmp/mc_out_XXXXXX";
     const int fd = mkstemp(name);
     files.emplace_back(name);
     const pid_t pid = fork();
     if (pid == 0)
      worker_loop(shared[i], body, bound, i, jobs, fd);
     close(fd);
     pids[size_t(i)] = pid;
    }

    std::vector<uint64_t> last_beat(size_t(jobs), 0);
    std::vector<double> last_time(size_t(jobs), elapsed());
    int running = jobs;
    bool stop = false;
    std::vector<std::vector<int>> suspects;
    bool harness_error = false;
    while (running > 0)
    {
     usleep(3000);
     for (int i = 0; i < jobs; i++)
     {
      const size_t k = size_t(i);
      if (!pids[k])
       continue;
      int status;
      const pid_t r = waitpid(pids[k], &status, WNOHANG);
      const uint64_t beat = shared[i].heartbeat;
      bool hung = false;
      if (r == 0)
      {
       if (beat != last_beat[k])
       {
        last_beat[k] = beat;
        last_time[k] = elapsed();
       }
       else if (elapsed() - last_time[k] > hang_s)
       {
        hung = true;
        kill(pids[k], SIGKILL);
        waitpid(pids[k], &status, 0);
       }
      }
      if (r != 0 || hung)
      {
       pids[k] = 0;
       running--;
       const bool clean = !hung && WIFEXITED(status) && WEXITSTATUS(status) <= 1;
       if (!hung && WIFEXITED(status) && (WEXITSTATUS(status) == 3 || WEXITSTATUS(status) == 4))
        harness_error = true;
       else if (shared[i].has_violation)
       {
        suspects.emplace_back(shared[i].violation_choices, shared[i].violation_choices + shared[i].violation_length);
        stop = true;
       }
       else if (!clean && !(stop && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL))
       {
        suspects.emplace_back(shared[i].choices, shared[i].choices + shared[i].length);
        stop = true;
       }
      }
     }
     if (stop)
      for (int i = 0; i < jobs; i++)
       shared[i].done = 1;
    }

    // collect
    if (!bfs || bfs_level == 0)
    {
     state_set.clear();
     outcome_set.clear();
     part_exec = part_trans = part_pruned = 0;
     part_capped = false;
    }
    bfs_next.clear();
    for (int i = 0; i < jobs; i++)
    {
     part_exec += shared[i].executions;
     part_pruned += shared[i].pruned;
     if (shared[i].capped)
      part_capped = true;
     std::ifstream f(files[size_t(i)], std::ios::binary);
     char c;
     while (f.get(c))
     {
      if (c == 'K')
      {
       std::string line;
       std::getline(f, line);
       if (known_seen.insert(line).second)
        for (const Known &kf: known)
         if (kf.key == line && kf.property == property)
          std::cout << "KNOWN-FINDING: property=" << property << " key=" << kf.key << kf.text << std::endl;
      }
      else if (c == 'S')
      {
       uint64_t n1, n2, t, h;
       f.read((char *)&n1, 8);
       f.read((char *)&n2, 8);
       f.read((char *)&t, 8);
       part_trans += t;
       for (uint64_t j = 0; j < n1 && f.read((char *)&h, 8); j++)
        state_set.insert(h);
       for (uint64_t j = 0; j < n2 && f.read((char *)&h, 8); j++)
        outcome_set.insert(h);
      }
      else if (c == 'N')
      {
       uint64_t h, n;
       f.read((char *)&h, 8);
       f.read((char *)&n, 8);
       std::vector<int> path(n);
       f.read((char *)path.data(), std::streamsize(n * sizeof(int)));
       if (bfs_visited.insert(h).second)
        bfs_next.push_back(path);
      }
     }
     unlink(files[size_t(i)].c_str());
    }
    munmap(shared, size_t(jobs) * sizeof(Shared));

    if (bfs && suspects.empty() && !harness_error && !part_capped)
    {
     if (!bfs_next.empty() && bfs_level + 1 < bfs_max_level)
      return; // next level
     bfs_depth_done = bfs_next.empty();
    }
    bfs_next.clear();

    executions += part_exec;
    states += state_set.size();
    outcomes += outcome_set.size();
    transitions += part_trans;
    if (part_capped)
     capped = true;

    {
     std::ostringstream ss;
     ss << part << ": " << part_exec << " executions, " << state_set.size() << " states, "
      << part_trans << " transitions, " << outcome_set.size() << " distinct outcomes, "
      << (part_pruned ? std::to_string(part_pruned) + " joined an explored state, " : std::string())
      << (bfs ? std::to_string(bfs_level + 1) + " levels, " : std::string())
      << (part_capped ? "CAPPED by time, " : bfs && !bfs_depth_done ? "complete to this depth, " : bfs ? "all reachable states, " : "complete, ")
      << "bound " << (bound >= (1 << 20) ? std::string("none") : std::to_string(bound)) << ", "
      << int((elapsed() - t0) * 10) / 10.0 << " s";
     std::cout << ss.str() << std::endl;
     parts.push_back(ss.str());
    }

    if (harness_error)
    {
     std::cerr << "harness error\n";
     exit(2);
    }

    // one sample trace per part (the all-zero execution), only if not crashing
    if (suspects.empty())
    {
     std::string message, key, trace;
     replay_in_child(body, {}, bound, hang_s * 2, message, key, trace);
     if (trace.size() > 1200)
      trace.resize(1200);
     if (!trace.empty())
      samples.push_back(part + ": " + trace);
     return;
    }

    // confirm by replay, report the shortest
    std::vector<int> best;
    std::string best_message, best_key, best_trace;
    bool have = false, unstable = false;
    for (const auto &s: suspects)
    {
     std::string m1, k1, t1, m2, k2, t2;
     const int r1 = replay_in_child(body, s, bound, hang_s * 3, m1, k1, t1);
     if (r1 == 4)
     {
      std::cerr << "harness error at replay: " << m1 << '\n';
      exit(2);
     }
     if (r1 == 0)
     {
      unstable = true;
      continue;
     }
     const int r2 = replay_in_child(body, s, bound, hang_s * 3, m2, k2, t2);
     if (r2 == 0)
     {
      unstable = true;
      continue;
     }
     if (!have || s.size() < best.size())
     {
      have = true;
      best = s;
      best_message = m1;
      best_key = k1;
      best_trace = t1;
     }
    }
    if (have)
    {
     // a crash may be a known finding too
     for (const Known &k: known)
      if (k.property == property && k.key == best_key && best_key != "crash" && best_key != "hang")
       return;
     report(part, best, best_message, best_key, best_trace);
    }
    else if (unstable)
    {
     std::cerr << property << '/' << part << ": a violation did not replay: the harness is not deterministic\n";
     exit(2);
    }
   }

   // Breadth-first search: body must call prune() with the hash of the whole
   // state after each step. Every state is expanded once, from a shortest path.
   void explore_states
   (
    const std::string &part,
    const Body &body,
    int max_level = 1 << 20,
    double hang_s = 20
   )
   {
    if (replaying || violations)
    {
     explore(part, body, 1 << 20, hang_s);
     return;
    }
    bfs = true;
    bfs_depth_done = false;
    bfs_t0 = elapsed();
    bfs_max_level = max_level;
    bfs_visited.clear();
    bfs_frontier.assign(1, std::vector<int>());
    for (bfs_level = 0; bfs_level < max_level && !bfs_frontier.empty() && !violations; bfs_level++)
    {
     explore(part, body, 1 << 20, hang_s);
     bfs_frontier.swap(bfs_next);
     bfs_next.clear();
    }
    bfs_frontier.clear();
    bfs_visited.clear();
    bfs = false;
   }

   // Write the evidence file; returns the exit status of the check.
   int finish
   (
    const std::string &level,
    const std::string &rule,
    const std::vector<std::string> &assumptions
   )
   {
    if (replaying)
     return violations ? 1 : 0;
    if (!getenv("MC_NO_EVIDENCE"))
    {
    mkdir((verif + "/evidence").c_str(), 0777);
    const char *seed = getenv("VERIF_SEED");
    std::ofstream f(verif + "/evidence/" + property + ".json");
    f << "{\"property\":\"" << property << "\",\"tier\":\"" << tier << "\",\"seed\":" << (seed ? atoll(seed) : 0)
     << ",\"level\":\"" << level << "\",\"coverage\":{";
    if (level == "model_checking")
     f << "\"states\":" << states << ",\"transitions\":" << transitions
      << ",\"traces_validated_against_impl\":" << executions
      << ",\"distinct_outcomes\":" << outcomes;
    else
     f << "\"evaluations\":" << executions << ",\"distinct_nontrivial\":" << std::max(states, outcomes)
      << ",\"transitions\":" << transitions;
    f << ",\"exhaustive\":" << (capped ? "false" : "true");
    f << ",\"rule\":\"" << json_escape(rule) << "\"";
    f << ",\"parts\":[";
    for (size_t i = 0; i < parts.size(); i++)
     f << (i ? "," : "") << '"' << json_escape(parts[i]) << '"';
    f << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++)
     f << (i ? "," : "") << '"' << json_escape(samples[i]) << '"';
    if (samples.empty())
     f << "\"" << json_escape(parts.empty() ? "" : parts[0]) << "\"";
    f << "]},\"assumptions\":[";
    for (size_t i = 0; i < assumptions.size(); i++)
     f << (i ? "," : "") << '"' << json_escape(assumptions[i]) << '"';
    f << "],\"wall_s\":" << elapsed() << ",\"violations\":" << violations << "}\n";
    f.close();
    }
    std::cout << property << ": " << executions << " executions, " << states << " states, "
     << transitions << " transitions, " << elapsed() << " s" << (capped ? " (CAPPED)" : "") << std::endl;
    return violations ? 1 : 0;
   }
 };
}

#endif
