// Cooperative tasks whose interleaving is chosen by the explorer.
//
// Each task runs on its own stack, and gives control back at each scheduling
// point (yield). What a task learnt (everything that determines its local
// state) is accumulated in its hash, so that global states can be recognised.
#ifndef mc_coop_declared
#define mc_coop_declared

#include "explorer.h"

#include <cxxabi.h>
#include <deque>
#include <exception>
#include <memory>
#include <ucontext.h>

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

namespace mc
{
 struct Killed {}; // thrown in a task that was killed, or that is abandoned

 class Coop;

 struct Task
 {
  std::string name;
  std::function<void()> body;
  ucontext_t context;
  std::vector<char> *stack = nullptr;
  bool started = false, done = false, dead = false;
  std::function<bool()> enabled; // empty: always
  bool timed = false;            // can also be resumed by a timeout
  bool timed_out = false;
  uint64_t hash = 1469598103934665603ull;
  uint64_t steps = 0;
  std::exception_ptr error;
  char eh[16] = {}; // exceptions being handled in this task
  std::string where;
  bool local = false;     // nobody else can tell when its next step happens
  bool daemon = false;    // run() does not wait for its end
  bool quiet = false;     // only daemons may run before its next steps
  bool stepless = false;  // its steps are not counted in its hash

  void learn(const void *p, size_t n) {hash = hash_bytes(p, n, hash ^ steps);}
  void learn(const std::string &s) {learn(s.data(), s.size());}
  void learn(uint64_t x) {learn(&x, sizeof(x));}
 };

 class Coop
 {
  private:
   Chooser &c;
   ucontext_t main_context;

   // tell the address sanitizer about stacks
   static void before_switch(void **save, const void *bottom, size_t size)
   {
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_start_switch_fiber(save, bottom, size);
#endif
   }
   static void after_switch(void *save, const void **bottom, size_t *size)
   {
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_finish_switch_fiber(save, bottom, size);
#endif
   }
   const void *main_stack = nullptr;
   size_t main_stack_size = 0;
#ifdef __SANITIZE_ADDRESS__
   static constexpr size_t stack_size = 512 << 10;
#else
   static constexpr size_t stack_size = 256 << 10;
#endif
   char main_eh[16] = {};
   std::deque<Task> tasks;
   Task *current = nullptr;
   bool local_point = false;

   static std::vector<std::vector<char> *> &pool()
   {
    static std::vector<std::vector<char> *> p;
    return p;
   }

   static inline Coop *instance = nullptr;

   static void entry()
   {
    Coop &coop = *instance;
    after_switch(nullptr, &coop.main_stack, &coop.main_stack_size);
    Task &t = *coop.current;
    try
    {
     t.body();
    }
    catch (const Killed &)
    {
    }
    catch (...)
    {
     t.error = std::current_exception();
    }
    t.done = true;
    t.body = nullptr;
    t.enabled = nullptr;
    coop.to_main();
   }

   void to_main()
   {
    Task *t = current;
    std::memcpy(t->eh, abi::__cxa_get_globals(), 16);
    std::memcpy(abi::__cxa_get_globals(), main_eh, 16);
    void *save = nullptr;
    before_switch(t->done ? nullptr : &save, main_stack, main_stack_size);
    swapcontext(&t->context, &main_context);
    after_switch(save, &main_stack, &main_stack_size);
   }

   void resume(Task &t)
   {
    instance = this;
    current = &t;
    if (!t.started)
    {
     t.started = true;
     if (pool().empty())
      t.stack = new std::vector<char>(stack_size);
     else
     {
      t.stack = pool().back();
      pool().pop_back();
     }
#ifdef __SANITIZE_ADDRESS__
     __asan_unpoison_memory_region(t.stack->data(), t.stack->size());
#endif
     getcontext(&t.context);
     t.context.uc_stack.ss_sp = t.stack->data();
     t.context.uc_stack.ss_size = t.stack->size();
     t.context.uc_link = nullptr;
     makecontext(&t.context, &Coop::entry, 0);
    }
    std::memcpy(main_eh, abi::__cxa_get_globals(), 16);
    std::memcpy(abi::__cxa_get_globals(), t.eh, 16);
    void *save = nullptr;
    before_switch(&save, t.stack->data(), t.stack->size());
    swapcontext(&main_context, &t.context);
    after_switch(save, nullptr, nullptr);
    current = nullptr;
    if (t.done && t.stack)
    {
     pool().push_back(t.stack);
     t.stack = nullptr;
    }
   }

  public:
   // called when a task is killed or abandoned, before it is unwound
   std::function<void(Task &)> on_death;
   // hash of everything shared by tasks
   std::function<uint64_t()> shared_state;
   std::function<bool(const Task &)> killable;
   bool pruning = true;
   bool preemption_bounded = false;
   bool eager = false; // stepless tasks run as soon as they can
   // called when no task can run: returns true if it changed something
   std::function<bool()> on_idle;
   uint64_t scheduled = 0;
   int max_kills = 0;
   int kills = 0;

   Coop(Chooser &c): c(c) {}
   Coop(const Coop &) = delete;

   ~Coop()
   {
    for (Task &t: tasks)
     bury(t);
   }

   Task &spawn(const std::string &name, std::function<void()> body)
   {
    tasks.emplace_back();
    Task &t = tasks.back();
    t.name = name;
    t.body = std::move(body);
    t.where = "start";
    t.learn(tasks.size());
    return t;
   }

   Task *running() const {return current;}
   std::deque<Task> &get_tasks() {return tasks;}

   void bury(Task &t)
   {
    if (t.done)
     return;
    t.dead = true;
    if (on_death)
     on_death(t);
    if (t.started)
    {
     for (int i = 0; !t.done && i < 100000; i++)
      resume(t);
     if (!t.done)
     {
      std::cerr << "cannot unwind a task\n";
      _exit(3);
     }
    }
    t.done = true;
    t.error = nullptr;
   }

   // Scheduling point. Returns false if the wait ended by a timeout.
   bool yield(const std::string &where, std::function<bool()> enabled = nullptr, bool timed = false, bool nothrow = false)
   {
    Task *t = current;
    if (!t)
     return true;
    if (t->dead)
    {
     // std::uncaught_exceptions: do not throw while unwinding
     if (!nothrow && !std::uncaught_exceptions())
      throw Killed{};
     return true;
    }
    t->enabled = std::move(enabled);
    t->timed = timed;
    t->timed_out = false;
    t->where = where;
    t->local = local_point;
    local_point = false;
    if (!t->stepless)
     t->steps++;
    to_main();
    if (t->dead)
    {
     if (!nothrow && !std::uncaught_exceptions())
      throw Killed{};
     return true;
    }
    return !t->timed_out;
   }

   // A step that commutes with those of all other tasks: when it is enabled, it
   // is made at once.
   bool yield_local(const std::string &where, std::function<bool()> enabled)
   {
    local_point = true;
    const bool r = yield(where, std::move(enabled), false, false);
    local_point = false;
    return r;
   }

   // Run one task, alone, as long as it can run
   void drive(Task &t, bool until_done = false)
   {
    for (int i = 0; !t.done; i++)
    {
     if (!until_done && t.started && t.enabled && !t.enabled())
      return;
     if (i > 100000)
      fail(t.name + " does not end");
     resume(t);
     if (t.done && t.error)
      std::rethrow_exception(t.error);
    }
   }

   bool is_dead() const {return current && current->dead;}

   // Run all tasks to their ends. Deadlocks are violations.
   void run()
   {
    Task *last = nullptr;
    for (;;)
    {
     std::vector<std::pair<Task *, int>> options; // 0: run, 1: timeout, 2: kill
     bool all_done = true;
     auto add = [&](Task &t)
     {
      if (t.done)
       return;
      if (!t.daemon)
       all_done = false;
      if (!t.enabled || t.enabled())
       options.emplace_back(&t, 0);
      if (t.timed)
       options.emplace_back(&t, 1);
     };
     if (last)
      add(*last);
     const bool last_enabled = !options.empty();
     for (Task &t: tasks)
      if (&t != last)
       add(t);
     if (all_done)
      return;
     {
      bool done_locally = false;
      for (auto &o: options)
       if ((o.first->local || (o.first->stepless && eager)) && o.second == 0)
       {
        c.transition();
        if (c.tracing)
         c.note(o.first->name + ": " + o.first->where);
        if (!o.first->stepless)
         last = o.first;
        resume(*o.first);
        if (o.first->done && o.first->error)
         std::rethrow_exception(o.first->error);
        done_locally = true;
        break;
       }
      if (done_locally)
       continue;
     }
     if (last && last->quiet && !last->done)
     {
      std::vector<std::pair<Task *, int>> kept;
      for (auto &o: options)
       if ((o.first == last || o.first->stepless) && o.second == 0)
        kept.push_back(o);
      if (!kept.empty())
      {
       c.transition();
       if (c.tracing)
        c.note(kept[0].first->name + ": " + kept[0].first->where);
       resume(*kept[0].first);
       if (kept[0].first->done && kept[0].first->error)
        std::rethrow_exception(kept[0].first->error);
       continue;
      }
     }
     if (options.empty() && on_idle && on_idle())
      continue;
     if (options.empty())
     {
      std::string s = "deadlock:";
      for (Task &t: tasks)
       if (!t.done && !t.daemon)
        s += " " + t.name + " at " + t.where + ";";
      fail(s, "deadlock");
     }
     if (kills < max_kills)
      for (Task &t: tasks)
       if (!t.done && t.started && (!killable || killable(t)))
        options.emplace_back(&t, 2);

     if (pruning && shared_state)
     {
      uint64_t h = shared_state() + uint64_t(kills) * 7919;
      for (const Task &t: tasks)
       h = hash_bytes(&t.hash, sizeof(t.hash), h ^ (t.done ? 1 : 0) ^ (t.started ? 2 : 0) ^ (t.dead ? 4 : 0) ^ (t.steps << 3));
      if (preemption_bounded && last)
      {
       const uint64_t id = uint64_t(last->name[0]) + uint64_t(c.deviations) * 1000;
       h = hash_bytes(&id, sizeof(id), h);
      }
      c.state(h);
      if (!preemption_bounded && options.size() > 1)
       c.prune(h);
     }

     int i = 0;
     if (options.size() > 1)
      i = c.choose(int(options.size()), preemption_bounded && last_enabled ? 1 : 0);
     Task &t = *options[size_t(i)].first;
     const int how = options[size_t(i)].second;
     scheduled++;
     c.transition();
     if (c.tracing)
      c.note((how == 2 ? "kill " : how == 1 ? "timeout of " : "") + t.name + ": " + t.where);
     if (how == 2)
     {
      kills++;
      bury(t);
      continue;
     }
     t.timed_out = how == 1;
     if (how == 1)
      t.learn(uint64_t(77));
     last = &t;
     resume(t);
     if (t.done && t.error)
      std::rethrow_exception(t.error);
    }
   }
 };
}

#endif
