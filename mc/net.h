// The real joedb servers (boost::asio, epoll, Unix sockets), run as a task of a
// Coop instead of a thread, with a virtual clock.
//
// Threads created while a Net exists become tasks. epoll_wait is their only
// scheduling point. Timers and sleeping use the virtual clock. Clients are
// tasks that use a Net_Channel: a real socket with a scheduling point before
// each transfer.
#ifndef mc_net_declared
#define mc_net_declared

#include "coop.h"
#include "scratch.h"

#include "joedb/concurrency/Channel.h"

#include <cerrno>
#include <deque>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

namespace mc
{
 class Net
 {
  public:
   Coop &coop;
   int64_t now = 1000000000000ll;
   std::map<int, int64_t> timers;        // fd -> deadline (0: none)
   std::map<Task *, int64_t> sleepers;
   std::map<int, std::string> names;     // descriptors of the server
   std::deque<std::string> connecting;
   std::map<int, Task *> owners;         // descriptors of the clients
   std::vector<Task *> threads;
   int ticks = 0;                        // how many times the clock may advance at any point
   int idle_ticks = 0;
   bool moved = true;                    // the server may look at the clock
   // What a server knows is determined by what each session received, when
   // (what was in the file at that time), and, for what had to wait, by what
   // others sent in the meantime.
   struct Session
   {
    uint64_t hash = 1, since = 1;
    bool waiting = false;
    uint64_t order = 0;
   };
   std::map<std::string, Session> sessions;
   std::map<std::string, int> session_count;
   uint64_t events = 0;
   std::function<uint64_t()> content_hash;
   std::function<void(const std::string &session, const std::string &data, bool sent, bool accepted, bool end)> on_server_event;
   static inline Net *instance = nullptr;

   // parts of messages, for tests that cut messages
   std::function<size_t(const std::string &, const char *, size_t)> cut;

   // refuses connections, or breaks them: returns true to break
   std::function<bool(const std::string &name, const char *what)> fault;

   Net(Coop &coop): coop(coop)
   {
    instance = this;
    coop.on_idle = [this]()
    {
     const int64_t d = next_deadline();
     if (!d)
      return false;
     if (++idle_ticks > 200)
      fail("the clients wait for ever", "livelock");
     advance(d);
     return true;
    };
   }

   Net(const Net &) = delete;

   ~Net() {instance = nullptr;}

   // asio wakes up every 5 minutes: these deadlines are not interesting
   static constexpr int64_t far = 290000000000ll;

   int64_t next_deadline() const
   {
    int64_t r = 0;
    auto consider = [&](int64_t d)
    {
     if (d > now && d < now + far && (!r || d < r))
      r = d;
    };
    for (const auto &[fd, d]: timers)
     consider(d);
    for (const auto &[t, d]: sleepers)
     consider(d);
    return r;
   }

   void fire()
   {
    for (const auto &[fd, d]: timers)
     if (d && d <= now)
     {
      const uint64_t one = 1;
      if (::write(fd, &one, 8) != 8) {}
     }
   }

   void advance(int64_t d)
   {
    now = d;
    fire();
   }

   void spawn_clock(int n)
   {
    ticks = n;
    Task &t = coop.spawn("clock", [this, n]()
    {
     for (int i = n; --i >= 0;)
     {
      coop.yield("advance", [this]() {return next_deadline() != 0;});
      if (coop.is_dead())
       return;
      const int64_t d = next_deadline();
      if (d)
       advance(d);
     }
    });
    t.daemon = true;
    t.learn(uint64_t(n));
   }

   void server_event(const std::string &name, const std::string &data, bool sent, bool end)
   {
    if (on_server_event)
     on_server_event(name, data, sent, false, end);
    events++;
    Session &x = sessions[name];
    x.hash = hash_string(data, x.hash * 31 + (sent ? x.since : 7));
    x.hash = x.hash * 31 + uint64_t(now) + (content_hash ? content_hash() : 0);
    x.waiting = !sent && !end;
    x.since = 1;
    if (x.waiting)
     x.order = events;
    if (!sent)
     for (auto &[n, y]: sessions)
      if (y.waiting && n != name)
       y.since = hash_string(n, hash_string(data, y.since));
   }

   uint64_t hash() const
   {
    uint64_t h = uint64_t(now) * 31;
    std::map<uint64_t, std::string> waiting;
    for (const auto &[n, x]: sessions)
    {
     h = hash_string(n, h * 31 + x.hash);
     h = h * 31 + x.since;
     if (x.waiting)
      waiting[x.order] = n;
    }
    for (const auto &[o, n]: waiting)
     h = hash_string(n, h);
    for (const Task *t: threads)
     h = h * 3 + (t->done ? 0 : t->enabled && t->enabled() ? 1 : 2);
    return h;
   }

   // let the servers do all they can
   void settle()
   {
    for (int i = 0; i < 1000; i++)
    {
     bool any = false;
     for (Task *t: threads)
      if (!t->done && (!t->started || !t->enabled || t->enabled()))
      {
       coop.drive(*t);
       any = true;
      }
     if (!any)
      return;
    }
    fail("the server does not settle", "livelock");
   }

   // abrupt end of a client
   void close_all(Task &t)
   {
    for (auto i = owners.begin(); i != owners.end();)
     if (i->second == &t)
     {
      ::close(i->first);
      i = owners.erase(i);
     }
     else
      ++i;
    sleepers.erase(&t);
   }

   static bool ready(int fd, short events = POLLIN)
   {
    pollfd p{fd, events, 0};
    return ::poll(&p, 1, 0) > 0;
   }

   void sleep_until(int64_t d)
   {
    Task *t = coop.running();
    if (!t)
    {
     if (now < d)
      advance(d);
     return;
    }
    sleepers[t] = d;
    coop.yield("sleep", [this, d]() {return now >= d;}, false, true);
    sleepers.erase(t);
    t->learn(uint64_t(now));
   }
 };

 struct Connection_Lost: public std::runtime_error
 {
  Connection_Lost(const std::string &s): std::runtime_error(s) {}
 };

 // What is exchanged by a client
 class Net_Channel: public joedb::Channel
 {
  private:
   Net &net;
   std::string name;
   int fd = -1;
   Task *task;
   size_t remaining = 0;

   void lost(const std::string &s)
   {
    if (task)
     task->learn("lost");
    throw Connection_Lost(s);
   }

   void check_dead()
   {
    if (net.coop.is_dead())
     throw Killed{};
   }

  public:
   std::function<void(const char *, size_t)> on_sent, on_received;

   Net_Channel(Net &net, const std::string &name, const std::string &path):
    net(net), name(name), task(net.coop.running())
   {
    net.coop.yield("connect");
    check_dead();
    if (net.fault && net.fault(name, "connect"))
     lost("connect");
    fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    std::strncpy(a.sun_path, path.c_str(), sizeof(a.sun_path) - 1);
    if (fd < 0 || ::connect(fd, (sockaddr *)&a, sizeof(a)))
    {
     if (fd >= 0)
      ::close(fd);
     fd = -1;
     lost(std::string("connect: ") + std::strerror(errno));
    }
    net.connecting.push_back(name);
    net.names.erase(fd);
    net.owners[fd] = task;
   }

   bool mine() const
   {
    const auto i = net.owners.find(fd);
    return fd >= 0 && i != net.owners.end() && i->second == task;
   }

   size_t write_some(const char *data, size_t size) override
   {
    // a message may be cut once
    const size_t wanted = net.cut && !remaining ? std::min(size, net.cut(name, data, size)) : size;
    net.coop.yield("send " + std::string(1, data[0] >= 32 && data[0] < 127 ? data[0] : '?') + " " + std::to_string(wanted));
    check_dead();
    if (!mine())
     lost("closed");
    if (net.fault && net.fault(name, "send"))
    {
     shut();
     lost("send");
    }
    for (;;)
    {
     const ssize_t n = ::send(fd, data, wanted, MSG_NOSIGNAL | MSG_DONTWAIT);
     if (n >= 0)
     {
      if (on_sent)
       on_sent(data, size_t(n));
      remaining = size - size_t(n);
      return size_t(n);
     }
     if (errno != EAGAIN)
      lost(std::string("send: ") + std::strerror(errno));
     net.coop.yield("send more", [this]() {return Net::ready(fd, POLLOUT);});
     check_dead();
    }
   }

   size_t read_some(char *data, size_t size) override
   {
    if (!size)
     return 0;
    if (net.fault && mine() && net.fault(name, "receive"))
    {
     // the reply is lost, but the request is processed
     shut();
     lost("receive");
    }
    if (!task)
    {
     net.settle();
     while (mine() && !Net::ready(fd) && net.coop.on_idle())
      net.settle();
    }
    net.coop.yield_local("receive", [this]() {return !mine() || Net::ready(fd);});
    check_dead();
    if (!mine())
     lost("closed");
    const ssize_t n = ::recv(fd, data, size, MSG_DONTWAIT);
    if (n < 0)
     lost(std::string("recv: ") + std::strerror(errno));
    if (n == 0)
     lost("end of file");
    if (task)
     task->learn(data, size_t(n));
    if (on_received)
     on_received(data, size_t(n));
    return size_t(n);
   }

   // reads as much as possible until something stops it
   bool at_end() const {return !mine();}
   bool readable() const {return mine() && Net::ready(fd);}

   void shut()
   {
    if (mine())
    {
     ::close(fd);
     net.owners.erase(fd);
    }
    fd = -1;
   }

   ~Net_Channel() override
   {
    shut();
   }
 };
}

extern "C"
{
 int pthread_create(pthread_t *thread, const pthread_attr_t *attr, void *(*f)(void *), void *arg)
 {
  mc::Net *net = mc::Net::instance;
  if (!net)
  {
   std::cerr << "unexpected thread\n";
   _exit(3);
  }
  mc::Task &t = net->coop.spawn("server", [f, arg]() {f(arg);});
  t.daemon = true;
  t.stepless = true;
  net->threads.push_back(&t);
  *thread = pthread_t(net->threads.size());
  return 0;
 }

 int pthread_join(pthread_t thread, void **result)
 {
  mc::Net *net = mc::Net::instance;
  mc::Task &t = *net->threads[size_t(thread) - 1];
  net->coop.drive(t, true);
  if (result)
   *result = nullptr;
  return 0;
 }

 int pthread_detach(pthread_t) {return 0;}

 static int mc_real_epoll_wait(int epfd, epoll_event *events, int n, int timeout)
 {
  return int(syscall(SYS_epoll_pwait, epfd, events, n, timeout, nullptr, 8));
 }

 int epoll_wait(int epfd, epoll_event *events, int n, int timeout)
 {
  mc::Net *net = mc::Net::instance;
  mc::Task *t = net ? net->coop.running() : nullptr;
  if (!t)
   return mc_real_epoll_wait(epfd, events, n, timeout);
  if (timeout != 0)
   net->coop.yield("serve", [epfd]() {return mc::Net::ready(epfd);}, false, true);
  return mc_real_epoll_wait(epfd, events, n, 0);
 }

 int timerfd_create(int, int)
 {
  const int fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
  if (mc::Net::instance)
   mc::Net::instance->timers[fd] = 0;
  return fd;
 }

 int timerfd_settime(int fd, int flags, const itimerspec *value, itimerspec *)
 {
  mc::Net *net = mc::Net::instance;
  if (!net)
   return 0;
  uint64_t x;
  if (::read(fd, &x, 8) != 8) {}
  const int64_t v = value->it_value.tv_sec * 1000000000ll + value->it_value.tv_nsec;
  if (!v)
   net->timers[fd] = 0;
  else
  {
   net->timers[fd] = flags & TFD_TIMER_ABSTIME ? v : net->now + v;
   net->fire();
  }
  return 0;
 }

 int clock_gettime(clockid_t id, timespec *t)
 {
  mc::Net *net = mc::Net::instance;
  if (!net || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME))
   return int(syscall(SYS_clock_gettime, id, t));
  t->tv_sec = net->now / 1000000000ll;
  t->tv_nsec = net->now % 1000000000ll;
  return 0;
 }

 time_t time(time_t *t)
 {
  mc::Net *net = mc::Net::instance;
  time_t r;
  if (net)
   r = net->now / 1000000000ll;
  else
  {
   timespec s;
   syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
   r = s.tv_sec;
  }
  if (t)
   *t = r;
  return r;
 }

 int nanosleep(const timespec *d, timespec *)
 {
  mc::Net *net = mc::Net::instance;
  if (!net)
   return int(syscall(SYS_nanosleep, d, nullptr));
  net->sleep_until(net->now + d->tv_sec * 1000000000ll + d->tv_nsec);
  return 0;
 }

 int clock_nanosleep(clockid_t id, int flags, const timespec *d, timespec *r)
 {
  mc::Net *net = mc::Net::instance;
  if (!net)
   return syscall(SYS_clock_nanosleep, id, flags, d, r) ? errno : 0;
  const int64_t v = d->tv_sec * 1000000000ll + d->tv_nsec;
  net->sleep_until(flags & TIMER_ABSTIME ? v : net->now + v);
  return 0;
 }

 static void mc_net_learn(int fd, const char *data, ssize_t n, bool sent = false)
 {
  mc::Net *net = mc::Net::instance;
  const auto i = net->names.find(fd);
  if (i != net->names.end())
   net->server_event(i->second, n > 0 ? std::string(data, size_t(n)) : std::to_string(n), sent, n <= 0);
 }

 ssize_t sendmsg(int fd, const msghdr *m, int flags)
 {
  const ssize_t n = syscall(SYS_sendmsg, fd, m, flags);
  mc::Net *net = mc::Net::instance;
  if (net && net->names.count(fd) && (n >= 0 || errno != EAGAIN))
  {
   const int e = errno;
   std::string s;
   for (size_t i = 0; i < m->msg_iovlen && ssize_t(s.size()) < n; i++)
    s.append((const char *)m->msg_iov[i].iov_base, std::min(size_t(n) - s.size(), m->msg_iov[i].iov_len));
   mc_net_learn(fd, s.data(), n, true);
   errno = e;
  }
  return n;
 }

 ssize_t send(int fd, const void *data, size_t size, int flags)
 {
  const ssize_t n = syscall(SYS_sendto, fd, data, size, flags, nullptr, 0);
  mc::Net *net = mc::Net::instance;
  if (net && net->names.count(fd) && (n >= 0 || errno != EAGAIN))
  {
   const int e = errno;
   mc_net_learn(fd, (const char *)data, n, true);
   errno = e;
  }
  return n;
 }

 ssize_t recvmsg(int fd, msghdr *m, int flags)
 {
  const ssize_t n = syscall(SYS_recvmsg, fd, m, flags);
  mc::Net *net = mc::Net::instance;
  if (net && net->names.count(fd) && (n >= 0 || errno != EAGAIN))
  {
   const int e = errno;
   std::string s;
   for (size_t i = 0; i < m->msg_iovlen && ssize_t(s.size()) < n; i++)
    s.append((const char *)m->msg_iov[i].iov_base, std::min(size_t(n) - s.size(), m->msg_iov[i].iov_len));
   mc_net_learn(fd, s.data(), n);
   errno = e;
  }
  return n;
 }

 ssize_t recv(int fd, void *data, size_t size, int flags)
 {
  const ssize_t n = syscall(SYS_recvfrom, fd, data, size, flags, nullptr, nullptr);
  mc::Net *net = mc::Net::instance;
  if (net && net->names.count(fd) && (n >= 0 || errno != EAGAIN))
  {
   const int e = errno;
   mc_net_learn(fd, (const char *)data, n);
   errno = e;
  }
  return n;
 }

 static int mc_net_accepted(int fd)
 {
  mc::Net *net = mc::Net::instance;
  if (fd >= 0 && net && !net->connecting.empty())
  {
   const std::string &s = net->connecting.front();
   net->names[fd] = s + std::to_string(net->session_count[s]++);
   net->connecting.pop_front();
   if (net->on_server_event)
    net->on_server_event(net->names[fd], "", false, true, false);
   mc_net_learn(fd, "accept", 6);
  }
  return fd;
 }

 int accept(int fd, sockaddr *a, socklen_t *l)
 {
  return mc_net_accepted(int(syscall(SYS_accept4, fd, a, l, 0)));
 }

 int accept4(int fd, sockaddr *a, socklen_t *l, int flags)
 {
  return mc_net_accepted(int(syscall(SYS_accept4, fd, a, l, flags)));
 }
}

#endif
