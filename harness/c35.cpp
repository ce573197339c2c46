// C35: mailbox. Posts and reads run as coroutines; every mutex operation, clock reading and half copy of an object is a
// scheduling point, so that an interleaving is a generated (and shrinkable) sequence of choices.
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <memory>
#include <vector>
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
}
struct Coro {
  ucontext_t ctx;
  std::vector<char> stack;
  std::function<void()> f;
  bool done = false, blocked = false;
  void *fake = nullptr;
};
struct Sched {
  std::vector<std::unique_ptr<Coro>> co;
  ucontext_t main;
  void *fake = nullptr;
  const void *mainBottom = nullptr;
  size_t mainSize = 0;
  int cur = -1;
  long steps = 0;
};
static Sched *g_s = nullptr;
static long g_tick = 0;
static bool g_fake = false;

static void co_yield_(bool blocked = false) {
  Sched *s = g_s;
  if (!s || s->cur < 0) return;
  Coro *c = s->co[(size_t)s->cur].get();
  c->blocked = blocked;
  if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&c->fake, s->mainBottom, s->mainSize);
  swapcontext(&c->ctx, &s->main);
  if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(c->fake, &s->mainBottom, &s->mainSize);
}
static void co_entry() {
  Sched *s = g_s;
  Coro *c = s->co[(size_t)s->cur].get();
  if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, &s->mainBottom, &s->mainSize);
  c->f();
  c->done = true;
  if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(nullptr, s->mainBottom, s->mainSize);
  swapcontext(&c->ctx, &s->main);
}

typedef int (*mutex_fn)(pthread_mutex_t *);
static mutex_fn realfn(const char *n) { return (mutex_fn)dlsym(RTLD_NEXT, n); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  static mutex_fn lock = realfn("pthread_mutex_lock"), tryl = realfn("pthread_mutex_trylock");
  if (!g_s || g_s->cur < 0) return lock(m);
  co_yield_();
  int r;
  while ((r = tryl(m)) == 16 /* EBUSY */) co_yield_(true);
  co_yield_();
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  static mutex_fn tryl = realfn("pthread_mutex_trylock");
  if (!g_s || g_s->cur < 0) return tryl(m);
  co_yield_();
  int r = tryl(m);
  co_yield_();
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  static mutex_fn unl = realfn("pthread_mutex_unlock");
  if (!g_s || g_s->cur < 0) return unl(m);
  co_yield_();
  int r = unl(m);
  co_yield_();
  return r;
}
// boost::timed_mutex may be built on a mutex and a condition: waking up early is allowed
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  typedef int (*fn)(pthread_cond_t *, pthread_mutex_t *);
  static fn wait = (fn)dlsym(RTLD_NEXT, "pthread_cond_wait");
  if (!g_s || g_s->cur < 0) return wait(c, m);
  pthread_mutex_unlock(m);
  co_yield_(true);
  return pthread_mutex_lock(m);
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  if (g_fake) {
    long k = ++g_tick;
    tv->tv_sec = k;
    co_yield_();
    tv->tv_usec = k * 7 % 1000000;
    return 0;
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec, tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
}

#include "ent.hpp"
#include <sot/core/mailbox.hxx>
#include <sot/core/mailbox-vector.hh>
namespace dg = dynamicgraph;
using dg::Vector;

struct Obj {
  int a = 0, b = 0;
  Obj() {}
  explicit Obj(int k) : a(k), b(k) {}
  Obj(const Obj &o) { copy(o); }
  Obj &operator=(const Obj &o) { return copy(o), *this; }
  void copy(const Obj &o) {
    a = o.a;
    co_yield_();
    b = o.b;
  }
};
namespace dynamicgraph {
template <>
struct signal_io<Obj> : signal_io_unimplemented<Obj> {};
}  // namespace dynamicgraph
typedef dg::sot::Mailbox<Obj> Box;
namespace dynamicgraph { namespace sot {
template <> const std::string Mailbox<Obj>::CLASS_NAME = "Mailbox<Obj>";
} }

struct Rec { long from, to; int id; long stamp, usec; bool torn; };

PROP(schedules) {
  auto box = std::make_unique<Box>(freshName("box"));
  Sched s;
  g_tick = 0;
  long seq = 0;
  std::vector<Rec> posts, reads;
  struct Flag { long from, to; bool v; };
  std::vector<Flag> flags;
  int nposters = (int)g.size(1, 3), id = 0, t = 0;
  g_fake = true;
  std::vector<std::vector<int>> plan;
  for (int p = 0; p < nposters; ++p) {
    plan.emplace_back();
    for (int k = 0, n = (int)g.size(1, 3); k < n; ++k) plan.back().push_back(++id);
  }
  for (auto &ids : plan) {
    auto c = std::make_unique<Coro>();
    c->f = [&, ids] {
      for (int i : ids) {
        Obj o(i);
        Rec r{++seq, 0, i, 0, 0, false};
        box->post(o);
        r.to = ++seq;
        posts.push_back(r);
        co_yield_();
      }
    };
    s.co.push_back(std::move(c));
  }
  std::vector<int> acts;
  for (int k = 0, n = (int)g.size(1, 6); k < n; ++k) acts.push_back((int)g.draw(3));
  {
    auto c = std::make_unique<Coro>();
    c->f = [&] {
      for (int a : acts) {
        long from = ++seq;
        if (a == 0) {
          bool v = box->hasBeenUpdated();
          flags.push_back(Flag{from, ++seq, v});
        } else {
          const auto &d = box->SOUT(++t);
          reads.push_back(Rec{from, ++seq, d.obj.a, (long)d.timestamp.tv_sec, (long)d.timestamp.tv_usec, d.obj.a != d.obj.b});
        }
        co_yield_();
      }
    };
    s.co.push_back(std::move(c));
  }
  for (auto &c : s.co) {
    c->stack.resize(128 * 1024);
    getcontext(&c->ctx);
    c->ctx.uc_stack.ss_sp = c->stack.data(), c->ctx.uc_stack.ss_size = c->stack.size(), c->ctx.uc_link = &s.main;
    makecontext(&c->ctx, co_entry, 0);
  }
  g_s = &s;
  int last = -1, switches = 0;
  bool stuck = false;
  for (;;) {
    std::vector<int> run;
    for (size_t i = 0; i < s.co.size(); ++i)
      if (!s.co[i]->done) run.push_back((int)i);
    if (run.empty()) break;
    if (++s.steps > 20000) {
      stuck = true;
      break;
    }
    int pick;
    bool lastRun = last >= 0 && !s.co[(size_t)last]->done && !s.co[(size_t)last]->blocked;
    if (lastRun && g.draw(3)) pick = last;  // continue most of the time
    else pick = run[(size_t)g.draw(run.size())];
    if (s.steps > 5000) pick = run[(size_t)(s.steps % (long)run.size())];
    if (pick != last) {
      ++switches;
      LOG << " " << pick;
    }
    last = pick;
    s.cur = pick;
    Coro *c = s.co[(size_t)pick].get();
    if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&s.fake, c->stack.data(), c->stack.size());
    swapcontext(&s.main, &c->ctx);
    if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(s.fake, nullptr, nullptr);
    s.cur = -1;
  }
  g_s = nullptr;
  if (stuck) {
    box.release();  // a lock is held for ever
    FAIL("posts and reads block each other for ever");
  }
  // read again once everything is done
  long from = ++seq;
  bool fin = box->hasBeenUpdated();
  {
    const auto &d = box->SOUT(++t);
    reads.push_back(Rec{from, ++seq, d.obj.a, (long)d.timestamp.tv_sec, (long)d.timestamp.tv_usec, d.obj.a != d.obj.b});
  }
  bool after = box->hasBeenUpdated();
  g_fake = false;
  LOG << " | posts";
  for (auto &p : posts) LOG << " " << p.id << "[" << p.from << "," << p.to << "]";
  LOG << " reads";
  for (auto &r : reads) LOG << " " << r.id << "@" << r.stamp << "[" << r.from << "," << r.to << "]";
  // posts are ordered by their stamps, known through the reads only: check the constraints read by read
  CHECK((int)posts.size() == id, "all posts completed");
  std::map<int, Rec> post;
  for (auto &p : posts) post[p.id] = p;
  std::map<int, long> stampOf;
  int prevId = 0;
  long prevStamp = 0;
  bool overlap = false;
  for (auto &r : reads) {
    CHECK(!r.torn, "an object mixing two posts was read: halves differ");
    CHECK(r.id >= 0 && r.id <= id, "object " << r.id << " was never posted");
    if (r.id == 0) {
      CHECK(prevId == 0, "the initial object is read after " << prevId);
      for (auto &p : posts) {
        bool inProgress = false;  // a contended read may give the former content
        for (auto &q : posts) inProgress |= q.from < r.to && q.to > r.from;
        CHECK(!(p.to < r.from) || inProgress, "initial object read although post " << p.id << " was completed");
        overlap |= inProgress;
      }
      continue;
    }
    const Rec &p = post[r.id];
    CHECK(p.from < r.to, "object read before it is posted");
    CHECK(r.usec == r.stamp * 7 % 1000000, "time stamp mixing two posts: " << r.stamp << "." << r.usec);
    if (stampOf.count(r.id)) CHECK(stampOf[r.id] == r.stamp, "object " << r.id << " read with stamps " << stampOf[r.id] << " and " << r.stamp);
    stampOf[r.id] = r.stamp;
    for (auto &so : stampOf) CHECK(so.first == r.id || so.second != r.stamp, "the stamp of another post comes with object " << r.id);
    CHECK(r.stamp >= prevStamp && (r.stamp > prevStamp) == (r.id != prevId), "read goes back from " << prevId << "@" << prevStamp << " to " << r.id << "@" << r.stamp);
    bool inProgress = false;
    for (auto &q : posts) inProgress |= q.from < r.to && q.to > r.from;
    overlap |= inProgress;
    if (!inProgress)
      for (auto &q : posts)
        CHECK(q.id == r.id || !(q.to < r.from && q.from > p.to), "post " << r.id << " read although the later post " << q.id << " was completed");
    prevId = r.id, prevStamp = r.stamp;
  }
  // stamps respect the order of the posts that do not overlap
  for (auto &a : stampOf)
    for (auto &b : stampOf)
      if (post[a.first].to < post[b.first].from) CHECK(a.second < b.second, "stamps of posts " << a.first << " and " << b.first << " are reversed");
  const Rec &lr = reads.back();
  CHECK(lr.id != 0 && lr.stamp == g_tick, "after all posts the last one (stamp " << g_tick << ") is not read but " << lr.id << "@" << lr.stamp);
  if (reads.size() > 1) {
    const Rec &b4 = reads[reads.size() - 2];
    bool allBefore = true, noneAfterwards = b4.id == lr.id;
    for (auto &p : posts) allBefore &= p.to < b4.from;
    if (!noneAfterwards) CHECK(fin, "not flagged as updated although the last post was not read");
    if (allBefore) CHECK(!fin, "flagged as updated although the last post was read");
  } else CHECK(fin, "not flagged as updated after a post");
  CHECK(!after, "still flagged after the reading");
  for (auto &f : flags) {
    bool any = false;
    for (auto &p : posts) any |= p.from < f.to;
    if (!any) CHECK(!f.v, "flagged as updated before any post");
    bool sure = false, quiet = true;  // some post completed after the last read and none in progress
    for (auto &p : posts) {
      bool readAfter = false;
      for (auto &r : reads) readAfter |= r.from < f.from && r.to > p.from;
      if (p.to < f.from && !readAfter) sure = true;
      if (p.from < f.to && p.to > f.from) quiet = false;
    }
    if (sure && quiet) CHECK(f.v, "not flagged as updated after a post");
  }
  g.label(overlap ? "overlapping" : "sequential");
  g.nontrivial(overlap && switches > 2);
}

// the vector mailbox of the factory, read through its three signals
PROP(histories) {
  std::unique_ptr<dg::Entity> e(dg::FactoryStorage::getInstance()->newEntity("Mailbox<Vector>", freshName("mb")));
  auto *box = dynamic_cast<dg::sot::Mailbox<Vector> *>(e.get());
  CHECK(box, "class Mailbox<Vector> is a mailbox of vectors");
  g_fake = true;
  g_tick = 0;
  Vector cur;
  long stamp = -1;
  bool upd = false;
  int t = 0, postN = 0, readN = 0;
  auto &sout = dynamic_cast<dg::Signal<dg::sot::MailboxTimestampedObject<Vector>, int> &>(e->getSignal("sout"));
  auto &obj = dynamic_cast<dg::Signal<Vector, int> &>(e->getSignal("object"));
  auto &ts = dynamic_cast<dg::Signal<struct timeval, int> &>(e->getSignal("timestamp"));
  for (int k = 0, N = (int)g.steps(1, 20); k < N; ++k) {
    uint64_t w = g.draw(6);
    LOG << " " << w;
    if (w < 2) {
      Vector v = genVec(g, (int)g.size(0, 5));
      box->post(v);
      cur = v, stamp = g_tick, upd = true, ++postN;
    } else {
      t += (int)g.size(1, 3);
      if (w == 2) {
        const auto &d = sout(t);
        CHECK(d.obj.size() == cur.size() && d.obj == cur, "content\n" << d.obj << "\ninstead of\n" << cur);
        if (stamp >= 0) CHECK(d.timestamp.tv_sec == stamp && d.timestamp.tv_usec == stamp * 7 % 1000000, "stamp " << d.timestamp.tv_sec);
      } else if (w == 3) {
        Vector v = obj(t);
        CHECK(v.size() == cur.size() && v == cur, "object\n" << v << "\ninstead of\n" << cur);
      } else if (w == 4) {
        struct timeval v = ts(t);
        if (stamp >= 0) CHECK(v.tv_sec == stamp && v.tv_usec == stamp * 7 % 1000000, "stamp " << v.tv_sec << " instead of " << stamp);
        else CHECK(v.tv_sec == 0 && v.tv_usec == 0, "stamp before any post: " << v.tv_sec << "." << v.tv_usec);
      } else {
        CHECK(box->hasBeenUpdated() == upd, "update flag is " << !upd);
        continue;
      }
      upd = false, ++readN;
    }
    CHECK(box->hasBeenUpdated() == upd, "update flag is " << !upd);
  }
  g_fake = false;
  g.nontrivial(postN > 1 && readN > 1);
}
