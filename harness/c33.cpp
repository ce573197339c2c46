// C33: event, latch, switch, binary conversion, timer and time stamp.
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>
#include "ent.hpp"
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;

static bool g_fake = false;
static long long g_us = 1000000, g_cpu = 1000;
extern "C" {
int gettimeofday(struct timeval *tv, void *) noexcept {
  struct timespec ts;
  if (g_fake) {
    tv->tv_sec = g_us / 1000000, tv->tv_usec = g_us % 1000000;
    return 0;
  }
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec, tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
clock_t clock() noexcept {
  if (g_fake) return (clock_t)g_cpu;
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
}

struct Target : dg::Entity {
  static const std::string CLASS_NAME;
  const std::string &getClassName() const override { return CLASS_NAME; }
  dg::Signal<int, int> s;
  int count = 0, last = -1;
  Target(const std::string &n) : Entity(n), s("Target(" + n + ")::output(int)::s") {
    s.setFunction(boost::bind(&Target::f, this, _1, _2));
    signalRegistration(s);
  }
  int &f(int &r, int t) { return ++count, last = t, r = count; }
};
const std::string Target::CLASS_NAME = "Target";

PROP(event) {
  Ent e("Event");
  std::vector<std::unique_ptr<Target>> tg;
  std::vector<int> list;  // registered targets (one may be registered twice)
  for (int i = 0; i < 2; ++i) tg.emplace_back(new Target(freshName("tgt")));
  int expect[2] = {0, 0}, since = 0, n = 0, t = 0, rises = 0, repeats = 0;
  bool last = true, val = false, started = false;
  for (int k = 0, N = (int)g.steps(2, 30); k < N; ++k) {
    switch (g.draw(8)) {
      case 0:
        if (list.size() < 3) {
          int w = (int)g.draw(2);
          e.call("addSignal", {Value(tg[w]->getName() + ".s")});
          list.push_back(w);
          LOG << " add" << w;
        }
        break;
      case 1:
        n = (int)g.integer(-1, 4);
        e.call("repeat", {Value(n)});
        LOG << " repeat" << n;
        break;
      default: {
        t += (int)g.size(0, 2);
        if (!started || g.flip()) e.in<bool>("condition", val = g.flip());
        LOG << " " << (val ? "T" : "F");
        bool changed = e.out<bool>("check", t);
        if (started || !val) CHECK(changed == (!started || val != last), "change reported: " << changed);
        bool fire = val && !last;
        if (fire) since = 0, ++rises;
        else if (val) {
          ++since;
          if (n > 0 && since >= n) fire = true, ++repeats;
        }
        if (fire) {
          since = 0;
          for (int w : list) ++expect[w];
        }
        last = val, started = true;
        for (int i = 0; i < 2; ++i) {
          CHECK(tg[i]->count == expect[i], "target " << i << " recomputed " << tg[i]->count << " times instead of " << expect[i]);
          if (fire && std::count(list.begin(), list.end(), i)) CHECK(tg[i]->last == t, "target recomputed at " << tg[i]->last << " instead of " << t);
        }
      }
    }
  }
  std::string names = e.call("list").stringValue(), want = "(";
  for (int w : list) want += "'" + tg[w]->s.getName() + "', ";
  CHECK(names == want + ")", "list " << names);
  g.nontrivial(rises && repeats && !list.empty());
}

PROP(latch) {
  Ent e("Latch");
  bool v = false;
  int t = 0, changes = 0;
  for (int k = 0, N = (int)g.steps(1, 20); k < N; ++k) {
    t += (int)g.size(0, 2);
    bool old = v;
    switch (g.draw(6)) {
      case 0: e.call("turnOn"), v = true; LOG << " on"; break;
      case 1: e.call("turnOff"), v = false; LOG << " off"; break;
      case 2: CHECK(e.out<bool>("turnOnSout", t), "turn on answers off"); v = true; LOG << " ON"; break;
      case 3: CHECK(!e.out<bool>("turnOffSout", t), "turn off answers on"); v = false; LOG << " OFF"; break;
      default:
        LOG << " ?" << t;
        CHECK(e.out<bool>("out", t) == v, "latch is not " << v);
    }
    changes += old != v;
  }
  CHECK(e.out<bool>("out", t) == v, "latch is not " << v);
  g.nontrivial(changes > 1);
}

template <class T>
static void sw(pbt::Gen &g, const char *cls, T (*gen)(pbt::Gen &), bool (*same)(const T &, const T &)) {
  Ent e(cls);
  int n = 0, sel = 0, t = 0, picked = 0, bad = 0;
  bool boolean = g.chance(1, 4), again = false;
  std::vector<T> v;
  if (!boolean) e.in<int>("selection", 0);
  for (int k = 0, N = (int)g.steps(2, 12); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (k == 0 || g.chance(1, 6)) {
      int m = (int)g.draw(5);
      LOG << " n" << m;
      e.call("setSignalNumber", {Value(m)});
      CHECK(e.call("getSignalNumber").intValue() == m, "number of signals");
      v.resize(m, T());
      for (int i = n; i < m; ++i) e.in<T>("sin" + std::to_string(i), v[i] = gen(g));
      n = m;
    }
    for (int i = 0; i < n; ++i)
      if (g.chance(1, 4)) e.in<T>("sin" + std::to_string(i), v[i] = gen(g));
    if (k == 0 || again || g.flip()) {
      if (!boolean && g.chance(1, 8)) {
        boolean = true;
        e.sig<int>("selection").plug((dg::SignalBase<int> *)0);
        LOG << " unplug";
      }
      if (boolean) {
        bool b = g.flip();
        e.in<bool>("boolSelection", b);
        sel = b;
      } else {
        sel = g.chance(1, 5) ? g.pick({-1, n, n + 1, 1000000, -1000000}) : n ? (int)g.draw(n) : 0;
        e.in<int>("selection", sel);
        if (g.chance(1, 3)) e.in<bool>("boolSelection", g.flip());  // (ignored)
      }
    }
    LOG << " sel" << sel << " @" << t;
    bool thrown = false;
    T o = T();
    try { o = e.out<T>("sout", t); } catch (std::runtime_error &) { thrown = true; }
    CHECK(thrown == (sel < 0 || sel >= n), "selection " << sel << " of " << n << (thrown ? " refused" : " accepted"));
    again = thrown;
    if (thrown) { ++bad; continue; }
    ++picked;
    CHECK(same(o, v[sel]), "not the selected signal");
  }
  g.label(boolean ? "boolean" : "integer");
  g.nontrivial(picked > 2 && (bad || boolean));
}
PROP(switchVector) { sw<Vec>(g, "SwitchVector", [](pbt::Gen &h) { return genVec(h, (int)h.draw(4)); }, [](const Vec &a, const Vec &b) { return pbt::nearM(a, b, 0); }); }
PROP(switchBool) { sw<bool>(g, "SwitchBoolean", [](pbt::Gen &h) { return h.flip(); }, [](const bool &a, const bool &b) { return a == b; }); }
PROP(switchHomo) { sw<Homo>(g, "SwitchMatrixHomogeneous", [](pbt::Gen &h) { return genHomo(h); }, [](const Homo &a, const Homo &b) { return pbt::nearM(a.matrix(), b.matrix(), 0); }); }

PROP(binary) {
  Ent e("BinaryIntToUint");
  bool neg = false, pos = false;
  for (int k = 0, t = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    int v = g.chance(1, 4) ? g.pick({0, 1, -1, INT_MAX, INT_MIN}) : (int)g.integer(-100, 100);
    e.in<int>("sin", v);
    LOG << " " << v;
    CHECK(e.out<unsigned>("sout", t += (int)g.size(1, 3)) == (v < 0 ? 0u : 1u), "conversion of " << v);
    (v < 0 ? neg : pos) = true;
  }
  g.nontrivial(neg && pos);
}

struct FakeClock {
  FakeClock(pbt::Gen &g) { g_us = (long long)g.integer(0, 2000000000) * 1000000 + g.integer(0, 999999), g_cpu = g.integer(0, 1000000000), g_fake = true; }
  ~FakeClock() { g_fake = false; }
};
template <class T>
static void timer(pbt::Gen &g, const char *cls, T (*gen)(pbt::Gen &), bool (*same)(const T &, const T &)) {
  FakeClock c(g);
  Ent e(cls);
  T v = gen(g);
  long long wall = 0, cpu = 0;
  double dt = 0;
  dg::Signal<T, int> src("src");
  src.setFunction([&](T &r, int) -> T & { g_us += wall, g_cpu += cpu; return r = v; });
  e.sig<T>("sin").plug(&src);
  int t = 0, done = 0;
  CHECK(e.out<double>("timer", 0) == 0, "timer before any evaluation");
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    v = gen(g);
    src.setReady();
    wall = g.integer(0, g.pick({10, 1500, 2500000})), cpu = g.integer(0, 2000000);
    g_us += g.integer(0, 3000000), g_cpu += g.integer(0, 100000);
    bool cl = g.flip();
    LOG << (cl ? " clock " : " wall ") << wall << "," << cpu;
    T o = e.out<T>(cl ? "clockSout" : "sout", t);
    CHECK(same(o, v), "value not forwarded");
    dt = (cl ? cpu : wall) / 1000.;
    CHECK(pbt::near(e.out<double>("timer", t), dt, 1e-9), "timer " << e.out<double>("timer", t) << " instead of " << dt);
    if (g.flip()) {
      wall = cpu = 12345;
      CHECK(same(e.out<T>(cl ? "clockSout" : "sout", t), v), "value not forwarded");
      CHECK(pbt::near(e.out<double>("timer", t), dt, 1e-9), "timer changed by an evaluation at the same time");
    }
    ++done;
  }
  g.nontrivial(done > 1);
}
PROP(timerVector) { timer<Vec>(g, "TimerVector", [](pbt::Gen &h) { return genVec(h, (int)h.draw(4)); }, [](const Vec &a, const Vec &b) { return pbt::nearM(a, b, 0); }); }
PROP(timerDouble) { timer<double>(g, "TimerDouble", [](pbt::Gen &h) { return h.real(-5, 5); }, [](const double &a, const double &b) { return a == b; }); }
PROP(timerMatrix) { timer<Mat>(g, "TimerMatrix", [](pbt::Gen &h) { int r = (int)h.draw(3); return genMat(h, r, (int)h.draw(3)); }, [](const Mat &a, const Mat &b) { return pbt::nearM(a, b, 0); }); }
PROP(timerHomo) { timer<Homo>(g, "TimerMatrixHomo", [](pbt::Gen &h) { return genHomo(h); }, [](const Homo &a, const Homo &b) { return pbt::nearM(a.matrix(), b.matrix(), 0); }); }

PROP(timeStamp) {
  FakeClock c(g);
  Ent e("TimeStamp");
  int t = 0, reads = 0, lastT[2] = {-1, -1};
  long long at[2] = {0, 0};
  for (int k = 0, N = (int)g.steps(1, 10); k < N; ++k) {
    t += (int)g.size(0, 2);
    g_us += g.integer(0, g.pick({10, 2000, 3000000}));
    int op = (int)g.draw(4);
    LOG << " op" << op << "@" << t;
    auto secs = [](long long us) { return (Vec(2) << (double)(us / 1000000), (double)(us % 1000000)).finished(); };
    switch (op) {
      case 0: NEARM(e.out<Vec>("time", t), secs(g_us), 0); break;
      case 1: {
        double d = e.out<double>("timeDouble", t);
        CHECK(std::fabs(d - g_us / 1000.) < 1e-3, "time in ms " << d << " instead of " << g_us / 1000.);
        break;
      }
      default: {
        // first evaluation, then stable at the same time
        int w = op - 2;
        if (lastT[w] >= 0 && t != lastT[w]) continue;
        if (t != lastT[w]) at[w] = g_us, lastT[w] = t;
        if (w == 0) NEARM(e.out<Vec>("synchro", t), secs(at[0]), 0);
        else {
          double d = e.out<double>("synchroDouble", t);
          CHECK(std::fabs(d - at[1] / 1000.) < 1e-3, "time in ms " << d << " instead of " << at[1] / 1000.);
        }
      }
    }
    ++reads;
  }
  g.nontrivial(reads > 3);
}
