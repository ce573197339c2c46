// C03: Stopwatch histories under a controlled clock.
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static volatile int g_fake = 0;
static long long g_us = 1000000;   // wall clock, microseconds
static long long g_cpu = 1000;     // processor clock, microseconds (= ticks)
extern "C" {
int gettimeofday(struct timeval *tv, void *) noexcept {
  if (g_fake) {
    tv->tv_sec = g_us / 1000000;
    tv->tv_usec = g_us % 1000000;
    return 0;
  }
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (g_fake) {
    long long u = (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? g_cpu : g_us;
    ts->tv_sec = u / 1000000;
    ts->tv_nsec = (u % 1000000) * 1000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
clock_t clock() noexcept {
  if (g_fake) return (clock_t)g_cpu;
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
}
#include "pbt.hpp"
#include <sot/core/stop-watch.hh>
struct FakeClock {
  FakeClock() { g_fake = 1; }
  ~FakeClock() { g_fake = 0; }
};
typedef long double ld;
struct Lap {
  bool started, running, paused, touched;  // running: between start and pause/stop
  long long seg, acc;             // current segment start, accumulated time of the lap (us)
  std::vector<long long> laps;
  long long pausedTotal;
  Lap() : started(false), running(false), paused(false), touched(false), seg(0), acc(0), pausedTotal(0) {}
  long long total() const {
    long long t = acc;
    for (long long l : laps) t += l;
    return t;
  }
};
static bool eq(ld a, ld b) { return fabsl(a - b) <= 1e-8L + 1e-12L * fabsl(b); }
#define TM(CALL, US) do { ld v_ = (CALL); CHECK(eq(v_, (US) / 1e6L), #CALL " = " << (double)v_ << ", laps give " << (double)((US) / 1e6L)); } while (0)

static bool throwsSW(const std::function<void()> &f) {
  try {
    f();
  } catch (const StopwatchException &) {
    return true;
  }
  return false;
}
static void queries(Stopwatch &s, const std::string &n, const Lap &m) {
  TM(s.get_total_time(n), m.total());
  if (m.laps.size()) {
    long long mn = m.laps[0], mx = m.laps[0], sum = 0;
    for (long long l : m.laps) {
      mn = std::min(mn, l);
      mx = std::max(mx, l);
      sum += l;
    }
    TM(s.get_min_time(n), mn);
    TM(s.get_max_time(n), mx);
    if (!m.touched) TM(s.get_last_time(n), m.laps.back());
    if (!m.acc) {
      ld v = s.get_average_time(n);
      CHECK(eq(v, sum / 1e6L / m.laps.size()), "average " << (double)v << " over " << m.laps.size() << " laps of total " << sum << " us");
    }
  } else {
    TM(s.get_min_time(n), 0);
    TM(s.get_max_time(n), 0);
  }
}
static void checkReport(Stopwatch &s, const std::string &n, const Lap &m, int prec, bool all, const std::map<std::string, Lap> &ms) {
  std::ostringstream o;
  if (all) s.report_all(prec, o); else s.report(n, prec, o);
  std::string t = o.str();
  if (!all) {
    CHECK(t.compare(0, n.size(), n) == 0, "report does not start with the name: " << t);
    std::istringstream is(t.substr(n.size()));
    ld v[4], tot;
    long stops;
    std::string avg;
    ld mn = 0, mx = 0, sum = 0;
    for (size_t i = 0; i < m.laps.size(); ++i) {
      ld l = m.laps[i] / 1e3L;
      mn = i ? std::min(mn, l) : l;
      mx = i ? std::max(mx, l) : l;
      sum += l;
    }
    is >> v[0] >> avg >> v[2] >> v[3] >> stops >> tot;
    CHECK((bool)is, "cannot read the report: " << t);
    ld tol = 0.5L * powl(10, -prec) + 1e-5L;
    CHECK(fabsl(v[0] - mn) <= tol && fabsl(v[2] - mx) <= tol, "min/max of the report: " << t);
    CHECK(stops == (long)m.laps.size(), "number of samples: " << t);
    CHECK(fabsl(tot - m.total() / 1e3L) <= tol, "total of the report: " << t << " expected " << (double)(m.total() / 1e3L));
    if (m.laps.size() && !m.acc) CHECK(fabsl(strtold(avg.c_str(), 0) - sum / m.laps.size()) <= tol, "average of the report: " << t);
    if (m.laps.size() && !m.touched) CHECK(fabsl(v[3] - m.laps.back() / 1e3L) <= tol, "last time of the report: " << t);
  } else {
    size_t at = 0;
    for (auto &k : ms) {
      at = t.find("\n" + k.first, at);
      CHECK(at != std::string::npos, "report_all misses " << k.first << ": " << t);
      ++at;
    }
  }
}
static void history(pbt::Gen &g, int maxOps) {
  FakeClock fake;
  StopwatchMode mode = g.flip() ? CPU_TIME : REAL_TIME;
  long long baseW = g.pick<long long>({1000000ll, 1ll, 1700000000ll * 1000000ll, 999999ll});
  g_us = baseW;
  g_cpu = g.pick<long long>({1000ll, 1ll, 5000000ll});
  Stopwatch s(mode);
  if (g.chance(1, 4)) {
    Stopwatch s0;  // no mode yet
    CHECK(throwsSW([&] { s0.take_time(); }), "take_time without a mode");
    CHECK(throwsSW([&] { s0.start("x"); }), "start without a mode");
    s0.set_mode(mode);
    s0.start("x");
    CHECK(s0.performance_exists("x"), "start after set_mode");
  }
  LOG << (mode == CPU_TIME ? "CPU" : "REAL");
  std::vector<std::string> names = {"a", "loop", "inner loop with a very long name that exceeds the padding width of the report, yes"};
  std::map<std::string, Lap> M;
  bool active = true;
  int laps = 0, pauses = 0;
  int n = (int)g.steps(1, (size_t)maxOps);
  for (int k = 0; k < n; ++k) {
    long long dw = g.pick<long long>({0, 1, 1000, 250000, 1000000, 12345678, 999999}), dc = g.pick<long long>({0, 1, 500, 70000, 1000000, 98765});
    g_us += dw;
    g_cpu += dc;
    long long T = mode == CPU_TIME ? g_cpu : g_us;
    const std::string &nm = g.pick(names);
    bool ex = M.count(nm);
    CHECK(s.performance_exists(nm) == ex, "performance_exists(" << nm << ")");
    size_t op = g.weighted({30, 25, 15, 10, 6, 3, 4, 4, 4});
    LOG << " +" << (mode == CPU_TIME ? dc : dw) << "us";
    switch (op) {
      case 0:
        LOG << " start(" << nm << ")";
        s.start(nm);
        if (active) {
          Lap &l = M[nm];
          if (l.running && l.acc) { /* restart of a running segment */ }
          l.started = l.running = true;
          l.paused = false;
          l.seg = T;
        }
        break;
      case 1: {
        LOG << " stop(" << nm << ")";
        if (active && !ex) {
          CHECK(throwsSW([&] { s.stop(nm); }), "stop of an unknown performance");
          break;
        }
        Lap l = ex ? M[nm] : Lap();
        // a stop without a measure in progress is not part of the specification, except after a reset
        if (active && l.started && !l.running && !l.paused) break;
        s.stop(nm);
        if (active && l.started) {
          Lap &r = M[nm];
          r.laps.push_back(r.acc + (r.running ? T - r.seg : 0));
          if (r.acc || r.paused) ++pauses;
          r.acc = 0;
          r.running = r.paused = r.touched = false;
          ++laps;
        }
        break;
      }
      case 2: {
        LOG << " pause(" << nm << ")";
        if (active && !ex) {
          CHECK(throwsSW([&] { s.pause(nm); }), "pause of an unknown performance");
          break;
        }
        Lap l = ex ? M[nm] : Lap();
        if (active && l.started && !l.running) break;
        s.pause(nm);
        if (active && l.started) {
          Lap &r = M[nm];
          r.acc += T - r.seg;
          r.running = false;
          r.paused = r.touched = true;
          ++pauses;
        }
        break;
      }
      case 3:
        if (ex) queries(s, nm, M[nm]);
        else {
          CHECK(throwsSW([&] { s.get_total_time(nm); }) && throwsSW([&] { s.get_average_time(nm); }) &&
                    throwsSW([&] { s.get_min_time(nm); }) && throwsSW([&] { s.get_max_time(nm); }) &&
                    throwsSW([&] { s.get_last_time(nm); }) && throwsSW([&] { s.get_time_so_far(nm); }),
                "query of an unknown performance");
        }
        if (ex && M[nm].running) TM(s.get_time_so_far(nm), T - M[nm].seg);
        break;
      case 4:
        LOG << " reset(" << nm << ")";
        if (active && !ex) CHECK(throwsSW([&] { s.reset(nm); }), "reset of an unknown performance");
        else {
          s.reset(nm);
          if (active) M[nm] = Lap();
        }
        break;
      case 5:
        LOG << " reset_all";
        s.reset_all();
        if (active)
          for (auto &m : M) m.second = Lap();
        break;
      case 6:
        active = !active;
        LOG << (active ? " on" : " off");
        if (active) s.turn_on(); else s.turn_off();
        break;
      case 7: {
        bool idle = true;
        for (auto &m : M) idle = idle && !m.second.running && !m.second.paused;
        if (!idle) break;
        mode = mode == CPU_TIME ? REAL_TIME : CPU_TIME;
        LOG << (mode == CPU_TIME ? " mode(CPU)" : " mode(REAL)");
        s.set_mode(mode);
        // measures must be started again before they are stopped
        break;
      }
      case 8: {
        int prec = (int)g.size(0, 4);
        if (!active) {
          std::ostringstream o;
          s.report(nm, prec, o);
          s.report_all(prec, o);
          CHECK(o.str().empty(), "report while turned off");
        } else if (ex) checkReport(s, nm, M[nm], prec, g.flip(), M);
        else CHECK(throwsSW([&] { std::ostringstream o; s.report(nm, prec, o); }), "report of an unknown performance");
        break;
      }
    }
  }
  for (auto &m : M) queries(s, m.first, m.second);
  g.nontrivial(laps >= 2 || pauses >= 1);
  if (pauses) g.label("with pauses");
  g.label(mode == CPU_TIME ? "ends in CPU time" : "ends in real time");
}
PROP(short_history) { history(g, 12); }
PROP(long_history) { history(g, 60); }
