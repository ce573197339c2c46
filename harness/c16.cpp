// C16: FilterDifferentiator behaves as the causal filter on its input signal.
#include <dlfcn.h>
#include "ent.hpp"
#include "causal_model.hpp"
using dynamicgraph::command::Value;
// the entity appends to a fixed log file: send it to /dev/null
extern "C" FILE *fopen64(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = (F)dlsym(RTLD_NEXT, "fopen64");
  return f(std::string(p) == "/tmp/fd_log.dat" ? "/dev/null" : p, m);
}
extern "C" FILE *fopen(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = (F)dlsym(RTLD_NEXT, "fopen");
  return f(std::string(p) == "/tmp/fd_log.dat" ? "/dev/null" : p, m);
}
PROP(differentiator) {
  Ent e("FilterDifferentiator");
  int t = (int)g.integer(0, 3), n = (int)g.size(1, 4);
  bool before = false;
  if (g.chance(1, 3)) {
    before = true;
    LOG << " before init";
    if (g.flip()) {
      Coeffs c = genCoeffs(g, 3, 3);
      e.call("switch_filter", {Value(Vec(c.b)), Value(Vec(c.a))});
    }
    e.in<Vec>("x", genSample(g, n));
    ++t;
    for (const char *s : {"x_filtered", "dx", "ddx"}) {
      Vec v = e.out<Vec>(s, t);
      CHECK(v.size() == 0, s << " has " << v.size() << " components before init");
    }
  }
  int samples = 0, switches = 0, inits = 1 + (g.chance(1, 4) ? 1 : 0);
  for (int in = 0; in < inits; ++in) {
    double dt = g.pick({1., 0.5, 0.001, 0.005, 2.});
    n = (int)g.size(1, 4);
    Coeffs c = genCoeffs(g, 4, 5);
    LOG << " init dt=" << dt << " n=" << n << " b=" << c.b.transpose() << " a=" << c.a.transpose();
    e.call("init", {Value(dt), Value(n), Value(Vec(c.b)), Value(Vec(c.a))});
    CHECK(e.call("getTimestep").doubleValue() == dt, "getTimestep");
    CHECK(e.call("getSize").intValue() == n, "getSize");
    Model m(dt, c);
    // the reference for a switch is the library's own filter (property C02); the difference equation otherwise
    CausalFilter ref(dt, n, c.b, c.a);
    bool switched = false;
    int N = (int)g.steps(1, 12);
    for (int k = 0; k < N; ++k) {
      if (k && g.chance(1, 8)) {
        Coeffs c2 = genCoeffs(g, 4, 5);
        LOG << " switch b=" << c2.b.transpose() << " a=" << c2.a.transpose();
        e.call("switch_filter", {Value(Vec(c2.b)), Value(Vec(c2.a))});
        ref.switch_filter(c2.b, c2.a);
        switched = true;
        ++switches;
      }
      if (g.chance(1, 8)) {
        int other = (int)g.integer(0, 5);
        if (other == n) ++other;
        LOG << " size " << other;
        e.in<Vec>("x", genVec(g, other));
        t += (int)g.size(1, 3);
        bool refused = false;
        try {
          e.out<Vec>(g.pick({"x_filtered", "dx", "ddx"}), t);
        } catch (const std::exception &) {
          refused = true;
        }
        CHECK(refused, "an input of " << other << " components is accepted by a filter of size " << n);
        g.label("wrong size");
      }
      Vec x = genSample(g, n);
      LOG << " x=" << x.transpose();
      e.in<Vec>("x", x);
      t += (int)g.size(1, 3);
      Vec o(3 * n), r(3 * n);
      int order = (int)g.draw(6), part = g.chance(1, 3) ? 1 + (int)g.draw(2) : 3;
      static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      static const char *names[3] = {"x_filtered", "dx", "ddx"};
      ref.get_x_dx_ddx(x, r);
      o = r;
      for (int i = 0; i < part; ++i) {
        int j = P[order][i];
        Vec v = e.out<Vec>(names[j], t);
        CHECK(v.size() == n, names[j] << " size " << v.size());
        for (int q = 0; q < n; ++q) CHECK(pbt::near(v(q), r(j * n + q), 1e-12), "sample " << k << " " << names[j] << "(" << q << ")=" << v(q) << " expected " << r(j * n + q));
        o.segment(j * n, n) = v;
        if (g.chance(1, 6)) {
          Vec v2 = e.out<Vec>(names[j], t);
          CHECK(v2 == v, "second evaluation of " << names[j] << " at the same time differs");
        }
      }
      if (!switched) {
        m.step(x);
        m.compare(o, n, k);
      }
      ++samples;
    }
  }
  g.nontrivial(samples > 3);
  if (before) g.label("before init");
  if (switches) g.label("switch");
}
