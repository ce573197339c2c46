// C34: CoM freezer, periodic motion, smooth reach, gradient ascent.
#include "ent.hpp"
#include <sot/core/motion-period.hh>
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;
using dg::Vector;

PROP(com_freezer) {
  Ent e("CoMFreezer");
  int t = (int)g.size(0, 50), stop = -1, frozen = 0, n = (int)g.size(3, 40);
  bool prev = false, pg = false;
  Vector held;
  for (int k = 0; k < n; ++k) {
    if (k) t += g.draw(4) ? (int)g.size(1, 5) : (int)g.integer(50, 260);
    if (!k || !g.draw(4)) pg = g.flip();
    Vector ref = genV3(g);
    e.in<unsigned>("PGInProcess", pg ? (unsigned)g.integer(1, 3) : 0u);
    e.in<Vector>("CoMRef", ref);
    bool follow;
    if (pg) follow = true;
    else if (prev) follow = true, stop = t;
    else follow = t < stop + 200;
    if (stop < 0) follow = true, stop = t;  // the first evaluation starts from the reference
    prev = pg;
    if (follow) held = ref;
    else ++frozen;
    Vector r = e.out<Vector>("freezedCoM", t);
    LOG << " t" << t << (pg ? "run" : "idle") << (follow ? "+" : "=");
    NEARM(r, held, 0);
    if (g.flip()) NEARM(e.out<Vector>("freezedCoM", t), held, 0);
  }
  g.nontrivial(frozen > 1);
}

struct Motion : dg::sot::MotionPeriod {
  using MotionPeriod::MotionPeriod;
  using MotionPeriod::MOTION_CONSTANT;
  using MotionPeriod::MOTION_COS;
  using MotionPeriod::MOTION_SIN;
  using MotionPeriod::motionParams;
  using MotionPeriod::resize;
};

PROP(motion_period) {
  Motion m(freshName("m"));
  int n = (int)g.size(0, 5), t = 0, periodic = 0;
  m.resize((unsigned)n);
  struct P { int type; unsigned period, init; double a, a0; };
  std::vector<P> p((size_t)n, P{0, 1, 0, 0, 0});
  for (int k = 0, N = (int)g.steps(1, 25); k < N; ++k) {
    if (n && (k == 0 || !g.draw(5))) {
      size_t i = g.draw((uint64_t)n);
      P q{(int)g.draw(3), (unsigned)(g.draw(3) ? g.size(1, 50) : g.integer(1, 5000)), g.flip() ? 0u : (unsigned)g.size(0, 80), g.real(-5, 5),
          g.flip() ? 0. : g.real(-5, 5)};
      p[i] = q;
      auto &w = m.motionParams[i];
      w.motionType = (decltype(w.motionType))(q.type == 0 ? Motion::MOTION_CONSTANT : q.type == 1 ? Motion::MOTION_SIN : Motion::MOTION_COS);
      w.period = q.period, w.initPeriod = q.init, w.amplitude = q.a, w.initAmplitude = q.a0;
      LOG << " [" << i << "]type" << q.type << " T" << q.period << " t0 " << q.init << " a" << q.a << " a0 " << q.a0;
    }
    t += g.draw(5) ? (int)g.size(1, 30) : (int)g.integer(1, 100000);
    LOG << " t" << t;
    Vector r = m.motionSOUT(t);
    CHECK(r.size() == n, "size " << r.size() << " instead of " << n);
    for (int i = 0; i < n; ++i) {
      const P &q = p[(size_t)i];
      // phase reduced exactly, in [0, period)
      long long d = ((long long)t - (long long)q.init) % (long long)q.period;
      if (d < 0) d += q.period;
      double x = 2 * M_PI * (double)d / q.period, want = q.a0 + q.a * (q.type == 0 ? 1 : q.type == 1 ? std::sin(x) : std::cos(x));
      CHECK(pbt::near(r(i), want, 1e-9), "component " << i << " at " << t << ": " << r(i) << " instead of " << want);
      if (q.type && q.period > 1) ++periodic;
    }
  }
  g.nontrivial(periodic > 2);
}

PROP(smooth_reach) {
  Ent e("SmoothReach");
  int n = (int)g.size(1, 4), t = (int)g.size(0, 20), mode = 2, length = 0, startT = 0, mid = 0;
  double beta = 1.2, lastw = 0;
  Vector start, goal;
  bool pending = false;
  for (int k = 0, N = (int)g.steps(2, 30); k < N; ++k) {
    switch (k ? g.draw(8) : 0) {
      case 0: {
        n = (int)g.size(1, 4);
        goal = genVec(g, n);
        length = g.draw(8) ? (int)g.size(1, 60) : 0;
        e.in<Vector>("start", start = genVec(g, n));
        e.call("set", {Value(goal), Value(length)});
        pending = true;
        LOG << " set" << length;
        break;
      }
      case 1:
        mode = (int)g.draw(3), beta = g.real(0.05, 3);
        e.call("param", {Value(mode), Value(beta)});
        LOG << " mode" << mode << "/" << beta;
        lastw = 0;
        break;
      case 2:
        if (pending) break;
        e.in<Vector>("start", genVec(g, n));  // the start is captured once
        LOG << " start";
        break;
      default:;
    }
    if (pending && g.draw(3) == 0) continue;
    t += (int)g.size(1, 12);
    if (pending) startT = t, pending = false, lastw = 0;
    if (k == 0 || true) {
      Vector r = e.out<Vector>("goal", t);
      double x = length <= 0 || t - startT >= length ? 1 : double(t - startT) / length, w;
      if (x <= 0) w = 0;
      else if (x >= 1) w = 1;
      else {
        double u = beta * (1 / (1 - x) - 1 / x);
        w = mode == 0 ? x : mode == 1 ? (1 + std::tanh(u)) / 2 : 0.5 + std::atan(u) / M_PI;
        ++mid;
      }
      LOG << " t" << t << ":" << w;
      CHECK(w >= lastw - 1e-12, "the reference profile is monotone");
      lastw = w;
      CHECK(r.size() == n, "size " << r.size());
      Vector want = start + w * (goal - start);
      NEARM(r, want, 1e-9);
      if (w == 0) NEARM(r, start, 1e-12);
      if (w == 1) NEARM(r, goal, 1e-12);
    }
  }
  g.nontrivial(mid > 1);
}

PROP(gradient_ascent) {
  Ent e("GradientAscent");
  int n = (int)g.size(1, 5), t = 0, steps = 0;
  Vector value = Vector::Zero(n), gr;
  double rate = 0;
  for (int k = 0, N = (int)g.steps(1, 20); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (!k || g.flip()) e.in<Vector>("gradient", gr = genVec(g, n));
    if (!k || g.flip()) e.in<double>("learningRate", rate = g.real(-2, 2));
    value += rate * gr;
    LOG << " t" << t << " rate" << rate;
    NEARM(e.out<Vector>("value", t), value, 1e-9);
    ++steps;
  }
  g.nontrivial(steps > 2);
}
