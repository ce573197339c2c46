// C23: PD, unilateral and continuity tasks.
#include <sot/core/feature-abstract.hh>
#include <sot/core/multi-bound.hh>
#include <sot/core/pool.hh>
#include <sot/core/task-conti.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static void checkSingle(const VectorMultiBound &b, const Vec &ref, double tol) {
  CHECK((int)b.size() == ref.size(), "size " << b.size() << " expected " << ref.size());
  for (int i = 0; i < ref.size(); ++i) {
    CHECK(b[i].getMode() == MultiBound::MODE_SINGLE, "component " << i << " is not a single bound");
    CHECK(pbt::near(b[i].getSingleBound(), ref(i), tol), "task(" << i << ") = " << b[i].getSingleBound() << " expected " << ref(i));
  }
}
PROP(pd) {
  PoolStorage::destroy();
  Ent te("TaskPD"), f("FeatureGeneric"), r("FeatureGeneric");
  dynamic_cast<FeatureAbstract &>(*f.p).setReference(dynamic_cast<FeatureAbstract *>(r.p.get()));
  te.call("add", {Value(f->getName())});
  int n = 1, t = (int)g.integer(0, 3), c = (int)g.size(1, 4);
  double gain = 1, beta = 1;
  te.in<double>("controlGain", gain);
  Vec err, prev, ext, refdot;
  bool external = false, wd = false;
  for (int k = 0, N = (int)g.steps(1, 10); k < N; ++k) {
    bool rs = k == 0 || g.chance(1, 8);
    if (rs) {
      n = (int)g.size(1, 5);
      r.in<Vec>("errorIN", Vec::Zero(n));
      r.in<Vec>("errordotIN", refdot = genVec(g, n));
      f.in<Mat>("jacobianIN", genMat(g, n, c));
    }
    if (g.chance(1, 4)) { te.in<double>("controlGain", gain = g.real(-2, 10)); LOG << " gain=" << gain; }
    if (g.chance(1, 4)) { te.call("setBeta", {Value(beta = g.real(-2, 5))}); te.in<double>("controlGain", gain); LOG << " beta=" << beta; }
    if (g.chance(1, 5)) { te.call("setWithDerivative", {Value(wd = g.flip())}); te.in<double>("controlGain", gain); LOG << " wd=" << wd; }
    if (g.chance(1, 6)) { external = true; LOG << " external"; }
    bool onlyExt = false;
    if (external && (rs || ext.size() != n || g.flip())) {
      te.in<Vec>("errorDot", ext = genVec(g, n));
      onlyExt = !rs && g.flip();
      LOG << " ext=" << ext.transpose();
    }
    if (!onlyExt) { f.in<Vec>("errorIN", err = genVec(g, n)); LOG << " err=" << err.transpose(); }
    t += (int)g.size(1, 3);
    Vec dot = prev.size() == n ? Vec(err - prev) : Vec(Vec::Zero(n));
    if (onlyExt) dot.resize(0);
    // reading errorDotOUT or the task in any order gives one backward difference per evaluated time
    int order = (int)g.draw(3);
    bool differentiated = !external;
    if (order == 0 && dot.size()) { NEARM(te.out<Vec>("errorDotOUT", t), dot, 1e-13); differentiated = true; }
    Vec used = external ? ext : dot;
    Vec ref = -gain * err - beta * used;
    if (wd) ref += refdot;
    checkSingle(te.out<VectorMultiBound>("task", t), ref, 1e-12);
    if (!differentiated && dot.size()) { NEARM(te.out<Vec>("errorDotOUT", t), dot, 1e-13); differentiated = true; }
    if (order == 2 && dot.size()) NEARM(te.out<Vec>("errorDotOUT", t), dot, 1e-13);
    NEARM(te.out<Vec>("error", t), err, 0);
    if (dot.size()) prev = err;
    g.nontrivial(k > 1 && beta != 0);
  }
}
PROP(unilateral) {
  PoolStorage::destroy();
  Ent te("TaskUnilateral");
  int n = 1, t = (int)g.integer(0, 3);
  Vec q, lo, hi;
  double dt = 1;
  for (int k = 0, N = (int)g.steps(1, 8); k < N; ++k) {
    bool rs = k == 0 || g.chance(1, 5);
    if (rs) n = (int)g.size(1, 6);
    int must = (int)g.draw(4);
    if (rs || must == 0 || g.chance(1, 4)) te.in<Vec>("position", q = genVec(g, n));
    if (rs || must == 1 || g.chance(1, 4)) te.in<Vec>("referenceInf", lo = genVec(g, n));
    if (rs || must == 1 || must == 2 || g.chance(1, 4) || (hi - lo).minCoeff() < 0) te.in<Vec>("referenceSup", hi = lo + genVec(g, n).cwiseAbs());
    if (rs || must == 3 || g.chance(1, 4)) te.in<double>("dt", dt = g.pick({0.001, 0.005, 0.1, 1., 0.25}));
    t += (int)g.size(1, 3);
    LOG << " q=" << q.transpose() << " lo=" << lo.transpose() << " hi=" << hi.transpose() << " dt=" << dt;
    VectorMultiBound b = te.out<VectorMultiBound>("task", t);
    CHECK((int)b.size() == n, "size " << b.size());
    for (int i = 0; i < n; ++i) {
      CHECK(b[i].getMode() == MultiBound::MODE_DOUBLE, "component " << i << " is not an interval");
      double vi = b[i].getDoubleBound(MultiBound::BOUND_INF), vs = b[i].getDoubleBound(MultiBound::BOUND_SUP);
      CHECK(vi <= vs, "empty interval");
      // moving at these velocities for one period reaches exactly the bounds
      CHECK(pbt::near(q(i) + dt * vi, lo(i), 1e-11) && pbt::near(q(i) + dt * vs, hi(i), 1e-11), "component " << i << ": [" << vi << "," << vs << "] leads to [" << q(i) + dt * vi << "," << q(i) + dt * vs << "]");
    }
    g.nontrivial(k > 0 && n > 1);
  }
}
struct TC : TaskConti {
  TC(const std::string &n) : TaskConti(n) {}
  void set(const Vec &q, double m) { q0 = q; mu = m; }
};
PROP(continuity) {
  PoolStorage::destroy();
  TC task(freshName());
  Ent f("FeatureGeneric");
  task.addFeature(dynamic_cast<FeatureAbstract &>(*f.p));
  int n = (int)g.size(1, 4), c = (int)g.size(1, 5), t = (int)g.integer(0, 3), cols = g.chance(1, 6) ? (int)g.size(0, 5) : c + 6;
  double gain = 1, mu = g.pick({0., 1., 20., 200., 2000.});
  Vec q0, err;
  Mat J;
  bool set = g.chance(4, 5), ref = false;
  if (set) { q0 = genVec(g, g.chance(1, 6) ? c + 1 : c); task.set(q0, mu); }
  task.controlGainSIN = gain;
  int tref = -1;
  LOG << "n=" << n << " cols=" << cols << " mu=" << mu << " q0=" << q0.transpose();
  for (int k = 0, N = (int)g.steps(1, 10); k < N; ++k) {
    if (k == 0 || g.flip()) f.in<Mat>("jacobianIN", J = genMat(g, n, cols));
    f.in<Vec>("errorIN", err = genVec(g, n));
    if (g.chance(1, 4)) task.controlGainSIN = gain = g.real(0, 5);
    t += (int)g.size(1, 3);
    if (!ref && g.flip()) {
      ref = true;
      if (g.flip()) { tref = t; task.referenceTime((unsigned)t); }
      else { tref = -2; task.referenceTime((unsigned)-2); }  // at the next evaluation
      LOG << " ref " << tref;
    }
    LOG << " @" << t;
    VectorMultiBound b = task.taskSOUT.access(t);
    Vec r(n);
    if (!ref || cols < 6 || q0.size() != cols - 6) r = -gain * err;  // no continuity possible
    else {
      if (tref == -2) tref = t;
      double a = std::exp((tref - t) * mu / 200.0);
      r = -gain * (1 - a) * err + a * (J.rightCols(cols - 6) * q0);
      if (t == tref) NEARM(r, J.rightCols(cols - 6) * q0, 1e-12);
      g.nontrivial(t > tref && mu > 0);
    }
    checkSingle(b, r, 1e-11);
  }
}
