// C25: the control law solves the tasks in strict priority order.
#define VERIF_WITH_FLAGS
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
#include "sot_model.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
struct T {
  std::unique_ptr<Ent> f, t;
  Mat J;
  Vec e;
  Sel sel;
  bool posture = false;
  T() {}
  void make() {
    f.reset(new Ent(posture ? "FeaturePosture" : "FeatureGeneric"));
    t.reset(new Ent("Task"));
    t->in<double>("controlGain", -1);
    t->call("add", {Value((*f)->getName())});
    sel.tail = true;
  }
  TaskAbstract &task() { return dynamic_cast<TaskAbstract &>(**t); }
  std::string name() { return (*t)->getName(); }
  Mat JS(int n) const {
    Mat r = J;
    for (int i = 0; i < n; ++i)
      if (!sel(i)) r.col(i).setZero();
    return r;
  }
};
// Jacobians: independent, sharing rows, proportional to the previous ones, rank deficient, small
static void genJ(pbt::Gen &g, T &x, int n, const std::vector<std::unique_ptr<T>> &others) {
  int d = (int)g.size(g.chance(1, 12) ? 0 : 1, n + 1);
  int kind = (int)g.draw(5);
  Mat J = Mat::Zero(d, n);
  if (d && n) switch (kind) {
      case 0: J = genMat(g, d, n, 3); break;
      case 1: J = genRank(g, d, n, (int)g.size(0, std::min(d, n))); break;
      case 2:  // rows of other tasks and combinations of them
        for (int i = 0; i < d; ++i) {
          if (others.empty() || g.chance(1, 4)) {
            J.row(i) = genMat(g, 1, n, 2);
            continue;
          }
          const T &o = *others[g.draw(others.size())];
          if (o.J.rows() == 0 || o.J.cols() != n) continue;
          J.row(i) = (double)g.integer(-2, 2) * o.J.row(g.draw(o.J.rows()));
        }
        break;
      case 3:  // unit rows: joints
        for (int i = 0; i < d; ++i) J(i, g.draw(n)) = 1;
        break;
      case 4: J = genRank(g, d, n, (int)g.size(1, std::min(d, n))) * g.pick({1e-6, 1e-3, 0.05, 20.}); break;
    }
  x.J = J;
  x.e = genVec(g, d, 3);
  x.f->in<Mat>("jacobianIN", x.J);
  x.f->in<Vec>("errorIN", x.e);
  LOG << " " << d << "x" << n << "/" << kind;
}
static void genE(pbt::Gen &g, T &x, int n) {
  if (x.posture) {
    Vec p = genVec(g, n, 3);
    x.f->in<Vec>("posture", p);
    Vec s = x.f->sig<Vec>("state").accessCopy();
    x.e = (s - p).tail(n - 6);
  } else
    x.f->in<Vec>("errorIN", x.e = genVec(g, (int)x.e.size(), 3));
}
static void genPosture(pbt::Gen &g, T &x, int n) {
  x.f->in<Vec>("state", genVec(g, n, 3));
  x.f->in<Vec>("posture", Vec::Zero(n));
  for (int i = 6; i < n; ++i) x.f->call("selectDof", {Value((unsigned)i), Value(true)});
  x.J = Mat::Zero(n - 6, n);
  x.J.rightCols(n - 6).setIdentity();
  genE(g, x, n);
  LOG << " posture" << n;
}
PROP(priorities) {
  PoolStorage::destroy();
  Ent s("SOT");
  Sot *sot = dynamic_cast<Sot *>(s.p.get());
  bool wantPosture = g.chance(1, 4);
  int n = wantPosture ? (int)g.size(7, 10) : (int)g.size(1, 8), t = (int)g.integer(0, 3);
  s.call("setSize", {Value((unsigned)n)});
  std::vector<std::unique_ptr<T>> ts;
  bool accel = g.chance(wantPosture ? 2 : 1, wantPosture ? 3 : 8);
  s.call("enablePostureTaskAcceleration", {Value(accel)});
  CHECK(s.call("isPostureTaskAccelerationEnabled").boolValue() == accel, "isPostureTaskAccelerationEnabled");
  for (int i = 0, m = (int)g.size(1, 5); i < m; ++i) {
    std::unique_ptr<T> x(new T);
    x->posture = wantPosture && (i == m - 1 || g.chance(1, 8));
    x->make();
    if (x->posture) genPosture(g, *x, n);
    else genJ(g, *x, n, ts);
    ts.push_back(std::move(x));
    s.call("push", {Value(ts.back()->name())});
  }
  double th = 1e-4, maxInc = std::numeric_limits<double>::max();
  bool hasQ0 = false, hasK = false;
  Vec q0;
  Mat K;
  for (int k = 0, N = (int)g.steps(1, 5); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (g.chance(1, 4)) {
      maxInc = g.chance(1, 4) ? std::numeric_limits<double>::max() : g.pick({0.1, 1., 5., 25., 100.});
      s.call("setMaxControlIncrementSquaredNorm", {Value(maxInc)});
      LOG << " max=" << maxInc;
      genE(g, *ts[0], n);
    }
    CHECK(s.call("getMaxControlIncrementSquaredNorm").doubleValue() == maxInc, "getMaxControlIncrementSquaredNorm");
    if (g.chance(1, 4)) s.in<double>("damping", th = g.pick({1e-4, 1e-3, 1e-2, 0.3, 1., 1e-5}));
    if (g.chance(1, 4)) {
      s.in<Vec>("q0", q0 = genVec(g, n, 3));
      hasQ0 = true;
      LOG << " q0";
    }
    if (g.chance(1, 8)) {
      int c = (int)g.size(g.chance(1, 8) ? 0 : 1, n);
      K = genOrtho(g, n).leftCols(c);
      if (g.chance(1, 4)) K = genMat(g, n, c, 2);
      s.in<Mat>("proj0", K);
      hasK = true;
      LOG << " proj0:" << c;
    }
    for (auto &x : ts)
      if (g.chance(1, 3)) genE(g, *x, n);
    for (auto &x : ts) {
      if (g.chance(1, 8)) {
        x->sel = genSel(g, n);
        x->t->in<Flags>("controlSelec", x->sel.flags());
        LOG << " sel" << x->sel.str();
      }
      if (!x->posture && g.chance(1, 8)) genJ(g, *x, n, ts);
    }
    LOG << " @" << t;
    std::vector<Level> lv;
    for (size_t i = 0; i < ts.size(); ++i) {
      Level l;
      l.J = ts[i]->JS(n);
      l.e = ts[i]->e;
      l.posture = accel && ts[i]->posture && i + 1 == ts.size() && ts[i]->sel.count(n) == n;
      lv.push_back(l);
    }
    SotRef r = solveStack(lv, n, hasQ0 ? &q0 : NULL, hasK ? &K : NULL, th, maxInc);
    Vec c = s.out<Vec>("control", t);
    CHECK(c.size() == n, "control of size " << c.size());
    if (r.ambiguous || r.amp > 1e7) continue;
    NEARM(c, r.q, 1e-11 * r.amp);
    int solved = 0, below = 0;
    for (size_t i = 0; i < lv.size(); ++i) {
      solved += !r.refused[i] && lv[i].J.size();
      below += i > 0 && lv[i].J.norm() > 0;
    }
    g.nontrivial(solved > 1);
    if (lv.back().posture) g.label("accelerated posture");
    for (char x : r.refused)
      if (x) g.label("refused increment");
    // the residual of a task does not depend on the tasks below it
    if (lv.size() > 1 && g.chance(1, 3)) {
      size_t m = g.size(1, lv.size() - 1);
      Ent s2("SOT");
      s2.call("setSize", {Value((unsigned)n)});
      s2.call("setMaxControlIncrementSquaredNorm", {Value(maxInc)});
      s2.in<double>("damping", th);
      if (hasQ0) s2.in<Vec>("q0", q0);
      if (hasK) s2.in<Mat>("proj0", K);
      for (size_t i = 0; i < m; ++i) s2.call("push", {Value(ts[i]->name())});
      Vec c2 = s2.out<Vec>("control", t);
      for (size_t i = 0; i < m; ++i) {
        if (r.refused[i] || lv[i].posture) continue;
        double slack = th * (1 + (c - c2).norm()) * (hasK ? K.norm() : 1) * lv.size() + 1e-10 * r.amp;
        double a = (lv[i].J * (c - c2)).cwiseAbs().size() ? (lv[i].J * (c - c2)).cwiseAbs().maxCoeff() : 0;
        if (!hasK) CHECK(a <= slack, "the residual of level " << i << " moves by " << a << " when levels " << m << " and below are added");
      }
    }
  }
}
// wrong sizes are refused or ignored, and the next control is right
PROP(refused) {
  PoolStorage::destroy();
  Ent s("SOT");
  int n = (int)g.size(1, 5), t = 0;
  s.call("setSize", {Value((unsigned)n)});
  bool thrown = false;
  try { s.out<Vec>("control", ++t); } catch (std::logic_error &) { thrown = true; }
  CHECK(thrown, "a control without task nor q0");
  Vec q0 = genVec(g, n + (int)g.size(1, 3), 3);
  s.in<Vec>("q0", q0);
  T x;
  x.make();
  std::vector<std::unique_ptr<T>> none;
  bool with = g.flip();
  if (with) {
    genJ(g, x, n, none);
    s.call("push", {Value(x.name())});
  }
  thrown = false;
  try { s.out<Vec>("control", ++t); } catch (std::length_error &) { thrown = true; }
  CHECK(thrown, "q0 of size " << q0.size() << " accepted for " << n << " joints");
  q0 = genVec(g, n, 3);
  s.in<Vec>("q0", q0);
  if (g.flip()) s.in<Mat>("proj0", genMat(g, n + 1, (int)g.size(1, n), 1));
  std::vector<Level> lv;
  if (with) {
    Level l;
    l.J = x.J;
    l.e = x.e;
    lv.push_back(l);
  }
  SotRef r = solveStack(lv, n, &q0, NULL, 1e-4, std::numeric_limits<double>::max());
  Vec c = s.out<Vec>("control", ++t);
  if (r.ambiguous || r.amp > 1e7) g.discard();
  NEARM(c, r.q, 1e-11 * r.amp);
  g.nontrivial(with);
}
