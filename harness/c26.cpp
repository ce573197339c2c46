// C26: generic, 1D, 3D vector, posture and task features.
#define VERIF_WITH_FLAGS
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
struct Feat : Ent {
  explicit Feat(const std::string &c) : Ent(c) {}
  FeatureAbstract &f() {
    FeatureAbstract *a = dynamic_cast<FeatureAbstract *>(p.get());
    CHECK(a, "not a feature");
    return *a;
  }
};
struct In {
  Vec err, dot;
  bool hasDot = false;
  std::string name;
};
static void generic(pbt::Gen &g, const char *cls) {
  PoolStorage::destroy();
  Feat f(cls), r1("FeatureGeneric"), r2("FeatureTask"), other("Feature1D");
  Feat *refs[2] = {&r1, &r2};
  In in[2];
  int ref = -1, t = (int)g.integer(0, 3), n = (int)g.size(1, 7), cols = (int)g.size(1, 6);
  Vec err;
  Mat J;
  Sel sel;
  sel.tail = true;
  bool nt = false;
  auto setErr = [&]() { f.in<Vec>("errorIN", err = genVec(g, n)); LOG << " err=" << err.transpose(); };
  auto setJ = [&]() { f.in<Mat>("jacobianIN", J = genMat(g, n, cols)); LOG << " J"; };
  auto setRef = [&](int i) { refs[i]->in<Vec>("errorIN", in[i].err = genVec(g, n)); LOG << " ref" << i << "=" << in[i].err.transpose(); };
  auto setDot = [&](int i) { refs[i]->in<Vec>("errordotIN", in[i].dot = genVec(g, n)); in[i].hasDot = true; LOG << " dot" << i << "=" << in[i].dot.transpose(); };
  auto all = [&]() {
    setErr();
    setJ();
    for (int i = 0; i < 2; ++i) {
      setRef(i);
      if (in[i].hasDot || g.flip()) setDot(i);
    }
  };
  all();
  int N = (int)g.steps(1, 10);
  for (int k = 0; k < N; ++k) {
    int edits = (int)g.size(k ? 1 : 0, 3);
    bool reread = false;
    for (int q = 0; q < edits; ++q) switch (g.draw(8)) {
        case 0: setErr(); break;
        case 1: setJ(); break;
        case 2: setRef((int)g.draw(2)); break;
        case 3: setDot((int)g.draw(2)); break;
        case 4: sel = genSel(g, n); f.in<Flags>("selec", sel.flags()); LOG << " sel=" << sel.str(); break;
        case 5: {
          int x = (int)g.draw(4) - 1;
          LOG << " ref:=" << x;
          if (x < 0) { f.f().unsetReference(); ref = -1; }
          else if (x == 2) {
            f.call("setReference", {Value(other->getName())});  // not the same kind of feature: no reference
            ref = -1;
          } else {
            if (g.flip()) f.call("setReference", {Value(refs[x]->p->getName())});
            else f.f().setReference(&refs[x]->f());
            ref = x;
          }
          break;
        }
        case 6: n = (int)g.size(1, 7); LOG << " n=" << n; all(); break;
        case 7: if (ref >= 0) { refs[ref]->out<Vec>("error", t + 1); reread = true; } break;
      }
    (void)reread;
    t += (int)g.size(1, 3);
    CHECK(f.call("getReference").stringValue() == (ref < 0 ? std::string("none") : refs[ref]->p->getName()), "getReference");
    CHECK(f.f().isReferenceSet() == (ref >= 0), "isReferenceSet");
    int d = sel.count(n), first = (int)g.draw(4);
    Vec e = ref < 0 ? err : Vec(err - in[ref].err);
    Vec dot = ref >= 0 && in[ref].hasDot ? Vec(-in[ref].dot) : Vec(Vec::Zero(n));
    LOG << " @" << t;
    for (int q = 0; q < 4; ++q) switch ((first + q) % 4) {
        case 0: NEARM(f.out<Vec>("error", t), sel.rows(e, n), 1e-14); break;
        case 1: NEARM(f.out<Mat>("jacobian", t), sel.rows(J, n), 0); break;
        case 2: CHECK((int)f.out<unsigned>("dim", t) == d, "dim " << f.out<unsigned>("dim", t) << " expected " << d); break;
        case 3: NEARM(f.out<Vec>("errordot", t), sel.rows(dot, n), 0); break;
      }
    nt = nt || (k > 1 && d > 0 && d < n && ref >= 0);
  }
  g.nontrivial(nt);
}
PROP(generic_feature) { generic(g, "FeatureGeneric"); }
PROP(task_feature) { generic(g, "FeatureTask"); }
// a reference, a jacobian or a derivative that is too short for the selection is refused
PROP(sizes_refused) {
  PoolStorage::destroy();
  Feat f("FeatureGeneric"), r("FeatureGeneric");
  int n = (int)g.size(1, 7), m = (int)g.size(0, 9), c = 2;
  Sel sel = genSel(g, n);
  Vec err = genVec(g, n), des = genVec(g, m);
  Mat J = genMat(g, n, c);
  int what = (int)g.draw(3);
  LOG << "n=" << n << " m=" << m << " sel=" << sel.str() << " what=" << what;
  f.in<Flags>("selec", sel.flags());
  f.in<Vec>("errorIN", err);
  f.in<Mat>("jacobianIN", what == 1 ? genMat(g, m, c) : J);
  if (what != 1) f.f().setReference(&r.f());
  if (what == 0) r.in<Vec>("errorIN", des);
  if (what == 2) r.in<Vec>("errordotIN", des);
  bool bad = false;
  for (int i = m; i < n; ++i) bad = bad || sel(i);
  bool thrown = false;
  try {
    if (what == 0) {
      Vec o = f.out<Vec>("error", 1);
      if (!bad) { Vec p = Vec::Zero(n); p.head(std::min(n, m)) = des.head(std::min(n, m)); NEARM(o, sel.rows(Vec(err - p), n), 1e-14); }
    } else if (what == 1) f.out<Mat>("jacobian", 1);
    else {
      Vec o = f.out<Vec>("errordot", 1);
      if (!bad) { Vec p = Vec::Zero(n); p.head(std::min(n, m)) = des.head(std::min(n, m)); NEARM(o, sel.rows(Vec(-p), n), 0); }
    }
  } catch (ExceptionFeature &x) {
    thrown = true;
  }
  if (what == 2 && m > n) { CHECK(!thrown, "refused although long enough"); }
  else if (what != 2 || m <= n) CHECK(thrown == bad, (thrown ? "refused" : "accepted") << " a vector of " << m << " for " << n << " components");
  g.nontrivial(bad && m > 0);
}
PROP(one_dimensional) {
  PoolStorage::destroy();
  Feat f("Feature1D"), r("Feature1D");
  int t = 0, n = 1, cols = (int)g.size(1, 5);
  Vec err;
  Mat J;
  bool ref = false;
  double dot = 0;
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    bool rs = k == 0 || g.chance(1, 4);
    if (rs) n = (int)g.size(1, 6);
    if (rs || g.flip()) f.in<Vec>("errorIN", err = genVec(g, n));
    if (rs || g.flip()) f.in<Mat>("jacobianIN", J = genMat(g, n, cols));
    if (g.chance(1, 3)) {
      ref = g.flip();
      f.f().setReference(ref ? &r.f() : NULL);
    }
    bool setdot = g.flip() || (ref && dot == 0);
    if (setdot) r.f().errordotSIN = Vec::Constant(1, dot = 1 + g.real(0, 5));
    ++t;
    LOG << " err=" << err.transpose() << " ref=" << ref << " dot=" << dot;
    double e = 0;
    for (int i = 0; i < n; ++i) e += 0.5 * err(i) * err(i);
    Mat Jr = err.transpose() * J;
    int first = (int)g.draw(4);
    for (int q = 0; q < 4; ++q) switch ((first + q) % 4) {
        case 0: NEARM(f.out<Vec>("error", t), Vec::Constant(1, e), 1e-12); break;
        case 1: NEARM(f.out<Mat>("jacobian", t), Jr, 1e-12); break;
        case 2: CHECK(f.out<unsigned>("dim", t) == 1, "dim"); break;
        case 3: NEARM(f.f().getErrorDot().access(t), Vec::Constant(1, ref ? -dot : 0), 0); break;
      }
    g.nontrivial(k > 0 && n > 1);
  }
}
PROP(vector3) {
  PoolStorage::destroy();
  Feat f("FeatureVector3");
  int t = 0, cols = (int)g.size(1, 5);
  V3 v, des;
  Homo M;
  Mat Jq;
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    int must = (int)g.draw(4);
    if (k == 0 || must == 0 || g.chance(1, 4)) f.in<Vec>("vector", v = genV3(g));
    if (k == 0 || must == 1 || g.chance(1, 4)) f.in<Vec>("positionRef", des = genV3(g));
    if (k == 0 || must == 2 || g.chance(1, 4)) f.in<Homo>("position", M = genHomo(g));
    if (k == 0 || must == 3 || g.chance(1, 4)) f.in<Mat>("Jq", Jq = genMat(g, 6, cols));
    ++t;
    Rot R = M.matrix().block<3, 3>(0, 0);
    LOG << " v=" << v.transpose() << " des=" << des.transpose() << " R=" << R;
    bool ef = g.flip();
    if (ef) NEARM(f.out<Vec>("error", t), R * v - des, 1e-12);
    Mat J = f.out<Mat>("jacobian", t);
    if (!ef) NEARM(f.out<Vec>("error", t), R * v - des, 1e-12);
    CHECK(f.out<unsigned>("dim", t) == 3, "dim");
    // derivative of the error for a joint motion (body velocity of the frame)
    Vec qd = genVec(g, cols, 1);
    Vec nu = Jq * qd;
    double h = 1e-6;
    V3 w = nu.tail<3>();
    V3 fd = (R * expSO3(w * h) * v - R * expSO3(-w * h) * v) / (2 * h);
    CHECK((J * qd - fd).norm() <= 1e-6 * (1 + w.norm() * w.norm()) * (1 + v.norm()), "jacobian " << (J * qd).transpose() << " finite difference " << fd.transpose());
    g.nontrivial(k > 0);
  }
}
PROP(posture) {
  PoolStorage::destroy();
  Feat f("FeaturePosture");
  int n = (int)g.size(1, 9), t = (int)g.integer(0, 3);
  Vec q, p, pd;
  std::vector<bool> act(n, false);
  auto setAll = [&]() {
    f.in<Vec>("state", q = genVec(g, n));
    f.in<Vec>("posture", p = genVec(g, n));
    f.in<Vec>("postureDot", pd = genVec(g, n));
  };
  LOG << "n=" << n;
  setAll();
  int N = (int)g.steps(1, 10), sel = 0;
  for (int k = 0; k < N; ++k) {
    for (int e = 0, E = (int)g.size(1, 3); e < E; ++e) switch (g.draw(6)) {
        case 0: f.in<Vec>("state", q = genVec(g, n)); LOG << " state"; break;
        case 1: f.in<Vec>("posture", p = genVec(g, n)); LOG << " posture"; break;
        case 2: f.in<Vec>("postureDot", pd = genVec(g, n)); LOG << " dot"; break;
        case 3: {
          unsigned id = (unsigned)(n + g.draw(3));
          bool thrown = false;
          LOG << " bad dof " << id;
          try { f.call("selectDof", {Value(id), Value(true)}); } catch (ExceptionAbstract &) { thrown = true; }
          CHECK(thrown, "dof " << id << " of " << n << " accepted");
          break;
        }
        default: {
          unsigned id = (unsigned)g.draw(n);
          bool c = g.chance(2, 3);
          LOG << " select " << id << c;
          f.call("selectDof", {Value(id), Value(c)});
          act[id] = c;
          ++sel;
        }
      }
    t += (int)g.size(1, 3);
    LOG << " @" << t;
    int d = 0;
    for (bool b : act) d += b;
    Vec er(d), dr(d);
    Mat J = Mat::Zero(d, n);
    for (int i = 0, c = 0; i < n; ++i)
      if (act[i]) { er(c) = q(i) - p(i); dr(c) = -pd(i); J(c, i) = 1; ++c; }
    int first = (int)g.draw(4);
    for (int x = 0; x < 4; ++x) switch ((first + x) % 4) {
        case 0: NEARM(f.out<Vec>("error", t), er, 1e-14); break;
        case 1: if (sel) NEARM(f.out<Mat>("jacobian", t), J, 0); break;
        case 2: CHECK((int)f.out<unsigned>("dim", t) == d, "dim " << f.out<unsigned>("dim", t) << " expected " << d); break;
        case 3: NEARM(f.f().getErrorDot().access(t), dr, 0); break;
      }
    g.nontrivial(k > 0 && d > 0 && d < n);
  }
}
