// C29: visual point, joint limits, line distance, relative 6D point, projection of a point.
#define VERIF_WITH_FLAGS
#include <dynamic-graph/pool.h>
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static Rot rotOf(const Homo &h) { return h.matrix().block<3, 3>(0, 0); }
static V3 trOf(const Homo &h) { return h.matrix().block<3, 1>(0, 3); }
static Homo mul(const Homo &a, const Homo &b) { return mkHomo(rotOf(a) * rotOf(b), rotOf(a) * trOf(b) + trOf(a)); }
static Homo inv(const Homo &a) { return mkHomo(rotOf(a).transpose(), -(rotOf(a).transpose() * trOf(a))); }
static Homo moved(const Homo &M, const Vec &nu, double s) { return mul(M, mkHomo(expSO3(s * V3(nu.tail(3))), s * V3(nu.head(3)))); }
static FeatureAbstract &fa(Ent &e) { return dynamic_cast<FeatureAbstract &>(*e); }

PROP(visualPoint) {
  PoolStorage::destroy();
  Ent f("FeatureVisualPoint"), r0("FeatureVisualPoint"), r1("FeatureVisualPoint");
  Ent *refs[] = {&r0, &r1};
  Vec xy, des[2];
  double Z = 1;
  Mat J;
  Sel sel;
  sel.tail = true;
  int t = 0, ref = -1, cols = 1;
  bool again = false;
  for (int i = 0; i < 2; ++i) refs[i]->in<Vec>("xy", des[i] = genVec(g, 2, 2));
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    // (a signal that was refused is evaluated again when an input is set)
    if (k == 0 || again || g.chance(1, 3)) f.in<Vec>("xy", xy = genVec(g, 2, 2));
    again = false;
    if (k == 0 || g.chance(1, 3)) f.in<Mat>("Jq", J = genMat(g, 6, cols = (int)g.size(1, 5), 3));
    if (g.chance(1, 3)) f.in<double>("Z", Z = g.chance(1, 4) ? g.pick({0., -1., 1e-7, -1e-9, -20., 1e-5}) : g.real(0.1, 10));
    for (int i = 0; i < 2; ++i)
      if (g.chance(1, 4)) refs[i]->in<Vec>("xy", des[i] = genVec(g, 2, 2));
    if (g.chance(1, 2)) {
      ref = (int)g.integer(-1, 1);
      if (ref < 0) fa(f).unsetReference();
      else f.call("setReference", {Value((**refs[ref]).getName())});
      LOG << " ref=" << ref;
    }
    if (g.chance(1, 3)) {
      sel = genSel(g, 2);
      f.in<Flags>("selec", sel.flags());
      LOG << " sel" << sel.str();
    }
    LOG << " Z=" << Z << " @" << t;
    int n = sel.count(2);
    int first = (int)g.draw(3);
    for (int q = 0; q < 3; ++q) switch ((first + q) % 3) {
        case 0: {
          bool thrown = false;
          Vec e;
          try { e = f.out<Vec>("error", t); } catch (ExceptionFeature &x) { thrown = x.getCode() == ExceptionFeature::BAD_INIT; }
          again = again || thrown;
          CHECK(thrown == (ref < 0), "error " << (thrown ? "refused" : "computed") << " with reference " << ref);
          if (ref >= 0) NEARM(e, sel.rows(Vec(xy - des[ref]), 2), 1e-14);
          break;
        }
        case 1: {
          bool thrown = false;
          Mat j;
          try { j = f.out<Mat>("jacobian", t); } catch (ExceptionFeature &x) { thrown = x.getCode() == ExceptionFeature::BAD_INIT; }
          again = again || thrown;
          CHECK(thrown == (Z < 1e-6), "Jacobian " << (thrown ? "refused" : "computed") << " with Z=" << Z);
          if (thrown) break;
          CHECK(j.rows() == n && j.cols() == cols, "Jacobian " << j.rows() << "x" << j.cols());
          // the camera moves, the point stays: -v - w x P in the camera frame
          V3 P(xy(0) * Z, xy(1) * Z, Z);
          Mat L(2, 6);
          for (int c = 0; c < 6; ++c) {
            Vec nu = Vec::Zero(6);
            nu(c) = 1;
            V3 d = -V3(nu.head(3)) - V3(nu.tail(3)).cross(P);
            L(0, c) = d(0) / Z - P(0) * d(2) / (Z * Z);
            L(1, c) = d(1) / Z - P(1) * d(2) / (Z * Z);
          }
          NEARM(j, sel.rows(Mat(L * J), 2), 1e-9);
          break;
        }
        default: CHECK((int)f.out<unsigned>("dim", t) == n, "dim");
      }
    g.nontrivial(k > 0 && n > 0 && ref >= 0 && Z > 0 && Z != 1);
  }
}
PROP(jointLimits) {
  PoolStorage::destroy();
  Ent f("FeatureJointLimits");
  int n = 1, t = 0;
  Vec q, lo, up;
  Sel sel;
  sel.tail = true;
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    bool rs = k == 0 || g.chance(1, 6);
    if (rs) n = (int)g.size(1, 8);
    if (rs || g.chance(1, 3)) {
      lo = genVec(g, n, 3);
      f.in<Vec>("lowerJl", lo);
      up = lo;
      for (int i = 0; i < n; ++i) up(i) += g.chance(1, 6) ? g.pick({1e-4, -1e-4, 5e-4}) : g.real(0.01, 5);
      f.in<Vec>("upperJl", up);
    }
    if (rs || g.chance(1, 3)) {
      q = lo;
      for (int i = 0; i < n; ++i) q(i) += g.real(-0.2, 1.2) * (up(i) - lo(i));
      f.in<Vec>("joint", q);
    }
    if (g.chance(1, 8) && n > 0) {
      f.call("actuate");
      sel.b.assign(64, false);
      for (int i = 0; i < 6; ++i) sel.b[i] = false;
      sel.b.resize(6);
      sel.tail = true;
      LOG << " actuate";
    } else if (g.chance(1, 3)) {
      sel = genSel(g, n);
      f.in<Flags>("selec", sel.flags());
      LOG << " sel" << sel.str();
    }
    LOG << " n=" << n << " @" << t;
    int m = sel.count(n), first = (int)g.draw(3);
    Vec e(n), il(n);
    for (int i = 0; i < n; ++i) {
      double w = up(i) - lo(i);
      e(i) = 2 * (q(i) - 0.5 * (up(i) + lo(i))) / w;
      il(i) = std::fabs(w) > 1e-3 ? 1 / w : 1;
    }
    for (int c = 0; c < 3; ++c) switch ((first + c) % 3) {
        case 0: NEARM(f.out<Vec>("error", t), sel.rows(e, n), 1e-7); break;
        case 1: {
          Mat j = f.out<Mat>("jacobian", t);
          NEARM(j, sel.rows(Mat(il.asDiagonal()), n), 1e-12);
          break;
        }
        default: CHECK((int)f.out<unsigned>("dim", t) == m, "dim " << f.sig<unsigned>("dim").accessCopy() << " expected " << m);
      }
    g.nontrivial(k > 0 && m > 0 && m < n);
  }
}
// the coordinate of the gap between two lines along their common perpendicular u0 x u1
static double gap(const V3 &p0, const V3 &u0, const V3 &p1, const V3 &u1) {
  Rot A;
  A.col(0) = u0;
  A.col(1) = -u1;
  A.col(2) = u0.cross(u1);
  // p1 - p0 = a u0 - b u1 + h (u0 x u1)
  return V3(A.colPivHouseholderQr().solve(p1 - p0))(2);
}
PROP(lineDistance) {
  PoolStorage::destroy();
  Ent f("FeatureLineDistance");
  Homo M;
  Vec v, r;
  Mat J;
  int t = 0, cols = 1;
  for (int k = 0, N = (int)g.steps(1, 5); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (k == 0 || g.chance(1, 3)) f.in<Homo>("position", M = genHomo(g));
    if (k == 0 || g.chance(1, 3)) f.in<Vec>("vector", v = Vec(genAxis(g) * g.pick({1., 1., 0.5, 2.})));
    if (k == 0 || g.chance(1, 3)) {
      r = genVec(g, 6, 3);
      r.tail(3) = genAxis(g) * g.pick({1., 1., 0.5, 2.});
      f.in<Vec>("positionRef", r);
    }
    if (k == 0 || g.chance(1, 3)) f.in<Mat>("Jq", J = genMat(g, 6, cols = (int)g.size(1, 5), 2));
    if (g.chance(1, 4)) f.in<Flags>("selec", genSel(g, 1).flags());
    LOG << " @" << t;
    V3 p1 = r.head(3), u1 = r.tail(3);
    auto h = [&](const Homo &m) { return gap(trOf(m), rotOf(m) * V3(v), p1, u1); };
    double s = (rotOf(M) * V3(v)).cross(u1).norm();
    if (s < 0.2) continue;  // nearly parallel
    int first = (int)g.draw(4);
    for (int c = 0; c < 4; ++c) switch ((first + c) % 4) {
        case 0: {
          Vec e = f.out<Vec>("error", t);
          CHECK(e.size() == 1 && std::fabs(e(0) - h(M)) < 1e-8 * (1 + std::fabs(h(M))), "error " << e.transpose() << " expected " << h(M));
          break;
        }
        case 1: {
          Mat j = f.out<Mat>("jacobian", t);
          CHECK(j.rows() == 1 && j.cols() == cols, "Jacobian " << j.rows() << "x" << j.cols());
          for (int i = 0; i < cols; ++i) {
            double d = 1e-5, de = (h(moved(M, J.col(i), d)) - h(moved(M, J.col(i), -d))) / (2 * d);
            double scale = (1 + J.col(i).norm()) * (1 + (trOf(M) - p1).norm()) / std::pow(std::min(s, 1.), 4);
            CHECK(std::fabs(j(0, i) - de) < 1e-5 * scale, "Jacobian(" << i << ") = " << j(0, i) << ", the error changes at " << de);
          }
          break;
        }
        case 2: {
          Vec l(6);
          l << trOf(M), rotOf(M) * V3(v);
          NEARM(f.out<Vec>("line", t), l, 1e-12);
          break;
        }
        default: CHECK(f.out<unsigned>("dim", t) == 1, "dim");
      }
    g.nontrivial(k > 0);
  }
}
PROP(relative) {
  PoolStorage::destroy();
  Ent f("FeaturePoint6dRelative"), rel("FeaturePoint6dRelative"), abs("FeaturePoint6d");
  Homo p, q, dp = mkHomo(Rot::Identity(), V3::Zero()), dq = dp, da = dp;
  rel.in<Homo>("position", dp);
  rel.in<Homo>("positionRef", dq);
  abs.in<Homo>("position", da);
  Mat Jp, Jq;
  int t = 0, ref = 0, cols = 1;  // 0 none, 1 absolute, 2 relative
  Sel sel;
  sel.tail = true;
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (k == 0 || g.chance(1, 3)) f.in<Homo>("position", p = genHomo(g));
    if (k == 0 || g.chance(1, 3)) f.in<Homo>("positionRef", q = genHomo(g));
    if (k == 0 || g.chance(1, 3)) {
      cols = (int)g.size(1, 5);
      f.in<Mat>("Jq", Jp = genMat(g, 6, cols, 2));
      f.in<Mat>("JqRef", Jq = genMat(g, 6, cols, 2));
    }
    if (g.chance(1, 3)) rel.in<Homo>("position", dp = genHomo(g));
    if (g.chance(1, 3)) rel.in<Homo>("positionRef", dq = genHomo(g));
    if (g.chance(1, 3)) abs.in<Homo>("position", da = genHomo(g));
    if (g.chance(1, 2)) {
      ref = (int)g.draw(4);
      LOG << " ref=" << ref;
      if (ref == 0) fa(f).unsetReference();
      else if (ref < 3) f.call("setReference", {Value(ref == 1 ? abs->getName() : rel->getName())});
      else {
        f.call("initSdes", {Value(rel->getName())});
        dp = p;
        dq = q;
        ref = 2;
        t += 2;
      }
    }
    if (g.chance(1, 3)) {
      sel = genSel(g, 6);
      f.in<Flags>("selec", sel.flags());
    }
    t = std::max(t, f.sig<Homo>("position").getTime() + 1);
    LOG << " sel" << sel.str() << " @" << t;
    Homo des = ref == 0 ? mkHomo(Rot::Identity(), V3::Zero()) : ref == 1 ? da : mul(inv(dp), dq);
    Homo E = mul(mul(inv(p), q), inv(des));
    int n = sel.count(6), first = (int)g.draw(3);
    for (int c = 0; c < 3; ++c) switch ((first + c) % 3) {
        case 0: {
          Vec e = f.out<Vec>("error", t);
          CHECK(e.size() == n, "error of size " << e.size());
          Vec full(6);
          full.head(3) = trOf(E);
          for (int i = 0, m = 0; i < 6; ++i) {
            if (!sel(i)) continue;
            if (i < 3) CHECK(pbt::near(e(m), full(i), 1e-9), "error(" << i << ") = " << e(m) << " expected " << full(i));
            m++;
          }
          if (sel(3) && sel(4) && sel(5)) {
            V3 w = e.tail(3);
            CHECK(w.norm() < M_PI + 1e-6, "angle " << w.norm());
            NEARM(expSO3(w), rotOf(E), 1e-6);
          }
          break;
        }
        case 1: {
          Mat j = f.out<Mat>("jacobian", t);
          CHECK(j.rows() == n && j.cols() == cols, "Jacobian " << j.rows() << "x" << j.cols());
          // velocity of the relative pose
          for (int i = 0; i < cols; ++i) {
            double d = 1e-5;
            Homo a = mul(inv(moved(p, Jp.col(i), d)), moved(q, Jq.col(i), d)), b = mul(inv(moved(p, Jp.col(i), -d)), moved(q, Jq.col(i), -d));
            Homo X = mul(a, inv(b));
            Rot S = (rotOf(X) - rotOf(X).transpose()) / 2;
            Vec tw(6);
            tw << (trOf(X) - trOf(inv(X))) / (4 * d), S(2, 1) / (2 * d), S(0, 2) / (2 * d), S(1, 0) / (2 * d);
            Vec ref6 = sel.rows(tw, 6);
            double scale = (1 + Jp.col(i).norm() + Jq.col(i).norm()) * (1 + trOf(p).norm() + trOf(q).norm());
            for (int r = 0; r < n; ++r) CHECK(std::fabs(j(r, i) - ref6(r)) < 1e-5 * scale, "Jacobian(" << r << "," << i << ") = " << j(r, i) << ", the relative pose moves at " << ref6(r));
          }
          break;
        }
        default: CHECK((int)f.out<unsigned>("dim", t) == n, "dim");
      }
    g.nontrivial(k > 0 && n > 0 && ref == 2);
  }
}
PROP(projecter) {
  Ent f("VisualPointProjecter");
  int t = 0;
  Vec p;
  Homo M;
  for (int k = 0, N = (int)g.steps(1, 5); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (k == 0 || g.flip()) f.in<Homo>("transfo", M = genHomo(g));
    V3 local(g.real(-3, 3), g.real(-3, 3), g.real(0.1, 5));
    V3 w = rotOf(M) * local + trOf(M);
    f.in<Vec>("point3D", p = Vec(w));
    LOG << " " << local.transpose() << " @" << t;
    int first = (int)g.draw(3);
    for (int c = 0; c < 3; ++c) switch ((first + c) % 3) {
        case 0: NEARM(f.out<Vec>("point3Dgaze", t), Vec(local), 1e-10); break;
        case 1: CHECK(pbt::near(f.out<double>("depth", t), local(2), 1e-10), "depth"); break;
        default: NEARM(f.out<Vec>("point2D", t), Vec(local.head(2) / local(2)), 1e-8);
      }
    g.nontrivial(k > 0);
  }
}
