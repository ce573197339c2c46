// C28: relative pose feature.
#define VERIF_WITH_FLAGS
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
typedef Eigen::Matrix<double, 7, 1> V7;
static Rot rotOf(const Homo &h) { return h.matrix().block<3, 3>(0, 0); }
static V3 trOf(const Homo &h) { return h.matrix().block<3, 1>(0, 3); }
static Homo mul(const Homo &a, const Homo &b) { return mkHomo(rotOf(a) * rotOf(b), rotOf(a) * trOf(b) + trOf(a)); }
static Homo inv(const Homo &a) { return mkHomo(rotOf(a).transpose(), -(rotOf(a).transpose() * trOf(a))); }
static double angleOf(const Rot &R) {
  V3 s(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  return std::atan2(s.norm(), R.trace() - 1);
}
// exponential of a twist (v, w), the series summed after halving
static Homo expSE3(const Vec &nu) {
  Eigen::Matrix4d A = Eigen::Matrix4d::Zero(), X = Eigen::Matrix4d::Identity(), T = X;
  A.block<3, 3>(0, 0) = skew(nu.tail(3));
  A.block<3, 1>(0, 3) = nu.head(3);
  int s = 6;
  A /= 1 << s;
  for (int i = 1; i < 16; ++i) {
    T = T * A / i;
    X += T;
  }
  for (int i = 0; i < s; ++i) X = X * X;
  Homo h;
  h.matrix() = X;
  return h;
}
struct In {
  Homo oMja, jaMfa, oMjb, jbMfb, des;
  Homo fa() const { return mul(oMja, jaMfa); }
  Homo rel() const { return mul(inv(fa()), mul(oMjb, jbMfb)); }
  void give(Ent &f) const {
    f.in<Homo>("oMja", oMja);
    f.in<Homo>("jaMfa", jaMfa);
    f.in<Homo>("oMjb", oMjb);
    f.in<Homo>("jbMfb", jbMfb);
    f.in<Homo>("faMfbDes", des);
  }
};
static void pose(pbt::Gen &g, bool se3) {
  PoolStorage::destroy();
  Ent f(se3 ? "FeaturePoseSE3" : "FeaturePose"), pf(se3 ? "FeaturePoseSE3" : "FeaturePose");
  In in;
  in.oMja = in.jaMfa = in.oMjb = in.jbMfb = in.des = mkHomo(Rot::Identity(), V3::Zero());
  Vec nuDes = Vec::Zero(6);
  Mat Ja, Jb;
  bool hasJa = false;
  int t = 0, pt = 0, cols = 1;
  Sel sel;
  sel.tail = true;
  const char *names[] = {"oMja", "jaMfa", "oMjb", "jbMfb", "faMfbDes"};
  Homo *vals[] = {&in.oMja, &in.jaMfa, &in.oMjb, &in.jbMfb, &in.des};
  auto probe = [&](const In &i) {
    i.give(pf);
    return pf.out<Vec>("error", ++pt);
  };
  for (int k = 0, N = (int)g.steps(1, 5); k < N; ++k) {
    t += (int)g.size(1, 3);
    // the Jacobian of A and the desired velocity are optional
    bool noVel = g.chance(1, 10), noJa = g.chance(1, 10);
    for (int q = 0; q < 5; ++q)
      if (((k == 0 || noVel || noJa) && q == 2) || g.chance(1, 3)) {
        *vals[q] = genHomo(g, 3);
        if (q == 4) switch (g.draw(4)) {
            case 0: in.des = in.rel(); break;
            case 1: in.des = mul(in.rel(), mkHomo(rodrigues(genAxis(g), g.pick({1e-9, 1e-5, 1e-3, 0.1, 1.})), genV3(g, 1))); break;
            case 2: in.des = mul(in.rel(), mkHomo(rodrigues(genAxis(g), g.pick({0., 0.5, 2., 3.})), V3::Zero())); break;
            default: break;
          }
        f.in<Homo>(names[q], *vals[q]);
        LOG << " " << names[q];
      }
    if (k == 0 || g.chance(1, 4)) {
      cols = (int)g.size(1, 5);
      f.in<Mat>("jbJjb", Jb = genMat(g, 6, cols, 3));
      if (hasJa || (!noJa && g.flip())) {
        f.in<Mat>("jaJja", Ja = genMat(g, 6, cols, 3));
        hasJa = true;
        LOG << " Ja";
      }
    }
    if (noJa) {
      f.unplug("jaJja");
      hasJa = false;
      LOG << " no Ja";
    }
    if (noVel) {
      f.unplug("faNufafbDes");
      nuDes = Vec::Zero(6);
      LOG << " no velocity";
    } else if (g.chance(1, 3)) f.in<Vec>("faNufafbDes", nuDes = genVec(g, 6, 3));
    if (g.chance(1, 3)) {
      sel = genSel(g, 6);
      f.in<Flags>("selec", sel.flags());
      LOG << " sel" << sel.str();
    }
    if (g.chance(1, 8)) {
      f.call("keep", {Value(t)});
      in.des = in.rel();
      LOG << " keep";
    }
    LOG << " @" << t;
    int n = sel.count(6);
    Homo rel = in.rel();
    Homo E = mul(inv(in.des), rel);
    double ang = angleOf(rotOf(E));
    bool near_pi = ang > M_PI - 1e-2;
    double far = 1 + trOf(rel).norm() + trOf(in.des).norm() + trOf(in.oMja).norm() + trOf(in.jaMfa).norm();
    Vec full = probe(in);
    CHECK(full.size() == 6, "complete error of size " << full.size());
    int first = (int)g.draw(6);
    for (int q = 0; q < 6; ++q) switch ((first + q) % 6) {
        case 0: {
          Vec e = f.out<Vec>("error", t);
          CHECK(e.size() == n, "error of size " << e.size() << " for " << n << " components");
          if (near_pi && se3) break;
          Vec e6 = sel.rows(full, 6);
          if (!near_pi) NEARM(e, e6, 1e-8);
          V3 w = full.tail(3);
          CHECK(w.norm() < M_PI + 1e-6, "angle " << w.norm());
          CHECK(near_pi || std::fabs(w.norm() - ang) < 1e-6, "angle " << w.norm() << " expected " << ang);
          if (se3) {
            NEARM(expSE3(full).matrix(), E.matrix(), 1e-5 * far);
          } else {
            NEARM(full.head(3), trOf(rel) - trOf(in.des), 1e-10 * far);
            NEARM(expSO3(w), rotOf(E), near_pi ? 1e-4 : 1e-6);
          }
          break;
        }
        case 1: {
          Mat j = f.out<Mat>("jacobian", t);
          CHECK(j.rows() == n && j.cols() == cols, "Jacobian " << j.rows() << "x" << j.cols());
          if (near_pi) break;
          Vec qd = genVec(g, cols, 1);
          double h = 1e-6;
          auto moved = [&](double s) {
            In m = in;
            m.oMjb = mul(in.oMjb, expSE3(s * (Jb * qd)));
            if (hasJa) m.oMja = mul(in.oMja, expSE3(s * (Ja * qd)));
            return probe(m);
          };
          Vec de = sel.rows(Vec((moved(h) - moved(-h)) / (2 * h)), 6), lin = j * qd;
          double scale = (1 + (Jb * qd).norm() + (hasJa ? (Ja * qd).norm() : 0)) * far * far / (M_PI - ang);
          for (int i = 0; i < n; ++i) CHECK(std::fabs(de(i) - lin(i)) < 1e-5 * scale, "d(error)/dt(" << i << ") = " << de(i) << " Jacobian gives " << lin(i));
          break;
        }
        case 2: {
          Vec ed = f.out<Vec>("errordot", t);
          CHECK(ed.size() == n, "errordot of size " << ed.size());
          if (near_pi) break;
          // -errordot: how the error changes when B moves with the requested velocity, given in A
          double h = 1e-6;
          auto moved = [&](double s) {
            In m = in;
            m.oMjb = mul(mul(in.fa(), mul(expSE3(s * nuDes), rel)), inv(in.jbMfb));
            return probe(m);
          };
          Vec de = sel.rows(Vec((moved(h) - moved(-h)) / (2 * h)), 6);
          double scale = (1 + nuDes.norm()) * far * far / (M_PI - ang);
          for (int i = 0; i < n; ++i) CHECK(std::fabs(de(i) + ed(i)) < 1e-5 * scale, "-errordot(" << i << ") = " << -ed(i) << ", moving at this velocity changes the error by " << de(i));
          break;
        }
        case 3: NEARM(f.out<Homo>("faMfb", t).matrix(), rel.matrix(), 1e-10 * far); break;
        case 4: CHECK((int)f.out<unsigned>("dim", t) == n, "dim"); break;
        default: break;
      }
    g.nontrivial(k > 0 && n > 0 && ang > 1e-3 && hasJa);
  }
}
PROP(r3xso3) { pose(g, false); }
PROP(se3) { pose(g, true); }
