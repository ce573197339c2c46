// C27: 6D point feature.
#define VERIF_WITH_FLAGS
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static Rot rotOf(const Homo &h) { return h.matrix().block<3, 3>(0, 0); }
static V3 trOf(const Homo &h) { return h.matrix().block<3, 1>(0, 3); }
static Homo mul(const Homo &a, const Homo &b) { return mkHomo(rotOf(a) * rotOf(b), rotOf(a) * trOf(b) + trOf(a)); }
static Homo inv(const Homo &a) { return mkHomo(rotOf(a).transpose(), -(rotOf(a).transpose() * trOf(a))); }
// the angle of a rotation, accurate near 0 and pi
static double angleOf(const Rot &R) {
  V3 s(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  return std::atan2(s.norm(), R.trace() - 1);
}
struct P6 {
  Ent f;
  std::vector<std::unique_ptr<Ent>> refs;
  P6() : f("FeaturePoint6d") {}
  FeatureAbstract &fa(Ent &e) { return dynamic_cast<FeatureAbstract &>(*e); }
};
// error of a fresh feature
static Vec probe(Ent &f, Ent &r, bool withRef, const Homo &M, const Homo &D, int &t) {
  f.in<Homo>("position", M);
  if (withRef) r.in<Homo>("position", D);
  return f.out<Vec>("error", ++t);
}
PROP(point6d) {
  PoolStorage::destroy();
  P6 p;
  Ent &f = p.f;
  for (int i = 0; i < 2; ++i) {
    p.refs.emplace_back(new Ent("FeaturePoint6d"));
    p.refs[i]->in<Homo>("position", Homo(Homo::Identity()));
  }
  std::vector<Homo> D(2, Homo(Homo::Identity()));
  std::vector<Vec> vel(2, Vec(Vec::Zero(6)));
  p.refs[0]->in<Vec>("velocity", vel[0]);
  p.refs[1]->in<Vec>("velocity", vel[1]);
  Ent pf("FeaturePoint6d"), pr("FeaturePoint6d"), pn("FeaturePoint6d");
  p.fa(pf).setReference(&p.fa(pr));
  int ref = -1, t = 0, pt = 0, cols = 1;
  std::string frame = "desired";
  CHECK(f.call("getFrame").stringValue() == frame, "default frame " << f.call("getFrame").stringValue());
  Homo M;
  Mat J;
  Sel sel;
  sel.tail = true;
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (k == 0 || g.chance(1, 3)) f.in<Homo>("position", M = genHomo(g));
    if (k == 0 || g.chance(1, 3)) f.in<Mat>("Jq", J = genMat(g, 6, cols = (int)g.size(1, 5), 3));
    if (g.chance(1, 2)) {
      int r = (int)g.integer(-1, 1);
      if (r != ref) LOG << " ref=" << r;
      if (r < 0) p.fa(f).unsetReference();
      else if (g.flip()) f.call("setReference", {Value((*p.refs[r])->getName())});
      else p.fa(f).setReference(&p.fa(*p.refs[r]));
      ref = r;
    }
    for (int r = 0; r < 2; ++r) {
      if (g.chance(1, 2)) {
        switch (g.draw(4)) {
          case 0: D[r] = genHomo(g); break;
          case 1: D[r] = M; break;
          case 2: D[r] = mul(M, mkHomo(rodrigues(genAxis(g), g.pick({1e-9, 1e-5, 1e-3, 0.1})), genV3(g, 1))); break;
          default: D[r] = mkHomo(rotOf(M), trOf(D[r]));
        }
        p.refs[r]->in<Homo>("position", D[r]);
      }
      if (g.chance(1, 3)) p.refs[r]->in<Vec>("velocity", vel[r] = genVec(g, 6, 3));
    }
    if (g.chance(1, 3)) {
      frame = g.flip() ? "current" : "desired";
      f.call("frame", {Value(frame)});
      LOG << " " << frame;
    }
    if (g.chance(1, 6)) {
      bool thrown = false;
      try { f.call("frame", {Value(g.pick({std::string("world"), std::string(""), std::string("Current")}))}); } catch (ExceptionFeature &) { thrown = true; }
      CHECK(thrown, "unknown frame accepted");
      CHECK(f.call("getFrame").stringValue() == frame, "a refused frame was set");
    }
    if (g.chance(1, 3)) {
      sel = genSel(g, 6);
      f.in<Flags>("selec", sel.flags());
      LOG << " sel" << sel.str();
    }
    if (g.chance(1, 8)) {  // keep the current position
      bool thrown = false;
      f.sig<Homo>("position").access(t);
      try { f.call("keep"); } catch (ExceptionFeature &) { thrown = true; }
      CHECK(thrown == (ref < 0), "keep " << (thrown ? "refused" : "accepted") << " with reference " << ref);
      if (ref >= 0) D[ref] = M;
      LOG << " keep";
    }
    LOG << " @" << t;
    const Homo Dr = ref < 0 ? Homo(Homo::Identity()) : D[ref];
    bool cur = frame == "current";
    Homo E = cur ? mul(inv(M), Dr) : mul(inv(Dr), M);
    Rot Q = rotOf(E);
    double ang = angleOf(Q);
    bool near_pi = ang > M_PI - 1e-3;
    int first = (int)g.draw(4);
    int n = sel.count(6);
    // the complete error and Jacobian, from a feature with every component
    Ent &pe = ref < 0 ? pn : pf;
    pe.call("frame", {Value(frame)});
    Vec full = probe(pe, pr, ref >= 0, M, Dr, pt);
    CHECK(full.size() == 6, "complete error of size " << full.size());
    for (int q = 0; q < 4; ++q) switch ((first + q) % 4) {
        case 0: {
          Vec e = f.out<Vec>("error", t);
          CHECK(e.size() == n, "error of size " << e.size() << " for " << n << " selected components");
          NEARM(e, sel.rows(full, 6), 1e-12);
          for (int i = 0; i < 3; ++i) CHECK(pbt::near(full(i), E.matrix()(i, 3), 1e-10), "translation error " << full.head(3).transpose() << " expected " << trOf(E).transpose());
          V3 w = full.tail(3);
          CHECK(w.norm() < M_PI + 1e-6, "angle " << w.norm());
          CHECK(near_pi || std::fabs(w.norm() - ang) < 1e-7, "angle " << w.norm() << " expected " << ang);
          NEARM(expSO3(w), Q, 1e-7);
          break;
        }
        case 1: {
          Mat j = f.out<Mat>("jacobian", t);
          CHECK(j.rows() == n && j.cols() == cols, "Jacobian " << j.rows() << "x" << j.cols());
          Mat L = Mat::Zero(6, 6);
          if (cur) {
            L.block<3, 3>(0, 0) = -Rot::Identity();
            L.block<3, 3>(0, 3) = skew(trOf(E));
            L.block<3, 3>(3, 3) = -(rotOf(Dr).transpose() * rotOf(M));
          } else {
            L.block<3, 3>(0, 0) = L.block<3, 3>(3, 3) = rotOf(Dr).transpose() * rotOf(M);
          }
          NEARM(j, sel.rows(Mat(L * J), 6), 1e-10);
          // derivative of the error along a joint motion: exact for the translation and the angle
          Vec qd = genVec(g, cols, 1), nu = J * qd;
          double h = 1e-6;
          V3 v = nu.head(3), om = nu.tail(3);
          auto moved = [&](double s) { return mul(M, mkHomo(expSO3(s * om), s * v)); };
          Vec a = probe(pe, pr, ref >= 0, moved(h), Dr, pt), b = probe(pe, pr, ref >= 0, moved(-h), Dr, pt);
          Vec de = (a - b) / (2 * h);
          double scale = 1 + nu.norm() * (1 + trOf(E).norm());
          Vec lin = L * nu;
          for (int i = 0; i < 3; ++i)
            if (sel(i)) CHECK(std::fabs(de(i) - lin(i)) < 1e-5 * scale, "d(error)/dt(" << i << ") = " << de(i) << " Jacobian gives " << lin(i));
          if (ang > 1e-2 && ang < M_PI - 1e-2) {
            V3 u = full.tail(3) / full.tail(3).norm();
            CHECK(std::fabs(u.dot(V3(de.tail(3))) - u.dot(V3(lin.tail(3)))) < 1e-4 * scale, "d(angle)/dt " << u.dot(V3(de.tail(3))) << " Jacobian gives " << u.dot(V3(lin.tail(3))));
          } else if (ang < 1e-7) {
            CHECK((de - lin).norm() < 1e-4 * scale, "d(error)/dt at the desired orientation " << de.transpose() << " Jacobian gives " << lin.transpose());
          }
          break;
        }
        case 2: {
          Vec ed = f.out<Vec>("errordot", t);
          CHECK(ed.size() == n, "errordot of size " << ed.size());
          if (ref < 0) {
            NEARM(ed, Vec::Zero(n), 0);
            break;
          }
          if (near_pi) break;
          // motion of the reference
          double h = 1e-6;
          V3 v = vel[ref].head(3), om = vel[ref].tail(3);
          auto moved = [&](double s) { return mkHomo(expSO3(s * om) * rotOf(Dr), trOf(Dr) + s * v); };
          Vec a = probe(pe, pr, true, M, moved(h), pt), b = probe(pe, pr, true, M, moved(-h), pt);
          Vec de = sel.rows(Vec((a - b) / (2 * h)), 6);
          double scale = 1 + vel[ref].norm() * (1 + trOf(E).norm());
          for (int i = 0; i < n; ++i) CHECK(std::fabs(de(i) - ed(i)) < 2e-4 * scale, "errordot(" << i << ") = " << ed(i) << ", the error changes at " << de(i));
          break;
        }
        default: CHECK((int)f.out<unsigned>("dim", t) == n, "dim"); break;
      }
    g.nontrivial(k > 0 && n > 0 && ang > 1e-3 && ref >= 0);
  }
}
