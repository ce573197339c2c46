// C09: every pose/rotation conversion denotes the same rigid motion.
#include "ent.hpp"
using namespace dynamicgraph::sot;
static const double TOL = 1e-8;

struct Pose {
  Rot R;
  V3 t;
};
static void checkRot(const Rot &R, const char *what) {
  CHECK(pbt::nearM(Rot(R.transpose() * R), Rot(Rot::Identity()), TOL), what << ": not orthonormal\n" << R);
  CHECK(pbt::near(R.determinant(), 1, TOL), what << ": determinant " << R.determinant());
}
static void same(const Rot &R, const Rot &e, const char *what) {
  CHECK(pbt::nearM(R, e, TOL), what << ": rotation\n" << R << "\nexpected\n" << e);
}
static void sameT(const V3 &t, const V3 &e, const char *what) {
  CHECK(pbt::nearM(t, e, TOL), what << ": translation " << t.transpose() << " expected " << e.transpose());
}
enum Kind { H, HM, PU, PQ, PR, S12, RM, RPY, QU, UT, NK };
static const char *kname[] = {"homo", "matrix4", "poseUTheta", "poseQuat", "poseRPY", "SE3vector", "rotation", "rpy", "quaternion", "utheta"};
struct Rep {
  Kind k;
  Homo h;
  Mat m;
  Vec v;
  Rot r;
  VectorRollPitchYaw rpy;
  VectorQuaternion q;
  VectorUTheta u;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
// what a representation denotes, by the textbook formulas
static void denotes(const Rep &x, const Pose &p, const char *what) {
  bool tr = true;
  Rot R;
  V3 t = V3::Zero();
  switch (x.k) {
    case H:
      R = x.h.matrix().block<3, 3>(0, 0);
      t = x.h.matrix().block<3, 1>(0, 3);
      CHECK(x.h.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), what << ": last row " << x.h.matrix().row(3));
      break;
    case HM:
      CHECK(x.m.rows() == 4 && x.m.cols() == 4, what << ": size");
      R = x.m.block<3, 3>(0, 0);
      t = x.m.block<3, 1>(0, 3);
      CHECK(x.m.row(3) == Eigen::RowVector4d(0, 0, 0, 1), what << ": last row");
      break;
    case PU: CHECK(x.v.size() == 6, what << ": size"); t = x.v.head(3); R = expSO3(x.v.tail(3)); break;
    case PQ:
      CHECK(x.v.size() == 7, what << ": size");
      t = x.v.head(3);
      CHECK(pbt::near(x.v.tail(4).norm(), 1, TOL), what << ": quaternion norm " << x.v.tail(4).norm());
      R = quatRot(x.v(6), x.v(3), x.v(4), x.v(5));
      break;
    case PR: CHECK(x.v.size() == 6, what << ": size"); t = x.v.head(3); R = rpyRot(x.v(3), x.v(4), x.v(5)); break;
    case S12:
      CHECK(x.v.size() == 12, what << ": size");
      t = x.v.head(3);
      for (int i = 0; i < 3; ++i) R.row(i) = x.v.segment(3 + 3 * i, 3);
      break;
    case RM: tr = false; R = x.r; break;
    case RPY: tr = false; R = rpyRot(x.rpy(0), x.rpy(1), x.rpy(2)); break;
    case QU:
      tr = false;
      CHECK(pbt::near(x.q.norm(), 1, TOL), what << ": quaternion norm " << x.q.norm());
      R = quatRot(x.q.w(), x.q.x(), x.q.y(), x.q.z());
      break;
    default: tr = false; R = rodrigues(x.u.axis(), x.u.angle()); break;
  }
  checkRot(R, what);
  same(R, p.R, what);
  if (tr) sameT(t, p.t, what);
}
struct Edge {
  Kind from, to;
  const char *cls;
};
static const Edge edges[] = {{H, PU, "MatrixHomoToPoseUTheta"}, {PU, H, "PoseUThetaToMatrixHomo"}, {H, S12, "MatrixHomoToSE3Vector"},
  {S12, H, "SE3VectorToMatrixHomo"}, {H, PQ, "MatrixHomoToPoseQuaternion"}, {PQ, H, "PoseQuaternionToMatrixHomo"},
  {H, PR, "MatrixHomoToPoseRollPitchYaw"}, {PR, H, "PoseRollPitchYawToMatrixHomo"}, {PR, PU, "PoseRollPitchYawToPoseUTheta"},
  {H, HM, "HomoToMatrix"}, {HM, H, "MatrixToHomo"}, {H, RM, "HomoToRotation"}, {RPY, RM, "RPYToMatrix"}, {RM, RPY, "MatrixToRPY"},
  {RPY, QU, "RPYToQuaternion"}, {QU, RPY, "QuaternionToRPY"}, {QU, RM, "QuaternionToMatrix"}, {RM, QU, "MatrixToQuaternion"},
  {RM, UT, "MatrixToUTheta"}, {UT, QU, "UThetaToQuaternion"}, {RM, H, "Compose_R_and_T"}};
static void fill(const Rep &x, Ent &e, const V3 &t) {
  switch (x.k) {
    case H: e.in<Homo>("sin", x.h); break;
    case HM: e.in<Mat>("sin", x.m); break;
    case RM: e.in<Rot>("sin", x.r); break;
    case RPY: e.in<VectorRollPitchYaw>("sin", x.rpy); break;
    case QU: e.in<VectorQuaternion>("sin", x.q); break;
    case UT: e.in<VectorUTheta>("sin", x.u); break;
    default: e.in<Vec>("sin", x.v);
  }
}
static void read(Ent &e, Rep &y, int t) {
  switch (y.k) {
    case H: y.h = e.out<Homo>("sout", t); break;
    case HM: y.m = e.out<Mat>("sout", t); break;
    case RM: y.r = e.out<Rot>("sout", t); break;
    case RPY: y.rpy = e.out<VectorRollPitchYaw>("sout", t); break;
    case QU: y.q = e.out<VectorQuaternion>("sout", t); break;
    case UT: y.u = e.out<VectorUTheta>("sout", t); break;
    default: y.v = e.out<Vec>("sout", t);
  }
}
static void start(pbt::Gen &g, Rep &x, Pose &p) {
  x.k = (Kind)g.draw(NK);
  p.t = genV3(g);
  switch (x.k) {
    case PU: {
      V3 w = genAxis(g) * (g.chance(1, 4) ? g.real(0, 20) : genAngle(g));
      if (g.chance(1, 8)) w.setZero();
      p.R = expSO3(w);
      x.v.resize(6);
      x.v << p.t, w;
      break;
    }
    case PR:
    case RPY: {
      V3 r(genAngle(g), genAngle(g), genAngle(g));
      if (g.chance(1, 4)) r(1) = (g.flip() ? 1 : -1) * M_PI / 2;
      if (g.chance(1, 4)) r *= 3;
      p.R = rpyRot(r(0), r(1), r(2));
      x.rpy = r;
      x.v.resize(6);
      x.v << p.t, r;
      break;
    }
    case UT: {
      V3 u = genAxis(g);
      double a = g.chance(1, 4) ? g.real(-20, 20) : genAngle(g);
      p.R = rodrigues(u, a);
      x.u = VectorUTheta(a, u);
      break;
    }
    case PQ:
    case QU: {
      Eigen::Vector4d q;
      if (g.flip()) {
        double a = genAngle(g);
        q << std::cos(a / 2), std::sin(a / 2) * genAxis(g);
      } else {
        q << g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1);
        if (q.norm() < 1e-3) q << 1, 0, 0, 0;
      }
      if (g.flip()) q = -q;
      q /= q.norm();
      p.R = quatRot(q(0), q(1), q(2), q(3));
      x.q = VectorQuaternion(q(0), q(1), q(2), q(3));
      x.v.resize(7);
      x.v << p.t, q(1), q(2), q(3), q(0);
      break;
    }
    default:
      p.R = genRot(g);
      x.r = p.R;
      x.h = mkHomo(p.R, p.t);
      x.m = x.h.matrix();
      x.v.resize(12);
      x.v << p.t, p.R.row(0).transpose(), p.R.row(1).transpose(), p.R.row(2).transpose();
  }
}
PROPW(chains, 4) {
  Pose p;
  Rep x;
  start(g, x, p);
  LOG << kname[x.k] << " R=[" << p.R.row(0) << ";" << p.R.row(1) << ";" << p.R.row(2) << "] t=" << p.t.transpose();
  size_t n = g.size(1, 8);
  for (size_t i = 0; i < n; ++i) {
    std::vector<const Edge *> es;
    for (const Edge &e : edges)
      if (e.from == x.k) es.push_back(&e);
    const Edge *e = g.pick(es);
    LOG << " -> " << e->cls;
    Ent en(e->cls);
    if (std::string(e->cls) == "Compose_R_and_T") {
      p.t = genV3(g);
      en.in<Mat>("sin1", Mat(x.r));
      en.in<Vec>("sin2", Vec(p.t));
    } else
      fill(x, en, p.t);
    Rep y;
    y.k = e->to;
    read(en, y, (int)i + 1);
    denotes(y, p, e->cls);
    x = y;
  }
  g.nontrivial(n > 1 && !pbt::nearM(p.R, Rot(Rot::Identity()), 1e-3));
}
PROP(twist) {
  Homo a = genHomo(g), b = genHomo(g);
  LOG << "A=\n" << a.matrix() << "\nB=\n" << b.matrix();
  Twist ta, tb, tab, tai;
  buildFrom(a, ta);
  buildFrom(b, tb);
  NEARM(ta, twistOf(a), TOL);
  Ent inv("Inverse_of_matrixHomo"), mul("Multiply_of_matrixHomo"), tw("HomoToTwist"), tw2("HomoToTwist"), tinv("Inverse_of_matrixtwist"),
      tmul("Multiply_of_matrixtwist");
  inv.in<Homo>("sin", a);
  Homo ai = inv.out<Homo>("sout", 1);
  NEARM((ai.matrix() * a.matrix()).eval(), Eigen::Matrix4d(Eigen::Matrix4d::Identity()), TOL);
  mul.in<Homo>("sin0", a);
  mul.in<Homo>("sin1", b);
  Homo ab = mul.out<Homo>("sout", 1);
  NEARM(ab.matrix(), (a.matrix() * b.matrix()).eval(), TOL);
  buildFrom(ab, tab);
  NEARM(tab, (twistOf(a) * twistOf(b)).eval(), TOL);
  buildFrom(ai, tai);
  NEARM((tai * ta).eval(), Twist(Twist::Identity()), TOL);
  tw.in<Homo>("sin", ab);
  NEARM(tw.out<Twist>("sout", 1), tab, TOL);
  tinv.in<Twist>("sin", ta);
  NEARM(tinv.out<Twist>("sout", 1), tai, TOL);
  tmul.in<Twist>("sin0", ta);
  tmul.in<Twist>("sin1", tb);
  NEARM(tmul.out<Twist>("sout", 1), tab, TOL);
  // a twist matrix already holding something else
  Twist dirty = Twist::Constant(7);
  buildFrom(a, dirty);
  NEARM(dirty, ta, 1e-15);
  g.nontrivial(!pbt::nearM(Rot(a.linear()), Rot(Rot::Identity()), 1e-3) && a.translation().norm() > 1e-3);
}
PROP(inverses) {
  Rot R = genRot(g), S = genRot(g);
  LOG << "R=[" << R << "] S=[" << S << "]";
  Ent ri("Inverse_of_matrixrotation"), qi("Inverse_of_unitquat"), rm("Multiply_of_matrixrotation"), qm("Multiply_of_quaternion"),
      toq("MatrixToQuaternion"), toq2("MatrixToQuaternion"), pos("MatrixHomoToPose");
  ri.in<Rot>("sin", R);
  NEARM((ri.out<Rot>("sout", 1) * R).eval(), Rot(Rot::Identity()), TOL);
  toq.in<Rot>("sin", R);
  toq2.in<Rot>("sin", S);
  VectorQuaternion q = toq.out<VectorQuaternion>("sout", 1), s = toq2.out<VectorQuaternion>("sout", 1);
  qi.in<VectorQuaternion>("sin", q);
  VectorQuaternion i = qi.out<VectorQuaternion>("sout", 1);
  same(quatRot(i.w(), i.x(), i.y(), i.z()), R.transpose(), "Inverse_of_unitquat");
  rm.in<Rot>("sin0", R);
  rm.in<Rot>("sin1", S);
  same(rm.out<Rot>("sout", 1), R * S, "Multiply_of_matrixrotation");
  qm.in<VectorQuaternion>("sin0", q);
  qm.in<VectorQuaternion>("sin1", s);
  VectorQuaternion m = qm.out<VectorQuaternion>("sout", 1);
  same(quatRot(m.w(), m.x(), m.y(), m.z()), R * S, "Multiply_of_quaternion");
  Homo h = mkHomo(R, genV3(g));
  pos.in<Homo>("sin", h);
  Vec t = pos.out<Vec>("sout", 1);
  CHECK(t.size() == 3, "MatrixHomoToPose size " << t.size());
  sameT(t, h.matrix().block<3, 1>(0, 3), "MatrixHomoToPose");
  g.nontrivial(!pbt::nearM(R, Rot(Rot::Identity()), 1e-3));
}
PROP(skew_to_vector) {
  V3 v = genV3(g);
  LOG << v.transpose();
  Ent e("SkewSymToVector");
  e.in<Mat>("sin", Mat(skew(v)));
  Vec r = e.out<Vec>("sout", 1);
  CHECK(r.size() == 3 && V3(r) == v, "the vector of [v]x is " << r.transpose() << " for v = " << v.transpose());
  g.nontrivial(v(0) != v(1) && v(1) != v(2) && v(0) != v(2));
}
