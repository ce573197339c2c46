// C17: Madgwick orientation filter.
#include "ent.hpp"
using dynamicgraph::command::Value;
typedef Eigen::Vector4d V4;
static V4 gradient(const V4 &q, const V3 &acc) {
  V3 a = acc / acc.cwiseAbs().maxCoeff();
  a /= a.norm();
  V3 f(2 * (q(1) * q(3) - q(0) * q(2)) - a(0), 2 * (q(0) * q(1) + q(2) * q(3)) - a(1), 2 * (0.5 - q(1) * q(1) - q(2) * q(2)) - a(2));
  Eigen::Matrix<double, 3, 4> J;
  J << -2 * q(2), 2 * q(3), -2 * q(0), 2 * q(1), 2 * q(1), 2 * q(0), 2 * q(3), 2 * q(2), 0, -4 * q(1), -4 * q(2), 0;
  return J.transpose() * f;
}
static V4 gyro(const V4 &q, const V3 &w) {
  // q (x) (0, w) / 2
  V4 d;
  V3 v = q.tail<3>();
  d(0) = -v.dot(w);
  d.tail<3>() = q(0) * w + v.cross(w);
  return 0.5 * d;
}
static V4 genQ(pbt::Gen &g) {
  V4 q;
  if (g.chance(1, 4)) {
    q.setZero();
    q((int)g.draw(4)) = g.flip() ? 1 : -1;
    return q;
  }
  for (int i = 0; i < 4; ++i) q(i) = g.uniform(-1, 1);
  if (q.norm() < 1e-2) q = V4(1, 0, 0, 0);
  return q / q.norm();
}
PROPW(madgwick, 40) {
  Ent e("MadgwickAHRS");
  int t = (int)g.integer(0, 3);
  double beta = e.call("getBeta").doubleValue(), dt = 0;
  CHECK(beta >= 0 && beta <= 1, "default beta " << beta);
  V4 q(1, 0, 0, 0);
  bool init = false, fb = false;
  int N = (int)g.steps(1, 14), steps = 0;
  for (int k = 0; k < N; ++k) {
    if (g.chance(1, 5) || (!init && g.chance(1, 2))) {
      double d = g.pick({0.001, 0.01, 0.1, 0.005, -1., 0., -0.001});
      LOG << " init " << d;
      e.call("init", {Value(d)});
      if (d > 0) { dt = d; init = true; }
    }
    if (g.chance(1, 4)) {
      double b = g.pick({0., 1., 0.1, 0.5, -0.1, 1.5, -1e-9, 1.0000001});
      LOG << " beta " << b;
      e.call("setBeta", {Value(b)});
      if (b >= 0 && b <= 1) beta = b;
      CHECK(e.call("getBeta").doubleValue() == beta, "getBeta gives " << e.call("getBeta").doubleValue() << " expected " << beta);
    }
    if (g.chance(1, 5)) {
      q = genQ(g);
      LOG << " set " << q.transpose();
      e.call("set_imu_quat", {Value(Vec(q))});
    }
    V3 w = genV3(g, 6), a = genV3(g, 12);
    int kind = (int)g.draw(8);
    if (kind == 0) a.setZero();
    if (kind == 1) w.setZero();
    if (kind == 2) {
      a.setZero(), a((int)g.draw(3)) = g.pick({1., 9.81, -9.81, 1e-6});
      if (g.chance(1, 3)) a((int)g.draw(3)) = g.pick({1e-100, 1e-165, -1e-200, 1e-310});
    }
    if (kind == 3) a *= g.pick({1e-4, 1e4, 1e-8, 1e-140, 1e-165, 1e-300});
    if (kind == 4) a((int)g.draw(3)) *= g.pick({1e-140, 1e-165, 1e-200});
    LOG << " w=" << w.transpose() << " a=" << a.transpose();
    e.in<Vec>("gyroscope", w);
    e.in<Vec>("accelerometer", a);
    t += (int)g.size(1, 3);
    Vec o = e.out<Vec>("imu_quat", t);
    if (!init) {
      CHECK(o.size() == 0, "output of " << o.size() << " components before init");
      continue;
    }
    CHECK(o.size() == 4, "size " << o.size());
    CHECK(std::fabs(o.norm() - 1) < 1e-9, "norm " << o.norm());
    V4 d = gyro(q, w);
    bool exact = true;
    if (!a.isZero(0) && a.cwiseAbs().maxCoeff() < 1e-150) exact = false;  // may count as null
    else if (!a.isZero(0)) {
      V4 s = gradient(q, a);
      if (s.norm() < 1e-6) exact = false;
      else { d -= beta * s / s.norm(); fb = fb || beta > 0; }
    }
    V4 r = q + dt * d;
    if (r.norm() < 1e-3) exact = false;
    r /= r.norm();
    if (exact) CHECK((o - r).norm() < 1e-7, "step " << k << ": " << o.transpose() << " expected " << r.transpose());
    else CHECK((V4(o) - q).norm() <= 2.5 * dt * (gyro(q, w).norm() + 1) + 1e-6 || r.norm() < 1e-3, "step too long");
    if (g.flip()) CHECK(e.out<Vec>("imu_quat", t) == o, "second evaluation at the same time differs");
    q = o;
    ++steps;
  }
  g.nontrivial(steps > 2 && fb);
}
// at rest the estimate converges to an attitude whose vertical is the measured one
PROP(madgwick_converges) {
  Ent e("MadgwickAHRS");
  V4 q = genQ(g);
  double dt = 0.01, beta = g.pick({0.1, 0.5, 1.});
  e.call("init", {Value(dt)});
  e.call("setBeta", {Value(beta)});
  e.call("set_imu_quat", {Value(Vec(q))});
  V3 a = genAxis(g) * g.uniform(1, 12);
  LOG << " q=" << q.transpose() << " a=" << a.transpose() << " beta=" << beta;
  // skip starting points near the unstable equilibrium (the measured vertical opposite to the estimated one)
  V3 up0 = quatRot(q(0), q(1), q(2), q(3)).transpose() * V3(0, 0, 1);
  if (up0.dot(a / a.norm()) < -0.9) g.discard();
  e.in<Vec>("gyroscope", V3::Zero());
  int N = (int)(2.5 * M_PI / beta / dt) + 400;
  Vec o;
  for (int k = 1; k <= N; ++k) {
    e.in<Vec>("accelerometer", a * (k % 2 ? 1 : 2));  // rescaling the accelerometer changes nothing
    o = e.out<Vec>("imu_quat", k);
  }
  V3 up = quatRot(o(0), o(1), o(2), o(3)).transpose() * V3(0, 0, 1);
  CHECK((up - a / a.norm()).norm() < 0.05, "after " << N << " steps the vertical is " << up.transpose() << " measured " << (a / a.norm()).transpose());
  g.nontrivial();
}
