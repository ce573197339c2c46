// C18: Kalman filter.
#include <Eigen/Eigenvalues>
#include "ent.hpp"
using dynamicgraph::command::Value;
static Mat spd(pbt::Gen &g, int n, double lo) {
  Mat q = genOrtho(g, n), d = Mat::Zero(n, n);
  for (int i = 0; i < n; ++i) d(i, i) = lo + g.uniform(0, 3);
  return q * d * q.transpose();
}
static Mat genF(pbt::Gen &g, int n) {
  Mat F = genMat(g, n, n, 1.5);
  if (g.chance(1, 5)) F.setIdentity();
  return F;
}
PROP(kalman) {
  Ent e("Kalman");
  int n = (int)g.size(1, 4), m = (int)g.size(1, 4), t = 0, N = (int)g.steps(1, 10);
  Mat P = g.chance(1, 6) ? Mat(Mat::Zero(n, n)) : spd(g, n, 0), F, H, Q, R;
  Vec x = genVec(g, n);
  LOG << "n=" << n << " m=" << m;
  if (g.flip()) {
    e.call("setInitialState", {Value(x)});
    e.call("setInitialVariance", {Value(P)});
  } else {
    e.call("setInitialVariance", {Value(P)});
    e.call("setInitialState", {Value(x)});
  }
  CHECK(e.out<Vec>("x_est", 0) == x, "initial state");
  CHECK(e.out<Mat>("P", 0) == P, "initial variance");
  bool constant = g.chance(1, 3);
  double scale = 1, err = 0;  // err bounds the distance between the two states
  for (int k = 0; k < N; ++k) {
    if (k && g.chance(1, 8)) {
      P = spd(g, n, 0);
      x = genVec(g, n);
      err = 0;
      LOG << " restart";
      e.call("setInitialState", {Value(x)});
      e.call("setInitialVariance", {Value(P)});
    }
    auto setF = [&]() { F = genF(g, n); e.in<Mat>("F", F); };
    auto setH = [&]() { H = genMat(g, m, n, 2); if (g.chance(1, 6)) H.setZero(); e.in<Mat>("H", H); };
    auto setQ = [&]() { Q = g.chance(1, 6) ? Mat(Mat::Zero(n, n)) : spd(g, n, 0); e.in<Mat>("Q", Q); };
    auto setR = [&]() { R = spd(g, m, 0.2); e.in<Mat>("R", R); };
    if (k == 0) { setF(); setH(); setQ(); setR(); }
    else if (!constant) {
      if (g.flip()) setF();
      if (g.flip()) setH();
      if (g.flip()) setQ();
      if (g.flip()) setR();
    }
    Vec xp = g.chance(1, 3) ? Vec(F * x) : genVec(g, n), yp = g.chance(1, 3) ? Vec(H * xp) : genVec(g, m);
    bool same = g.chance(1, 4);
    Vec y = same ? yp : genVec(g, m);
    e.in<Vec>("x_pred", xp);
    e.in<Vec>("y_pred", yp);
    e.in<Vec>("y", y);
    t += (int)g.size(1, 3);
    // reference (Cholesky solve instead of an explicit inverse)
    Mat Pp = F * P * F.transpose() + Q;
    Mat S = H * Pp * H.transpose() + R;
    Mat K = S.ldlt().solve(H * Pp).transpose();
    Mat Pn = Pp - K * H * Pp;
    Vec xn = xp + K * (y - yp);
    scale = std::max(scale, Pp.cwiseAbs().maxCoeff());
    double cond = S.cwiseAbs().maxCoeff() / 0.2;
    double tol = 1e-12 * (1 + scale) * (1 + cond) * (1 + (K * H).cwiseAbs().maxCoeff()) * (1 + F.cwiseAbs().maxCoeff());
    double kh = 1 + (K * H).norm();
    tol += err * F.squaredNorm() * kh * kh;
    if (tol > 1e-4 * (1 + scale)) break;
    int order = (int)g.draw(4);
    Mat po;
    Vec xo;
    if (order == 0 || order == 2) po = e.out<Mat>("P", t);
    if (order != 2) xo = e.out<Vec>("x_est", t);
    if (order == 1) po = e.out<Mat>("P", t);
    if (po.size()) {
      CHECK(po.rows() == n && po.cols() == n, "shape of P");
      CHECK((po - Pn).cwiseAbs().maxCoeff() <= tol, "step " << k << " P=\n" << po << "\nexpected\n" << Pn);
      CHECK((po - po.transpose()).cwiseAbs().maxCoeff() <= tol, "P is not symmetric");
      Eigen::SelfAdjointEigenSolver<Mat> es(0.5 * (po + po.transpose()));
      CHECK(es.eigenvalues().minCoeff() >= -tol, "P has eigenvalue " << es.eigenvalues().minCoeff());
    }
    if (xo.size()) {
      double xs = tol * (1 + (y - yp).cwiseAbs().maxCoeff()) * 10;
      CHECK((xo - xn).cwiseAbs().maxCoeff() <= xs, "step " << k << " x=" << xo.transpose() << " expected " << xn.transpose());
      if (same) CHECK((xo - xp).cwiseAbs().maxCoeff() <= 1e-12 * (1 + xp.cwiseAbs().maxCoeff()), "the prediction is changed by a measurement equal to it");
      if (g.chance(1, 4)) CHECK(e.out<Vec>("x_est", t) == xo && (!po.size() || e.out<Mat>("P", t) == po), "second evaluation differs");
    }
    P = po.size() ? po : Pn;
    err = po.size() ? 0 : tol;
    x = xn;
  }
  g.nontrivial(N > 2 && n > 1);
  if (constant) g.label("constant model");
}
