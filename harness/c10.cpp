// C10: pseudo-inverse and damped inverse against their defining equations.
#include <sot/core/matrix-svd.hh>
#include "ent.hpp"
using namespace dynamicgraph;

struct Case {
  int r, c, rank;
  Mat u, v, A;
  Vec s;
};
// shapes favour rows, columns, wide and tall; singular values may repeat, be tiny or null
static Case gen(pbt::Gen &g, double thr) {
  Case k;
  k.r = (int)g.size(1, g.chance(1, 5) ? 9 : 5);
  k.c = (int)g.size(1, g.chance(1, 5) ? 9 : 5);
  int m = std::min(k.r, k.c);
  k.u = genOrtho(g, k.r).leftCols(m);
  k.v = genOrtho(g, k.c).leftCols(m);
  k.s = Vec::Zero(m);
  k.rank = 0;
  for (int i = 0; i < m; ++i) {
    switch (g.draw(5)) {
      case 0: k.s(i) = 0; break;
      case 1: k.s(i) = i ? k.s(i - 1) : 1; break;
      case 2: if (thr > 0) { k.s(i) = thr * g.pick({1e-3, 0.1, 0.5}); break; }  // fallthrough
      default: k.s(i) = g.real(0.2, 5);
    }
  }
  for (int i = 0; i < m; ++i) k.rank += k.s(i) > thr;
  k.A = k.u * k.s.asDiagonal() * k.v.transpose();
  return k;
}
static Mat dirty(pbt::Gen &g) { return Mat::Constant((int)g.size(0, 6), (int)g.size(0, 6), 3.5); }

PROP(pseudo_inverse) {
  double thr = g.pick({1e-6, 1e-4, 1e-2});
  Case k = gen(g, thr);
  LOG << k.r << "x" << k.c << " sv=" << k.s.transpose() << " threshold " << thr << " A=\n" << k.A;
  Mat B = dirty(g), A = k.A;
  if (thr == 1e-6 && g.flip()) pseudoInverse(A, B);
  else pseudoInverse(A, B, thr);
  CHECK(A == k.A, "input modified");
  CHECK(B.rows() == k.c && B.cols() == k.r, "size " << B.rows() << "x" << B.cols());
  // the part of A above the threshold
  Vec st = k.s;
  for (int i = 0; i < st.size(); ++i)
    if (st(i) <= thr) st(i) = 0;
  Mat At = k.u * st.asDiagonal() * k.v.transpose();
  Mat ABA = At * B * At, BAB = B * At * B, AB = At * B, BA = B * At;
  NEARM(ABA, At, 1e-7);
  NEARM(BAB, B, 1e-7);
  NEARM(AB, Mat(AB.transpose()), 1e-7);
  NEARM(BA, Mat(BA.transpose()), 1e-7);
  Mat P = k.v * st.unaryExpr([](double x) { return x > 0 ? 1 / x : 0.; }).matrix().asDiagonal() * k.u.transpose();
  NEARM(B, P, 1e-7);
  g.nontrivial(k.rank > 0 && (k.rank < std::min(k.r, k.c) || k.r != k.c));
  g.label(k.r > k.c ? "tall" : k.r < k.c ? "wide" : "square");
}
PROP(damped_inverse) {
  double lam = g.pick({1e-6, 1e-3, 0.01, 0.1, 0.5, 1., 3., 20.});
  Case k = gen(g, 0);
  LOG << k.r << "x" << k.c << " sv=" << k.s.transpose() << " damping " << lam << " A=\n" << k.A;
  bool sing = k.rank < std::min(k.r, k.c);
  double tol = 1e-9 + (sing ? 1e-13 / (lam * lam) : 0);
  Vec f = k.s;
  for (int i = 0; i < f.size(); ++i) f(i) = f(i) / (f(i) * f(i) + lam * lam);
  Mat E = k.v * f.asDiagonal() * k.u.transpose();
  Mat B = dirty(g);
  if (lam == 1e-6 && g.flip()) dampedInverse(k.A, B);
  else dampedInverse(k.A, B, lam);
  NEARM(B, E, tol);
  Mat B2 = dirty(g), U = dirty(g), V = dirty(g);
  Vec S = Vec::Ones((int)g.size(0, 5));
  dampedInverse(k.A, B2, U, S, V, lam);
  NEARM(B2, E, tol);
  int m = std::min(k.r, k.c);
  CHECK(S.size() == m && U.rows() == k.r && V.rows() == k.c && U.cols() >= m && V.cols() >= m, "sizes of the singular vectors");
  NEARM(Mat(U.leftCols(m) * S.asDiagonal() * V.leftCols(m).transpose()), k.A, 1e-9);
  NEARM(Mat(U.transpose() * U), Mat(Mat::Identity(U.cols(), U.cols())), 1e-9);
  NEARM(Mat(V.transpose() * V), Mat(Mat::Identity(V.cols(), V.cols())), 1e-9);
  for (int i = 0; i < m; ++i) CHECK(S(i) >= 0 && (i == 0 || S(i - 1) >= S(i)), "singular values " << S.transpose());
  unsigned opt = g.pick({Eigen::ComputeThinU | Eigen::ComputeThinV, Eigen::ComputeThinU | Eigen::ComputeFullV, Eigen::ComputeFullU | Eigen::ComputeFullV});
  SVD_t svd(k.A, opt);
  Mat B3 = dirty(g);
  dampedInverse(svd, B3, lam);
  NEARM(B3, E, tol);
  g.nontrivial(k.rank > 0 && (sing || k.r != k.c));
}
