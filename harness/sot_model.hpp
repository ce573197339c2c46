// Reference for the prioritised control law: recursive projections, written with projectors only.
#ifndef VERIF_SOT_MODEL_HPP
#define VERIF_SOT_MODEL_HPP
#include <Eigen/SVD>
#include <limits>
#include <vector>
#include "ent.hpp"
struct Level {
  Mat J;         ///< columns excluded by the control selection are null
  Vec e;
  bool posture = false;  ///< accelerated posture task
};
struct SotRef {
  Vec q;
  std::vector<char> refused;
  bool ambiguous = false;  ///< a rank or increment decision is within rounding of its threshold
  double amp = 1;          ///< how much rounding may be amplified
  double minSv = 1e300;
};
inline Mat truncPinv(const Mat &A, double th, SotRef &r, Mat &range) {
  Mat X = Mat::Zero(A.cols(), A.rows());
  range = Mat::Zero(A.cols(), A.cols());
  if (A.size() == 0) return X;
  Eigen::BDCSVD<Mat> s(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
  double smin = 1e300, smax = 0;
  for (int i = 0; i < s.singularValues().size(); ++i) {
    double v = s.singularValues()(i);
    if (std::fabs(v - th) < 1e-6 * th + 1e-12) r.ambiguous = true;
    if (v <= th) continue;
    smin = std::min(smin, v);
    smax = std::max(smax, v);
    X += s.matrixV().col(i) / v * s.matrixU().col(i).transpose();
    range += s.matrixV().col(i) * s.matrixV().col(i).transpose();
  }
  if (smax > 0) {
    // a singular value just above the next one's threshold: the subspaces are told apart up to the gap
    double gap = 1e300;
    for (int i = 0; i < s.singularValues().size(); ++i)
      if (s.singularValues()(i) <= th) gap = std::min(gap, smin - s.singularValues()(i));
    r.amp *= 1 + smax / std::min(smin, gap);
    r.minSv = std::min(r.minSv, smin);
  }
  return X;
}
inline SotRef solveStack(const std::vector<Level> &st, int n, const Vec *q0, const Mat *K0, double th, double maxInc) {
  SotRef r;
  r.q = q0 ? *q0 : Vec(Vec::Zero(n));
  Mat K = K0 ? *K0 : Mat(Mat::Identity(n, n));
  Mat P = Mat::Identity(K.cols(), K.cols());
  for (const Level &l : st) {
    if (l.posture) {
      Vec e = Vec::Zero(n);
      e.tail(n - 6) = l.e - r.q.tail(n - 6);
      Vec inc = K * P * K.transpose() * e;
      double s = inc.squaredNorm();
      if (std::fabs(s - maxInc) < 1e-6 * maxInc * std::min(r.amp, 1e6)) r.ambiguous = true;
      r.refused.push_back(s > maxInc);
      if (s <= maxInc) r.q += inc;
      continue;
    }
    Mat range;
    Vec inc = K * (truncPinv(l.J * K * P, th, r, range) * (l.e - l.J * r.q));
    double s = inc.squaredNorm();
    if (std::fabs(s - maxInc) < 1e-6 * maxInc * std::min(r.amp, 1e6)) r.ambiguous = true;
    if (s > maxInc) {
      r.refused.push_back(1);
      continue;
    }
    r.refused.push_back(0);
    r.q += inc;
    P -= range;
  }
  return r;
}
#endif
