// A stand-in for the few pinocchio classes sot-core uses (not installed here).
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <cmath>
namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2 };
typedef Eigen::Matrix<double, 6, 1> SV6;
typedef Eigen::Matrix<double, 6, 6> SM6;
inline Eigen::Matrix3d shim_skew(const Eigen::Vector3d &v) {
  Eigen::Matrix3d S;
  S << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return S;
}
inline Eigen::Matrix3d shim_exp3(const Eigen::Vector3d &w) {
  double t = w.norm();
  if (t < 1e-12) return Eigen::Matrix3d(Eigen::Matrix3d::Identity() + shim_skew(w));
  return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
}
inline Eigen::Vector3d shim_log3(const Eigen::Matrix3d &R) {
  Eigen::Quaterniond q(R);
  q.normalize();
  if (q.w() < 0) q.coeffs() *= -1;
  double s = q.vec().norm();
  if (s < 1e-14) return 2 * q.vec();
  return 2 * std::atan2(s, q.w()) / s * q.vec();
}
// sum_k A^k/(k+1)! : left jacobian of the exponential
template <class M>
inline M shim_phi(const M &A) {
  M r = M::Identity(A.rows(), A.cols()), t = r;
  for (int k = 1; k < 60; ++k) {
    t = (t * A / (k + 1)).eval();
    r += t;
  }
  return r;
}
inline SM6 shim_ad(const SV6 &v) {
  SM6 r = SM6::Zero();
  r.topLeftCorner<3, 3>() = shim_skew(v.tail<3>());
  r.bottomRightCorner<3, 3>() = shim_skew(v.tail<3>());
  r.topRightCorner<3, 3>() = shim_skew(v.head<3>());
  return r;
}
inline Eigen::Matrix3d shim_Jlog3(const Eigen::Matrix3d &R) {
  Eigen::Matrix3d A = -shim_skew(shim_log3(R));
  return shim_phi(A).inverse();
}
class Force;
class Motion;
class SE3 {
 public:
  SE3() : R(Eigen::Matrix3d::Identity()), p(Eigen::Vector3d::Zero()) {}
  SE3(const Eigen::Matrix3d &r, const Eigen::Vector3d &t) : R(r), p(t) {}
  explicit SE3(const Eigen::Matrix4d &m) : R(m.topLeftCorner<3, 3>()), p(m.topRightCorner<3, 1>()) {}
  static SE3 Identity() { return SE3(); }
  SE3 inverse() const { return SE3(R.transpose(), -(R.transpose() * p)); }
  SE3 operator*(const SE3 &o) const { return SE3(R * o.R, R * o.p + p); }
  const Eigen::Matrix3d &rotation() const { return R; }
  const Eigen::Vector3d &translation() const { return p; }
  SM6 toActionMatrix() const {
    SM6 r = SM6::Zero();
    r.topLeftCorner<3, 3>() = R;
    r.bottomRightCorner<3, 3>() = R;
    r.topRightCorner<3, 3>() = shim_skew(p) * R;
    return r;
  }
  SM6 toActionMatrixInverse() const { return inverse().toActionMatrix(); }
  inline Force act(const Force &f) const;
  inline Force actInv(const Force &f) const;
  inline Motion act(const Motion &m) const;
  inline Motion actInv(const Motion &m) const;

 private:
  Eigen::Matrix3d R;
  Eigen::Vector3d p;
};
#define VERIF_SPATIAL(C)                                                      \
  class C {                                                                   \
   public:                                                                    \
    C() : v(SV6::Zero()) {}                                                   \
    template <class D> explicit C(const Eigen::MatrixBase<D> &x) : v(x) {}    \
    C(const Eigen::Vector3d &l, const Eigen::Vector3d &a) { v << l, a; }      \
    Eigen::Vector3d linear() const { return v.head<3>(); }                    \
    Eigen::Vector3d angular() const { return v.tail<3>(); }                   \
    const SV6 &toVector() const { return v; }                                 \
                                                                              \
   private:                                                                   \
    SV6 v;                                                                    \
  };
VERIF_SPATIAL(Force)
VERIF_SPATIAL(Motion)
Force SE3::act(const Force &f) const {
  Eigen::Vector3d l = R * f.linear();
  return Force(l, R * f.angular() + p.cross(l));
}
Force SE3::actInv(const Force &f) const { return inverse().act(f); }
Motion SE3::act(const Motion &m) const {
  Eigen::Vector3d w = R * m.angular();
  return Motion(R * m.linear() + p.cross(w), w);
}
Motion SE3::actInv(const Motion &m) const { return inverse().act(m); }
inline SE3 shim_exp6(const SV6 &v) {
  const double a = v.tail<3>().norm();
  Eigen::Matrix3d A = shim_skew(v.tail<3>());
  if (a < 0.5) return SE3(shim_exp3(v.tail<3>()), shim_phi(A) * v.head<3>());
  Eigen::Matrix3d V = Eigen::Matrix3d::Identity() + (1 - std::cos(a)) / (a * a) * A + (a - std::sin(a)) / (a * a * a) * A * A;
  return SE3(shim_exp3(v.tail<3>()), V * v.head<3>());
}
inline SV6 shim_log6(const SE3 &M) {
  Eigen::Vector3d w = shim_log3(M.rotation());
  Eigen::Matrix3d A = shim_skew(w);
  SV6 r;
  r << shim_phi(A).inverse() * M.translation(), w;
  return r;
}
inline SM6 shim_Jlog6(const SE3 &M) {
  SM6 A = -shim_ad(shim_log6(M));
  return shim_phi(A).inverse();
}
template <int N, typename S>
struct VectorSpaceOperationTpl {
  enum { NQ = N, NV = N };
  template <class A, class B, class C>
  void difference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<C> &d) const {
    const_cast<C &>(d.derived()) = b - a;
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const Eigen::MatrixBase<A> &, const Eigen::MatrixBase<B> &, const Eigen::MatrixBase<J> &j) const {
    const_cast<J &>(j.derived()).setIdentity();
    if (arg == ARG0) const_cast<J &>(j.derived()) *= -1;
  }
};
template <int N, typename S> struct SpecialOrthogonalOperationTpl;
template <typename S>
struct SpecialOrthogonalOperationTpl<3, S> {
  enum { NQ = 4, NV = 3 };
  template <class A> static Eigen::Matrix3d rot(const Eigen::MatrixBase<A> &a) {
    return Eigen::Quaterniond(a[3], a[0], a[1], a[2]).toRotationMatrix();
  }
  template <class A, class B, class C>
  void difference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<C> &d) const {
    const_cast<C &>(d.derived()) = shim_log3(rot(a).transpose() * rot(b));
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<J> &j) const {
    Eigen::Matrix3d R = rot(a).transpose() * rot(b), r = shim_Jlog3(R);
    if (arg == ARG0) r = (-r * R.transpose()).eval();
    const_cast<J &>(j.derived()) = r;
  }
};
template <int N, typename S> struct SpecialEuclideanOperationTpl;
template <typename S>
struct SpecialEuclideanOperationTpl<3, S> {
  enum { NQ = 7, NV = 6 };
  template <class A> static SE3 se3(const Eigen::MatrixBase<A> &a) {
    return SE3(Eigen::Quaterniond(a[6], a[3], a[4], a[5]).toRotationMatrix(), Eigen::Vector3d(a[0], a[1], a[2]));
  }
  template <class A, class B, class C>
  void difference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<C> &d) const {
    const_cast<C &>(d.derived()) = shim_log6(se3(a).inverse() * se3(b));
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<J> &j) const {
    SE3 M = se3(a).inverse() * se3(b);
    SM6 r = shim_Jlog6(M);
    if (arg == ARG0) r = (-r * M.toActionMatrixInverse()).eval();
    const_cast<J &>(j.derived()) = r;
  }
  template <class A, class B, class C>
  void integrate(const Eigen::MatrixBase<A> &q, const Eigen::MatrixBase<B> &v, const Eigen::MatrixBase<C> &out) const {
    SV6 vv = v;
    SE3 M = se3(q) * shim_exp6(vv);
    Eigen::Quaterniond r(M.rotation());
    Eigen::Matrix<double, 7, 1> o;
    o << M.translation(), r.normalized().coeffs();
    const_cast<C &>(out.derived()) = o;
  }
};
template <class L1, class L2>
struct CartesianProductOperation {
  template <class A, class B, class C>
  void difference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<C> &d_) const {
    C &d = const_cast<C &>(d_.derived());
    Eigen::Matrix<double, L1::NV, 1> x;
    Eigen::Matrix<double, L2::NV, 1> y;
    L1().difference(a.head(L1::NQ), b.head(L1::NQ), x);
    L2().difference(a.tail(L2::NQ), b.tail(L2::NQ), y);
    d.head(L1::NV) = x;
    d.tail(L2::NV) = y;
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<J> &j_) const {
    J &j = const_cast<J &>(j_.derived());
    Eigen::Matrix<double, L1::NV, L1::NV> x;
    Eigen::Matrix<double, L2::NV, L2::NV> y;
    L1().template dDifference<arg>(a.head(L1::NQ), b.head(L1::NQ), x);
    L2().template dDifference<arg>(a.tail(L2::NQ), b.tail(L2::NQ), y);
    j.setZero();
    j.topLeftCorner(L1::NV, L1::NV) = x;
    j.bottomRightCorner(L2::NV, L2::NV) = y;
  }
};
}  // namespace pinocchio
