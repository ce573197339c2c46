// Entities seen from outside: created through the factory by class name, inputs and outputs by signal name.
#ifndef VERIF_ENT_HPP
#define VERIF_ENT_HPP
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <dynamic-graph/linear-algebra.h>
#include <map>
#include <memory>
#include <typeinfo>
#include <sot/core/matrix-geometry.hh>
#include "pbt.hpp"
namespace dg = dynamicgraph;
typedef dynamicgraph::Vector Vec;
typedef dynamicgraph::Matrix Mat;
typedef dynamicgraph::sot::MatrixHomogeneous Homo;
typedef dynamicgraph::sot::MatrixTwist Twist;
typedef Eigen::Matrix3d Rot;
typedef Eigen::Vector3d V3;

inline std::string freshName(const std::string &p = "e") {
  static int n = 0;
  return p + std::to_string(++n);
}
/// A value which comes from another entity: a signal computed on demand. Its copy is the value of the last computation, not the current one.
struct PluggedBase { virtual ~PluggedBase() {} };
template <class T>
struct PluggedValue : PluggedBase {
  T v;
  dg::SignalTimeDependent<T, int> s;
  explicit PluggedValue(const T &x) : v(x), s("source") {
    s.setConstant(x);  // computed before
    s.setFunction(boost::bind(&PluggedValue::f, this, _1, _2));
  }
  T &f(T &r, int) { return r = v; }
  void set(const T &x) {
    v = x;
    s.setReady();
  }
};
struct Ent {
  std::map<std::string, std::unique_ptr<PluggedBase>> sources;
  bool mayPlug = true, mayPrint = true;
  std::unique_ptr<dg::Entity> p;
  explicit Ent(const std::string &cls) : p(dg::FactoryStorage::getInstance()->newEntity(cls, freshName())) {
    CHECK(p.get() != NULL, "factory returned nothing for " << cls);
    CHECK(p->getClassName() == cls, "class name " << p->getClassName() << " for " << cls);
  }
  explicit Ent(dg::Entity *e) : p(e) {}
  dg::Entity &operator*() { return *p; }
  dg::Entity *operator->() { return p.get(); }
  template <class T>
  dg::Signal<T, int> &sig(const std::string &n) {
    dg::Signal<T, int> *s = dynamic_cast<dg::Signal<T, int> *>(&p->getSignal(n));
    CHECK(s != NULL, "signal " << n << " has another type");
    return *s;
  }
  template <class T>
  void in(const std::string &n, const T &v) {
    dg::Signal<T, int> &d = sig<T>(n);
    // an input is either a constant or plugged to an output of another entity, for the whole case
    auto i = sources.find(n);
    if (i == sources.end()) {
      bool plug = mayPlug && typeid(d) == typeid(dg::SignalPtr<T, int>) && pbt::g_gen && pbt::g_gen->draw(3) == 1;
      i = sources.emplace(n, std::unique_ptr<PluggedBase>(plug ? new PluggedValue<T>(v) : NULL)).first;
    }
    if (!i->second) {
      d = v;
      return;
    }
    PluggedValue<T> &src = static_cast<PluggedValue<T> &>(*i->second);
    src.set(v);
    if (d.getPluged() != &src.s) d.plug(&src.s);
  }
  void unplug(const std::string &n) { p->getSignal(n).unplug(); }
  template <class T>
  T out(const std::string &n, int t) {
    if (mayPrint && pbt::g_gen && pbt::g_gen->draw(16) == 1) {  // looking at an entity changes nothing
      std::ostringstream o;
      p->display(o);
    }
    return sig<T>(n).access(t);
  }
  dg::command::Value call(const std::string &c, const std::vector<dg::command::Value> &v = {}) { return p->shimCall(c, v); }
};

/* ------------------------------------------------------------- generators */
inline Vec genVec(pbt::Gen &g, int n, double m = 10) {
  Vec v(n);
  for (int i = 0; i < n; ++i) v(i) = g.real(-m, m);
  return v;
}
inline V3 genV3(pbt::Gen &g, double m = 10) { return genVec(g, 3, m); }
inline Mat genMat(pbt::Gen &g, int r, int c, double m = 10) {
  Mat v(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) v(i, j) = g.real(-m, m);
  return v;
}
/// matrix of a chosen rank (singular values in [0.2, 5])
inline Mat genOrtho(pbt::Gen &g, int n) {
  Mat q = Mat::Identity(n, n);
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      for (int j = i + 1; j < n; ++j)
        if (k == 0) {
          double a = g.real(-3.2, 3.2), c = std::cos(a), s = std::sin(a);
          Vec x = q.col(i), y = q.col(j);
          q.col(i) = c * x + s * y;
          q.col(j) = -s * x + c * y;
        }
  return q;
}
inline Mat genRank(pbt::Gen &g, int r, int c, int rank) {
  Mat u = genOrtho(g, r), v = genOrtho(g, c), s = Mat::Zero(r, c);
  for (int i = 0; i < rank; ++i) s(i, i) = g.real(0.2, 5) + 1e-3 * i;
  return u * s * v.transpose();
}
inline V3 genAxis(pbt::Gen &g) {
  V3 u;
  switch (g.draw(3)) {
    case 0: u = V3::Zero(); u[(int)g.draw(3)] = g.flip() ? 1 : -1; return u;
    case 1: u = V3((double)g.integer(-1, 1), (double)g.integer(-1, 1), (double)g.integer(-1, 1)); break;
    default: u = V3(g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1));
  }
  if (u.norm() < 1e-3) u = V3(0, 0, 1);
  return u / u.norm();
}
inline Rot skew(const V3 &v) {
  Rot s;
  s << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return s;
}
/// Rodrigues, written out
inline Rot rodrigues(const V3 &u, double a) {
  return std::cos(a) * Rot::Identity() + std::sin(a) * skew(u) + (1 - std::cos(a)) * (u * u.transpose());
}
inline Rot expSO3(const V3 &w) {
  double a = w.norm();
  if (a == 0) return Rot::Identity();
  return rodrigues(w / a, a);
}
inline Rot quatRot(double w, double x, double y, double z) {
  Rot r;
  r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
      2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return r;
}
inline Rot rpyRot(double r, double p, double y) {
  double cr = std::cos(r), sr = std::sin(r), cp = std::cos(p), sp = std::sin(p), cy = std::cos(y), sy = std::sin(y);
  Rot R;
  R << cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr, sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr, -sp,
      cp * sr, cp * cr;
  return R;
}
inline double genAngle(pbt::Gen &g) {
  switch (g.draw(6)) {
    case 0: return M_PI / 4 * (double)g.integer(-4, 4);
    case 1: return g.real(-1e-3, 1e-3);
    case 2: return g.pick({1e-9, 1e-7, 1e-5, -1e-8});
    case 3: return (g.flip() ? 1 : -1) * (M_PI - g.pick({1e-8, 1e-6, 1e-4, 1e-2}));
    default: return g.uniform(-M_PI, M_PI);
  }
}
inline Rot genRot(pbt::Gen &g) {
  switch (g.draw(3)) {
    case 0: return rodrigues(genAxis(g), genAngle(g));
    case 1: return rpyRot(genAngle(g), g.chance(1, 3) ? M_PI / 2 * (g.flip() ? 1 : -1) + g.pick({0., 1e-9, 1e-6, 1e-3}) : genAngle(g), genAngle(g));
    default: {
      Eigen::Vector4d q(g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1));
      if (q.norm() < 1e-3) q = Eigen::Vector4d(1, 0, 0, 0);
      q /= q.norm();
      return quatRot(q(0), q(1), q(2), q(3));
    }
  }
}
inline Homo mkHomo(const Rot &R, const V3 &t) {
  Homo h;
  h.matrix().setIdentity();
  h.matrix().block<3, 3>(0, 0) = R;
  h.matrix().block<3, 1>(0, 3) = t;
  return h;
}
inline Homo genHomo(pbt::Gen &g, double m = 5) { Rot R = genRot(g); return mkHomo(R, genV3(g, m)); }
inline Eigen::Matrix<double, 6, 6> twistOf(const Homo &h) {
  Eigen::Matrix<double, 6, 6> X;
  Rot R = h.matrix().block<3, 3>(0, 0);
  V3 t = h.matrix().block<3, 1>(0, 3);
  X << R, skew(t) * R, Rot::Zero(), R;
  return X;
}
#ifdef VERIF_WITH_FLAGS
#include <sot/core/flags.hh>
/// a selection: explicit bits then a constant tail
struct Sel {
  std::vector<bool> b;
  bool tail;
  bool operator()(size_t i) const { return i < b.size() ? (bool)b[i] : tail; }
  dynamicgraph::sot::Flags flags() const {
    dynamicgraph::sot::Flags f(tail);
    for (size_t i = 0; i < b.size(); ++i) f.add(b[i]);
    return f;
  }
  int count(int n) const {
    int c = 0;
    for (int i = 0; i < n; ++i) c += (*this)(i);
    return c;
  }
  std::string str() const {
    std::string r;
    for (bool x : b) r += x ? '1' : '0';
    return r + (tail ? "(1)" : "(0)");
  }
  Vec rows(const Vec &v, int n) const {
    Vec r(count(n));
    for (int i = 0, k = 0; i < n; ++i)
      if ((*this)(i)) r(k++) = v(i);
    return r;
  }
  Mat rows(const Mat &v, int n) const {
    Mat r(count(n), v.cols());
    for (int i = 0, k = 0; i < n; ++i)
      if ((*this)(i)) r.row(k++) = v.row(i);
    return r;
  }
};
inline Sel genSel(pbt::Gen &g, int n) {
  Sel s;
  switch (g.draw(4)) {
    case 0: s.tail = true; break;
    case 1: {
      s.tail = false;
      for (int i = 0; i < n; ++i) s.b.push_back(g.flip());
      break;
    }
    default: {
      s.tail = g.flip();
      int m = (int)g.size(0, n + 2);
      for (int i = 0; i < m; ++i) s.b.push_back(g.flip());
    }
  }
  return s;
}
#endif
#endif
