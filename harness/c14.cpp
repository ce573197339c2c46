// C14: derivator, FIR filter, exponential moving average.
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static const double TOL = 1e-11;

template <class T> struct Ops;
template <> struct Ops<double> {
  static double gen(pbt::Gen &g, int, int) { return g.real(-20, 20); }
  static double diff(double a, double b, double s) { return s * (a - b); }
  static bool eq(double a, double b) { return pbt::near(a, b, TOL); }
  static std::string str(double a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }
};
template <> struct Ops<Vec> {
  static Vec gen(pbt::Gen &g, int r, int) { return genVec(g, r); }
  static Vec diff(const Vec &a, const Vec &b, double s) { return s * (a - b); }
  static bool eq(const Vec &a, const Vec &b) { return pbt::nearM(a, b, TOL); }
  static std::string str(const Vec &a) { std::ostringstream o; o.precision(17); o << a.transpose(); return o.str(); }
};
template <> struct Ops<Mat> {
  static Mat gen(pbt::Gen &g, int r, int c) { return genMat(g, r, c); }
  static Mat diff(const Mat &a, const Mat &b, double s) { return s * (a - b); }
  static bool eq(const Mat &a, const Mat &b) { return pbt::nearM(a, b, TOL); }
  static std::string str(const Mat &a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }
};
template <> struct Ops<VectorQuaternion> {
  static VectorQuaternion gen(pbt::Gen &g, int, int) { return VectorQuaternion(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); }
  static VectorQuaternion diff(const VectorQuaternion &a, const VectorQuaternion &b, double s) {
    VectorQuaternion r;
    r.coeffs() = s * (a.coeffs() - b.coeffs());
    return r;
  }
  static bool eq(const VectorQuaternion &a, const VectorQuaternion &b) { return pbt::nearM(a.coeffs(), b.coeffs(), TOL); }
  static std::string str(const VectorQuaternion &a) { std::ostringstream o; o << a.coeffs().transpose(); return o.str(); }
};
template <class T>
static void derivator(pbt::Gen &g, const char *cls) {
  Ent e(cls);
  double dt = 1;
  int r = (int)g.size(1, 5), c = (int)g.size(1, 4), n = (int)g.steps(1, 12), t = (int)g.integer(0, 3);
  T prev = Ops<T>::gen(g, r, c);
  bool first = true;
  for (int k = 0; k < n; ++k) {
    if (g.chance(1, k ? 6 : 2)) {
      dt = g.pick({0.005, 1., 0.5, 0.001, 2.});
      LOG << " dt=" << dt;
      e.in<double>("dt", dt);
    }
    T x = g.chance(1, 5) ? prev : Ops<T>::gen(g, r, c);
    LOG << " [" << Ops<T>::str(x) << "]";
    e.in<T>("sin", x);
    t += (int)g.size(1, 4);
    T o = e.template out<T>("sout", t);
    T ref = first ? Ops<T>::diff(x, x, 1) : Ops<T>::diff(x, prev, 1 / dt);
    CHECK(Ops<T>::eq(o, ref), "sample " << k << ": " << Ops<T>::str(o) << " expected " << Ops<T>::str(ref));
    if (g.flip()) {
      T o2 = e.template out<T>("sout", t);
      CHECK(Ops<T>::eq(o2, ref), "second evaluation at the same time: " << Ops<T>::str(o2));
    }
    prev = x;
    first = false;
  }
  g.nontrivial(n > 2 && dt != 1);
}
PROP(derivator_double) { derivator<double>(g, "Derivator_of_double"); }
PROP(derivator_vector) { derivator<Vec>(g, "Derivator_of_Vector"); }
PROP(derivator_matrix) { derivator<Mat>(g, "Derivator_of_Matrix"); }
PROP(derivator_quaternion) { derivator<VectorQuaternion>(g, "Derivator_of_VectorQuaternion"); }

template <class S, class C>
static void fir(pbt::Gen &g, const char *cls) {
  Ent e(cls);
  int r = (int)g.size(1, 4), ro = std::is_same<C, Mat>::value ? r : 1, n = (int)g.steps(1, 20), t = 0;
  std::vector<C> co;
  std::vector<S> h;
  bool resized = false;
  for (int k = 0; k < n; ++k) {
    if (g.chance(1, k ? 8 : 1)) {
      unsigned s = (unsigned)g.size(0, 6);
      LOG << " setSize " << s;
      e.call("setSize", {Value(s)});
      resized = resized || k;
      h.clear();
      std::vector<C> old = co;
      co.resize(s);
      for (unsigned i = 0; i < s; ++i) {
        co[i] = Ops<C>::gen(g, ro, r);
        e.call("setElement", {Value(i), Value(co[i])});
      }
    }
    unsigned size = e.call("getSize").value();
    CHECK(size == co.size(), "getSize " << size << " expected " << co.size());
    if (co.size() && g.chance(1, 5)) {
      unsigned i = (unsigned)g.draw(co.size());
      co[i] = Ops<C>::gen(g, ro, r);
      LOG << " coefficient " << i;
      e.call("setElement", {Value(i), Value(co[i])});
    }
    for (unsigned i = 0; i < co.size(); ++i) {
      C c = e.call("getElement", {Value(i)}).value();
      CHECK(Ops<C>::eq(c, co[i]), "coefficient " << i << " read back");
    }
    if (g.chance(1, 8)) {
      bool th = false;
      unsigned i = (unsigned)(co.size() + g.size(0, 2));
      try {
        e.call("setElement", {Value(i), Value(Ops<C>::gen(g, ro, r))});
      } catch (const std::exception &) {
        th = true;
      }
      CHECK(th, "rank " << i << " of " << co.size() << " accepted");
    }
    S x = Ops<S>::gen(g, r, 1);
    LOG << " [" << Ops<S>::str(x) << "]";
    h.insert(h.begin(), x);
    e.in<S>("sin", x);
    t += (int)g.size(1, 4);
    S o = e.template out<S>("sout", t);
    S y = Ops<S>::diff(x, x, 0);
    for (size_t i = 0; i < co.size() && i < h.size(); ++i) y = y + co[i] * h[i];
    CHECK(Ops<S>::eq(o, y), "sample " << k << ": " << Ops<S>::str(o) << " expected " << Ops<S>::str(y));
    S o2 = e.template out<S>("sout", t);
    CHECK(Ops<S>::eq(o2, y), "second evaluation at the same time: " << Ops<S>::str(o2) << " expected " << Ops<S>::str(y));
  }
  g.nontrivial(n > (int)co.size() && co.size() > 1);
  if (resized) g.label("resized");
}
PROP(fir_double) { fir<double, double>(g, "FIRFilter_double_double"); }
PROP(fir_vector) { fir<Vec, double>(g, "FIRFilter_Vector_double"); }
PROP(fir_matrix) { fir<Vec, Mat>(g, "FIRFilter_Vector_Matrix"); }

PROP(moving_average) {
  Ent e("ExpMovingAvg");
  double al = 0;
  int r = (int)g.size(1, 5), n = (int)g.steps(1, 20), t = 0;
  Vec avg = Vec::Zero(r), x = Vec::Zero(r);
  for (int k = 0; k < n; ++k) {
    if (g.chance(1, k ? 5 : 2)) {
      bool bad = g.chance(1, 3);
      double a = bad ? g.pick({-0.001, 1.001, -5., 2., std::numeric_limits<double>::quiet_NaN()}) : g.real(0, 1);
      LOG << " alpha=" << a;
      bool th = false;
      try {
        e.call("setAlpha", {Value(a)});
      } catch (const std::exception &) {
        th = true;
      }
      CHECK(th == bad, "setAlpha(" << a << ") " << (th ? "refused" : "accepted"));
      if (!bad) al = a;
    }
    if (k == 0 || g.chance(3, 4)) {
      x = genVec(g, r);
      e.in<Vec>("update", x);
    }
    LOG << " [" << x.transpose() << "]";
    avg = al * avg + (1 - al) * x;
    t += (int)g.size(1, 4);
    NEARM(e.out<Vec>("average", t), avg, TOL);
    if (g.flip()) NEARM(e.out<Vec>("average", t), avg, TOL);
  }
  g.nontrivial(n > 3 && al > 0);
}
