// C15: Euler integrator of a linear ODE.
#include "ent.hpp"
#include <dynamic-graph/exception-signal.h>
using dynamicgraph::command::Value;
template <class T> struct S;
template <> struct S<double> {
  static double gen(pbt::Gen &g, int) { return g.real(-8, 8); }
  static bool eq(double a, double b, double s) { return std::fabs(a - b) <= 1e-10 * s; }
  static double mag(double a) { return std::fabs(a); }
  static std::string str(double a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }
};
template <> struct S<Vec> {
  static Vec gen(pbt::Gen &g, int n) { return genVec(g, n, 8); }
  static bool eq(const Vec &a, const Vec &b, double s) { return a.size() == b.size() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-10 * s); }
  static double mag(const Vec &a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0; }
  static std::string str(const Vec &a) { std::ostringstream o; o.precision(17); o << a.transpose(); return o.str(); }
};
static double genC(pbt::Gen &g, double, int) { return g.dyadic(-1.5, 1.5); }
static Mat genC(pbt::Gen &g, const Mat &, int n) { Mat m(n, n); for (int i = 0; i < n * n; ++i) m(i / n, i % n) = g.dyadic(-1, 1); return m; }
static double one(double, int) { return 1; }
static Mat one(const Mat &, int n) { return Mat::Identity(n, n); }
template <class T, class C>
static void run(pbt::Gen &g, const char *cls) {
  Ent e(cls);
  int n = (int)g.size(1, 3);
  if (std::is_same<T, double>::value) n = 1;
  double dt = 0.005;
  CHECK((double)e.call("getSamplingPeriod").doubleValue() == dt, "default sampling period");
  C proto = C();
  std::vector<C> num, den;
  std::vector<T> X, Y;
  int t = (int)g.integer(0, 4), steps = 0;
  double scale = 1;
  auto refused = [&](const char *why) {
    bool thrown = false;
    try { e.call("initialize"); } catch (dynamicgraph::ExceptionSignal &) { thrown = true; }
    CHECK(thrown, "initialize accepted " << why);
  };
  auto build = [&]() {
    while (!num.empty()) { e.call("popNumCoef"); num.pop_back(); }
    while (!den.empty()) { e.call("popDenomCoef"); den.pop_back(); }
    if (g.chance(1, 6)) refused("empty polynomials");
    int nn = (int)g.size(1, 4), nd = (int)g.size(1, 4);
    for (int i = 0; i < nn; ++i) {
      C c = genC(g, proto, n);
      e.call("pushNumCoef", {Value(c)});
      num.push_back(c);
    }
    if (g.chance(1, 6)) refused("an empty denominator");
    for (int i = 0; i + 1 < nd; ++i) {
      C c = genC(g, proto, n);
      e.call("pushDenomCoef", {Value(c)});
      den.push_back(c);
    }
    if (g.chance(1, 4)) {
      C c = one(proto, n) * g.pick({2., 0.5, -1., 1.25});
      e.call("pushDenomCoef", {Value(c)});
      refused("a leading coefficient that is not the identity");
      e.call("popDenomCoef");
    }
    e.call("pushDenomCoef", {Value(one(proto, n))});
    den.push_back(one(proto, n));
    LOG << " num " << nn << " den " << nd << " n " << n;
  };
  auto setDt = [&]() {
    dt = g.pick({0.005, 0.1, 0.5, 1., 0.25});
    e.call("setSamplingPeriod", {Value(dt)});
    CHECK((double)e.call("getSamplingPeriod").doubleValue() == dt, "getSamplingPeriod");
    LOG << " dt=" << dt;
  };
  auto init = [&](const T &x) {
    e.in<T>("sin", x);
    e.sig<T>("sin").access(t);  // the command starts from the current copy
    e.call("initialize");
    X.assign(num.size(), x);
    Y.assign(den.size(), x);
    scale = 1 + S<T>::mag(x);
    LOG << " init " << S<T>::str(x);
  };
  if (g.chance(2, 3)) setDt();
  build();
  T x = S<T>::gen(g, n);
  init(x);
  int N = (int)g.steps(1, 14);
  bool derivs = false;
  for (int k = 0; k < N; ++k) {
    switch (g.weighted({12, 1, 1, 1})) {
      case 1: setDt(); break;
      case 2: init(S<T>::gen(g, n)); break;
      case 3: build(); init(S<T>::gen(g, n)); break;
      default: break;
    }
    x = g.chance(1, 5) ? x : S<T>::gen(g, n);
    e.in<T>("sin", x);
    t += (int)g.size(1, 3);
    LOG << " x=" << S<T>::str(x);
    // model: x^(i) = (x^(i-1)[k] - x^(i-1)[k-1])/dt
    std::vector<T> nX(X.size());
    nX[0] = x;
    for (size_t i = 1; i < X.size(); ++i) nX[i] = (nX[i - 1] - X[i - 1]) * (1 / dt);
    T sum = num[0] * nX[0];
    for (size_t i = 1; i < X.size(); ++i) sum = sum + num[i] * nX[i];
    for (size_t i = 0; i + 1 < Y.size(); ++i) sum = sum - den[i] * Y[i];
    for (const T &v : nX) scale = std::max(scale, S<T>::mag(v) * 4);
    Y.back() = sum;
    scale = std::max(scale, S<T>::mag(sum));
    for (int i = (int)Y.size() - 2; i >= 0; --i) {
      Y[i] = Y[i] + Y[i + 1] * dt;
      scale = std::max(scale, S<T>::mag(Y[i]));
    }
    X = nX;
    bool dfirst = g.chance(1, 3), dtoo = dfirst || g.chance(1, 3);
    auto deriv = [&]() {
      if (Y.size() < 2) {
        bool thrown = false;
        try { e.template out<T>("derivativesout", t); } catch (dynamicgraph::ExceptionSignal &) { thrown = true; }
        CHECK(thrown, "derivative of an integrator of order zero");
      } else {
        T d = e.template out<T>("derivativesout", t);
        CHECK(S<T>::eq(d, Y[1], scale), "step " << k << ": derivative " << S<T>::str(d) << " expected " << S<T>::str(Y[1]));
        derivs = true;
      }
    };
    if (dfirst) deriv();
    for (int rep = 0, r = 1 + (int)g.draw(2); rep < r; ++rep) {
      T o = e.template out<T>("sout", t);
      CHECK(S<T>::eq(o, Y[0], scale), "step " << k << " evaluation " << rep << ": " << S<T>::str(o) << " expected " << S<T>::str(Y[0]));
    }
    if (!dfirst && dtoo) deriv();
    ++steps;
    if (scale > 1e12) break;
  }
  g.nontrivial(steps > 2 && Y.size() > 1 && X.size() > 1);
  if (derivs) g.label("derivative");
}
PROP(euler_double) { run<double, double>(g, "IntegratorEulerDoubleDouble"); }
PROP(euler_vector_matrix) { run<Vec, Mat>(g, "IntegratorEulerVectorMatrix"); }
PROP(euler_vector_double) { run<Vec, double>(g, "IntegratorEulerVectorDouble"); }
