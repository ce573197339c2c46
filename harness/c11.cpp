// C11: the arithmetic operator entities against the operation they are named for.
#include "src/matrix/operator.hh"
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static const double TOL = 1e-11;

/* per type: generation and comparison */
template <class T> struct Ty;
template <> struct Ty<double> {
  static double gen(pbt::Gen &g, int, int) { return g.real(-20, 20); }
  static bool eq(double a, double b) { return pbt::near(a, b, TOL); }
  static double zero(double) { return 0; }
};
template <> struct Ty<Vec> {
  static Vec gen(pbt::Gen &g, int r, int) { return genVec(g, r); }
  static bool eq(const Vec &a, const Vec &b) { return pbt::nearM(a, b, TOL); }
  static Vec zero(const Vec &a) { return Vec::Zero(a.size()); }
};
template <> struct Ty<Mat> {
  static Mat gen(pbt::Gen &g, int r, int c) { return genMat(g, r, c); }
  static bool eq(const Mat &a, const Mat &b) { return pbt::nearM(a, b, TOL); }
  static Mat zero(const Mat &a) { return Mat::Zero(a.rows(), a.cols()); }
};
static std::string sh(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
static std::string sh(const Mat &m) { std::ostringstream o; o.precision(17); o << "{" << m << "}"; return o.str(); }
static std::string sh(const Vec &m) { return sh(Mat(m.transpose())); }

template <class T>
static void sums(pbt::Gen &g, const std::string &suffix) {
  Ent sub("Substract_of_" + suffix), wa("WeightAdd_of_" + suffix), add("Add_of_" + suffix);
  typedef VariadicOp<AdderVariadic<T>> Op;
  Op *op = dynamic_cast<Op *>(add.p.get());
  CHECK(op != NULL, "Add_of_" << suffix << " type");
  CHECK(op->getSignalNumber() == 2, "initial number of operands " << op->getSignalNumber());
  int rounds = (int)g.size(1, 3), n = 2, t = 0;
  Vec coeffs = Vec::Ones(2);
  for (int k = 0; k < rounds; ++k) {
    t += (int)g.size(1, 5);
    int r = (int)g.size(1, 6), c = (int)g.size(1, 6);
    T a = Ty<T>::gen(g, r, c), b = Ty<T>::gen(g, r, c);
    LOG << " (" << sh(a) << " , " << sh(b) << ")";
    sub.in<T>("sin1", a);
    sub.in<T>("sin2", b);
    T o = sub.template out<T>("sout", t);
    CHECK(Ty<T>::eq(o, a - b), "difference " << sh(o));
    double g1 = g.real(-3, 3), g2 = g.real(-3, 3);
    LOG << " gains " << g1 << " " << g2;
    wa.call("setGain1", {Value(g1)});
    wa.call("setGain2", {Value(g2)});
    wa.in<T>("sin1", a);
    wa.in<T>("sin2", b);
    o = wa.template out<T>("sout", t);
    CHECK(Ty<T>::eq(o, g1 * a + g2 * b), "weighted sum " << sh(o));
    double rg1 = wa.call("getGain1").value(), rg2 = wa.call("getGain2").value();
    CHECK(rg1 == g1 && rg2 == g2, "gains read back " << rg1 << " " << rg2);
    if (g.chance(2, 3)) {
      n = (int)g.size(1, 6);
      op->setSignalNumber(n);
      coeffs = Vec::Ones(n);
      CHECK(op->getSignalNumber() == n, "number of operands");
    }
    if (g.flip()) {
      coeffs = genVec(g, n, 3);
      op->op.setCoeffs(coeffs);
    }
    if (g.chance(1, 4)) {
      bool th = false;
      try {
        op->op.setCoeffs(Vec::Ones(n + (g.flip() && n > 0 ? -1 : 1)));
      } catch (const std::invalid_argument &) {
        th = true;
      }
      CHECK(th, "wrong number of coefficients accepted");
    }
    LOG << " n=" << n << " coeffs=" << coeffs.transpose();
    T e = Ty<T>::zero(a);
    for (int i = 0; i < n; ++i) {
      T x = Ty<T>::gen(g, r, c);
      e = e + coeffs(i) * x;
      add.in<T>("sin" + std::to_string(i), x);
    }
    o = add.template out<T>("sout", t);
    CHECK(Ty<T>::eq(o, e), "sum of " << n << " operands " << sh(o) << " expected " << sh(e));
    g.nontrivial(n > 2 && coeffs != Vec(Vec::Ones(n)));
  }
}
PROP(sums_vector) { sums<Vec>(g, "vector"); }
PROP(sums_matrix) { sums<Mat>(g, "matrix"); }
PROP(sums_double) { sums<double>(g, "double"); }

template <class T>
static VariadicAbstract<T, T, int> *variadic(Ent &e) {
  VariadicAbstract<T, T, int> *v = dynamic_cast<VariadicAbstract<T, T, int> *>(e.p.get());
  CHECK(v != NULL, "not a variadic operator");
  return v;
}
// products: the inputs are consumed left to right
PROP(product_double) {
  Ent e("Multiply_of_double");
  int rounds = (int)g.size(1, 3);
  for (int k = 1; k <= rounds; ++k) {
    int n = (int)g.size(0, 6);
    variadic<double>(e)->setSignalNumber(n);
    double x = 1;
    for (int i = 0; i < n; ++i) {
      double a = g.real(-4, 4);
      LOG << " " << a;
      x *= a;
      e.in<double>("sin" + std::to_string(i), a);
    }
    LOG << ";";
    e.sig<double>("sout").setReady();
    CHECK(pbt::near(e.out<double>("sout", k), x, TOL), e.out<double>("sout", k) << " expected " << x);
    g.nontrivial(n > 2);
  }
}
PROP(product_vector) {
  Ent e("Multiply_of_vector");
  int rounds = (int)g.size(1, 3);
  for (int k = 1; k <= rounds; ++k) {
    int n = (int)g.size(0, 5), s = (int)g.size(1, 6);
    variadic<Vec>(e)->setSignalNumber(n);
    Vec x = Vec::Ones(n ? s : 0);
    for (int i = 0; i < n; ++i) {
      Vec a = genVec(g, s, 4);
      LOG << " {" << a.transpose() << "}";
      x = x.cwiseProduct(a);
      e.in<Vec>("sin" + std::to_string(i), a);
    }
    e.sig<Vec>("sout").setReady();
    NEARM(e.out<Vec>("sout", k), x, TOL);
    g.nontrivial(n > 2);
  }
}
PROP(product_matrix) {
  Ent e("Multiply_of_matrix");
  int rounds = (int)g.size(1, 3);
  for (int k = 1; k <= rounds; ++k) {
    int n = (int)g.size(1, 4), r = (int)g.size(1, 5), c = r;
    variadic<Mat>(e)->setSignalNumber(n);
    Mat x = Mat::Identity(r, r);
    bool rect = false;
    for (int i = 0; i < n; ++i) {
      int c2 = g.flip() ? c : (int)g.size(1, 5);
      Mat a = genMat(g, c, c2, 3);
      rect = rect || c != c2;
      c = c2;
      LOG << " {" << a << "}";
      x = x * a;
      e.in<Mat>("sin" + std::to_string(i), a);
    }
    NEARM(e.out<Mat>("sout", k), x, TOL);
    g.nontrivial(n > 2 && rect);
  }
}
PROP(product_motion) {
  int n = (int)g.size(0, 5);
  Ent h("Multiply_of_matrixHomo"), r("Multiply_of_matrixrotation"), t("Multiply_of_matrixtwist"), q("Multiply_of_quaternion");
  variadic<Homo>(h)->setSignalNumber(n);
  variadic<Rot>(r)->setSignalNumber(n);
  variadic<Twist>(t)->setSignalNumber(n);
  variadic<VectorQuaternion>(q)->setSignalNumber(n);
  Eigen::Matrix4d H = Eigen::Matrix4d::Identity();
  for (int i = 0; i < n; ++i) {
    std::string s = "sin" + std::to_string(i);
    V3 u = genAxis(g), p = genV3(g, 2);
    double a = genAngle(g);
    Homo m = mkHomo(rodrigues(u, a), p);
    LOG << " {" << m.matrix() << "}";
    H = H * m.matrix();
    h.in<Homo>(s, m);
    r.in<Rot>(s, Rot(m.linear()));
    t.in<Twist>(s, Twist(twistOf(m)));
    V3 v = std::sin(a / 2) * u;
    q.in<VectorQuaternion>(s, VectorQuaternion(std::cos(a / 2), v(0), v(1), v(2)));
  }
  h.sig<Homo>("sout").setReady();
  r.sig<Rot>("sout").setReady();
  t.sig<Twist>("sout").setReady();
  q.sig<VectorQuaternion>("sout").setReady();
  NEARM(h.out<Homo>("sout", 1).matrix(), H, TOL);
  Homo e;
  e.matrix() = H;
  NEARM(r.out<Rot>("sout", 1), Rot(e.linear()), TOL);
  NEARM(t.out<Twist>("sout", 1), Twist(twistOf(e)), 1e-10);
  VectorQuaternion Q = q.out<VectorQuaternion>("sout", 1);
  NEARM(quatRot(Q.w(), Q.x(), Q.y(), Q.z()), Rot(e.linear()), 1e-10);
  g.nontrivial(n > 2);
}
PROP(binary_products) {
  Ent dv("Multiply_double_vector"), mv("Multiply_matrix_vector"), hv("Multiply_matrixHomo_vector"), tv("Multiply_matrixTwist_vector");
  int rounds = (int)g.size(1, 3);
  for (int k = 1; k <= rounds; ++k) {
    int r = (int)g.size(1, 6), c = (int)g.size(1, 6);
    Mat M = genMat(g, r, c);
    Vec v = genVec(g, c);
    double x = g.real(-5, 5);
    Homo h = genHomo(g);
    Vec p = genVec(g, 4), w = genVec(g, 6);
    Twist T = genMat(g, 6, 6);
    LOG << x << " {" << M << "} {" << v.transpose() << "} {" << h.matrix() << "} {" << p.transpose() << "}";
    dv.in<double>("sin1", x);
    dv.in<Vec>("sin2", v);
    NEARM(dv.out<Vec>("sout", k), Vec(x * v), TOL);
    mv.in<Mat>("sin1", M);
    mv.in<Vec>("sin2", v);
    Vec e = Vec::Zero(r);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) e(i) += M(i, j) * v(j);
    NEARM(mv.out<Vec>("sout", k), e, TOL);
    hv.in<Homo>("sin1", h);
    hv.in<Vec>("sin2", p);
    e = Vec(4);
    e << h.linear() * p.head(3) + p(3) * h.translation(), p(3);
    NEARM(hv.out<Vec>("sout", k), e, TOL);
    tv.in<Twist>("sin1", T);
    tv.in<Vec>("sin2", w);
    NEARM(tv.out<Vec>("sout", k), Vec(T * w), TOL);
    g.nontrivial(r != c);
  }
}
PROP(inverse_and_norm) {
  int n = (int)g.size(1, 6);
  Mat M = genRank(g, n, n, n);
  Vec v = genVec(g, (int)g.size(0, 8));
  LOG << "{" << M << "} {" << v.transpose() << "}";
  Ent im("Inverse_of_matrix"), nv("Norm_of_vector");
  im.in<Mat>("sin", M);
  Mat I = im.out<Mat>("sout", 1);
  NEARM(Mat(M * I), Mat(Mat::Identity(n, n)), 1e-9);
  nv.in<Vec>("sin", v);
  double s = 0;
  for (int i = 0; i < v.size(); ++i) s += v(i) * v(i);
  NEAR(nv.out<double>("sout", 1), std::sqrt(s), TOL);
  g.nontrivial(n > 1 && v.size() > 1);
}
PROP(comparisons) {
  Ent cd("CompareDouble"), cv("CompareVector");
  bool any = true, eq = false;
  int rounds = (int)g.size(1, 5);
  for (int k = 1; k <= rounds; ++k) {
    double a = g.dyadic(-1, 1), b = g.flip() ? a : g.dyadic(-1, 1);
    cd.in<double>("sin1", a);
    cd.in<double>("sin2", b);
    CHECK(cd.out<bool>("sout", k) == (a < b), a << " < " << b);
    int n = (int)g.size(1, 5);
    Vec x(n), y(n);
    for (int i = 0; i < n; ++i) {
      x(i) = g.dyadic(-1, 1);
      y(i) = g.flip() ? x(i) : g.dyadic(-1, 1) + g.pick({0., 0.5});
    }
    if (g.flip()) cv.call("setTrueIfAny", {Value(any = g.flip())});
    if (g.flip()) cv.call("setEqual", {Value(eq = g.flip())});
    bool ra = cv.call("getTrueIfAny").value(), re = cv.call("getEqual").value();
    CHECK(ra == any && re == eq, "settings read back");
    bool e = !any;
    for (int i = 0; i < n; ++i) {
      bool c = eq ? x(i) <= y(i) : x(i) < y(i);
      e = any ? e || c : e && c;
    }
    LOG << " {" << x.transpose() << "} {" << y.transpose() << "} any=" << any << " equal=" << eq;
    cv.in<Vec>("sin1", x);
    cv.in<Vec>("sin2", y);
    CHECK(cv.out<bool>("sout", k) == e, "expected " << e);
    g.nontrivial(n > 1 && (!any || eq));
  }
}
PROP(booleans) {
  Ent a("And"), o("Or");
  int rounds = (int)g.size(1, 4);
  for (int k = 1; k <= rounds; ++k) {
    int n = (int)g.size(1, 6);
    variadic<bool>(a)->setSignalNumber(n);
    variadic<bool>(o)->setSignalNumber(n);
    bool ea = true, eo = false;
    bool bias = g.flip();
    LOG << " ;";
    for (int i = 0; i < n; ++i) {
      bool b = g.chance(1, 3) ? !bias : bias;
      LOG << b;
      ea = ea && b;
      eo = eo || b;
      a.in<bool>("sin" + std::to_string(i), b);
      o.in<bool>("sin" + std::to_string(i), b);
    }
    CHECK(a.out<bool>("sout", k) == ea, "And, expected " << ea);
    CHECK(o.out<bool>("sout", k) == eo, "Or, expected " << eo);
    g.nontrivial(n > 2);
  }
}
// out[i](t) = sum_j kernel(i,j) in[i](t-j), over the samples received so far
PROP(convolution) {
  Ent c("ConvolutionTemporal");
  int s = (int)g.size(1, 4), m = (int)g.size(1, 6), len = (int)g.size(1, 14), t = 0;
  Mat K = genMat(g, s, m, 3);
  LOG << "{" << K << "}";
  std::vector<Vec> h;
  for (int k = 0; k < len; ++k) {
    t += (int)g.size(1, 3);
    Vec x = genVec(g, s);
    LOG << " [" << x.transpose() << "]";
    if (g.chance(1, 6)) {  // another kernel, possibly longer or shorter
      m = (int)g.size(1, 6);
      K = genMat(g, s, m, 3);
      LOG << " kernel {" << K << "}";
      // samples dropped by a shorter kernel are not recovered
    }
    h.insert(h.begin(), x);
    if ((int)h.size() > m) h.resize(m);
    c.in<Vec>("sin1", x);
    c.in<Mat>("sin2", K);
    Vec e = Vec::Zero(s);
    for (size_t j = 0; j < h.size(); ++j)
      for (int i = 0; i < s; ++i) e(i) += K(i, j) * h[j](i);
    Vec o = c.out<Vec>("sout", t);
    NEARM(o, e, TOL);
    Vec o2 = c.out<Vec>("sout", t);
    CHECK(o2 == o, "second evaluation at the same time differs");
  }
  g.nontrivial(len > m && m > 1);
}
