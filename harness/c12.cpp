// C12: selectors, stackers, mixers, transposers, constants and the input list of variadic operators.
#include "src/matrix/operator.hh"
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static void bounds(pbt::Gen &g, int n, int &lo, int &hi) {
  lo = (int)g.size(0, n);
  hi = lo + (int)g.size(0, n - lo);
}
// entries are all different, so that any misplacement shows
static Vec tagged(pbt::Gen &g, int n) {
  Vec v(n);
  double b = (double)g.integer(-50, 50);
  for (int i = 0; i < n; ++i) v(i) = b + i + 0.25;
  return v;
}
static Mat taggedM(pbt::Gen &g, int r, int c) {
  Mat m(r, c);
  double b = (double)g.integer(-50, 50);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) m(i, j) = b + 100 * i + j;
  return m;
}
static void exactV(const Vec &a, const std::vector<double> &e, const char *w) {
  CHECK(a.size() == (int)e.size(), w << ": size " << a.size() << " expected " << e.size());
  for (int i = 0; i < a.size(); ++i) CHECK(a(i) == e[i], w << ": component " << i << " is " << a(i) << " expected " << e[i]);
}
PROP(vector_selection) {
  Ent s("Selec_of_vector"), c("Component_of_vector");
  std::vector<std::pair<int, int>> segs;
  int maxi = 0, rounds = (int)g.size(1, 4);
  for (int k = 1; k <= rounds; ++k) {
    size_t ops = g.size(k == 1 ? 1 : 0, 4);
    for (size_t o = 0; o < ops; ++o) {
      int a, b;
      bounds(g, 10, a, b);
      if (g.chance(1, 3)) {
        LOG << " selec(" << a << "," << b << ")";
        s.call("selec", {Value(a), Value(b)});
        segs.clear();
      } else {
        LOG << " addSelec(" << a << "," << b << ")";
        s.call("addSelec", {Value(a), Value(b)});
      }
      segs.push_back(std::make_pair(a, b));
    }
    maxi = 1;
    for (auto &x : segs) maxi = std::max(maxi, x.second);
    Vec v = tagged(g, maxi + (int)g.size(0, 4));
    LOG << " n=" << v.size();
    std::vector<double> e;
    for (auto &x : segs)
      for (int i = x.first; i < x.second; ++i) e.push_back(v(i));
    s.in<Vec>("sin", v);
    exactV(s.out<Vec>("sout", k), e, "Selec_of_vector");
    int idx = (int)g.draw(v.size());
    c.call("setIndex", {Value(idx)});
    c.in<Vec>("sin", v);
    CHECK(c.out<double>("sout", k) == v(idx), "Component_of_vector " << idx << ": " << c.out<double>("sout", k));
  }
  g.nontrivial(segs.size() > 1);
}
PROP(matrix_selection) {
  Ent s("Selec_of_matrix"), c("Selec_column_of_matrix"), tr("MatrixTranspose"), di("MatrixDiagonal");
  int rounds = (int)g.size(1, 4), r0 = 0, r1 = 0, c0 = 0, c1 = 0, q0 = 0, q1 = 0, col = 0;
  for (int k = 1; k <= rounds; ++k) {
    if (k == 1 || g.flip()) { bounds(g, 6, r0, r1); s.call("selecRows", {Value(r0), Value(r1)}); }
    if (k == 1 || g.flip()) { bounds(g, 6, c0, c1); s.call("selecCols", {Value(c0), Value(c1)}); }
    if (k == 1 || g.flip()) { bounds(g, 6, q0, q1); c.call("selecRows", {Value(q0), Value(q1)}); }
    if (k == 1 || g.flip()) { col = (int)g.size(0, 5); c.call("selecCols", {Value(col)}); }
    Mat m = taggedM(g, std::max(1, std::max(r1, q1)) + (int)g.size(0, 2), std::max(std::max(1, c1), col + 1) + (int)g.size(0, 2));
    LOG << " rows[" << r0 << "," << r1 << "[ cols[" << c0 << "," << c1 << "[ col " << col << " rows[" << q0 << "," << q1 << "[ of "
        << m.rows() << "x" << m.cols();
    s.in<Mat>("sin", m);
    c.in<Mat>("sin", m);
    tr.in<Mat>("sin", m);
    Mat o = s.out<Mat>("sout", k);
    CHECK(o.rows() == r1 - r0 && o.cols() == c1 - c0, "block size " << o.rows() << "x" << o.cols());
    for (int i = r0; i < r1; ++i)
      for (int j = c0; j < c1; ++j) CHECK(o(i - r0, j - c0) == m(i, j), "block element " << i << "," << j);
    std::vector<double> e;
    for (int i = q0; i < q1; ++i) e.push_back(m(i, col));
    exactV(c.out<Vec>("sout", k), e, "Selec_column_of_matrix");
    Mat t = tr.out<Mat>("sout", k);
    CHECK(t.rows() == m.cols() && t.cols() == m.rows(), "transpose size");
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) CHECK(t(j, i) == m(i, j), "transpose element");
    Vec v = tagged(g, (int)g.size(0, 5));
    di.in<Vec>("sin", v);
    Mat d = di.out<Mat>("sout", k);
    CHECK(d.rows() == v.size() && d.cols() == v.size(), "diagonal size");
    for (int i = 0; i < v.size(); ++i)
      for (int j = 0; j < v.size(); ++j) CHECK(d(i, j) == (i == j ? v(i) : 0), "diagonal element " << i << "," << j);
  }
  g.nontrivial(r1 - r0 > 1 && c1 - c0 > 1 && r1 - r0 != c1 - c0);
}
PROP(stack) {
  Ent s("Stack_of_vector");
  int rounds = (int)g.size(1, 4), a0 = 0, a1 = 0, b0 = 0, b1 = 0;
  for (int k = 1; k <= rounds; ++k) {
    if (k == 1 || g.flip()) { bounds(g, 6, a0, a1); s.call("selec1", {Value(a0), Value(a1)}); }
    if (k == 1 || g.flip()) { bounds(g, 6, b0, b1); s.call("selec2", {Value(b0), Value(b1)}); }
    Vec x = tagged(g, a1 + (int)g.size(0, 3)), y = tagged(g, b1 + (int)g.size(0, 3));
    y.array() += 1000;
    LOG << " [" << a0 << "," << a1 << "[ of " << x.size() << " [" << b0 << "," << b1 << "[ of " << y.size();
    s.in<Vec>("sin1", x);
    s.in<Vec>("sin2", y);
    std::vector<double> e;
    for (int i = a0; i < a1; ++i) e.push_back(x(i));
    for (int i = b0; i < b1; ++i) e.push_back(y(i));
    exactV(s.out<Vec>("sout", k), e, "Stack_of_vector");
  }
  g.nontrivial(a1 > a0 && b1 > b0);
}
PROP(mix) {
  Ent s("Mix_of_vector");
  VariadicOp<VectorMix> *op = dynamic_cast<VariadicOp<VectorMix> *>(s.p.get());
  CHECK(op && op->getSignalNumber() == 1 && s->hasSignal("default"), "initial inputs of Mix_of_vector");
  int n = (int)g.size(1, 10), rounds = (int)g.size(1, 3);
  struct Seg { int sig, i, s; };
  std::vector<Seg> segs;
  std::vector<int> width(1, n);  // size of each input, fixed by its first selection
  bool refused = false;
  for (int k = 1; k <= rounds; ++k) {
    size_t extra = g.size(k == 1 ? 1 : 0, 3);
    for (size_t j = 0; j < extra; ++j) {
      op->addSignal();
      width.push_back((int)g.size(0, n));
    }
    CHECK(op->getSignalNumber() == (int)width.size(), "number of inputs");
    size_t ns = g.size(0, 4);
    for (size_t j = 0; j < ns; ++j) {
      Seg x;
      x.sig = 1 + (int)g.draw(width.size() - 1);
      x.s = width[x.sig];
      x.i = (int)g.size(0, n - x.s);
      segs.push_back(x);
      LOG << " addSelec(" << x.sig << "," << x.i << "," << x.s << ")";
      s.call("addSelec", {Value(x.sig), Value(x.i), Value(x.s)});
    }
    std::vector<Vec> in;
    for (size_t j = 0; j < width.size(); ++j) {
      Vec v = tagged(g, width[j]);
      v.array() += 1000. * (double)j;
      in.push_back(v);
      op->getSignalIn((int)j)->operator=(v);
    }
    std::vector<double> e(n);
    for (int i = 0; i < n; ++i) e[i] = in[0](i);
    for (auto &x : segs)
      for (int i = 0; i < x.s; ++i) e[x.i + i] = in[x.sig](i);
    exactV(s.out<Vec>("sout", 2 * k), e, "Mix_of_vector");
    if (k == rounds && g.chance(1, 3)) {  // a selection of an input that does not exist
      int bad = (int)width.size() + (int)g.size(0, 2);
      LOG << " addSelec(" << bad << ",0,0) with " << width.size() << " inputs";
      s.call("addSelec", {Value(bad), Value(0), Value(0)});
      op->getSignalIn(0)->operator=(in[0]);
      bool th = false;
      try {
        s.out<Vec>("sout", 2 * k + 1);
      } catch (const std::invalid_argument &) {
        th = true;
      }
      CHECK(th, "selection of a missing input accepted");
      while ((int)width.size() <= bad) {
        op->addSignal();
        op->getSignalIn((int)width.size())->operator=(Vec(0));
        width.push_back(0);
      }
      op->getSignalIn(0)->operator=(in[0]);
      exactV(s.out<Vec>("sout", 2 * k + 2), e, "Mix_of_vector once the input exists");
      refused = true;
    }
  }
  g.nontrivial(segs.size() > 1);
  if (refused) g.label("refused");
}
PROP(constants) {
  Ent v("VectorConstant"), m("MatrixConstant"), d("DoubleConstant");
  int rounds = (int)g.size(1, 5);
  for (int k = 1; k <= rounds; ++k) {
    unsigned r = (unsigned)g.size(0, 6), c = (unsigned)g.size(0, 6);
    if (g.chance(1, 3)) {
      LOG << " resize " << r << "x" << c;
      v.call("resize", {Value(r)});
      m.call("resize", {Value(r), Value(c)});
      for (int t = 0; t < 2; ++t) {
        exactV(v.out<Vec>("sout", 3 * k + t), std::vector<double>(r, 0.), "resized vector");
        Mat o = m.out<Mat>("sout", 3 * k + t);
        CHECK(o.rows() == (int)r && o.cols() == (int)c && o.isZero(0), "resized matrix");
      }
    } else {
      Vec x = tagged(g, r);
      Mat y = taggedM(g, r, c);
      double z = g.real(-5, 5);
      LOG << " set " << r << "x" << c << " " << z;
      v.call("set", {Value(x)});
      m.call("set", {Value(y)});
      d.call("set", {Value(z)});
      for (int t = 0; t < 2; ++t) {
        exactV(v.out<Vec>("sout", 3 * k + t), std::vector<double>(x.data(), x.data() + x.size()), "vector constant");
        Mat o = m.out<Mat>("sout", 3 * k + t);
        CHECK(o.rows() == (int)r && o.cols() == (int)c && o == y, "matrix constant");
        CHECK(d.out<double>("sout", 3 * k + t) == z, "double constant");
      }
    }
    g.nontrivial(rounds > 1 && r > 1 && c > 1 && r != c);
  }
}
// the named inputs of a variadic operator over any history of edits
template <class Op, class T>
static void inputs(pbt::Gen &g, const char *cls, std::vector<std::string> names, T (*gen)(pbt::Gen &)) {
  Ent e(cls);
  typedef VariadicOp<Op> V;
  V *op = dynamic_cast<V *>(e.p.get());
  CHECK(op != NULL, cls);
  int n = (int)g.size(1, 12), conflicts = 0;
  std::vector<std::string> pool = {"sin0", "sin1", "sin2", "sin3", "sin4", "sin5", "sin6", "sin7", "x", "y", "default"};
  std::set<std::string> seen(names.begin(), names.end());
  for (int k = 1; k <= n; ++k) {
    auto has = [&](const std::string &s) { return std::find(names.begin(), names.end(), s) != names.end(); };
    switch (g.draw(5)) {
      case 0: {
        int m = (int)g.size(1, 7);
        LOG << " setSignalNumber(" << m << ")";
        std::vector<std::string> r = names;
        bool ok = true;
        if (m < (int)r.size()) r.resize(m);
        while ((int)r.size() < m && ok) {
          std::string s = "sin" + std::to_string(r.size());
          if (std::find(r.begin(), r.end(), s) != r.end()) ok = false;
          else r.push_back(s);
        }
        bool th = false;
        try {
          op->setSignalNumber(m);
        } catch (const std::exception &) {
          th = true;
        }
        CHECK(th == !ok, "setSignalNumber(" << m << ") " << (th ? "threw" : "accepted a name already in use"));
        conflicts += th;
        if (ok) names = r;
        else {  // only the number of inputs reported matters: they must all be usable
          int left = op->getSignalNumber();
          CHECK(left >= (int)std::min(names.size(), (size_t)m) && left <= (int)r.size(), "inputs after the refusal: " << left);
          r.resize(left);
          names = r;
        }
        break;
      }
      case 1: {
        std::string s = g.pick(pool);
        LOG << " addSignal(" << s << ")";
        bool clash = has(s), th = false;
        try {
          size_t i = op->addSignal(s);
          CHECK(i == names.size(), "index " << i);
        } catch (const pbt::Failure &) {
          throw;
        } catch (const std::exception &) {
          th = true;
        }
        CHECK(th == clash, "addSignal(" << s << ") " << (th ? "threw" : "accepted twice"));
        conflicts += th;
        if (!clash) names.push_back(s);
        break;
      }
      case 2: {
        std::string s = "sin" + std::to_string(names.size());
        LOG << " addSignal()";
        bool clash = has(s), th = false;
        try {
          op->addSignal();
        } catch (const std::exception &) {
          th = true;
        }
        CHECK(th == clash, "addSignal() -> " << s << (th ? " threw" : " accepted twice"));
        if (!clash) names.push_back(s);
        break;
      }
      case 3:
        if (names.size() > 1) {
          LOG << " removeSignal()";
          op->removeSignal();
          names.pop_back();
        }
        break;
      default: {
        int i = (int)g.integer(-2, 9);
        bool th = false;
        try {
          op->getSignalIn(i);
        } catch (const std::out_of_range &) {
          th = true;
        }
        CHECK(th == (i < 0 || i >= (int)names.size()), "getSignalIn(" << i << ") with " << names.size() << " inputs");
      }
    }
    for (auto &s : names) seen.insert(s);
    CHECK(op->getSignalNumber() == (int)names.size(), "reports " << op->getSignalNumber() << " inputs, expected " << names.size());
    for (auto &s : seen) CHECK(e->hasSignal(s) == has(s), "input " << s << (has(s) ? " missing" : " still there"));
    for (size_t i = 0; i < names.size(); ++i)
      CHECK(op->getSignalIn((int)i) == &e->getSignal(names[i]), "input " << i << " is not " << names[i]);
    // evaluate: every declared input counts, once
    std::vector<T> vals;
    for (auto &s : names) {
      T v = gen(g);
      vals.push_back(v);
      e.in<T>(s, v);
    }
    T o = e.template out<T>("sout", k), x = vals[0];
    if (std::string(cls) != "Mix_of_vector")
      for (size_t i = 1; i < vals.size(); ++i) x = std::string(cls) == "Add_of_double" ? T(x + vals[i]) : T(x * vals[i]);
    CHECK(o == x, cls << " of " << names.size() << " inputs");
  }
  g.nontrivial(n > 3);
  if (conflicts) g.label("name conflict");
}
static double genD(pbt::Gen &g) { return (double)g.integer(-8, 8); }
PROP(inputs_adder) { inputs<AdderVariadic<double>, double>(g, "Add_of_double", {"sin0", "sin1"}, genD); }
PROP(inputs_product) { inputs<Multiplier<double>, double>(g, "Multiply_of_double", {"sin0", "sin1"}, genD); }
