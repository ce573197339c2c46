// C21: gain laws.
#include <sot/core/gain-adaptive.hh>
#include <sot/core/gain-hyperbolic.hh>
#include "ent.hpp"
using dynamicgraph::command::Value;
using namespace dynamicgraph::sot;
static Vec errOf(pbt::Gen &g, double norm) {
  int n = (int)g.size(1, 6);
  Vec v = genVec(g, n, 1);
  if (norm == 0) return Vec::Zero(n);
  if (v.norm() < 1e-3) v = Vec::Unit(n, 0);
  return v * (norm / v.norm());
}
static double genNorm(pbt::Gen &g) { return g.pick({0., 1e-6, 0.1, 1., 5., 100.}) * g.pick({1., 0.3, 2.5}); }
/// A gain built by the factory or by one of the C++ constructors: route -1 by name, 0 constant, 1 all coefficients
template <class G>
static dg::Entity *build(int how, double g0, double gi, double tan, double d);
template <>
dg::Entity *build<GainAdaptive>(int how, double g0, double gi, double tan, double) {
  return how == 0 ? new GainAdaptive(freshName("ga"), g0) : how == 1 ? new GainAdaptive(freshName("ga"), g0, gi, tan) : new GainAdaptive(freshName("ga"));
}
template <>
dg::Entity *build<GainHyperbolic>(int how, double g0, double gi, double tan, double d) {
  return how == 0 ? new GainHyperbolic(freshName("gh"), g0) : how == 1 ? new GainHyperbolic(freshName("gh"), g0, gi, tan, d) : new GainHyperbolic(freshName("gh"));
}
/// However it was built, a gain has the signals and commands of one created by name, and the values it was given
template <class G>
static void constructed(pbt::Gen &g, const char *cls) {
  Ent named(cls);
  int how = (int)g.draw(3);
  double g0 = g.real(-5, 20), gi = g.chance(1, 4) ? g0 : g.real(-5, 20), tan = g.real(0, 30) * (g0 < gi ? -1 : 1), d = g.pick({0., 0.1, 1.});
  if (how == 0) gi = g0;
  if (how == 2) g0 = gi = G::INFTY_DEFAULT;
  Ent e(build<G>(how, g0, gi, tan, d));
  auto names = [](dg::Entity &x) {
    std::string r;
    for (auto &s : x.getSignalMap()) r += s.first + " ";
    r += "|";
    for (auto &c : x.getNewStyleCommandMap()) r += " " + c.first;
    return r;
  };
  CHECK(names(*e) == names(*named), "constructor " << how << ": signals and commands " << names(*e) << ", created by name " << names(*named));
  double a = g0 - gi;
  bool hyp = std::string(cls) == "GainHyperbolic";
  for (int t = 1; t < 5; ++t) {
    double n = genNorm(g), ref, b = a == 0 ? 0 : tan / a;
    ref = hyp ? gi + a / (1 + std::exp(b * (n - d))) : gi + a * std::exp(-b * n);
    e.in<Vec>("error", errOf(g, n));
    double v = e.out<double>("gain", t);
    if (std::isfinite(ref) && std::fabs(ref) < 1e100) CHECK(std::fabs(v - ref) <= 1e-8 * (1 + std::fabs(ref)) * (1 + std::fabs(b) * n * 1e-3), "constructor " << how << ": gain(" << n << ") = " << v << " expected " << ref);
  }
  g.nontrivial(a != 0 && tan != 0);
}
PROP(adaptiveConstructors) { constructed<GainAdaptive>(g, "GainAdaptive"); }
PROP(hyperbolicConstructors) { constructed<GainHyperbolic>(g, "GainHyperbolic"); }
PROP(adaptive) {
  Ent e("GainAdaptive");
  GainAdaptive *ga = dynamic_cast<GainAdaptive *>(e.p.get());
  CHECK(ga, "type");
  int t = 0, rounds = (int)g.steps(1, 4);
  double a = 0, b = 0, c = GainAdaptive::INFTY_DEFAULT, g0 = GainAdaptive::ZERO_DEFAULT;
  a = g0 - c;
  bool nt = false;
  auto eval = [&](double norm) {
    e.in<Vec>("error", errOf(g, norm));
    ++t;
    double v = e.out<double>("gain", t);
    double ref = a * std::exp(-b * norm) + c;
    if (std::isfinite(ref) && std::fabs(ref) < 1e100)
      CHECK(std::fabs(v - ref) <= 1e-9 * (1 + std::fabs(ref)) * (1 + std::fabs(b) * norm * 1e-3), "gain(" << norm << ") = " << v << " expected " << ref);
    return v;
  };
  for (int r = 0; r < rounds; ++r) {
    g0 = g.real(-5, 20);
    double gi = g.chance(1, 5) ? g0 : g.real(-5, 20), xref = -1, p = 1;
    int route = (int)g.draw(6);
    bool api = g.flip();
    LOG << " route " << route << (api ? " api" : " command");
    switch (route) {
      case 0:
        if (r == 0) { g0 = GainAdaptive::ZERO_DEFAULT; gi = GainAdaptive::INFTY_DEFAULT; a = 0; b = 0; c = gi; break; }
      case 1: {
        if (api) ga->init(g0); else e.call("setConstant", {Value(g0)});
        gi = g0; a = 0; b = 0; c = g0;
        break;
      }
      case 2: case 3: {
        double tan = std::fabs(g.real(0, 30)) * (g0 < gi ? -1 : 1);
        if (g.chance(1, 6)) tan = -tan;
        if (api) ga->init(g0, gi, tan); else e.call("set", {Value(g0), Value(gi), Value(tan)});
        a = g0 - gi; c = gi; b = a == 0 ? 0 : tan / a;
        if (a != 0 && std::fabs(b) < 1e3) {
          // the slope at zero is the requested one (downwards)
          double h = 1e-6 / (1 + std::fabs(b)), s = (eval(h) - eval(0)) / h;
          CHECK(std::fabs(s + tan) <= 1e-3 * (1 + std::fabs(tan)) + 1e-9 * (std::fabs(a) + std::fabs(c)) / h, "slope at zero " << s << " expected " << -tan);
        }
        break;
      }
      default: {
        xref = g.pick({0.01, 0.1, 1., 3., 50.});
        p = g.flip() ? g.pick({0.01, 0.1, 0.5, 0.9}) : g.chance(1, 4) ? g.pick({1e-4, 1e-9, .9999}) : g.uniform(.01, .99);
        if (api) ga->initFromPassingPoint(g0, gi, xref, p); else e.call("setByPoint", {Value(g0), Value(gi), Value(xref), Value(p)});
        a = g0 - gi; c = gi; b = a == 0 ? 0 : -std::log(p) / xref;
        double v = eval(xref);
        CHECK(std::fabs(v - (gi + p * (g0 - gi))) <= 1e-9 * (1 + std::fabs(g0) + std::fabs(gi)), "passing point: " << v << " expected " << gi + p * (g0 - gi));
      }
    }
    if (g.chance(1, 8)) { ga->forceConstant(); a = 0; g0 = gi = c; LOG << " forceConstant"; }
    LOG << " a=" << a << " b=" << b << " c=" << c;
    double tol = 1e-9 * (1 + std::fabs(g0) + std::fabs(gi));
    CHECK(std::fabs(eval(0) - g0) <= tol, "value at zero error");
    double n1 = genNorm(g), n2 = genNorm(g);
    if (n1 > n2) std::swap(n1, n2);
    double v1 = eval(n1), v2 = eval(n2);
    if (b >= 0) {
      CHECK((g0 >= gi ? v1 >= v2 - tol : v1 <= v2 + tol), "not monotone: " << v1 << " at " << n1 << ", " << v2 << " at " << n2);
      CHECK(v1 >= std::min(g0, gi) - tol && v1 <= std::max(g0, gi) + tol, "out of its bounds: " << v1);
      if (b > 0) CHECK(std::fabs(eval(60 / b) - gi) <= tol, "limit at infinity");
    }
    nt = nt || (a != 0 && b != 0);
  }
  g.nontrivial(nt);
}
PROP(hyperbolic) {
  std::unique_ptr<GainHyperbolic> gh;
  Ent e("GainHyperbolic");
  GainHyperbolic *h = dynamic_cast<GainHyperbolic *>(e.p.get());
  CHECK(h, "type");
  int t = 0, rounds = (int)g.steps(1, 4);
  double a, b, c, d;
  bool nt = false;
  for (int r = 0; r < rounds; ++r) {
    double g0 = g.real(-5, 20), gi = g.chance(1, 5) ? g0 : g.real(-5, 20), tan = std::fabs(g.real(0, 30)) * (g0 < gi ? -1 : 1);
    d = g.pick({0., 0.1, 1., 3.});
    switch (g.draw(4)) {
      case 0: h->init(g0); gi = g0; a = b = d = 0; c = g0; break;
      default: h->init(g0, gi, tan, d); a = g0 - gi; c = gi; b = a == 0 ? 0 : tan / a / 2; break;
    }
    if (g.chance(1, 8)) { h->forceConstant(); a = 0; g0 = gi; LOG << " forceConstant"; }
    LOG << " a=" << a << " b=" << b << " c=" << c << " d=" << d;
    double tol = 1e-9 * (1 + std::fabs(g0) + std::fabs(gi));
    auto eval = [&](double norm) {
      e.in<Vec>("error", errOf(g, norm));
      ++t;
      double v = e.out<double>("gain", t);
      double x = 2 * b * (norm - d);  // tanh written with the exponential
      double ref = c + a / (1 + std::exp(x));
      CHECK(std::fabs(v - ref) <= tol * (1 + std::fabs(b) * (norm + d) * 1e-3), "gain(" << norm << ") = " << v << " expected " << ref);
      return v;
    };
    CHECK(std::fabs(eval(d) - (c + a / 2)) <= tol, "midpoint");
    double n1 = genNorm(g), n2 = genNorm(g);
    if (n1 > n2) std::swap(n1, n2);
    double v1 = eval(n1), v2 = eval(n2);
    CHECK((a >= 0 ? v1 >= v2 - tol : v1 <= v2 + tol), "not monotone: " << v1 << " at " << n1 << ", " << v2 << " at " << n2);
    CHECK(v1 >= std::min(c, c + a) - tol && v1 <= std::max(c, c + a) + tol, "out of its bounds: " << v1);
    if (b > 0) CHECK(std::fabs(eval(d + 40 / b) - gi) <= tol, "limit at infinity");
    nt = nt || (a != 0 && b != 0);
  }
  g.nontrivial(nt);
}
