// C02: switching coefficients anywhere in a history.
#include "causal_model.hpp"
static void history(pbt::Gen &g, int maxOps) {
  int nx = (int)g.size(1, 3);
  double dt = g.pick({1.0, 0.5, 0.001, 0.0625});
  Coeffs c = genCoeffs(g, 5, 6);
  CausalFilter f(dt, nx, c.b, c.a);
  Model m(dt, c);
  LOG << "b=" << c.b.transpose() << " a=" << c.a.transpose();
  Eigen::VectorXd out = Eigen::VectorXd::Zero(3 * nx), x = genSample(g, nx);
  int n = (int)g.steps(1, (size_t)maxOps), since = 0, sw = 0, after = 0;
  for (int k = 0; k < n; ++k) {
    if (k && g.chance(1, 5)) {
      Coeffs d = genCoeffs(g, 5, 6);
      LOG << " switch(b=" << d.b.transpose() << " a=" << d.a.transpose() << ")";
      f.switch_filter(d.b, d.a);
      m.c = d;
      if (m.x0.size()) { m.restart(x); }
      g.label(since > c.b.size() ? "switch after the buffer wrapped" : "switch early");
      c = d;
      since = 0;
      ++sw;
    } else {
      if (!g.chance(1, 4)) x = genSample(g, nx);
      LOG << " [" << x.transpose() << "]";
      f.get_x_dx_ddx(x, out);
      m.step(x);
      m.compare(out, nx, k);
      ++since;
      if (sw) ++after;
    }
  }
  g.nontrivial(sw > 0 && after > 1 && m.x0.size() > 0);
}
PROP(switch_history) { history(g, 25); }
PROP(switch_history_long) { history(g, 80); }

// two filters with different pasts but the same last sample agree after the switch
PROP(forgets_the_past) {
  int nx = (int)g.size(1, 3);
  Coeffs c1 = genCoeffs(g, 5, 6), d = genCoeffs(g, 5, 6);
  CausalFilter f1(0.5, nx, c1.b, c1.a), f2(0.5, nx, c1.b, c1.a);
  Eigen::VectorXd o1(3 * nx), o2(3 * nx), x;
  int n1 = (int)g.size(0, 9), n2 = (int)g.size(0, 9);
  for (int i = 0; i < n1; ++i) f1.get_x_dx_ddx(genSample(g, nx), o1);
  for (int i = 0; i < n2; ++i) f2.get_x_dx_ddx(genSample(g, nx), o2);
  x = genSample(g, nx);
  f1.get_x_dx_ddx(x, o1);
  f2.get_x_dx_ddx(x, o2);
  f1.switch_filter(d.b, d.a);
  f2.switch_filter(d.b, d.a);
  LOG << "pasts of " << n1 << " and " << n2 << " samples, last " << x.transpose() << " new b=" << d.b.transpose() << " a=" << d.a.transpose();
  int n = (int)g.size(1, 8);
  for (int i = 0; i < n; ++i) {
    if (i) x = genSample(g, nx);
    f1.get_x_dx_ddx(x, o1);
    f2.get_x_dx_ddx(x, o2);
    for (int j = 0; j < 3 * nx; ++j) CHECK(pbt::near(o1[j], o2[j], 1e-9), "call " << i << " output " << j << ": " << o1[j] << " vs " << o2[j]);
    if (i == 0)
      for (int j = 0; j < nx; ++j)
        CHECK(pbt::near(o1[j], x[j] * (d.b.sum() / d.a.sum()), 1e-8), "not at the new steady state: " << o1[j]);
  }
  g.nontrivial(n1 != n2);
}
