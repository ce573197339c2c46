// C01: CausalFilter against the difference equation evaluated over the whole history.
#include "causal_model.hpp"

static void run(pbt::Gen &g, bool tall) {
  int nx = (int)g.size(1, tall ? 6 : 3);
  Coeffs c = genCoeffs(g, tall ? 8 : 5, tall ? 8 : 6);
  double dt = g.pick({1.0, 0.5, 0.001, 0.0625, 0.01});
  int len = (int)g.size(1, tall ? 60 : 16);
  LOG << "dt=" << dt << " b=" << c.b.transpose() << " a=" << c.a.transpose() << " nx=" << nx << " samples:";
  CausalFilter f(dt, nx, c.b, c.a);
  Model m(dt, c);
  Eigen::VectorXd out = Eigen::VectorXd::Zero(3 * nx);
  bool varied = false;
  Eigen::VectorXd x = genSample(g, nx), x0 = x;
  for (int k = 0; k < len; ++k) {
    if (k && !g.chance(1, 4)) x = genSample(g, nx);
    varied = varied || x != x0;
    LOG << " [" << x.transpose() << "]";
    Eigen::VectorXd keep = x;
    f.get_x_dx_ddx(x, out);
    CHECK(x == keep, "input modified");
    m.step(x);
    m.compare(out, nx, k);
  }
  g.nontrivial(varied && len > c.b.size());
  g.label(c.a.size() == 1 ? "FIR" : c.a.size() == 2 ? "order 1" : "order >=2");
}
PROP(recurrence) { run(g, false); }
PROP(recurrence_long) { run(g, true); }

// constant input => the steady state at every call, with null derivatives
PROP(steady_state) {
  int nx = (int)g.size(1, 4);
  Coeffs c = genCoeffs(g, 6, 6);
  double dt = g.pick({1.0, 0.5, 0.001});
  CausalFilter f(dt, nx, c.b, c.a);
  Eigen::VectorXd x = genSample(g, nx), out(3 * nx);
  LOG << "b=" << c.b.transpose() << " a=" << c.a.transpose() << " x=" << x.transpose();
  Eigen::VectorXd y = x * (c.b.sum() / c.a.sum());
  int len = (int)g.size(1, 20);
  for (int k = 0; k < len; ++k) {
    f.get_x_dx_ddx(x, out);
    double s = 1 + y.cwiseAbs().maxCoeff();
    for (int i = 0; i < nx; ++i) {
      CHECK(pbt::near(out[i], y[i], 1e-8), "call " << k << ": " << out[i] << " vs steady state " << y[i]);
      CHECK(std::fabs(out[nx + i]) * dt <= 1e-8 * s, "call " << k << ": dy = " << out[nx + i] << " for a constant input");
      CHECK(std::fabs(out[2 * nx + i]) * dt * dt <= 1e-8 * s, "call " << k << ": ddy = " << out[2 * nx + i]);
    }
  }
  g.nontrivial(len > 2 && x.cwiseAbs().maxCoeff() > 0);
}

// each component is filtered on its own: scalar filters give the same result
PROP(components_independent) {
  int nx = (int)g.size(2, 5);
  Coeffs c = genCoeffs(g, 5, 5);
  double dt = 0.5;
  CausalFilter f(dt, nx, c.b, c.a);
  std::vector<CausalFilter> s(nx, CausalFilter(dt, 1, c.b, c.a));
  int len = (int)g.size(1, 12);
  Eigen::VectorXd out(3 * nx), o1(3), x1(1);
  for (int k = 0; k < len; ++k) {
    Eigen::VectorXd x = genSample(g, nx);
    LOG << " [" << x.transpose() << "]";
    f.get_x_dx_ddx(x, out);
    for (int i = 0; i < nx; ++i) {
      x1[0] = x[i];
      s[i].get_x_dx_ddx(x1, o1);
      for (int d = 0; d < 3; ++d)
        CHECK(pbt::near(out[d * nx + i], o1[d], 1e-9), "component " << i << " derivative " << d << ": " << out[d * nx + i] << " vs " << o1[d]);
    }
  }
  g.nontrivial(len > 2);
}
