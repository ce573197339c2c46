// Reference model of CausalFilter: keeps the complete history.
#pragma once
#include <Eigen/Core>
#include <sot/core/causal-filter.hh>
#include "pbt.hpp"
using dynamicgraph::sot::CausalFilter;
struct Coeffs {
  Eigen::VectorXd b, a;
};
// a stable-ish denominator with a non null sum; values are multiples of 1/16
inline Coeffs genCoeffs(pbt::Gen &g, int maxA, int maxB) {
  Coeffs c;
  int na = (int)g.size(1, maxA), nb = (int)g.size(1, maxB);
  c.a.resize(na);
  c.b.resize(nb);
  c.a[0] = g.pick({1.0, 2.0, 0.5, -1.0, 4.0});
  double budget = 0.9;
  for (int i = 1; i < na; ++i) {
    double v = g.dyadic(-0.5, 0.5);
    if (std::fabs(v) > budget) v = 0;
    budget -= std::fabs(v);
    c.a[i] = v * c.a[0];
  }
  for (int i = 0; i < nb; ++i) c.b[i] = g.dyadic(-2, 2);
  return c;
}
inline Eigen::VectorXd genSample(pbt::Gen &g, int n) {
  Eigen::VectorXd x(n);
  for (int i = 0; i < n; ++i) x[i] = g.real(-8, 8);
  return x;
}
struct Model {
  double dt;
  Coeffs c;
  std::vector<Eigen::VectorXd> xs, ys;  // most recent last; the past before is constant
  Eigen::VectorXd x0, y0, y, dy, ddy;
  Model(double d, const Coeffs &cc) : dt(d), c(cc) {}
  Eigen::VectorXd X(int back) const { return back < (int)xs.size() ? xs[xs.size() - 1 - back] : x0; }
  Eigen::VectorXd Y(int back) const { return back < (int)ys.size() ? ys[ys.size() - 1 - back] : y0; }
  void restart(const Eigen::VectorXd &x) {
    xs.clear();
    ys.clear();
    x0 = x;
    y0 = x * (c.b.sum() / c.a.sum());
  }
  void step(const Eigen::VectorXd &x) {
    if (x0.size() == 0) restart(x);
    xs.push_back(x);
    y = Eigen::VectorXd::Zero(x.size());
    for (int i = 0; i < c.b.size(); ++i) y += c.b[i] * X(i);
    for (int i = 1; i < c.a.size(); ++i) y -= c.a[i] * Y(i - 1);
    y /= c.a[0];
    Eigen::VectorXd y1 = Y(0), y2 = Y(1);
    dy = (y - y1) / dt;
    ddy = (y - 2 * y1 + y2) / (dt * dt);
    ys.push_back(y);
  }
  void compare(const Eigen::VectorXd &out, int nx, int k) const {
    double s = 1 + y.cwiseAbs().maxCoeff() + Y(1).cwiseAbs().maxCoeff() + Y(2).cwiseAbs().maxCoeff();
    CHECK(out.size() == 3 * nx, "output size " << out.size());
    for (int i = 0; i < nx; ++i) {
      CHECK(std::fabs(out[i] - y[i]) <= 1e-9 * s, "sample " << k << " y[" << i << "] = " << out[i] << ", difference equation gives " << y[i]);
      CHECK(std::fabs(out[nx + i] - dy[i]) * dt <= 1e-9 * s, "sample " << k << " dy[" << i << "] = " << out[nx + i] << " vs " << dy[i]);
      CHECK(std::fabs(out[2 * nx + i] - ddy[i]) * dt * dt <= 1e-9 * s,
            "sample " << k << " ddy[" << i << "] = " << out[2 * nx + i] << " vs " << ddy[i]);
    }
  }
};
