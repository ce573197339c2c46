#include "d.hpp"
#include <sot/core/causal-filter.hh>
using namespace dynamicgraph::sot;
int main() {
  Vec b = V({0.2, 0.3}), a = V({1, -0.4, 0.1, 0.05});
  CausalFilter f(0.5, 1, b, a);
  double y[40], x[40];
  for (int k = 0; k < 20; ++k) {
    x[k] = std::sin(0.7 * k) + 0.1 * k * k;
    Vec in = V({x[k]}), out(3);
    f.get_x_dx_ddx(in, out);
    y[k] = out(0);
    if (k >= 4) {
      double e = 0.2 * x[k] + 0.3 * x[k - 1] + 0.4 * y[k - 1] - 0.1 * y[k - 2] - 0.05 * y[k - 3];
      EXPECT_NEAR(y[k], e);
      EXPECT_NEAR(out(1), (y[k] - y[k - 1]) / 0.5);
      EXPECT_NEAR(out(2), (y[k] - 2 * y[k - 1] + y[k - 2]) / 0.25);
    }
  }
  return bad ? 1 : 0;
}
