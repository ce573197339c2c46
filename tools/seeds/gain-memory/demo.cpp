#include <sot/core/gain-adaptive.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  GainAdaptive a("a"), b("b");
  a.init(5., 1., 3.);
  b.init(4., 2., 8.);
  for (int k = 1; k < 6; ++k) {
    Vec e = V({.1 * k, -.2});
    a.errorSIN = e;
    b.errorSIN = Vec(-e);
    EXPECT_NEAR(a.gainSOUT(k), 4 * std::exp(-3. / 4 * e.norm()) + 1);
    EXPECT_NEAR(b.gainSOUT(k), 2 * std::exp(-4. * e.norm()) + 2);
  }
  return bad ? 1 : 0;
}
