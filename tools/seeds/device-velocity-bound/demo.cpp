#include "d.hpp"
#include <sot/core/device.hh>
using namespace dynamicgraph::sot;
int main() {
  Device d("dev");
  const int n = 8;
  d.setStateSize(n);
  Vec big = Vec::Constant(n, 100), one = Vec::Constant(n, 0.5);
  d.shimCall("setPositionBounds", {Value(Vec(-big)), Value(big)});
  d.shimCall("setVelocityBounds", {Value(Vec(-one)), Value(one)});
  d.shimCall("setTorqueBounds", {Value(Vec(-big)), Value(big)});
  d.setSecondOrderIntegration();
  d.controlSIN.setConstant(V({3, -2}));
  for (int k = 0; k < 10; ++k) {
    d.increment(0.1);
    Vec v = d.velocitySOUT.accessCopy();
    EXPECT_NEAR(v(6), std::min(0.5, 0.3 * (k + 1)));
    EXPECT_NEAR(v(7), std::max(-0.5, -0.2 * (k + 1)));
  }
  return bad ? 1 : 0;
}
