#include <sot/core/robot-utils.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  RobotUtil r;
  Vec q(6), u(7), b(6);
  q << 1, 2, 3, .3, -.4, .5;
  EXPECT(r.base_sot_to_urdf(q, u));
  EXPECT(r.base_urdf_to_sot(u, b));
  for (int i = 0; i < 6; ++i) EXPECT_NEAR(b(i), q(i));
  return bad ? 1 : 0;
}
