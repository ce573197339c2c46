#include <sot/core/trajectory.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
static Trajectory traj(int stamp, int n) {
  Trajectory t;
  t.header_.stamp_ = timestamp(stamp, 0);
  t.header_.seq_ = stamp;
  for (int k = 0; k < n; ++k) {
    JointTrajectoryPoint p;
    p.positions_ = std::vector<double>{100. * stamp + k, 0, 0, 0, 0, 0};
    t.points_.push_back(p);
  }
  return t;
}
int main() {
  Ent e("SotJointTrajectoryEntity");
  const double expected[] = {100, 101, 102, 103, 200, 201, 300, 301, 301};
  for (int k = 1; k <= 9; ++k) {
    e.in<Trajectory>("trajectoryIN", k <= 1 ? traj(1, 4) : k == 2 ? traj(2, 2) : traj(3, 2));
    EXPECT_NEAR(e.out<Vec>("position", k)(0), expected[k - 1]);
  }
  return bad ? 1 : 0;
}
