#include <sot/core/feature-point6d.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  FeaturePoint6d f("f"), r("r");
  f.computationFrame("current");
  f.setReference(&r);
  Eigen::Matrix3d A = (Eigen::AngleAxisd(.4, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(-.7, Eigen::Vector3d::UnitZ())).matrix();
  Eigen::Matrix3d B = (Eigen::AngleAxisd(.3, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(.5, Eigen::Vector3d::UnitX())).matrix();
  Homo a, b;
  a.setIdentity(), b.setIdentity();
  a.linear() = A, b.linear() = B;
  f.positionSIN = a;
  r.positionSIN = b;
  f.articularJacobianSIN = Mat(Mat::Identity(6, 6));
  const Mat &J = f.jacobianSOUT(1);
  Eigen::Matrix3d E = -B.transpose() * A;
  EXPECT(J.rows() == 6 && J.cols() == 6);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) EXPECT_NEAR(J(3 + i, 3 + j), E(i, j));
  return bad ? 1 : 0;
}
