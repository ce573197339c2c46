#include <sot/core/feature-generic.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  FeatureGeneric f("f");
  f.errorSIN = V({1, 2, 3, 4});
  Mat J(4, 3);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) J(i, j) = 10 * i + j;
  f.jacobianSIN = J;
  f.selectionSIN = Flags("0101");
  const Mat &r = f.jacobianSOUT(1);
  EXPECT(r.rows() == 2 && r.cols() == 3);
  for (int j = 0; j < 3; ++j) {
    EXPECT_NEAR(r(0, j), 10 + j);
    EXPECT_NEAR(r(1, j), 30 + j);
  }
  return bad ? 1 : 0;
}
