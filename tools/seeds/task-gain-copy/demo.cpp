#include <sot/core/feature-generic.hh>
#include <sot/core/gain-adaptive.hh>
#include <sot/core/task.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  FeatureGeneric f("f");
  Task t("t");
  GainAdaptive g("g");
  g.init(5., 1., 3.);
  g.errorSIN.plug(&t.errorSOUT);
  t.controlGainSIN.plug(&g.gainSOUT);
  t.addFeature(f);
  f.jacobianSIN = Mat(Mat::Identity(2, 2));
  for (int k = 1; k <= 5; ++k) {
    Vec e = V({.1 * k, -.2});
    f.errorSIN = e;
    const VectorMultiBound &r = t.taskSOUT(k);
    double gain = 4 * std::exp(-3. / 4 * e.norm()) + 1;
    for (int i = 0; i < 2; ++i) EXPECT_NEAR(r[i].getSingleBound(), -gain * e(i));
  }
  return bad ? 1 : 0;
}
