#include "d.hpp"
int main() {
  Ent a("AdmittanceControlOpPoint");
  Vec one = Vec::Ones(6);
  a.in<Vec>("Kp", one * 10);
  a.in<Vec>("Kd", one * 0);
  a.in<Vec>("dqSaturation", one * .5);
  a.in<Vec>("force", one * 0);
  a.in<Vec>("w_forceDes", one);
  a.in<Homo>("opPose", Homo::Identity());
  a.in<Homo>("sensorPose", Homo::Identity());
  a.call("init", {Value(.1)});
  double x = 0;
  for (int k = 1; k <= 6; ++k) {
    double f = k < 4 ? 1 : -.4;
    a.in<Vec>("w_forceDes", Vec(one * f));
    x = std::min(.5, std::max(-.5, x + f));
    EXPECT_NEAR(a.out<Vec>("dq", k)(0), x);
  }
  return bad ? 1 : 0;
}
