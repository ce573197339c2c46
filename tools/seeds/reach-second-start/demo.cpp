#include "d.hpp"
int main() {
  Ent f("SmoothReach");
  f.call("param", {Value(0), Value(.5)});
  Vec at = V({0., 1.});
  int k = 1;
  for (double g : {1., -2., 4.}) {
    f.in<Vec>("start", at);
    Vec from = at, goal = V({g, 2 * g});
    f.call("set", {Value(goal), Value(10)});
    for (int i = 0; i < 15; ++i, ++k) {
      double x = i < 10 ? i / 10. : 1;
      at = f.out<Vec>("goal", k);
      for (int j = 0; j < 2; ++j) EXPECT_NEAR(at(j), from(j) * (1 - x) + goal(j) * x);
    }
  }
  return bad ? 1 : 0;
}
