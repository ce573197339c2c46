#include "d.hpp"
int main() {
  Ent f("FIRFilter_double_double");
  f.call("setSize", {Value(3u)});
  for (unsigned i = 0; i < 3; ++i) f.call("setElement", {Value(i), Value(1.)});
  double x[] = {1, 2, 4, 8};
  for (int k = 0; k < 4; ++k) {
    f.in<double>("sin", x[k]);
    EXPECT_NEAR(f.out<double>("sout", k + 1), k == 0 ? 1 : k == 1 ? 3 : k == 2 ? 7 : 14);
  }
  f.call("setSize", {Value(2u)});
  f.call("setElement", {Value(0u), Value(1.)});
  f.call("setElement", {Value(1u), Value(1.)});
  f.in<double>("sin", 16.);
  EXPECT_NEAR(f.out<double>("sout", 5), 16);
  f.in<double>("sin", 32.);
  EXPECT_NEAR(f.out<double>("sout", 6), 48);
  return bad ? 1 : 0;
}
