#include <fstream>
#include <sot/core/flags.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  { std::ofstream o("data.txt"); o << "1 2 3 4 5 6\n7 8 9 10 11 12\n"; }
  Ent e("Reader");
  e.call("load", {Value(std::string("data.txt"))});
  e.call("resize", {Value(2), Value(3)});
  e.in<Flags>("selec", Flags(true));
  for (int t = 1; t <= 2; ++t) {
    Mat m = e.out<Mat>("matrix", t);
    EXPECT(m.rows() == 2 && m.cols() == 3);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) EXPECT_NEAR(m(i, j), 6 * (t - 1) + 3 * i + j + 1);
  }
  return bad ? 1 : 0;
}
