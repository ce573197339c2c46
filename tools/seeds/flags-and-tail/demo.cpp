#include "d.hpp"
#include <sot/core/flags.hh>
using namespace dynamicgraph::sot;
int main() {
  Flags a, b;
  for (int i = 0; i < 6; ++i) a.add(i % 2 == 0);
  b.add(true);
  b.add(true);
  b = !b;  // 00 then ones
  Flags o = a | b, n = a & b;
  for (int i = 0; i < 10; ++i) {
    EXPECT(o(i) == (a(i) || b(i)));
    EXPECT(n(i) == (a(i) && b(i)));
  }
  return bad ? 1 : 0;
}
