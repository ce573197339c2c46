#include <sot/core/periodic-call.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
static int count = 0;
static int &f(int &r, int) { return r = ++count; }
int main() {
  PeriodicCall p;
  dg::Signal<int, int> s("s");
  s.setFunction(boost::bind(&f, _1, _2));
  p.addDownsampledSignal("s", s, 2);
  for (int t = 1; t <= 12; ++t) p.run(t);
  EXPECT(count == 6);
  p.addDownsampledSignal("s", s, 3);
  for (int t = 13; t <= 24; ++t) p.run(t);
  EXPECT(count == 10);
  p.rmSignal("s");
  for (int t = 25; t <= 36; ++t) p.run(t);
  EXPECT(count == 10);
  return bad ? 1 : 0;
}
