#include <sot/core/sot.hh>
#include <sot/core/task.hh>
#include "d.hpp"
using namespace dynamicgraph::sot;
int main() {
  Sot s("sot");
  s.defineNbDof(3);
  Task a("a"), b("b"), c("c"), d("d");
  s.push(a);
  s.push(b);
  s.push(c);
  s.push(d);
  auto order = [&]() {
    std::ostringstream o;
    s.display(o);
    std::string r, l;
    std::istringstream i(o.str());
    while (std::getline(i, l)) for (char k : std::string("abcd")) if (l.find(std::string("| ") + k) != std::string::npos) r += k;
    return r;
  };
  EXPECT(order() == "abcd");
  s.up(d);
  EXPECT(order() == "abdc");
  s.up(d);
  EXPECT(order() == "adbc");
  s.up(d);
  EXPECT(order() == "dabc");
  s.up(d);
  EXPECT(order() == "dabc");
  return bad ? 1 : 0;
}
