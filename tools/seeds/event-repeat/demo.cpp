#include "d.hpp"
struct Target : dg::Entity {
  static const std::string CLASS_NAME;
  const std::string &getClassName() const override { return CLASS_NAME; }
  dg::Signal<int, int> s;
  int count = 0;
  Target() : Entity("target"), s("Target(target)::output(int)::s") {
    s.setFunction(boost::bind(&Target::f, this, _1, _2));
    signalRegistration(s);
  }
  int &f(int &r, int) { return r = ++count; }
};
const std::string Target::CLASS_NAME = "Target";
int main() {
  Target t;
  Ent e("Event");
  e.call("addSignal", {Value(std::string("target.s"))});
  e.call("repeat", {Value(3)});
  e.in<bool>("condition", false);
  e.out<bool>("check", 0);
  e.in<bool>("condition", true);
  // fires on the rising edge, then every third evaluation
  for (int k = 1; k <= 13; ++k) {
    e.out<bool>("check", k);
    EXPECT(t.count == 1 + (k - 1) / 3);
  }
  return bad ? 1 : 0;
}
