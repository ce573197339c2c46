// Entities of the classes which keep a memory, with the commands that change it.
#ifndef VERIF_MEMS_HPP
#define VERIF_MEMS_HPP
#include <unistd.h>
#include "rigs.hpp"
static std::vector<std::string> classes() { return dg::FactoryStorage::getInstance()->shimNames(); }
struct Arg {
  Value v;
  int word;  // >= 0: a text which depends on the names of the entities
};
/* --------------------------------------------- classes which keep a memory */
struct Mem : Kind {
  std::vector<std::function<std::vector<Arg>(pbt::Gen &, const Dims &)>> args;
  std::vector<std::string> cmds;
  void cmd(const std::string &n, std::function<std::vector<Arg>(pbt::Gen &, const Dims &)> f) { cmds.push_back(n), args.push_back(f); }
};
static std::vector<Arg> a1(const Value &v) { return {{v, -1}}; }
static std::vector<Arg> a2(const Value &v, const Value &w) { return {{v, -1}, {w, -1}}; }
static std::string readerFile() {
  static std::string f;
  if (f.empty()) {
    f = pbt::scratch() + "/rows" + std::to_string(getpid());
    FILE *o = fopen(f.c_str(), "w");
    for (int i = 0; i < 7; ++i) fprintf(o, "%d %g %g %g\n", i, i * .5, 3 - i * .25, i * i * 1.);
    fclose(o);
  }
  return f;
}
static std::vector<Mem> mems() {
  std::vector<Mem> ks;
#ifndef ONLY_INTEGRATORS
  for (auto &k : kinds()) {
    Mem m;
    static_cast<Kind &>(m) = k;
    ks.push_back(m);
  }
#endif
  auto mem = [&](const std::string &c, std::function<void(Ent &, const std::vector<int> &)> init = nullptr, Shapes sh = {}) -> Mem & {
    Mem m;
    m.name = c + " (memory)";
    m.shapes = sh;
    m.nmin = 1;
    m.build = [c, init](Rig &r, const std::vector<int> &ch) {
      Ent &e = r.add(c);
      if (init) init(e, ch);
    };
    ks.push_back(m);
    return ks.back();
  };
  typedef const std::vector<int> &C;
#ifdef ONLY_INTEGRATORS
  for (const std::string &c : classes()) {
    if (c.find("Integrator") != 0) continue;
    bool vec = c.find("Vector") != std::string::npos || c.find("vector") != std::string::npos, mat = c.find("VectorMatrix") != std::string::npos;
    Mem &m = mem(c, [vec, mat](Ent &e, C ch) {
      auto one = [mat](double x) { return mat ? Value(Mat(Mat::Identity(2, 2) * x)) : Value(x); };
      for (int i = 0; i < 1 + ch[0] % 2; ++i) e.call("pushNumCoef", {one(1. + i + ch[0])});
      for (int i = 0; i < 1 + ch[1] % 2; ++i) e.call("pushDenomCoef", {one(.5 * i - ch[1])});
      e.call("pushDenomCoef", {one(1.)});
      e.call("setSamplingPeriod", {Value(.1 + ch[1])});
    }, {{c + ".sin", vec || mat ? "2" : ""}});
    for (int i = 0; i < 3; ++i) m.cmd("initialize", [](pbt::Gen &, const Dims &) { return std::vector<Arg>(); });
    m.cmd("setSamplingPeriod", [](pbt::Gen &g, const Dims &) { return a1(Value(g.real(.01, 2))); });
  }
#else
  {
    Mem &m = mem("FilterDifferentiator", [](Ent &e, C c) {
      Vec num = Vec::Constant(1 + c[1], .25), den = Vec::Constant(2 + c[0] % 2, .1);
      num(0) += c[0], den(0) = 1;
      e.call("init", {Value(.1 + c[0]), Value(3), Value(num), Value(den)});
    }, {{"FilterDifferentiator.x", "3"}});
    m.cmd("switch_filter", [](pbt::Gen &g, const Dims &) { return a2(Value(genVec(g, 2, 1)), Value(Vec(Eigen::Vector2d(1, .3)))); });
  }
  {
    Mem &m = mem("MadgwickAHRS", [](Ent &e, C c) { e.call("init", {Value(.01 + c[0])}); }, {{"MadgwickAHRS.accelerometer", "3>1"}, {"MadgwickAHRS.gyroscope", "3"}});
    m.cmd("setBeta", [](pbt::Gen &g, const Dims &) { return a1(Value(g.real(0, 2))); });
    m.cmd("set_imu_quat", [](pbt::Gen &g, const Dims &) { return a1(Value(Vec(genVec(g, 4, 1)))); });
  }
  {
    Mem &m = mem("Kalman", [](Ent &e, C c) {
      e.call("setInitialState", {Value(Vec(Vec::Ones(2) * c[0]))});
      e.call("setInitialVariance", {Value(Mat(Mat::Identity(2, 2) * (1 + c[1])))});
    }, {{"Kalman.F", "2,2"}, {"Kalman.H", "1,2"}, {"Kalman.Q", "2,2"}, {"Kalman.R", "1,1"}, {"Kalman.x_pred", "2"}, {"Kalman.y", "1"}, {"Kalman.y_pred", "1"}});
    m.cmd("setInitialState", [](pbt::Gen &g, const Dims &) { return a1(Value(genVec(g, 2, 1))); });
  }
  {
    Mem &m = mem("GainAdaptive", [](Ent &e, C c) { e.call("set", {Value(5.), Value(1. + c[0]), Value(2. + c[1])}); });
    m.cmd("set", [](pbt::Gen &g, const Dims &) { return std::vector<Arg>{{Value(g.real(1, 5)), -1}, {Value(g.real(0, 1)), -1}, {Value(g.real(1, 5)), -1}}; });
  }
  for (const char *c : {"double", "Vector", "Matrix", "VectorQuaternion"}) mem("Derivator_of_" + std::string(c), nullptr, {{"Derivator_of_" + std::string(c) + ".dt", "+"}});
  {
    Mem &m = mem("ExpMovingAvg", [](Ent &e, C c) { e.call("setAlpha", {Value(.2 + .2 * c[0])}); });
    m.cmd("setAlpha", [](pbt::Gen &g, const Dims &) { return a1(Value(g.real(0, 1))); });
  }
  for (const char *c : {"FIRFilter_double_double", "FIRFilter_Vector_double"}) {
    Mem &m = mem(c, [](Ent &e, C ch) {
      unsigned n = (unsigned)(1 + ch[0]);
      e.call("setSize", {Value(n)});
      for (unsigned i = 0; i < n; ++i) e.call("setElement", {Value(i), Value(1. + i + ch[1])});
    });
    m.cmd("setElement", [](pbt::Gen &g, const Dims &) { return a2(Value(0u), Value(g.real(-2, 2))); });
    m.cmd("setSize", [](pbt::Gen &g, const Dims &) { return a1(Value((unsigned)g.integer(1, 4))); });
  }
  {
    Mem &m = mem("RobotSimu", [](Ent &e, C c) {
      e.call("resize", {Value(8u)});
      Vec b = Vec::Ones(8) * 3;
      for (const char *w : {"setPositionBounds", "setVelocityBounds", "setTorqueBounds"}) e.call(w, {Value(Vec(-b)), Value(b)});
      e.call("set", {Value(Vec(Vec::Ones(8) * c[0]))});
      if (c[1] & 1) e.call("setSecondOrderIntegration", {});
      if (c[1] & 2) e.call("setControlInputType", {Value(std::string("noInteg"))});
    }, {{"RobotSimu.control", "8"}, {"RobotSimu.attitudeIN", "3"}, {"RobotSimu.zmp", "3"}});
    for (int i = 0; i < 3; ++i) m.cmd("increment", [](pbt::Gen &g, const Dims &) { return a1(Value(g.pick({.001, .005, .1}))); });
    m.cmd("set", [](pbt::Gen &g, const Dims &) { return a1(Value(genVec(g, 8, 2))); });
    m.cmd("setVelocity", [](pbt::Gen &g, const Dims &) { return a1(Value(genVec(g, 8, 2))); });
    m.cmd("setRoot", [](pbt::Gen &g, const Dims &) { return a1(Value(Mat(genHomo(g).matrix()))); });
  }
  {
    Mem &m = mem("SmoothReach", [](Ent &e, C c) { e.call("param", {Value(c[0] % 3), Value(.5)}), e.call("set", {Value(Vec(V3(1, 2, c[1]))), Value(4)}); }, {{"SmoothReach.start", "3"}});
    m.cmd("set", [](pbt::Gen &g, const Dims &) { return a2(Value(genVec(g, 3, 2)), Value((int)g.integer(1, 6))); });
  }
  {
    Mem &m = mem("Event", [](Ent &e, C c) { e.call("repeat", {Value(c[0])}); });
    m.cmd("repeat", [](pbt::Gen &g, const Dims &) { return a1(Value((int)g.integer(0, 3))); });
  }
  {
    Mem &m = mem("Latch");
    m.cmd("turnOn", [](pbt::Gen &, const Dims &) { return std::vector<Arg>(); });
    m.cmd("turnOff", [](pbt::Gen &, const Dims &) { return std::vector<Arg>(); });
  }
  {
    Mem &m = mem("GripperControl", [](Ent &e, C c) { e.call("offset", {Value(.1 + .2 * c[0])}); },
                 {{"GripperControl.position", "3"}, {"GripperControl.positionDes", "3"}, {"GripperControl.torque", "3"}, {"GripperControl.torqueLimit", "3"},
                  {"GripperControl.positionFullIN", "unset"}, {"GripperControl.torqueFullIN", "unset"}, {"GripperControl.torqueLimitFullIN", "unset"},
                  {"GripperControl.selec", "unset"}});
    m.cmd("offset", [](pbt::Gen &g, const Dims &) { return a1(Value(g.uniform(.05, .95))); });
  }
  for (const char *c : {"CoMFreezer", "MotionPeriod", "GradientAscent", "ClampWorkspace", "TimeStamp", "TimerDouble", "TimerVector", "VectorToRotation", "FeatureTask"}) mem(c);
  mem("TaskConti", nullptr, {{"TaskConti.controlGain", "+"}});
  {
    Mem &m = mem("AdmittanceControlOpPoint", [](Ent &e, C c) { e.call("init", {Value(.01 + c[0])}); },
                 {{"AdmittanceControlOpPoint.Kp", "6"}, {"AdmittanceControlOpPoint.Kd", "6"}, {"AdmittanceControlOpPoint.dqSaturation", "6>1"},
                  {"AdmittanceControlOpPoint.force", "6"}, {"AdmittanceControlOpPoint.w_forceDes", "6"}});
    m.cmd("resetDq", [](pbt::Gen &, const Dims &) { return std::vector<Arg>(); });
  }
  {
    Mem &m = mem("FeaturePosture", nullptr, {{"FeaturePosture.posture", "9"}, {"FeaturePosture.postureDot", "9"}, {"FeaturePosture.state", "9"}});
    m.cmd("selectDof", [](pbt::Gen &g, const Dims &) { return a2(Value((unsigned)g.integer(6, 8)), Value(g.flip())); });
  }
  {
    Mem &m = mem("Reader", [](Ent &e, C c) {
      e.call("resize", {Value(1 + c[0] % 2), Value(2 + c[1] % 2)});
      e.call("load", {Value(readerFile())});
    });
    m.cmd("rewind", [](pbt::Gen &, const Dims &) { return std::vector<Arg>(); });
    m.cmd("clear", [](pbt::Gen &, const Dims &) { return std::vector<Arg>(); });
    m.cmd("load", [](pbt::Gen &, const Dims &) { return a1(Value(readerFile())); });
  }
  {
    Mem &m = mem("DoubleConstant", [](Ent &e, C c) { e.call("set", {Value(1. + c[0])}); });
    m.cmd("set", [](pbt::Gen &g, const Dims &) { return a1(Value(g.real(-2, 2))); });
  }
#endif
  return ks;
}
static Mem any(const std::string &c) {
  Mem m;
  m.name = c + " (any)";
#ifndef ONLY_INTEGRATORS
  m.shapes = common();
#endif
  m.nmin = 1;
  m.build = [c](Rig &r, const std::vector<int> &) { r.add(c); };
  return m;
}
#endif
