// C20: admittance control of an operational point.
#include "ent.hpp"
using dynamicgraph::command::Value;
PROP(admittance) {
  Ent e("AdmittanceControlOpPoint");
  static const char *names[] = {"Kp", "Kd", "dqSaturation", "force", "w_forceDes"};
  int t = (int)g.integer(0, 3), steps = 0;
  Vec v[5];
  Homo op, sensor;
  auto setV = [&](int i) {
    v[i] = genVec(g, 6, i < 2 ? 2 : i == 2 ? 3 : 20);
    if (i == 2) v[i] = v[i].cwiseAbs();
    if (i == 1) v[i] = v[i].cwiseAbs() * 0.5;
    if (g.chance(1, 8)) v[i].setZero();
    LOG << " " << names[i] << "=" << v[i].transpose();
    e.in<Vec>(names[i], v[i]);
  };
  auto setP = [&](bool s) {
    Homo h = g.chance(1, 6) ? Homo(Homo::Identity()) : genHomo(g, 3);
    LOG << (s ? " sensor=" : " op=") << h.matrix();
    e.in<Homo>(s ? "sensorPose" : "opPose", h);
    (s ? sensor : op) = h;
  };
  bool early = g.chance(1, 4);
  int missing = early ? (int)g.draw(7) : -1;
  bool resetEarly = g.chance(1, 4);
  if (resetEarly) e.call("resetDq");
  for (int i = 0; i < 5; ++i)
    if (i != missing) setV(i);
  if (missing != 5) setP(false);
  if (missing != 6) setP(true);
  if (early) {
    LOG << " init with input " << missing << " missing";
    e.call("init", {Value(0.1)});
    ++t;
    CHECK(e.out<Vec>("dq", t).size() == 0, "computed although init was refused");
    CHECK(e.out<Vec>("w_dq", t).size() == 0 && e.out<Vec>("w_force", t).size() == 0, "computed although init was refused");
    if (missing < 5) setV(missing);
    else setP(missing == 6);
  }
  double dt = g.pick({0.001, 0.005, 0.1, 1.});
  e.call("init", {Value(dt)});
  Vec w = Vec::Zero(6);
  int N = (int)g.steps(1, 12);
  bool sat = false;
  for (int k = 0; k < N; ++k) {
    bool changed = k == 0 && !early;
    if (k)
      switch (g.weighted({10, 1, 1})) {
        case 1: e.call("resetDq"); w.setZero(); LOG << " reset"; break;
        case 2: dt = g.pick({0.001, 0.005, 0.1, 1.}); e.call("init", {Value(dt)}); w.setZero(); LOG << " init"; break;
        default: break;
      }
    int must = changed ? -1 : (int)g.draw(7);
    for (int i = 0; i < 5; ++i)
      if (must == i || g.chance(1, 4)) setV(i);
    if (must == 5 || g.chance(1, 4)) setP(false);
    if (must == 6 || g.chance(1, 4)) setP(true);
    t += (int)g.size(1, 3);
    LOG << " @" << t;
    Rot Rs = sensor.matrix().block<3, 3>(0, 0), Ro = op.matrix().block<3, 3>(0, 0);
    V3 ps = sensor.matrix().block<3, 1>(0, 3), po = op.matrix().block<3, 1>(0, 3);
    // a wrench (force, torque at the origin of its frame)
    V3 f = Rs * v[3].head<3>(), tq = Rs * v[3].tail<3>() + ps.cross(f);
    Vec wf(6);
    wf << f, tq;
    Vec nw(6);
    for (int i = 0; i < 6; ++i) {
      nw(i) = w(i) + dt * v[0](i) * (v[4](i) - wf(i)) - v[1](i) * w(i);
      if (nw(i) > v[2](i)) { nw(i) = v[2](i); sat = true; }
      if (nw(i) < -v[2](i)) { nw(i) = -v[2](i); sat = true; }
    }
    w = nw;
    Vec dq(6);
    V3 lin = w.head<3>(), ang = w.tail<3>();
    dq << Ro.transpose() * (lin - po.cross(ang)), Ro.transpose() * ang;
    int first = (int)g.draw(3);
    for (int j = 0; j < 3; ++j) {
      int q = (first + j) % 3;
      if (q == 0) NEARM(e.out<Vec>("dq", t), dq, 1e-10);
      if (q == 1) NEARM(e.out<Vec>("w_dq", t), w, 1e-10);
      if (q == 2) NEARM(e.out<Vec>("w_force", t), wf, 1e-10);
    }
    Vec o = e.out<Vec>("w_dq", t);
    for (int i = 0; i < 6; ++i) CHECK(std::fabs(o(i)) <= v[2](i), "component " << i << " exceeds its saturation");
    ++steps;
  }
  g.nontrivial(steps > 2);
  if (sat) g.label("saturated");
}
