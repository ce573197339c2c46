// C40: parameter server, several servers and robots.
#include "ent.hpp"
#include <sot/core/exception-tools.hh>
#include <sot/core/parameter-server.hh>
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;
using namespace dg::sot;
using dg::Vector;

struct Robot {
  std::map<std::string, Index> id, fid;
  std::map<Index, std::pair<double, double>> lim;
  std::map<Index, std::pair<Vector, Vector>> flim;
  Vector map, sole, sensor;
  std::string lf, rf, lh, rh, imu, urdf;
  struct Par { int type; std::string s; int i; double d; bool b; };
  std::map<std::string, Par> par;
};
struct Server : ParameterServer {
  using ParameterServer::convertJointNameToJointId;
  using ParameterServer::isJointInRange;
  using ParameterServer::ParameterServer;
};

PROP(server) {
  std::vector<std::string> robots;
  std::map<std::string, Robot> model;
  for (int i = 0; i < 2; ++i) robots.push_back(freshName("rob"));
  struct S { std::unique_ptr<Server> e; std::string robot; };
  std::vector<S> sv;
  for (int i = 0; i < 3; ++i) sv.push_back(S{std::unique_ptr<Server>(new Server(freshName("ps"))), ""});
  auto names = [](const std::string &kind, int k) { return kind + std::string(1, (char)('a' + k)); };
  int early = 0, sets = 0;
  for (int k = 0, N = (int)g.steps(3, 40); k < N; ++k) {
    S &s = sv[g.draw(3)];
    auto call = [&](const std::string &c, const std::vector<Value> &v) { return s.e->shimCall(c, v); };
    Robot dummy, &r = s.robot.empty() ? dummy : model[s.robot];
    double ix = (double)g.integer(0, 4);
    Index i = (Index)ix;
    int op = (int)g.draw(16);
    if (s.robot.empty() && op > 1) ++early;
    else ++sets;
    LOG << " " << (&s - &sv[0]) << ":" << op;
    switch (op) {
      case 0: case 1: {
        std::string rn = robots[g.draw(2)], uf = g.str("abc/.", 0, 6);
        double dt = g.draw(3) ? g.real(1e-4, 1) : g.pick<double>({0, -0.001, -5});
        call("init", {Value(dt), Value(uf), Value(rn)});
        if (dt > 0) s.robot = rn, model[rn].urdf = uf;
        break;
      }
      case 2: {
        std::string n = names("j", (int)g.draw(4));
        call("setNameToId", {Value(n), Value(ix)}), r.id[n] = i;
        break;
      }
      case 3: {
        std::string n = g.draw(3) ? g.pick<std::string>({"rf", "lf", "rh", "lh"}) : names("f", (int)g.draw(2));
        call("setForceNameToForceId", {Value(n), Value(ix)}), r.fid[n] = i;
        break;
      }
      case 4: {
        double l = g.real(-3, 3), u = g.real(-3, 3);
        call("setJointLimitsFromId", {Value(ix), Value(l), Value(u)}), r.lim[i] = {l, u};
        break;
      }
      case 5: {
        Vector l = genVec(g, 6), u = genVec(g, 6);
        call("setForceLimitsFromId", {Value(ix), Value(l), Value(u)}), r.flim[i] = {l, u};
        break;
      }
      case 6: {
        int n = (int)g.size(0, 6);
        Vector v(n);
        for (int j = 0; j < n; ++j) v(j) = (double)((j + 1) % n);
        call("setJointsUrdfToSot", {Value(v)}), r.map = v;
        break;
      }
      case 7: { Vector v = genV3(g); call("setRightFootSoleXYZ", {Value(v)}), r.sole = v; break; }
      case 8: { Vector v = genV3(g); call("setRightFootForceSensorXYZ", {Value(v)}), r.sensor = v; break; }
      case 9: case 10: {
        std::string side = g.pick<std::string>({"Left", "Right", "left", "", "Le", "LeftFoot", "Rightmost", "L", "R"}), f = names("fr", (int)g.draw(5));
        call(op == 9 ? "setFootFrameName" : "setHandFrameName", {Value(side), Value(f)});
        if (side == "Left") (op == 9 ? r.lf : r.lh) = f;
        if (side == "Right") (op == 9 ? r.rf : r.rh) = f;
        break;
      }
      case 11: { std::string f = names("imu", (int)g.draw(5)); call("setImuJointName", {Value(f)}), r.imu = f; break; }
      default: {
        std::string n = g.pick<std::string>({"p", "a/b", "a/c", "x/y/z", "w"});
        Robot::Par p{(int)g.draw(4), "", 0, 0, false};
        switch (p.type) {
          case 0: p.s = g.str("ab 01./<>&\n", 0, 8); call("setParameter", {Value(n), Value(p.s)}); break;
          case 1: p.i = (int)g.integer(-100000, 100000); call("setParameterInt", {Value(n), Value(p.i)}); break;
          case 2: p.d = g.real(-100, 100) / 3 * std::pow(10., (double)g.integer(-8, 8)); call("setParameterDbl", {Value(n), Value(p.d)}); break;
          default: p.b = g.flip(); call("setParameterBool", {Value(n), Value(p.b)});
        }
        r.par[n] = p;
      }
    }
    if (k + 1 < N && !g.chance(1, 8)) continue;
    // every handle on every robot gives back what was set
    for (auto &m : model) {
      std::string rn = m.first;
      RobotUtilShrPtr u = getRobotUtil(rn);
      CHECK(u, "robot " << rn << " is registered");
      Robot &w = m.second;
      CHECK(u->m_urdf_filename == w.urdf, "description file of " << rn);
      for (auto &p : w.id) CHECK(u->get_id_from_name(p.first) == p.second, "id of " << p.first);
      for (auto &p : w.fid) CHECK(u->m_force_util.get_id_from_name(p.first) == p.second, "force id of " << p.first);
      CHECK(u->m_name_to_id.size() == w.id.size() && u->m_force_util.m_name_to_force_id.size() == w.fid.size(), "nothing else is registered");
      for (Index j = 0; j < 5; ++j) {
        auto l = w.lim.count(j) ? w.lim[j] : std::make_pair(0., 0.);
        CHECK(u->get_joint_limits_from_id(j).lower == l.first && u->get_joint_limits_from_id(j).upper == l.second, "limits of joint " << j);
        Vector z = Vector::Zero(6);
        CHECK(Vector(u->m_force_util.get_limits_from_id(j).lower) == (w.flim.count(j) ? w.flim[j].first : z), "lower force limit " << j);
        CHECK(Vector(u->m_force_util.get_limits_from_id(j).upper) == (w.flim.count(j) ? w.flim[j].second : z), "upper force limit " << j);
      }
      auto eq = [](const Vector &a, const Vector &b) { return a.size() == b.size() && a == b; };
      CHECK(eq(u->m_dgv_urdf_to_sot, w.map) && (Index)u->m_nbJoints == w.map.size(), "order of the joints");
      for (Index j = 0; j < w.map.size(); ++j) CHECK((double)u->m_urdf_to_sot[(size_t)j] == w.map(j), "order of the joints");
      CHECK(eq(u->m_foot_util.m_Right_Foot_Sole_XYZ, w.sole), "sole");
      CHECK(eq(u->m_foot_util.m_Right_Foot_Force_Sensor_XYZ, w.sensor), "force sensor");
      CHECK(u->m_foot_util.m_Left_Foot_Frame_Name == w.lf && u->m_foot_util.m_Right_Foot_Frame_Name == w.rf, "frames of the feet");
      CHECK(u->m_hand_util.m_Left_Hand_Frame_Name == w.lh && u->m_hand_util.m_Right_Hand_Frame_Name == w.rh, "frames of the hands");
      CHECK(u->m_imu_joint_name == w.imu, "joint of the IMU");
    }
    for (S &q : sv) {
      auto get = [&](const std::string &c, const std::string &n, Value &v) {
        try {
          v = q.e->shimCall(c, {Value(n)});
        } catch (const std::exception &) {
          return false;
        }
        return true;
      };
      static const char *all[] = {"p", "a/b", "a/c", "x/y/z", "w", "none/such"};
      for (const char *n : all) {
        Value v;
        if (q.robot.empty()) {
          CHECK(!get(g.pick<std::string>({"getParameter", "getParameterInt", "getParameterDbl", "getParameterBool"}), n, v),
                "parameter read before the initialisation");
          continue;
        }
        auto &par = model[q.robot].par;
        auto it = par.find(n);
        if (it == par.end()) {
          CHECK(!get(g.pick<std::string>({"getParameter", "getParameterInt", "getParameterDbl", "getParameterBool"}), n, v),
                "parameter " << n << " read although it was never set");
          continue;
        }
        const Robot::Par &p = it->second;
        bool ok = p.type == 0   ? get("getParameter", n, v) && v.stringValue() == p.s
                  : p.type == 1 ? get("getParameterInt", n, v) && v.intValue() == p.i
                  : p.type == 2 ? get("getParameterDbl", n, v) && v.doubleValue() == p.d
                                : get("getParameterBool", n, v) && v.boolValue() == p.b;
        CHECK(ok, "parameter " << n << " of type " << p.type << " is not given back");
        if (p.type == 0 && p.s.find_first_of("01") == std::string::npos) CHECK(!get("getParameterInt", n, v), "a text was read as an integer");
      }
      if (q.robot.empty()) continue;
      Robot &w = model[q.robot];
      for (int j = 0; j < 5; ++j) {
        unsigned id = 77;
        std::string n = names("j", j);
        bool has = w.id.count(n) > 0;
        CHECK(q.e->convertJointNameToJointId(n, id) == has && id == (has ? (unsigned)w.id[n] : 77u), "id of joint " << n << " is " << id);
        auto l = w.lim.count(j) ? w.lim[j] : std::make_pair(0., 0.);
        for (double x : {l.first, l.second, l.first - 1e-6, l.second + 1e-6, (l.first + l.second) / 2})
          CHECK(q.e->isJointInRange((unsigned)j, x) == (x >= l.first && x <= l.second), "range of joint " << j << " at " << x);
      }
    }
  }
  g.nontrivial(early > 0 && sets > 5 && model.size() > 1);
}
