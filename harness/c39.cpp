// C39: robot description: conversions between the two joint orders, maps, parameters, mimic joints.
#include "ent.hpp"
#include <sot/core/robot-utils.hh>
namespace dg = dynamicgraph;
using namespace dg::sot;
using dg::Vector;

static Eigen::Matrix3d rpy(double r, double p, double y) {
  Eigen::Matrix3d X, Y, Z;
  X << 1, 0, 0, 0, std::cos(r), -std::sin(r), 0, std::sin(r), std::cos(r);
  Y << std::cos(p), 0, std::sin(p), 0, 1, 0, -std::sin(p), 0, std::cos(p);
  Z << std::cos(y), -std::sin(y), 0, std::sin(y), std::cos(y), 0, 0, 0, 1;
  return Z * Y * X;
}
static Eigen::Matrix3d ofQuat(const Eigen::Vector4d &q) {  // x y z w
  double x = q(0), y = q(1), z = q(2), w = q(3);
  Eigen::Matrix3d R;
  R << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
      2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
  return R;
}
static std::vector<Index> genPerm(pbt::Gen &g, int n) {
  std::vector<Index> p;
  for (int i = 0; i < n; ++i) p.push_back(i);
  for (int i = n - 1; i > 0; --i) std::swap(p[(size_t)i], p[(size_t)g.draw((uint64_t)i + 1)]);
  return p;
}
static void genBase(pbt::Gen &g, Vector &q, bool &gimbal) {
  // unit quaternion from angles, gimbal lock and half turns favoured
  auto ang = [&] { return g.draw(3) ? g.real(-M_PI, M_PI) : g.pick<double>({0, M_PI / 2, -M_PI / 2, M_PI, 1e-9, -1e-9, M_PI - 1e-9}); };
  double r = ang(), y = ang(), p = g.draw(3) ? g.real(-M_PI / 2, M_PI / 2)
                                             : g.pick<double>({M_PI / 2, -M_PI / 2, M_PI / 2 - 5e-4, -M_PI / 2 + 9e-4, M_PI / 2 - 1.1e-3, M_PI / 2 - 2e-3, 0});
  gimbal = std::fabs(std::fabs(p) - M_PI / 2) < 1.01e-3;
  auto h = [](double a, int k) { Eigen::Vector4d v = Eigen::Vector4d::Zero(); v(k) = std::sin(a / 2); v(3) = std::cos(a / 2); return v; };
  auto mul = [](const Eigen::Vector4d &a, const Eigen::Vector4d &b) {
    Eigen::Vector4d c;
    c.head<3>() = a(3) * b.head<3>() + b(3) * a.head<3>() + a.head<3>().cross(b.head<3>());
    c(3) = a(3) * b(3) - a.head<3>().dot(b.head<3>());
    return c;
  };
  Eigen::Vector4d qu = mul(mul(h(y, 2), h(p, 1)), h(r, 0));
  if (g.flip()) qu = -qu;
  q.head<3>() = genV3(g);
  q.segment<4>(3) = qu.normalized();
}

PROP(conversions) {
  RobotUtil ru;
  int n = (int)g.size(0, 9);
  bool ordered = true;
  for (int round = 0, nr = (int)g.size(1, 3); round < nr; ++round) {
    std::vector<Index> perm;
    bool setp = n > 0 && (round > 0 || g.draw(8));
    if (setp) {
      if (round && g.flip()) n = (int)g.size(1, 9);
      perm = genPerm(g, n);
      if (g.flip()) ru.set_urdf_to_sot(perm);
      else {
        Vector v(n);
        for (int i = 0; i < n; ++i) v(i) = (double)perm[(size_t)i];
        ru.set_urdf_to_sot(v);
      }
      for (int i = 0; i < n; ++i) {
        CHECK(ru.m_urdf_to_sot[(size_t)i] == perm[(size_t)i], "stored order");
        CHECK(ru.m_dgv_urdf_to_sot(i) == (double)perm[(size_t)i], "stored order as reals");
        if (perm[(size_t)i] != i) ordered = false;
      }
    } else if (round) break;
    else {
      // nothing was registered: refused, the output is left alone
      Vector e0(0), e1(0), q7 = Vector::Zero(7), v6 = Vector::Constant(6, 3.), o6 = Vector::Constant(6, 7.);
      q7(6) = 1;
      CHECK(ru.m_nbJoints == 0, ru.m_nbJoints << " joints before any registration");
      CHECK(!ru.joints_urdf_to_sot(e0, e1) && !ru.joints_sot_to_urdf(e0, e1), "joints converted without a map");
      CHECK(!ru.velocity_urdf_to_sot(q7, v6, o6) && !ru.velocity_sot_to_urdf(q7, v6, o6), "velocity converted without a map");
      CHECK(o6 == Vector::Constant(6, 7.), "refused conversion changed its output");
      continue;
    }
    LOG << " perm";
    for (Index i : perm) LOG << i;
    CHECK((int)ru.m_nbJoints == n, "number of joints " << ru.m_nbJoints);
    Vector q(n + 7), s(n + 6), back(n + 7), jn = genVec(g, n), js(n), jb(n);
    bool gimbal;
    genBase(g, q, gimbal);
    q.tail(n) = jn;
    LOG << " q " << q.transpose();
    // joints
    CHECK(ru.joints_urdf_to_sot(jn, js) && ru.joints_sot_to_urdf(js, jb), "joints refused");
    for (int i = 0; i < n; ++i) CHECK(js(perm[(size_t)i]) == jn(i), "joint " << i << " is not at its place");
    NEARM(jb, jn, 0);
    // configuration
    CHECK(ru.config_urdf_to_sot(q, s), "configuration refused");
    NEARM(s.head(3), q.head(3), 0);
    NEARM(s.tail(n), js, 0);
    Eigen::Matrix3d R = ofQuat(q.segment<4>(3)), Rs = rpy(s(3), s(4), s(5));
    NEARM(Rs, R, (gimbal ? 3e-3 : 1e-9));
    Vector s6(6), q7(7);
    CHECK(ru.base_urdf_to_sot(q.head(7), s6), "base refused");
    NEARM(s6, s.head(6), 0);
    CHECK(base_se3_to_sot(q.head(3), R, s6), "placement refused");
    NEARM(s6.head(3), q.head(3), 0);
    NEARM(rpy(s6(3), s6(4), s6(5)), R, (gimbal ? 3e-3 : 1e-9));
    CHECK(ru.config_sot_to_urdf(s, back), "configuration refused");
    NEARM(back.head(3), q.head(3), 0);
    NEARM(back.tail(n), jn, 0);
    CHECK(std::fabs(back.segment<4>(3).norm() - 1) < 1e-9, "quaternion of norm " << back.segment<4>(3).norm());
    NEARM(ofQuat(back.segment<4>(3)), R, (gimbal ? 3e-3 : 1e-9));
    CHECK(ru.base_sot_to_urdf(s.head(6), q7), "base refused");
    NEARM(q7, back.head(7), 0);
    // any angles denote the rotation of their quaternion
    Vector any(6);
    any << genV3(g), g.real(-7, 7), g.real(-7, 7), g.real(-7, 7);
    CHECK(ru.base_sot_to_urdf(any, q7), "base refused");
    NEARM(ofQuat(q7.segment<4>(3)), rpy(any(3), any(4), any(5)), 1e-9);
    NEARM(q7.head(3), any.head(3), 0);
    // velocity
    Vector v = genVec(g, n + 6), vs(n + 6), vb(n + 6);
    CHECK(ru.velocity_urdf_to_sot(q, v, vs), "velocity refused");
    NEARM(vs.head(3), R * v.head(3), 1e-9);
    NEARM(vs.segment(3, 3), R * v.segment(3, 3), 1e-9);
    for (int i = 0; i < n; ++i) CHECK(vs(6 + perm[(size_t)i]) == v(6 + i), "velocity " << i << " is not at its place");
    CHECK(ru.velocity_sot_to_urdf(q, vs, vb), "velocity refused");
    NEARM(vb, v, 1e-9);
    g.nontrivial(!ordered && n > 2);
  }
}

PROP(maps) {
  RobotUtil ru;
  CHECK(ru.m_force_util.get_force_id_left_foot() == -1 && ru.m_force_util.get_force_id_right_foot() == -1 &&
            ru.m_force_util.get_force_id_left_hand() == -1 && ru.m_force_util.get_force_id_right_hand() == -1,
        "end effector ids before any registration");
  std::map<std::string, Index> id, fid;
  std::map<Index, std::pair<double, double>> lim;
  std::map<Index, std::pair<Vector, Vector>> flim;
  std::map<std::string, Index> eff;  // last id given to rf lf lh rh
  static const char *jn[] = {"a", "b", "c", "d", ""}, *fn[] = {"rf", "lf", "rh", "lh", "x"};
  std::map<std::string, std::string> par;
  int moved = 0;
  auto consistent = [&](const std::map<std::string, Index> &m, const std::function<Index(const std::string &)> &byName,
                        const std::function<std::string(Index)> &byId, const char *def, const char **names) {
    for (int i = 0; i < 5; ++i) {
      auto it = m.find(names[i]);
      Index want = it == m.end() ? -1 : it->second, got = byName(names[i]);
      CHECK(got == want, "id of '" << names[i] << "' is " << got << " instead of " << want);
    }
    CHECK(byName("nobody") == -1, "an unknown name has an id");
    for (Index k = -2; k < 7; ++k) {
      std::string got = byId(k);
      bool any = false;
      for (auto &p : m) any |= p.second == k;
      if (!any) CHECK(got == def, "name of the unused id " << k << " is '" << got << "'");
      else {
        auto it = m.find(got);
        CHECK(it != m.end() && it->second == k, "name of id " << k << " is '" << got << "'");
      }
    }
  };
  for (int k = 0, N = (int)g.steps(1, 30); k < N; ++k) {
    Index i = (Index)g.integer(0, 5);
    switch (g.draw(6)) {
      case 0: {
        std::string n = jn[g.draw(5)];
        if (id.count(n) && id[n] != i) ++moved;
        ru.set_name_to_id(n, i), id[n] = i;
        LOG << " joint " << n << "=" << i;
        break;
      }
      case 1: {
        std::string n = fn[g.draw(5)];
        if (fid.count(n) && fid[n] != i) ++moved;
        ru.m_force_util.set_name_to_force_id(n, i), fid[n] = i;
        LOG << " force " << n << "=" << i;
        break;
      }
      case 2: {
        double l = g.real(-3, 3), u = g.real(-3, 3);
        ru.set_joint_limits_for_id(i, l, u), lim[i] = {l, u};
        LOG << " limits" << i;
        break;
      }
      case 3: {
        Vector l = genVec(g, 6), u = genVec(g, 6);
        ru.m_force_util.set_force_id_to_limits(i, l, u), flim[i] = {l, u};
        break;
      }
      case 4: {
        std::string n = g.pick<std::string>({"p", "q/r", "q/s", "u/v/w"}), v;
        LOG << " param " << n;
        switch (g.draw(4)) {
          case 0: {
            int x = (int)g.integer(-1000, 1000);
            ru.set_parameter<int>(n, x);
            CHECK(ru.get_parameter<int>(n) == x, "parameter " << n << " read back");
            break;
          }
          case 1: {
            double x = g.real(-1e3, 1e3) / 3;
            ru.set_parameter<double>(n, x);
            CHECK(ru.get_parameter<double>(n) == x, "parameter " << n << " is " << ru.get_parameter<double>(n) << " instead of " << x);
            break;
          }
          case 2: {
            bool x = g.flip();
            ru.set_parameter<bool>(n, x);
            CHECK(ru.get_parameter<bool>(n) == x, "parameter " << n << " read back");
            break;
          }
          default: {
            std::string x = g.str("ab c/.,<\"0", 0, 6);
            ru.set_parameter<std::string>(n, x);
          }
        }
        par[n] = ru.get_parameter<std::string>(n);
        break;
      }
      default: {
        bool refused = false;
        try {
          ru.get_parameter<std::string>("nothing/there");
        } catch (const boost::property_tree::ptree_error &) {
          refused = true;
        }
        CHECK(refused, "a parameter that was never set was read");
      }
    }
    consistent(id, [&](const std::string &n) { return ru.get_id_from_name(n); }, [&](Index i) { return ru.get_name_from_id(i); },
               "Joint name not found", jn);
    consistent(fid, [&](const std::string &n) { return ru.m_force_util.get_id_from_name(n); },
               [&](Index i) { return g.flip() ? ru.m_force_util.get_name_from_id(i) : ru.m_force_util.cp_get_name_from_id(i); }, "Force name not found", fn);
    for (Index i = 0; i < 6; ++i) {
      JointLimits l = g.flip() ? ru.get_joint_limits_from_id(i) : ru.cp_get_joint_limits_from_id(i);
      auto w = lim.count(i) ? lim[i] : std::make_pair(0., 0.);
      CHECK(l.lower == w.first && l.upper == w.second, "limits of " << i << " are " << l.lower << "," << l.upper);
      ForceLimits f = g.flip() ? ru.m_force_util.get_limits_from_id(i) : ru.m_force_util.cp_get_limits_from_id(i);
      Vector z = Vector::Zero(6), fl = flim.count(i) ? flim[i].first : z, fu = flim.count(i) ? flim[i].second : z;
      CHECK(Vector(f.lower) == fl && Vector(f.upper) == fu, "force limits of " << i);
    }
    auto end = [&](const char *n) { return fid.count(n) ? fid[n] : (Index)-1; };
    CHECK(ru.m_force_util.get_force_id_right_foot() == end("rf") && ru.m_force_util.get_force_id_left_foot() == end("lf") &&
              ru.m_force_util.get_force_id_right_hand() == end("rh") && ru.m_force_util.get_force_id_left_hand() == end("lh"),
          "ids of the end effectors");
    for (auto &p : par) CHECK(ru.get_parameter<std::string>(p.first) == p.second, "parameter " << p.first << " changed");
  }
  g.nontrivial(moved > 0);
}

PROP(registry) {
  std::vector<std::string> names;
  std::map<std::string, RobotUtilShrPtr> have;
  for (int i = 0, n = (int)g.size(1, 9); i < n; ++i) names.push_back(freshName("robot"));
  int twice = 0;
  for (int k = 0, N = (int)g.steps(1, 30); k < N; ++k) {
    std::string n = names[g.draw(names.size())];
    if (g.flip()) {
      RobotUtilShrPtr p = createRobotUtil(n);
      if (have.count(n)) {
        CHECK(!p, "created twice");
        ++twice;
      } else {
        CHECK(p, "not created");
        have[n] = p;
      }
    } else {
      CHECK(isNameInRobotUtil(n) == (have.count(n) > 0), "presence of a robot");
      RobotUtilShrPtr p = getRobotUtil(n);
      CHECK(p == (have.count(n) ? have[n] : RefVoidRobotUtil()), "another robot is given back");
    }
    auto l = getListOfRobots();
    for (auto &m : names) CHECK(std::count(l->begin(), l->end(), m) == (have.count(m) ? 1 : 0), "list of robots");
  }
  g.nontrivial(twice > 0 && have.size() > 1);
}

static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
  return r;
}
PROP(mimics) {
  std::vector<std::string> want;
  std::string xml = g.flip() ? "<?xml version=\"1.0\"?>\n" : "";
  xml += "<robot name=\"r\">";
  int joints = 0, others = 0;
  for (int k = 0, N = (int)g.steps(0, 12); k < N; ++k) {
    std::string nl = g.flip() ? "\n  " : "", name = g.draw(4) ? "j" + std::to_string(k) : g.str("ab_ <&\"", 1, 4) + "n";
    xml += nl;
    switch (g.draw(7)) {
      case 0:
        xml += "<link name=\"" + esc(name) + "\"" + (g.flip() ? "/>" : "><visual><origin rpy=\"0 0 0\"/></visual></link>");
        ++others;
        break;
      case 1:
        xml += "<!-- <joint name=\"no\"><mimic joint=\"j0\"/></joint> -->";
        ++others;
        break;
      case 2:
        xml += "<transmission name=\"t\"><type>x</type><joint name=\"" + esc(name) + "\"><hardwareInterface>p</hardwareInterface></joint></transmission>";
        ++others;
        break;
      case 3:
        xml += g.flip() ? "<gazebo><plugin name=\"p\"><mimic>j0</mimic></plugin></gazebo>" : "<mimic joint=\"j0\"/>";
        ++others;
        break;
      default: {
        bool m = g.flip();
        std::vector<std::string> kids;
        if (g.flip()) kids.push_back("<parent link=\"a\"/>");
        if (g.flip()) kids.push_back("<child link=\"b\"/>");
        if (g.flip()) kids.push_back("<limit effort=\"1\" velocity=\"2\"/>");
        if (g.chance(1, 3)) kids.push_back("<!-- mimic -->");
        if (g.chance(1, 3)) kids.push_back("<safety><soft name=\"soft\"/></safety>");
        if (m) {
          std::string q = "<mimic joint=\"j" + std::to_string(g.draw(9)) + "\"";
          if (g.flip()) q += " multiplier=\"1\" offset=\"0\"";
          kids.insert(kids.begin() + (long)g.draw(kids.size() + 1), q + "/>");
        }
        std::string at = g.flip() ? " type=\"revolute\"" : "", nm = " name=\"" + esc(name) + "\"";
        xml += "<joint" + (g.flip() ? at + nm : nm + at) + (kids.empty() ? "/>" : ">");
        for (auto &c : kids) xml += nl + c;
        if (kids.size()) xml += nl + "</joint>";
        if (m) want.push_back(name);
        ++joints;
      }
    }
  }
  xml += "</robot>";
  LOG << xml;
  ExtractJointMimics e(xml);
  std::string got, exp;
  for (auto &s : e.get_mimic_joints()) got += s + ";";
  for (auto &s : want) exp += s + ";";
  CHECK(got == exp, "mimic joints " << got << " instead of " << exp);
  g.nontrivial(want.size() && joints > (int)want.size() && others);
}
