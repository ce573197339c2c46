// C40: initialisation of a parameter server on the only robot there is. The registry of robots is global and never shrinks: each
// history runs in a process of its own.
#include <sys/wait.h>
#include <unistd.h>
#include "ent.hpp"
#include <sot/core/exception-tools.hh>
#include <sot/core/parameter-server.hh>
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;
using namespace dg::sot;
using dg::Vector;

struct Op { int kind, server; double dt; };

static std::string run(const std::vector<Op> &ops) {
  std::vector<std::unique_ptr<ParameterServer>> sv;
  for (int i = 0; i < 2; ++i) sv.emplace_back(new ParameterServer(freshName("ps")));
  bool init[2] = {false, false};
  int robots = 0;
  Vector order;
  std::string imu;
  for (const Op &o : ops) {
    ParameterServer &e = *sv[(size_t)o.server];
    bool &ini = init[o.server];
    switch (o.kind) {
      case 0: {
        std::string n = "r" + std::to_string(robots++);
        if (!createRobotUtil(n)) return "robot not created";
        break;
      }
      case 1: {
        bool thrown = false;
        try {
          e.shimCall("init_simple", {Value(o.dt)});
        } catch (const ExceptionTools &) {
          thrown = true;
        }
        if (o.dt <= 0) {
          if (thrown) return "exception for a null period";
        } else {
          if (thrown != (robots != 1)) return "init_simple " + std::string(thrown ? "refused" : "accepted") + " with " + std::to_string(robots) + " robots";
          if (!thrown) ini = true;
        }
        break;
      }
      case 2: e.shimCall("setImuJointName", {Value(std::string("imu") + std::to_string(o.dt))}); if (ini) imu = "imu" + std::to_string(o.dt); break;
      case 3: {
        Vector v = Vector::Constant(1, 0.);
        e.shimCall("setJointsUrdfToSot", {Value(v)});
        if (ini) order = v;
        break;
      }
      case 4: {
        if (!ini) break;
        Vector v = e.shimCall("getJointsUrdfToSot", {}).vectorValue();
        if (v.size() != order.size() || v != order) return "order of the joints not given back";
        break;
      }
      case 5: {
        e.shimCall("setParameterDbl", {Value(std::string("d")), Value(o.dt)});
        double d = 0;
        bool thrown = false;
        try {
          d = e.shimCall("getParameterDbl", {Value(std::string("d"))}).doubleValue();
        } catch (const std::exception &) {
          thrown = true;
        }
        if (thrown == ini) return "parameter " + std::string(thrown ? "refused" : "read");
        if (!thrown && d != o.dt) return "parameter not given back";
        break;
      }
      case 6: {
        std::ostringstream sink;
        auto *old = std::cout.rdbuf(sink.rdbuf());
        e.shimCall("displayRobotUtil", {});
        std::cout.rdbuf(old);
        if (ini && sink.str().find("Nb of joints: " + std::to_string(order.size())) == std::string::npos) return "display " + sink.str();
        break;
      }
    }
    if (robots) {
      std::string n = "r0";
      if (getRobotUtil(n)->m_imu_joint_name != imu) return "joint of the IMU is " + getRobotUtil(n)->m_imu_joint_name;
    }
  }
  return "";
}

PROP(only_robot) {
  std::vector<Op> ops;
  int inits = 0;
  for (int k = 0, N = (int)g.steps(1, 14); k < N; ++k) {
    Op o{(int)g.draw(9), (int)g.draw(2), 0};
    if (o.kind > 6) o.kind = 1;
    if (o.kind == 0 && k > 1 && g.draw(3)) o.kind = 2;
    o.dt = g.draw(4) ? g.real(0.001, 1) : g.pick<double>({0, -1});
    inits += o.kind == 1;
    LOG << " " << o.kind << "/" << o.server << (o.dt > 0 ? "" : "-");
    ops.push_back(o);
  }
  int fd[2];
  if (pipe(fd)) g.discard();
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    std::string r;
    try {
      r = run(ops);
    } catch (const std::exception &e) {
      r = std::string("exception ") + e.what();
    }
    if (r.size() && write(fd[1], r.data(), r.size()) < 0) _exit(9);
    _exit(r.size() ? 3 : 0);
  }
  close(fd[1]);
  std::string msg;
  char buf[512];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) msg.append(buf, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  CHECK(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3), "the server crashed " << msg);
  CHECK(WEXITSTATUS(st) == 0, msg);
  g.nontrivial(inits > 1);
}
