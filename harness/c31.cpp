// C31: the simulated device integrates its commands within the declared bounds.
#include <sot/core/device.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;

static Rot zyx(const V3 &rpy) { return rpyRot(rpy(0), rpy(1), rpy(2)); }
// rigid motion of constant local twist (v, w) during dt, by a series (no closed form shared with the library)
static void move(Rot &R, V3 &p, const V3 &v, const V3 &w) {
  Eigen::Matrix4d X = Eigen::Matrix4d::Zero(), E = Eigen::Matrix4d::Identity(), P = E;
  X.block<3, 3>(0, 0) = skew(w);
  X.block<3, 1>(0, 3) = v;
  int n = 0;
  while (X.norm() > 0.5) X /= 2, ++n;
  for (int k = 1; k < 25; ++k) P = P * X / k, E += P;
  for (; n; --n) E = E * E;
  p += R * E.block<3, 1>(0, 3);
  R = R * E.block<3, 3>(0, 0);
}
static double clampd(double x, double l, double u) { return x < l ? l : u < x ? u : x; }

template <class F>
static bool refused(F f) {
  try { f(); } catch (std::invalid_argument &) { return true; }
  return false;
}

struct Robot : Device {
  using Device::Device;
  using Device::freeFlyerPose;
};

PROP(device) {
  std::unique_ptr<Robot> dev(new Robot(freshName("dev")));
  auto call = [&](const char *c, const std::vector<Value> &v = {}) { return dev->shimCall(c, v); };
  enum { NO, ONE, TWO } type = ONE;
  bool sanity = true;
  int n = 6;
  Vec q = Vec::Zero(6), v = q, lq, uq, lv, uv, lt, ut, pubv = v;
  int counted[2] = {0, 0}, lastCall[2] = {-1, -1}, asked = -1, calls = 0;
  Vec u;
  dg::Signal<Vec, int> ctrl("ctrl");
  ctrl.setFunction([&](Vec &r, int t) -> Vec & { asked = t, ++calls; return r = u; });
  dev->controlSIN.plug(&ctrl);
  dg::Signal<double, int> per0("before"), per1("after"), *per[] = {&per0, &per1};
  int boom = -1;
  for (int i = 0; i < 2; ++i)
    per[i]->setFunction([&, i](double &r, int t) -> double & {
      ++counted[i], lastCall[i] = t;
      if (boom == i) throw std::runtime_error("boom");
      return r = t;
    });
  dev->periodicCallBefore().addSignal("b", per0);
  dev->periodicCallAfter().addSignal("a", per1);
  bool ff = false, clampedOnce = false;
  int steps = 0, edits = 0;
  Homo pose = mkHomo(Rot::Identity(), V3::Zero());
  bool tightRpy = g.chance(1, 5);
  auto bounds = [&](Vec &l, Vec &h, int s, double m, bool pos) {
    l = h = Vec::Zero(s);
    for (int i = 0; i < s; ++i) {
      double a = g.real(-m, m), b = g.real(-m, m);
      if (g.chance(1, 4)) a = -1e6, b = 1e6;
      else if (g.chance(1, 12)) b = a;
      l(i) = std::min(a, b), h(i) = std::max(a, b);
      if (pos && i >= 3 && i < 6 && !tightRpy) l(i) = -1e6, h(i) = 1e6;
    }
  };
  auto published = [&](const char *when) {
    NEARM(dev->stateSOUT.accessCopy(), q, 0);
    CHECK(!q.hasNaN(), "NaN state " << when);
    if (dev->motorcontrolSOUT.accessCopy().size()) NEARM(dev->motorcontrolSOUT.accessCopy(), q, 0);
  };
  // usual start: a robot with its bounds
  if (g.chance(9, 10)) {
    n = (int)g.size(6, 14);
    call("resize", {Value((unsigned)n)});
    q = v = pubv = Vec::Zero(n);
    published("after resize");
    bounds(lq, uq, n, 3, true), call("setPositionBounds", {Value(lq), Value(uq)});
    bounds(lv, uv, n, 2, false), call("setVelocityBounds", {Value(lv), Value(uv)});
    if (g.flip()) bounds(lt, ut, n, 2, false), call("setTorqueBounds", {Value(lt), Value(ut)});
  }
  auto boundsOk = [&](int s) {
    if (lq.size() != s) return false;
    if (type == NO) return true;
    return lv.size() == s && (type == ONE || lt.size() == s);
  };
  for (int k = 0, N = (int)g.steps(2, 14); k < N; ++k) {
    int op = (int)g.draw(14);
    if (op >= 8) op = 8;
    switch (op) {
      case 0: {  // resize
        if (!g.chance(1, 4)) break;
        n = (int)g.size(6, 10);
        LOG << " resize" << n;
        call("resize", {Value((unsigned)n)});
        q = v = pubv = Vec::Zero(n), ++edits;
        published("after resize");
        NEARM(dev->velocitySOUT.accessCopy(), pubv, 0);
        NEARM(dev->motorcontrolSOUT.accessCopy(), q, 0);
        break;
      }
      case 1: {  // bounds, of the right size or not
        int which = (int)g.draw(3);
        int dl = g.chance(1, 5) ? (int)g.integer(-2, 2) : 0, dh = g.chance(1, 5) ? (int)g.integer(-2, 2) : 0;
        Vec l, h, x;
        bounds(l, h, n + 2, 3, which == 0);
        if (which == 0 && !tightRpy) l.segment(3, 3).setConstant(-1e6), h.segment(3, 3).setConstant(1e6);
        l = Vec(l.head(n + dl)), h = Vec(h.head(n + dh));
        LOG << " bounds" << which << "(" << dl << "," << dh << ")";
        const char *c[] = {"setPositionBounds", "setVelocityBounds", "setTorqueBounds"};
        bool no = refused([&] { call(c[which], {Value(l), Value(h)}); });
        CHECK(no == (dl || dh), "bounds of sizes " << l.size() << ", " << h.size() << (no ? " refused" : " accepted") << " for " << n);
        if (!no) (which == 0 ? lq : which == 1 ? lv : lt) = l, (which == 0 ? uq : which == 1 ? uv : ut) = h;
        ++edits;
        break;
      }
      case 2: {  // state
        bool mayRefuse = sanity && type != NO;
        int d = mayRefuse && g.chance(1, 4) ? (int)g.integer(-2, 2) : 0;
        Vec x = genVec(g, n + d, 2);
        bool expect = mayRefuse && (lv.size() != n + d || (type == TWO && lt.size() != n + d));
        if (!expect && n + d != n) break;
        LOG << " set" << n + d;
        bool no = refused([&] { call("set", {Value(x)}); });
        CHECK(no == expect, "state of size " << n + d << (no ? " refused" : " accepted"));
        if (!no) q = x;
        published("after set");
        ++edits;
        break;
      }
      case 3: {
        Vec x = genVec(g, n, 2);
        LOG << " setVelocity";
        call("setVelocity", {Value(x)});
        v = pubv = x, ++edits;
        NEARM(dev->velocitySOUT.accessCopy(), pubv, 0);
        break;
      }
      case 4: {
        Homo M = genHomo(g, 3);
        LOG << " setRoot";
        call("setRoot", {Value(Mat(M.matrix()))});
        Vec x = dev->stateSOUT.accessCopy();
        CHECK(x.size() == n, "size of the state after setRoot " << x.size());
        NEARM(x.head(3), Vec(M.matrix().block<3, 1>(0, 3)), 1e-12);
        NEARM(zyx(x.segment<3>(3)), M.matrix().topLeftCorner(3, 3), 1e-6);
        NEARM(x.tail(n - 6), q.tail(n - 6), 0);
        q = x, ++edits;
        break;
      }
      case 5: {
        int how = (int)g.draw(6);
        LOG << " type" << how;
        if (how < 3) {
          const char *names[] = {"noInteg", "oneInteg", "twoInteg"};
          call("setControlInputType", {Value(std::string(names[how]))});
          type = how == 0 ? NO : how == 1 ? ONE : TWO;
        } else if (how == 3) call("setControlInputType", {Value(std::string(g.pick({"", "twointeg", "threeInteg", "noInteg "})))});
        else {
          if (how == 4) call("setSecondOrderIntegration"), type = TWO;
          else dev->setNoIntegration(), type = NO;
          v = pubv = Vec::Zero(n);
          NEARM(dev->velocitySOUT.accessCopy(), pubv, 0);
        }
        ++edits;
        break;
      }
      case 6: {
        bool on = g.chance(2, 3);
        LOG << " sanity" << on;
        bool no = refused([&] { call("setSanityCheck", {Value(on)}); });
        CHECK(no == (on && !boundsOk(n)), "sanity check " << on << (no ? " refused" : " accepted"));
        if (!no) sanity = on;
        ++edits;
        break;
      }
      case 7: boom = (int)g.integer(-1, 1); LOG << " boom" << boom; break;
      default: {  // one period
        double dt = g.pick({1e-3, 5e-3, 0.05, 0.5});
        int m = g.chance(1, 2) ? n : n > 6 && g.chance(2, 3) ? n - 6 : (int)g.size(1, n);
        u = genVec(g, m, 4);
        bool nan = sanity && g.chance(1, 8);
        if (nan) u((int)g.draw(m)) = NAN;
        LOG << " u" << m << (nan ? "(nan)" : "") << " dt" << dt;
        int t = dev->stateSOUT.getTime();
        int before[2] = {counted[0], counted[1]}, c0 = calls;
        bool stop = sanity && !nan && type != NO && (lq.size() != n || lv.size() != n);
        bool no = refused([&] { dev->increment(dt); });
        CHECK(no == stop, "period " << (no ? "refused" : "run") << " with bounds of sizes " << lq.size() << " and " << lv.size() << " for " << n);
        CHECK(calls == c0 + 1 && asked == t, "control computed " << calls - c0 << " times, at " << asked << " instead of " << t);
        CHECK(counted[0] == before[0] + 1 && lastCall[0] == t + 1, "periodic call before the period");
        if (stop) { published("after a refused period"); CHECK(dev->stateSOUT.getTime() == t, "time changed"); break; }
        CHECK(counted[1] == before[1] + 1 && lastCall[1] == t + 1, "periodic call after the period");
        CHECK(dev->stateSOUT.getTime() == t + 1, "time " << dev->stateSOUT.getTime() << " after " << t);
        ++steps;
        Vec got = dev->stateSOUT.accessCopy(), exact = q;
        CHECK(got.size() == n, "size of the state " << got.size());
        NEARM(dev->motorcontrolSOUT.accessCopy(), got, 0);
        NEARM(dev->ZMPPreviousControllerSOUT.accessCopy(), Vec::Zero(3), 0);
        for (int i = 0; i < 4; ++i) NEARM(dev->forcesSOUT[i]->accessCopy(), Vec::Zero(6), 0);
        bool free = false;
        Rot R;
        if (!nan) {
          if (type == NO) exact.tail(m) = u;
          else {
            Vec w = u;
            if (type == TWO) w = v.tail(m) + 0.5 * dt * u, v.tail(m) += dt * u;
            if (sanity)
              for (int i = 0; i < n; ++i) v(i) = clampd(v(i), lv(i), uv(i));
            if (m == n) {
              free = ff = true;
              R = zyx(q.segment<3>(3));
              V3 p = q.head<3>();
              move(R, p, w.head(3) * dt, w.segment(3, 3) * dt);
              exact.head(3) = p;
              exact.segment(3, 3) = got.segment(3, 3);
              exact.tail(n - 6) += dt * w.tail(n - 6);
              pose = mkHomo(R, p);
            } else exact.tail(m) += dt * w;
            if (sanity)
              for (int i = 0; i < n; ++i) {
                double c = clampd(exact(i), lq(i), uq(i));
                clampedOnce = clampedOnce || c != exact(i);
                exact(i) = c;
              }
          }
        }
        NEARM(got, exact, nan ? 0 : 1e-11);
        if (free && !(sanity && tightRpy)) {
          NEARM(zyx(got.segment<3>(3)), R, 1e-7);
          NEARM(dev->freeFlyerPose().matrix(), pose.matrix(), 1e-7);
        }
        if (sanity && type != NO && !nan)
          for (int i = 0; i < n; ++i) CHECK(got(i) >= lq(i) && got(i) <= uq(i), "dof " << i << " out of its bounds: " << got(i));
        if (type == TWO) pubv = v;
        if (type == ONE) pubv = u;
        if (type == ONE && nan) pubv = Vec();  // (the command itself is published)
        if (pubv.size()) {
          Vec pv = dev->velocitySOUT.accessCopy();
          NEARM(pv, pubv, 1e-12);
          if (type == TWO && sanity && !nan)
            for (int i = 0; i < n; ++i) CHECK(pv(i) >= lv(i) && pv(i) <= uv(i), "velocity " << i << " out of its bounds: " << pv(i));
        }
        q = got;
      }
    }
  }
  g.label(type == NO ? "no integration" : type == ONE ? "first order" : "second order");
  if (ff) g.label("free-flyer");
  if (clampedOnce) g.label("clamped");
  g.nontrivial(steps >= 2 && edits >= 1);
}
