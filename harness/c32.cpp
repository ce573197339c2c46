// C32: joint limitator, gripper control, neck limitation, workspace clamp.
#define VERIF_WITH_FLAGS
#include <sot/core/clamp-workspace.hh>
#include <sot/core/gripper-control.hh>
#include <sot/core/neck-limitation.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
static Rot rotOf(const Homo &h) { return h.matrix().block<3, 3>(0, 0); }
static V3 trOf(const Homo &h) { return h.matrix().block<3, 1>(0, 3); }

PROP(jointLimitator) {
  Ent e("JointLimitator");
  Vec q, u, lo, up;
  int t = 0, cut = 0, kept = 0, ff = 0;
  for (int k = 0, N = (int)g.steps(1, 5); k < N; ++k) {
    t += (int)g.size(1, 3);
    bool resize = k == 0 || g.chance(1, 4);
    int n = resize ? (int)g.size(1, 12) : (int)q.size();
    if (resize || g.chance(1, 2)) e.in<Vec>("joint", q = genVec(g, n, 3));
    if (resize || g.chance(1, 3)) {
      lo = up = Vec(n);
      for (int i = 0; i < n; ++i) {
        // around the position, or not (the robot may be out of its range)
        double w = g.pick({0.01, 0.5, 3.}), c = g.chance(1, 5) ? g.real(-3, 3) : q(i) + g.pick({0., -1., 1., .9}) * w;
        lo(i) = c - w, up(i) = c + w;
        if (g.chance(1, 8)) lo(i) = -INFINITY;
        if (g.chance(1, 8)) up(i) = INFINITY;
      }
      e.in<Vec>("upperJl", up);
      e.in<Vec>("lowerJl", lo);
    }
    bool newu = resize || g.chance(1, 2);
    if (newu) {
      int m = g.flip() ? n : n > 6 && g.flip() ? n - 6 : (int)g.size(1, n);
      u = genVec(g, m, g.pick({1., 10., 300.}));
      for (int i = 0; i < m; ++i) {
        int j = i + n - m;
        double lim = g.flip() ? up(j) : lo(j);
        // just short of, or beyond, the limit
        if (std::isfinite(lim) && g.chance(1, 3)) u(i) = (lim - q(j)) / 0.005 + g.pick({1e-6, -1e-6, 1e-3, -1e-3});
      }
      e.in<Vec>("controlIN", u);
    }
    LOG << " n" << n << " m" << u.size() << " @" << t;
    Vec o = e.out<Vec>("control", t);
    CHECK(o.size() == u.size(), "size " << o.size());
    for (int i = 0; i < u.size(); ++i) {
      int j = i + n - (int)u.size();
      double next = q(j) + u(i) * 0.005;
      bool pass = j < 6 || (next > lo(j) && next < up(j));
      bool limitCase = std::fabs(next - lo(j)) < 1e-12 || std::fabs(next - up(j)) < 1e-12;
      if (limitCase && j >= 6) {
        CHECK(o(i) == 0 || o(i) == u(i), "command " << i << ": " << o(i));
        continue;
      }
      CHECK(o(i) == (pass ? u(i) : 0), "command " << i << ": " << o(i) << " for " << u(i) << ", next position " << next << " in [" << lo(j) << "," << up(j) << "]");
      if (j < 6) ++ff;
      else (pass ? kept : cut) += 1;
    }
    if (g.chance(1, 3)) NEARM(e.sig<Vec>("widthJl")(t), Vec(up - lo), 0);
  }
  g.label(cut ? "some commands cut" : "all pass");
  g.nontrivial(cut && kept);
}

PROP(gripper) {
  Ent e("GripperControl");
  const char *names[] = {"position", "torque", "torqueLimit"};
  Vec full[3], des;
  Sel sel;
  sel.tail = true;
  double off = 0.9;
  Vec factor;
  int t = 0, n = 0, reduced = 0, steps = 0;
  // whole inputs: through the selection; or directly
  bool direct = g.chance(1, 3), noTorque = direct && g.chance(1, 5);
  for (int k = 0, N = (int)g.steps(1, 10); k < N; ++k) {
    t += (int)g.size(1, 3);
    bool resize = k == 0 || g.chance(1, 10), change = resize;
    if (resize) n = (int)g.size(1, 6);
    if (!direct && (resize || g.chance(1, 5))) {
      sel = g.chance(1, 3) ? Sel() : genSel(g, n);
      if (g.chance(1, 3)) sel.tail = true;
      e.in<Flags>("selec", sel.flags());
      LOG << " sel" << sel.str();
      change = true;
    }
    for (int i = 0; i < 3; ++i)
      if (resize || g.chance(1, 2)) {
        full[i] = genVec(g, n, i == 2 ? 2 : 3);
        if (i == 2) full[i] = full[i].cwiseAbs();
        if (i == 1 && noTorque) full[i] = Vec();
        std::string s = names[i];
        if (direct) e.in<Vec>(s, full[i]);
        else e.in<Vec>(s + "FullIN", full[i]);
      }
    if (g.chance(1, 5)) {
      double x = g.pick({0.5, 0.75, 0.99, 0.1, 0., 1., -0.5, 1.5, 0.9});
      bool no = false;
      LOG << " offset" << x;
      try { e.call("offset", {Value(x)}); } catch (std::invalid_argument &) { no = true; }
      CHECK(no == !(x > 0 && x < 1), "offset " << x << (no ? " refused" : " accepted"));
      if (!no) off = x;
    }
    Vec p = direct ? full[0] : sel.rows(full[0], n), tq = direct ? full[1] : sel.rows(full[1], n), lim = direct ? full[2] : sel.rows(full[2], n);
    if (change || g.chance(1, 2)) des = genVec(g, (int)p.size(), 3);
    e.in<Vec>("positionDes", des);
    LOG << " @" << t;
    Vec o = e.out<Vec>("reference", t);
    if (factor.size() != p.size()) factor = Vec::Ones(p.size());
    CHECK(o.size() == p.size(), "size " << o.size() << " instead of " << p.size());
    for (int i = 0; i < p.size(); ++i) {
      double v = des(i) - p(i);
      if (tq.size()) {
        if ((v > 0 && tq(i) > lim(i)) || (v < 0 && tq(i) < -lim(i))) factor(i) *= off, ++reduced;
        else factor(i) /= off;
        factor(i) = std::min(1., factor(i));
      }
      double expect = p(i) + v * factor(i);
      CHECK(pbt::near(o(i), expect, 1e-10), "finger " << i << ": " << o(i) << " instead of " << expect);
    }
    if (g.flip()) {
      Vec again = e.out<Vec>("reference", t);
      NEARM(again, o, 0);
    }
    ++steps;
  }
  g.label(direct ? "direct" : "selection");
  g.nontrivial(reduced && steps > 2);
}

struct Neck : NeckLimitation {
  Neck(const std::string &n) : NeckLimitation(n) {}
  void set(unsigned p, unsigned t, double a, double b, double s) { panRank = p, tiltRank = t, coeffLinearPan = a, coeffAffinePan = b, signTilt = s; }
};
PROP(neck) {
  Neck n(freshName("neck"));
  double a = -25. / 42, b = 0.6981, s = 1;
  unsigned p = 14, q = 15;
  if (g.chance(1, 2)) {
    p = (unsigned)g.draw(6), q = p + 1 + (unsigned)g.draw(3);
    if (g.flip()) std::swap(p, q);
    a = -g.real(0, 2), b = g.real(-0.5, 1.5), s = g.flip() ? 1 : -1;
    n.set(p, q, a, b, s);
    LOG << " pan" << p << " tilt" << q << " a=" << a << " b=" << b << " s=" << s;
  }
  int cut = 0, kept = 0;
  for (int k = 0, t = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    Vec j = genVec(g, (int)std::max(p, q) + 1 + (int)g.draw(3), 2);
    if (g.chance(1, 4)) j(p) = g.pick({0., 1e-4, -1e-4, 9e-4, -9e-4, 1.1e-3, -1.1e-3});
    double limit = b + a * std::fabs(j(p));
    if (g.chance(1, 4)) j(q) = s * (limit + g.pick({0., 1e-4, -1e-4, 1e-6}));
    n.jointSIN = j;
    LOG << " pan=" << j(p) << " tilt=" << j(q);
    Vec o = n.jointSOUT(t);
    CHECK(o.size() == j.size(), "size");
    CHECK(s * o(q) <= limit + 1e-12, "tilt " << o(q) << " beyond the limit " << limit << " for pan " << o(p));
    if (s * j(q) <= limit) NEARM(o, j, 0);
    else {
      j(q) = s * limit;
      NEARM(o, j, 1e-12);
      ++cut;
      continue;
    }
    ++kept;
  }
  g.nontrivial(cut && kept);
}

PROP(clamp) {
  Ent e("ClampWorkspace");
  Homo ref, pos;
  int t = (int)g.draw(2) - 1;
  for (int k = 0, N = (int)g.steps(1, 5); k < N; ++k) {
    t += (int)g.size(1, 3);
    bool a = k == 0 || g.flip(), b = k == 0 || !a || g.flip();
    if (a) e.in<Homo>("positionref", ref = genHomo(g, 1));
    if (b) e.in<Homo>("position", pos = genHomo(g, 1));
    LOG << " @" << t;
    int first = (int)g.draw(3), count = (int)g.size(1, 4);
    for (int i = 0; i < count; ++i) switch ((first + i) % 3) {
        case 0:
        case 1: {
          // motions in the three translations are the clamped ones, rotations are free
          Mat al = e.out<Mat>((first + i) % 3 ? "alpha" : "alphabar", t), d = Mat::Zero(6, 6);
          d.diagonal() = (first + i) % 3 ? (Vec(6) << 1, 1, 1, 0, 0, 0).finished() : (Vec(6) << 0, 0, 0, 1, 1, 1).finished();
          NEARM(al, d, 1e-12);
          break;
        }
        default: {
          Homo h = e.out<Homo>("ref", t);
          V3 x = rotOf(ref).transpose() * (trOf(pos) - trOf(ref));
          double deg = 3.14159 / 180, yaw = (-30 + 35 * (x(1) + 0.4) / 0.15) * deg;
          Homo expect = mkHomo(rpyRot(0, 0, yaw) * rpyRot(0, -3.14159256 / 2, 0), V3(0.325, -0.325, 0.35));
          NEARM(h.matrix(), expect.matrix(), 1e-9);
        }
      }
  }
  g.nontrivial(t > 2);
}
