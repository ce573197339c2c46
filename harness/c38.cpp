// C38: joint trajectories, parsing and playing.
#include <iomanip>
#include "ent.hpp"
#include <sot/core/joint-trajectory-entity.hh>
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;
using dg::Vector;
using dg::sot::Trajectory;
typedef dg::sot::JointTrajectoryPoint Point;
typedef std::vector<double> Row;

static std::string num(pbt::Gen &g, double &v) {
  std::ostringstream o;
  switch (g.draw(5)) {
    case 0: o << (long)g.integer(-20, 20) << "." << (g.flip() ? "0" : ""); break;
    case 1: o << std::fixed << std::setprecision(6) << g.real(-4, 4); break;
    case 2: o << std::fixed << std::setprecision(15) << g.real(-1, 1); break;
    case 3: o << std::fixed << std::setprecision(3) << g.real(-1e6, 1e6); break;
    default: o << "0.0";
  }
  v = strtod(o.str().c_str(), 0);
  return o.str();
}
static Row genRow(pbt::Gen &g, int n) {
  Row r((size_t)n);
  for (auto &x : r) x = g.real(-5, 5);
  return r;
}
static std::string ident(pbt::Gen &g, bool letterFirst) {
  static const char *al = "abcXYZ_0129";
  std::string s;
  for (int i = 0, n = (int)g.size(1, 8); i < n; ++i) s += al[g.draw(i || !letterFirst ? 11 : 6)];
  return s;
}

static void same(const Trajectory &a, const Trajectory &b, const char *what) {
  CHECK(a.header_.seq_ == b.header_.seq_, what << ": seq " << a.header_.seq_ << " instead of " << b.header_.seq_);
  CHECK(a.header_.stamp_ == b.header_.stamp_, what << ": stamp " << a.header_.stamp_.secs_ << "," << a.header_.stamp_.nsecs_ << " instead of "
                                                   << b.header_.stamp_.secs_ << "," << b.header_.stamp_.nsecs_);
  CHECK(a.header_.frame_id_ == b.header_.frame_id_, what << ": frame " << a.header_.frame_id_ << " instead of " << b.header_.frame_id_);
  CHECK(a.joint_names_ == b.joint_names_, what << ": " << a.joint_names_.size() << " joint names instead of " << b.joint_names_.size() << ", or others");
  CHECK(a.points_.size() == b.points_.size(), what << ": " << a.points_.size() << " points instead of " << b.points_.size());
  for (size_t i = 0; i < a.points_.size(); ++i) {
    const Row *ra[] = {&a.points_[i].positions_, &a.points_[i].velocities_, &a.points_[i].accelerations_, &a.points_[i].efforts_};
    const Row *rb[] = {&b.points_[i].positions_, &b.points_[i].velocities_, &b.points_[i].accelerations_, &b.points_[i].efforts_};
    for (int k = 0; k < 4; ++k) {
      CHECK(ra[k]->size() == rb[k]->size(), what << ": point " << i << " list " << k << " has " << ra[k]->size() << " values instead of " << rb[k]->size());
      for (size_t j = 0; j < ra[k]->size(); ++j)
        CHECK((*ra[k])[j] == (*rb[k])[j], what << ": point " << i << " list " << k << " value " << j << " is " << (*ra[k])[j] << " instead of " << (*rb[k])[j]);
    }
  }
  CHECK(a.time_from_start_ == b.time_from_start_, what << ": time from start differs");
}
// a trajectory and its text
static std::string genText(pbt::Gen &g, Trajectory &t) {
  std::ostringstream o;
  t.header_.seq_ = (unsigned)g.integer(0, 100000);
  t.header_.stamp_ = dg::sot::timestamp((unsigned long)(g.draw(4) ? g.integer(0, 2000000000) : (long)g.draw(3)), (unsigned long)g.integer(0, 999999999));
  t.header_.frame_id_ = g.draw(5) ? ident(g, true) : "";
  t.time_from_start_ = 0;
  o << "(" << t.header_.seq_ << ",(" << t.header_.stamp_.secs_ << ".0," << t.header_.stamp_.nsecs_ << ".0)," << t.header_.frame_id_ << "),(";
  for (int i = 0, n = (int)g.size(1, 6); i < n; ++i) {
    t.joint_names_.push_back(ident(g, g.flip()));
    o << (i ? "," : "") << t.joint_names_.back();
  }
  o << "),(";
  int width = (int)g.size(0, 8);
  bool irregular = g.chance(1, 4);
  for (int i = 0, n = (int)g.size(0, 5); i < n; ++i) {
    Point p;
    o << (i ? ",(" : "(");
    for (unsigned k = 0; k < 4; ++k) {
      Row r;
      o << (k ? ",(" : "(");
      int w = irregular ? (int)g.size(0, 4) : k == 0 || g.flip() ? width : 0;
      for (int j = 0; j < w; ++j) {
        double v;
        o << (j ? "," : "") << num(g, v);
        r.push_back(v);
      }
      o << ")";
      p.transfer(r, k);
    }
    o << ")";
    t.points_.push_back(p);
  }
  o << ")";
  return o.str();
}

PROP(parsing) {
  Trajectory t, want;
  for (int round = 0, n = (int)g.size(1, 3); round < n; ++round) {  // the same object may be filled again
    want = Trajectory();
    want.joint_names_.clear();
    std::string text = genText(g, want);
    LOG << " " << text;
    std::istringstream is(text);
    t.deserialize(is);
    same(t, want, "parsed");
    Trajectory c(t), d;
    same(c, want, "copied");
    d = t;
    same(d, want, "assigned");
    std::ostringstream o, w;
    t.display(o);
    w << "-- Trajectory --\n";
    for (size_t i = 0; i < want.joint_names_.size(); ++i) w << "Joint(" << i << ")=" << want.joint_names_[i] << "\n";
    w << " Number of points: " << want.points_.size() << "\n";
    CHECK(o.str().compare(0, w.str().size(), w.str()) == 0, "display gives " << o.str());
  }
  g.nontrivial(want.points_.size() > 1 && want.joint_names_.size() > 1);
}

PROP(playing) {
  Ent e("SotJointTrajectoryEntity");
  std::deque<Trajectory> q;
  size_t idx = 0;
  Vector pos, com, zmp;
  Eigen::Matrix4d waist = Eigen::Matrix4d::Identity();
  unsigned seqid = 0;
  bool shown = false;  // a point was published
  unsigned stamps = 0;
  int t = 0, steps = 0, held = 0, changes = 0;
  auto update = [&](const Trajectory &a) {
    bool fresh = q.empty();
    if (fresh) q.push_back(a), idx = 0;
    else {
      ++idx;
      if (!(q.back().header_.stamp_ == a.header_.stamp_)) q.push_back(a);
    }
    if (idx >= q.front().points_.size()) {
      if (q.size() > 1) q.pop_front(), idx = 0, ++changes;
      if (q.front().points_.empty()) {
        idx = 0;
        return;
      }
      if (idx) idx = q.front().points_.size() - 1, ++held;
    }
    seqid = q.front().header_.seq_;
    const Row &p = q.front().points_[idx].positions_;
    LOG << " seq" << seqid << "/" << idx;
    if (p.size() < 5) return;
    long n = (long)p.size();
    shown = true;
    pos = Vector::Zero(n);
    for (long i = 0; i < n - 5; ++i) pos(i) = p[(size_t)i];
    com = V3(p[(size_t)n - 5], p[(size_t)n - 4], p[(size_t)n - 3]);
    zmp = V3(p[(size_t)n - 2], p[(size_t)n - 1], -0.055);
    double c = std::cos(com(2)), s = std::sin(com(2));
    waist.setIdentity();
    waist.topLeftCorner<2, 2>() << c, -s, s, c;
    waist.topRightCorner<2, 1>() = waist.topLeftCorner<2, 2>() * com.head<2>();
    waist(2, 3) = 0.65;
  };
  Trajectory cur;
  bool have = false;
  int width = 5 + (int)g.size(0, 4);
  auto gen = [&](Trajectory &a) {
    a.header_.seq_ = (unsigned)g.integer(0, 1000);
    ++stamps;
    a.header_.stamp_ = g.flip() ? dg::sot::timestamp(stamps, 0) : dg::sot::timestamp(0, stamps);
    if (g.chance(1, 8)) a.header_.stamp_ = dg::sot::timestamp(0, 0);
    for (int i = 0, n = (int)g.size(0, 6); i < n; ++i) {
      Point p;
      p.positions_ = genRow(g, g.draw(10) ? width : (int)g.size(0, 7));
      a.points_.push_back(p);
    }
  };
  std::vector<Trajectory> old;
  for (int k = 0, N = (int)g.steps(3, 30); k < N; ++k) {
    if (k == 0 && g.flip()) {
      Trajectory a;
      std::string text = genText(g, a);
      // the positions of the text are used as they are
      e.call("initTraj", {Value(text)});
      LOG << " init " << text << ":";
      update(a);
      old.push_back(a);
      continue;
    }
    if (!have || !g.draw(5)) {
      if (old.size() && g.chance(1, 5)) cur = old[g.draw(old.size())];  // sent again
      else cur = Trajectory(), gen(cur), old.push_back(cur);
      e.in<Trajectory>("trajectoryIN", cur);
      have = true;
      LOG << " recv(" << cur.points_.size() << "pts)";
    }
    t += (int)g.size(1, 3);
    LOG << " t" << t << ":";
    update(cur);
    ++steps;
    for (int r = 0, n = (int)g.size(1, 4); r < n; ++r) switch (g.draw(5)) {
        case 0: {
          Vector v = e.out<Vector>("position", t);
          NEARM(v, pos, 0);
          break;
        }
        case 1: {
          Vector v = e.out<Vector>("com", t);
          NEARM(v, com, 0);
          break;
        }
        case 2: {
          Vector v = e.out<Vector>("zmp", t);
          NEARM(v, zmp, 0);
          break;
        }
        case 3:
          if (shown) {
            Eigen::Matrix4d m = e.out<dg::sot::MatrixHomogeneous>("waist", t).matrix();
            NEARM(m, waist, 1e-12);
            break;
          }
        default: {
          unsigned v = e.out<unsigned>("seqid", t);
          CHECK(v == seqid, "sequence " << v << " instead of " << seqid);
        }
      }
  }
  g.label(changes > 0 ? "queued trajectory started" : "single");
  g.nontrivial(held > 0 && changes > 0);
}
