// C30: the pose and the Jacobian of a frame attached to a joint.
#include "ent.hpp"
using dynamicgraph::command::Value;
typedef Eigen::Matrix<double, 6, 1> V6;
static Rot rotOf(const Homo &h) { return h.matrix().block<3, 3>(0, 0); }
static V3 trOf(const Homo &h) { return h.matrix().block<3, 1>(0, 3); }
static Homo mul(const Homo &a, const Homo &b) { return mkHomo(rotOf(a) * rotOf(b), rotOf(a) * trOf(b) + trOf(a)); }

static V3 vex(const Rot &S) { return V3(S(2, 1) - S(1, 2), S(0, 2) - S(2, 0), S(1, 0) - S(0, 1)) / 2; }

// A joint of given twist moves the pose of the joint frame; the Jacobian given and the one obtained
// both describe that motion: local (moved frame) or aligned with the world.
PROP(modifier) {
  Ent m("OpPointModifier");
  Homo T = mkHomo(Rot::Identity(), V3::Zero()), M = T;
  bool local = true, haveT = false, eff = false;
  Mat J;
  int t = 0;
  for (int k = 0, N = (int)g.steps(1, 6); k < N; ++k) {
    t += (int)g.size(1, 3);
    if (k == 0 || g.chance(1, 3)) m.in<Homo>("positionIN", M = genHomo(g));
    if (k == 0 || g.chance(1, 3)) m.in<Mat>("jacobianIN", J = genMat(g, 6, (int)g.size(1, 5), 3));
    if (g.chance(1, 3)) {
      T = g.chance(1, 6) ? mkHomo(Rot::Identity(), V3::Zero()) : genHomo(g);
      m.call("setTransformation", {Value(Eigen::Matrix4d(T.matrix()))});
      LOG << " T";
      haveT = true;
    }
    if (g.chance(1, 3)) {
      local = g.flip();
      m.call("setEndEffector", {Value(local)});
      LOG << (local ? " local" : " world");
      eff = k > 0;
    }
    LOG << " @" << t;
    bool first = g.flip();
    for (int q = 0; q < 2; ++q)
      if ((q == 0) == first) {
        Homo P = m.out<Homo>("position", t);
        NEARM(P.matrix(), mul(M, T).matrix(), 1e-12);
      } else {
        Mat O = m.out<Mat>("jacobian", t);
        CHECK(O.rows() == 6 && O.cols() == J.cols(), "size of the Jacobian " << O.rows() << "x" << O.cols());
        for (int c = 0; c < J.cols(); ++c) {
          // central difference of the modified pose, when the joint frame moves with this column
          double h = 1e-4;
          Homo a[2];
          for (int s = 0; s < 2; ++s) {
            double e = s ? h : -h;
            V3 v = J.col(c).head<3>() * e, w = J.col(c).tail<3>() * e;
            a[s] = mul(local ? mul(M, mkHomo(expSO3(w), v)) : mkHomo(expSO3(w) * rotOf(M), trOf(M) + v), T);
          }
          V3 dp = (trOf(a[1]) - trOf(a[0])) / (2 * h);
          Rot dR = (rotOf(a[1]) - rotOf(a[0])) / (2 * h), R = rotOf(mul(M, T));
          V6 expect;
          if (local) expect << R.transpose() * dp, vex(R.transpose() * dR);
          else expect << dp, vex(dR * R.transpose());
          double tol = 1e-4 * (1 + J.col(c).norm());
          NEARM(Mat(O.col(c)), Mat(expect), tol);
          // exact form
          V3 w = J.col(c).tail<3>(), v = J.col(c).head<3>();
          if (local) expect << rotOf(T).transpose() * (v + w.cross(trOf(T))), rotOf(T).transpose() * w;
          else expect << v + w.cross(rotOf(M) * trOf(T)), w;
          NEARM(Mat(O.col(c)), Mat(expect), 1e-11);
        }
        if (T.matrix().isIdentity(0)) NEARM(O, J, 1e-12);
      }
    Value back = m.call("getTransformation");
    NEARM(Mat(Eigen::Matrix4d(back.matrix4dValue())), Mat(T.matrix()), 0);
    CHECK(m.call("getEndEffector").boolValue() == local, "end effector mode");
  }
  g.label(local ? "local" : "world");
  g.nontrivial(haveT && (eff || t > 3) && !T.matrix().isIdentity(0));
}
