// C19: joint-space controllers.
#include "ent.hpp"
PROP(control_pd) {
  Ent e("ControlPD");
  int rounds = (int)g.steps(1, 4), t = (int)g.integer(0, 3);
  bool nt = false;
  int n = (int)g.size(1, 8);
  Vec v[6];
  static const char *names[6] = {"Kp", "Kd", "position", "desired_position", "velocity", "desired_velocity"};
  for (int r = 0; r < rounds; ++r) {
    bool resize = r == 0 || g.chance(1, 4);
    if (resize) n = (int)g.size(0, 8);
    LOG << " n=" << n;
    int changed = 0;
    for (int i = 0; i < 6; ++i)
      if (resize || g.flip() || (i == 5 && !changed)) {
        v[i] = genVec(g, n, i < 2 ? 50 : 10);
        if (g.chance(1, 8)) v[i].setZero();
        e.in<Vec>(names[i], v[i]);
        LOG << " " << names[i] << "=" << v[i].transpose();
        ++changed;
      }
    t += (int)g.size(1, 3);
    Vec ep = v[3] - v[2], ev = v[5] - v[4], tau(n);
    for (int i = 0; i < n; ++i) tau(i) = v[0](i) * ep(i) + v[1](i) * ev(i);
    int first = (int)g.draw(3);
    for (int k = 0; k < 3; ++k) {
      int w = (first + k) % 3;
      if (k && g.chance(1, 4)) continue;
      if (w == 0) NEARM(e.out<Vec>("control", t), tau, 1e-12);
      if (w == 1) NEARM(e.out<Vec>("position_error", t), ep, 1e-13);
      if (w == 2) NEARM(e.out<Vec>("velocity_error", t), ev, 1e-13);
    }
    nt = nt || (n > 1 && r > 0);
  }
  g.nontrivial(nt);
}
PROP(control_gr) {
  Ent e("ControlGR");
  int rounds = (int)g.steps(1, 4), t = (int)g.integer(0, 3), n = 1;
  Mat A;
  Vec a, gr;
  bool nt = false;
  for (int r = 0; r < rounds; ++r) {
    bool resize = r == 0 || g.chance(1, 4);
    if (resize) n = (int)g.size(1, 8);
    int w = (int)g.draw(3);
    if (resize || w == 0 || g.flip()) e.in<Mat>("matrixA", A = genMat(g, n, n));
    if (resize || w == 1 || g.flip()) e.in<Vec>("acceleration", a = genVec(g, n));
    if (resize || w == 2 || g.flip()) e.in<Vec>("gravity", gr = genVec(g, n));
    t += (int)g.size(1, 3);
    LOG << " A=" << A << " a=" << a.transpose() << " g=" << gr.transpose();
    Vec ref(n);
    for (int i = 0; i < n; ++i) {
      ref(i) = gr(i);
      for (int j = 0; j < n; ++j) ref(i) += A(i, j) * a(j);
    }
    NEARM(e.out<Vec>("control", t), ref, 1e-11);
    nt = nt || (n > 1 && r > 0);
  }
  g.nontrivial(nt);
}
