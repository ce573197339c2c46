// C22: a task stacks its features.
#define VERIF_WITH_FLAGS
#include <sot/core/exception-task.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/multi-bound.hh>
#include <sot/core/pool.hh>
#include <sot/core/task.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
struct F {
  std::unique_ptr<Ent> e, ref;
  int n = 1;
  Vec err, des, dot;
  Mat J;
  Sel sel;
  Vec error() const { return sel.rows(ref ? Vec(err - des) : err, n); }
  Vec errDot() const { return sel.rows(ref ? Vec(-dot) : Vec(Vec::Zero(n)), n); }
  Mat jac() const { return sel.rows(J, n); }
  FeatureAbstract &f() { return dynamic_cast<FeatureAbstract &>(*e->p); }
};
PROP(task) {
  PoolStorage::destroy();
  Ent te("Task");
  Task *task = dynamic_cast<Task *>(te.p.get());
  CHECK(task, "type");
  CHECK(&PoolStorage::getInstance()->getTask(te->getName()) == task, "the task is not in the pool");
  int cols = (int)g.size(1, 6), t = (int)g.integer(0, 3);
  std::vector<F> fs(g.size(1, 5));
  auto errs = [&](F &f) { f.e->in<Vec>("errorIN", f.err = genVec(g, f.n)); };
  auto refs = [&](F &f) {
    if (!f.ref) return;
    f.ref->in<Vec>("errorIN", f.des = genVec(g, f.n));
    f.ref->in<Vec>("errordotIN", f.dot = genVec(g, f.n));
  };
  auto jacs = [&](F &f) { f.e->in<Mat>("jacobianIN", f.J = genMat(g, f.n, cols)); };
  for (F &f : fs) {
    f.e.reset(new Ent("FeatureGeneric"));
    f.sel.tail = true;
    f.n = (int)g.size(1, 6);
    if (g.chance(1, 3)) {
      f.ref.reset(new Ent("FeatureGeneric"));
      f.f().setReference(dynamic_cast<FeatureAbstract *>(f.ref->p.get()));
    }
    errs(f);
    refs(f);
    jacs(f);
    LOG << " " << f.e->p->getName() << ":" << f.n << (f.ref ? "r" : "");
  }
  std::vector<int> list;
  bool wd = false, nt = false;
  double gain = 1;
  te.in<double>("controlGain", gain);
  int N = (int)g.steps(1, 10);
  for (int k = 0; k < N; ++k) {
    for (int q = 0, Q = (int)g.size(k ? 0 : 1, 3); q < Q; ++q) switch (g.weighted({4, 1, 1, 2, 2, 2, 1, 1, 1})) {
        case 0: {
          int i = (int)g.draw(fs.size());
          LOG << " add " << i;
          if (g.flip()) te.call("add", {Value(fs[i].e->p->getName())});
          else task->addFeature(fs[i].f());
          list.push_back(i);
          break;
        }
        case 1:
          LOG << " clear";
          te.call("clear");
          list.clear();
          break;
        case 2: {
          wd = g.flip();
          LOG << " withDerivative " << wd;
          te.call("setWithDerivative", {Value(wd)});
          te.in<double>("controlGain", gain);
          break;
        }
        case 3: te.in<double>("controlGain", gain = g.real(-3, 10)); LOG << " gain=" << gain; break;
        case 4: errs(fs[g.draw(fs.size())]); LOG << " err"; break;
        case 5: jacs(fs[g.draw(fs.size())]); LOG << " jac"; break;
        case 6: refs(fs[g.draw(fs.size())]); LOG << " ref"; break;
        case 7: {
          F &f = fs[g.draw(fs.size())];
          f.sel = genSel(g, f.n);
          f.e->in<Flags>("selec", f.sel.flags());
          LOG << " sel " << f.sel.str();
          break;
        }
        case 8: {
          if (g.chance(1, 3)) {
            cols = (int)g.size(1, 6);
            for (F &f : fs) jacs(f);
            LOG << " cols=" << cols;
          } else {
            F &f = fs[g.draw(fs.size())];
            f.n = (int)g.size(1, 6);
            errs(f);
            refs(f);
            jacs(f);
            LOG << " n=" << f.n;
          }
          break;
        }
      }
    t += (int)g.size(1, 3);
    LOG << " @" << t;
    // the list
    std::string names = "[";
    for (int i : list) names += "'" + fs[i].e->p->getName() + "',";
    CHECK(te.call("list").stringValue() == names + "]", "list gives " << te.call("list").stringValue() << " expected " << names << "]");
    CHECK(te.call("getWithDerivative").boolValue() == wd, "getWithDerivative");
    int first = (int)g.draw(4);
    if (list.empty()) {
      for (int q = 0; q < 4; ++q) {
        bool thrown = false;
        try {
          switch ((first + q) % 4) {
            case 0: te.out<Vec>("error", t); break;
            case 1: te.out<Mat>("jacobian", t); break;
            case 2: te.out<VectorMultiBound>("task", t); break;
            default: te.out<Vec>("errorTimeDerivative", t); break;
          }
        } catch (ExceptionTask &x) {
          thrown = x.getCode() == ExceptionTask::EMPTY_LIST;
        }
        CHECK(thrown, "an empty task gives output " << (first + q) % 4);
      }
      continue;
    }
    int d = 0;
    for (int i : list) d += (int)fs[i].error().size();
    Vec e(d), ed(d);
    Mat J(d, cols);
    int c = 0;
    for (int i : list) {
      int m = (int)fs[i].error().size();
      e.segment(c, m) = fs[i].error();
      ed.segment(c, m) = fs[i].errDot();
      J.middleRows(c, m) = fs[i].jac();
      c += m;
    }
    for (int q = 0; q < 4; ++q) switch ((first + q) % 4) {
        case 0: NEARM(te.out<Vec>("error", t), e, 1e-14); break;
        case 1: NEARM(te.out<Mat>("jacobian", t), J, 0); break;
        case 2: {
          VectorMultiBound b = te.out<VectorMultiBound>("task", t);
          CHECK((int)b.size() == d, "task size " << b.size() << " expected " << d);
          for (int i = 0; i < d; ++i) {
            CHECK(b[i].getMode() == MultiBound::MODE_SINGLE, "component " << i << " is not a single bound");
            double ref = -gain * e(i) - (wd ? ed(i) : 0);
            CHECK(pbt::near(b[i].getSingleBound(), ref, 1e-12), "task(" << i << ") = " << b[i].getSingleBound() << " expected " << ref);
          }
          break;
        }
        default: NEARM(te.out<Vec>("errorTimeDerivative", t), ed, 0); break;
      }
    nt = nt || (list.size() > 1 && k > 0);
  }
  g.nontrivial(nt);
}
// features whose Jacobians disagree on the number of joints are refused, unknown features too
PROP(refused) {
  PoolStorage::destroy();
  Ent te("Task");
  int n = (int)g.size(2, 4), c = (int)g.size(1, 5), t = 0;
  std::vector<std::unique_ptr<Ent>> fs;
  bool thrown = false;
  try { te.call("add", {Value(std::string("no such feature"))}); } catch (ExceptionAbstract &) { thrown = true; }
  CHECK(thrown, "unknown feature added");
  int odd = (int)g.draw(n), oc = c + 1 + (int)g.draw(3);
  LOG << "n=" << n << " odd=" << odd << " c=" << c << "/" << oc;
  for (int i = 0; i < n; ++i) {
    fs.emplace_back(new Ent("FeatureGeneric"));
    int d = (int)g.size(1, 4);
    fs[i]->in<Vec>("errorIN", genVec(g, d));
    fs[i]->in<Mat>("jacobianIN", genMat(g, d, i == odd ? oc : c));
    te.call("add", {Value((*fs[i])->getName())});
  }
  te.in<double>("controlGain", 1);
  thrown = false;
  try { te.out<Mat>("jacobian", ++t); } catch (ExceptionTask &x) { thrown = x.getCode() == ExceptionTask::NON_ADEQUATE_FEATURES; }
  CHECK(thrown, "incompatible Jacobians accepted, or refused with another exception");
  // the same task works once its features agree
  te.call("clear");
  Mat J = Mat(0, c);
  for (int i = 0; i < n; ++i)
    if (i != odd) {
      te.call("add", {Value((*fs[i])->getName())});
      Mat j = fs[i]->sig<Mat>("jacobianIN").accessCopy();
      Mat k(J.rows() + j.rows(), c);
      k << J, j;
      J = k;
    }
  NEARM(te.out<Mat>("jacobian", ++t), J, 0);
  g.nontrivial(odd > 0);
}
