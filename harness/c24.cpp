// C24: the stack of tasks is edited.
#define VERIF_WITH_FLAGS
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include <sot/core/sot.hh>
#include <sot/core/task-abstract.hh>
#include "sot_model.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
struct T {
  std::unique_ptr<Ent> f, t;
  Mat J;
  Vec e;
  T(pbt::Gen &g, int n) : f(new Ent("FeatureGeneric")), t(new Ent("Task")) {
    t->in<double>("controlGain", -1);
    t->call("add", {Value((*f)->getName())});
    draw(g, n);
  }
  void draw(pbt::Gen &g, int n, bool one = false) {
    int d = one ? (int)e.size() : (int)g.size(1, 3);
    if (!one || g.flip()) f->in<Mat>("jacobianIN", J = genMat(g, d, n, 3));
    f->in<Vec>("errorIN", e = genVec(g, d, 3));
  }
  TaskAbstract &task() { return dynamic_cast<TaskAbstract &>(**t); }
  std::string name() { return (*t)->getName(); }
};
PROP(stack) {
  PoolStorage::destroy();
  Ent s("SOT");
  Sot *sot = dynamic_cast<Sot *>(s.p.get());
  int n = (int)g.size(1, 5), t = (int)g.integer(0, 3);
  std::vector<std::unique_ptr<T>> ts, dead;
  for (int i = 0, m = (int)g.size(1, 4); i < m; ++i) ts.emplace_back(new T(g, n));
  std::vector<T *> st;
  bool sized = false, nt = false, hasQ0 = false;
  Vec q0;
  auto anyTask = [&]() -> T & { return *ts[g.draw(ts.size())]; };
  int edits = 0;
  for (int k = 0, N = (int)g.steps(1, 14); k < N; ++k) {
    for (int q = 0, Q = (int)g.size(1, 3); q < Q; ++q) {
      switch (g.weighted({6, 3, 3, 3, 1, 1, 3, 1, 1, 1, 1})) {
        case 0: {
          T &x = anyTask();
          bool dup = std::find(st.begin(), st.end(), &x) != st.end();
          if (dup && !g.chance(1, 8)) break;
          bool thrown = false;
          LOG << " push " << x.name();
          try {
            if (g.flip()) s.call("push", {Value(x.name())});
            else sot->push(x.task());
          } catch (std::logic_error &) { thrown = true; }
          CHECK(thrown == !sized, "push " << (thrown ? "refused" : "accepted") << " with size " << (sized ? n : 0));
          if (sized) st.push_back(&x);
          edits += sized;
          break;
        }
        case 1: {
          T &x = anyTask();
          LOG << " up " << x.name();
          auto it = std::find(st.begin(), st.end(), &x);
          if (it != st.end() && it != st.begin()) std::swap(*it, *(it - 1));
          if (g.flip()) s.call("up", {Value(x.name())});
          else sot->up(x.task());
          break;
        }
        case 2: {
          T &x = anyTask();
          LOG << " down " << x.name();
          auto it = std::find(st.begin(), st.end(), &x);
          if (it != st.end() && it + 1 != st.end()) std::swap(*it, *(it + 1));
          if (g.flip()) s.call("down", {Value(x.name())});
          else sot->down(x.task());
          break;
        }
        case 3: {
          T &x = anyTask();
          LOG << " remove " << x.name();
          auto it = std::find(st.begin(), st.end(), &x);
          if (it != st.end()) {
            st.erase(it);
            edits++;
          }
          if (g.flip()) s.call("remove", {Value(x.name())});
          else sot->remove(x.task());
          break;
        }
        case 4:
          if (st.empty()) break;
          LOG << " pop";
          CHECK(&sot->pop() == &st.back()->task(), "pop does not return the task of lowest priority");
          st.pop_back();
          edits++;
          break;
        case 5:
          LOG << " clear";
          if (g.flip()) s.call("clear");
          else sot->clear();
          st.clear();
          edits++;
          break;
        case 6: anyTask().draw(g, n, true); t += (int)g.size(1, 2); break;
        case 7: {  // a task outside the stack is destroyed, a new one appears
          size_t i = g.draw(ts.size());
          if (std::find(st.begin(), st.end(), ts[i].get()) != st.end()) break;
          LOG << " destroy " << ts[i]->name();
          ts[i].reset();
          ts[i].reset(new T(g, n));
          break;
        }
        case 8: {
          LOG << " q0";
          s.in<Vec>("q0", q0 = genVec(g, n, 3));
          hasQ0 = true;
          t += 1;
          break;
        }
        case 9: {
          bool first = !sized;
          if (sized && !g.chance(1, 4)) break;
          if (!first && !g.flip()) n = (int)g.size(1, 5);
          LOG << " size=" << n;
          s.call("setSize", {Value((unsigned)n)});
          sized = true;
          if (!first) {
            for (auto &x : ts) x->draw(g, n);
            if (hasQ0) s.in<Vec>("q0", q0 = genVec(g, n, 3));
            t += 1;
          }
          break;
        }
        case 10: {
          bool thrown = false;
          const char *cmds[] = {"push", "remove", "up", "down"};
          try { s.call(g.pick({cmds[0], cmds[1], cmds[2], cmds[3]}), {Value(std::string("no such task"))}); } catch (ExceptionAbstract &) { thrown = true; }
          CHECK(thrown, "an unknown task name is accepted");
          break;
        }
      }
      if (k == 0 && q == 0 && !sized && g.chance(7, 8)) {
        s.call("setSize", {Value((unsigned)n)});
        sized = true;
      }
    }
    // what is listed
    std::string list = "( ", disp = "+-----------------\n+   SOT     \n+-----------------\n";
    for (T *x : st) {
      list += '"' + x->name() + "\", ";
      disp += "| " + x->name() + "\n";
    }
    list += ")";
    disp += "+-----------------\n";
    CHECK(s.call("list").stringValue() == list, "list gives " << s.call("list").stringValue() << " expected " << list);
    CHECK(s.call("display").stringValue() == disp, "display gives " << s.call("display").stringValue());
    for (auto &x : ts) CHECK(sot->exist(x->task()) == (std::find(st.begin(), st.end(), x.get()) != st.end()), "membership of " << x->name());
    CHECK(sot->tasks().size() == st.size(), "size");
    CHECK(s.call("getSize").unsignedValue() == (sized ? (unsigned)n : 0), "getSize");
    if (g.chance(1, 3)) continue;
    // what is executed
    if (!sized) continue;
    t += (int)g.draw(2);
    LOG << " @" << t;
    if (st.empty() && !hasQ0) {
      bool thrown = false;
      try { s.out<Vec>("control", t); } catch (std::logic_error &) { thrown = true; }
      CHECK(thrown, "control without task nor q0");
      continue;
    }
    std::vector<Level> lv;
    for (T *x : st) {
      Level l;
      l.J = x->J;
      l.e = x->e;
      lv.push_back(l);
    }
    SotRef r = solveStack(lv, n, hasQ0 ? &q0 : NULL, NULL, 1e-4, std::numeric_limits<double>::max());
    // a task outside the stack is not evaluated
    std::vector<int> times;
    for (auto &x : ts) times.push_back(x->t->sig<Mat>("jacobian").getTime());
    Vec c = s.out<Vec>("control", t);
    for (size_t i = 0; i < ts.size(); ++i)
      if (std::find(st.begin(), st.end(), ts[i].get()) == st.end())
        CHECK(ts[i]->t->sig<Mat>("jacobian").getTime() == times[i], "a task outside the stack was evaluated: " << ts[i]->name());
    if (r.ambiguous || r.amp > 1e6) continue;
    CHECK(c.size() == n, "control of size " << c.size());
    NEARM(c, r.q, 1e-10 * r.amp);
    nt = nt || (st.size() > 1 && edits > 2);
  }
  g.nontrivial(nt);
}
