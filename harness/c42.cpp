// C42: names of the tasks and features, and the graphs written for dot.
#define VERIF_WITH_FLAGS
#include <unistd.h>
#include <sys/stat.h>
#include <fstream>
#include <set>
#include <sot/core/exception-factory.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
typedef dynamicgraph::sot::PoolStorage Pool;

static int code(ExceptionFactory &e) { return e.getCode(); }
template <class F>
static int failure(const F &f) {  // code of the exception raised, -1 without
  try {
    f();
  } catch (ExceptionFactory &e) {
    return code(e);
  } catch (dynamicgraph::ExceptionFactory &e) {
    return 10000 + e.getCode();
  }
  return -1;
}
static const char *fcls[] = {"FeatureGeneric", "FeatureVector3", "FeaturePosture", "FeatureVisualPoint"};
static const char *tcls[] = {"Task", "TaskUnilateral", "TaskPD"};

PROP(registry) {
  Pool::destroy();
  Pool *pool = Pool::getInstance();
  struct O { std::unique_ptr<dg::Entity> e; bool task; };
  std::map<std::string, O> live;
  std::map<std::string, FeatureAbstract *> fs;
  std::map<std::string, TaskAbstract *> ts;
  std::set<std::string> held;  // objects with another name, kept until the end
  std::vector<std::unique_ptr<dg::Entity>> grave;
  std::string root = freshName("n");
  auto nm = [&] { return root + std::string(1, (char)('a' + g.draw(5))); };
  int dup = 0, reused = 0;
  std::set<std::string> gone;
  for (int k = 0, N = (int)g.steps(2, 24); k < N; ++k) {
    std::string n = nm();
    int op = (int)g.draw(9);
    LOG << " " << op << n.back();
    switch (op) {
      case 0: case 1: case 2: {
        bool task = g.flip();
        std::string c = task ? tcls[g.draw(3)] : fcls[g.draw(4)];
        if (live.count(n)) {
          int e = failure([&] { std::unique_ptr<dg::Entity> x(dg::FactoryStorage::getInstance()->newEntity(c, n)); });
          CHECK(e >= 0, "two entities with the same name");
          CHECK(dg::PoolStorage::getInstance()->existEntity(n), "the first object with this name is dropped");
          ++dup;
          break;
        }
        if (task ? ts.count(n) : fs.count(n)) break;  // name taken by registerTask below
        O o{nullptr, task};
        int e = failure([&] { o.e.reset(dg::FactoryStorage::getInstance()->newEntity(c, n)); });
        CHECK(e == -1, "creation of " << c << " " << n << " refused with code " << e << (gone.count(n) ? " after the first one was destroyed" : ""));
        reused += (int)gone.count(n);
        if (task) ts[n] = dynamic_cast<TaskAbstract *>(o.e.get());
        else fs[n] = dynamic_cast<FeatureAbstract *>(o.e.get());
        live[n] = std::move(o);
        break;
      }
      case 3: {  // destroyed
        auto it = live.find(n);
        if (it == live.end() || held.count(n)) break;
        if (it->second.task) ts.erase(n);
        else fs.erase(n);
        live.erase(it);
        gone.insert(n);
        break;
      }
      case 4: {  // another name for an object
        std::string m = nm();
        auto it = live.find(m);
        if (it == live.end()) break;
        bool task = it->second.task, taken = task ? ts.count(n) != 0 : fs.count(n) != 0;
        int e = failure([&] {
          if (task) pool->registerTask(n, dynamic_cast<TaskAbstract *>(it->second.e.get()));
          else pool->registerFeature(n, dynamic_cast<FeatureAbstract *>(it->second.e.get()));
        });
        CHECK(e == (taken ? (int)ExceptionFactory::OBJECT_CONFLICT : -1), "name " << n << (taken ? " taken" : " free") << ", registration ends with " << e);
        if (!taken) {
          held.insert(m);
          if (task) ts[n] = dynamic_cast<TaskAbstract *>(it->second.e.get());
          else fs[n] = dynamic_cast<FeatureAbstract *>(it->second.e.get());
        }
        dup += taken;
        break;
      }
      case 5:
        if (g.draw(4)) break;
        for (auto &o : live) grave.push_back(std::move(o.second.e));
        Pool::destroy();
        pool = Pool::getInstance();
        live.clear(), fs.clear(), ts.clear(), held.clear(), gone.clear();
        root = freshName("n");
        break;
      case 6: {  // through a task
        std::string m = nm();
        auto it = live.find(m);
        if (it == live.end() || !it->second.task) break;
        if (live.count(n)) held.insert(n);
        for (auto &f : fs)
          if (f.first == n) held.insert(f.second->getName());
        int e = failure([&] { it->second.e->shimCall("add", {Value(n)}); });
        CHECK(e == (fs.count(n) ? -1 : (int)ExceptionFactory::UNREFERED_OBJECT), "feature " << n << " added: code " << e);
        held.insert(m);
        break;
      }
      default: break;
    }
    CHECK(Pool::getInstance() == pool, "the pool is recreated");
    for (char c = 'a'; c < 'f'; ++c) {
      std::string q = root + std::string(1, c);
      FeatureAbstract *f = 0;
      TaskAbstract *t = 0;
      int e = failure([&] { f = &pool->getFeature(q); }), d = failure([&] { t = &pool->getTask(q); });
      CHECK(e == (fs.count(q) ? -1 : (int)ExceptionFactory::UNREFERED_OBJECT), "feature " << q << (fs.count(q) ? " known" : " unknown") << ", looking it up ends with " << e);
      CHECK(d == (ts.count(q) ? -1 : (int)ExceptionFactory::UNREFERED_OBJECT), "task " << q << (ts.count(q) ? " known" : " unknown") << ", looking it up ends with " << d);
      CHECK(!fs.count(q) || f == fs[q], "another feature named " << q);
      CHECK(!ts.count(q) || t == ts[q], "another task named " << q);
    }
  }
  // tasks first: they refer to features
  for (auto &o : live)
    if (o.second.task) o.second.e.reset();
  live.clear();
  Pool::destroy();
  g.nontrivial(dup > 0 && reused > 0);
}

/* ------------------------------------------------------ reader of dot files */
struct Dot {
  std::string s;
  size_t i = 0;
  std::string err, name;
  std::vector<std::pair<std::string, std::string>> nodes, edges;  // node, label; origin, end
  std::vector<std::string> clusters;
  std::map<std::string, std::string> attr;  // of the whole graph
  explicit Dot(const std::string &t) : s(t) {
    if (!kw("digraph")) fail("digraph");
    id(name);
    if (err.empty() && !tok("{")) fail("{");
    if (err.empty()) list();
    if (err.empty() && !tok("}")) fail("}");
    ws();
    if (err.empty() && i != s.size()) fail("end");
  }
  void fail(const std::string &w) { if (err.empty()) err = w + " expected at " + s.substr(i, 40); }
  void ws() {
    for (;;) {
      while (i < s.size() && isspace((unsigned char)s[i])) ++i;
      if (s.compare(i, 2, "/*")) return;
      size_t e = s.find("*/", i + 2);
      i = e == std::string::npos ? s.size() : e + 2;
    }
  }
  bool tok(const std::string &t) {
    ws();
    if (s.compare(i, t.size(), t)) return false;
    i += t.size();
    return true;
  }
  bool id(std::string &r) {
    ws();
    r.clear();
    if (i >= s.size()) return false;
    if (s[i] == '"') {
      for (++i; i < s.size() && s[i] != '"'; ++i) r += s[i];
      return i++ < s.size();
    }
    size_t b = i;
    if (isalpha((unsigned char)s[i]) || s[i] == '_')
      while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) ++i;
    else
      while (i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.')) ++i;
    r = s.substr(b, i - b);
    return i > b;
  }
  bool kw(const std::string &w) {
    size_t b = (ws(), i);
    std::string r;
    if (i < s.size() && s[i] != '"' && id(r) && r == w) return true;
    i = b;
    return false;
  }
  bool attrs(std::map<std::string, std::string> &m) {
    if (!tok("[")) return true;
    std::string a, b;
    while (!tok("]")) {
      if (!id(a) || !tok("=") || !id(b)) return fail("attribute"), false;
      m[a] = b;
      tok(","), tok(";");
    }
    return true;
  }
  void list() {
    for (;;) {
      std::string a, b;
      std::map<std::string, std::string> m;
      ws();
      if (i >= s.size() || s[i] == '}') return;
      if (tok(";")) continue;
      if (kw("graph")) { if (!attrs(attr)) return; continue; }
      if (kw("node") || kw("edge")) { if (!attrs(m)) return; continue; }
      if (kw("subgraph")) {
        id(a);
        clusters.push_back(a);
        if (!tok("{")) return fail("{");
        list();
        if (err.size()) return;
        if (!tok("}")) return fail("}");
        continue;
      }
      if (!id(a)) return fail("statement");
      if (tok("=")) { if (!id(b)) return fail("value"); continue; }
      if (tok("->")) {
        if (!id(b)) return fail("node");
        if (!attrs(m)) return;
        edges.emplace_back(a, b);
        continue;
      }
      if (!attrs(m)) return;
      nodes.emplace_back(a, m.count("label") ? m["label"] : "?");
    }
  }
};
static std::string genName(pbt::Gen &g) {
  std::string n = freshName();
  return g.chance(1, 3) ? g.str("ab-. _/[]{}", 1, 4) + n : n;
}

PROP(graph) {
  Pool::destroy();
  std::string d = pbt::scratch() + "/" + g.pick<std::string>({"plain", "dot.ted", "a.b.c"});
  mkdir(d.c_str(), 0700);
  std::string stem = g.str("abZ9-_ .", 1, 6), ext = g.pick<std::string>({".dot", ".gv", ""});
  if (stem == "." || stem == "..") stem = "x";
  // without extension, what follows the last dot is one
  std::string file = stem + ext, want = file.substr(0, file.rfind('.'));
  bool rel = g.chance(1, 4);
  std::string path = rel ? (g.flip() ? "./" : "") + file : d + "/" + file;
  std::vector<std::unique_ptr<dg::Entity>> es;
  std::set<std::string> names;
  for (int k = 0, N = (int)g.steps(0, 5); k < N; ++k) {
    std::string n = genName(g);
    es.emplace_back(dg::FactoryStorage::getInstance()->newEntity(tcls[g.draw(3)], n));
    names.insert(n);
  }
  if (g.flip()) es.emplace_back(dg::FactoryStorage::getInstance()->newEntity("FeatureGeneric", freshName()));
  LOG << path << " for";
  for (auto &n : names) LOG << " [" << n << "]";
  if (rel) CHECK(!chdir(d.c_str()), "chdir");
  bool thrown = false;
  std::string what;
  try {
    Pool::getInstance()->writeGraph(path);
  } catch (const std::exception &e) {
    thrown = true, what = e.what();
  }
  if (rel) CHECK(!chdir("/"), "chdir");
  CHECK(!thrown, "exception " << what);
  std::string full = d + "/" + file;
  std::ifstream f(full.c_str());
  CHECK(f.good(), "no file");
  std::stringstream ss;
  ss << f.rdbuf();
  unlink(full.c_str());
  Dot dot(ss.str());
  CHECK(dot.err.empty(), "not a graph: " << dot.err << " in " << ss.str());
  CHECK(dot.name == want && dot.attr["label"] == want, "graph named [" << dot.name << "] instead of [" << want << "]");
  std::set<std::string> got;
  for (auto &n : dot.nodes) {
    CHECK(n.first == n.second, "label " << n.second << " of " << n.first);
    CHECK(got.insert(n.first).second, "task " << n.first << " written twice");
  }
  CHECK(got == names, got.size() << " tasks written instead of " << names.size());
  CHECK(dot.edges.empty(), "edges");
  g.nontrivial(names.size() > 1 && want != "" && (rel || d.find('.') != std::string::npos));
}

PROP(fragments) {
  Pool::destroy();
  std::vector<std::unique_ptr<dg::Entity>> fs, ts;
  typedef std::pair<std::string, std::string> E;
  std::multiset<E> want;
  std::ostringstream os;
  os << "digraph g {\n";
  auto F = [&](const std::string &n) { return dg::FactoryStorage::getInstance()->newEntity("FeatureGeneric", n); };
  for (int k = 0, N = (int)g.size(1, 4); k < N; ++k) fs.emplace_back(F(genName(g)));
  std::ostringstream sink;
  struct Restore { std::streambuf *o; ~Restore() { std::cout.rdbuf(o); } } restore{std::cout.rdbuf(sink.rdbuf())};
  for (auto &f : fs) {
    if (g.flip()) {
      auto &r = *fs[g.draw(fs.size())];
      f->shimCall("setReference", {Value(r.getName())});
      want.insert(E(r.getName(), f->getName()));
      CHECK(f->shimCall("getReference", {}).stringValue() == r.getName(), "reference of " << f->getName());
    } else
      CHECK(f->shimCall("getReference", {}).stringValue() == "none", "reference of " << f->getName());
    f->writeGraph(os);
  }
  for (int k = 0, N = (int)g.steps(1, 4); k < N; ++k) {
    ts.emplace_back(dg::FactoryStorage::getInstance()->newEntity("Task", genName(g)));
    for (auto &f : fs)
      if (g.flip()) ts.back()->shimCall("add", {Value(f->getName())}), want.insert(E(f->getName(), ts.back()->getName()));
    ts.back()->writeGraph(os);
  }
  std::unique_ptr<dg::Entity> sot(dg::FactoryStorage::getInstance()->newEntity("SOT", genName(g)));
  sot->shimCall("setSize", {Value((unsigned)6)});
  std::multiset<std::string> tasks;
  std::string last;
  for (auto &t : ts)
    if (g.draw(4)) {
      sot->shimCall("push", {Value(t->getName())});
      if (last.size()) want.insert(E(last, t->getName()));
      tasks.insert(last = t->getName());
    }
  sot->writeGraph(os);
  os << "}\n";
  LOG << os.str();
  Dot dot(os.str());
  CHECK(dot.err.empty(), "not a graph: " << dot.err);
  std::multiset<E> got(dot.edges.begin(), dot.edges.end());
  CHECK(got == want, "edges");
  std::multiset<std::string> nodes;
  for (auto &n : dot.nodes)
    if (tasks.count(n.first)) {
      nodes.insert(n.first);
      CHECK(n.second == n.first, "label of " << n.first);
    }
  CHECK(nodes == tasks, "tasks of the stack");
  CHECK(std::count(dot.clusters.begin(), dot.clusters.end(), "cluster_" + sot->getName()) == 1, "cluster of the stack");
  g.nontrivial(tasks.size() > 1 && want.size() > 3);
}
