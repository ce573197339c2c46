// C48: entities used before they are ready (no input or only some, commands in any order with any arguments), and printed at any moment.
#include "anyenv.hpp"
#include "mems.hpp"
static void print(dg::Entity &e) {
  std::ostringstream o;
  try {
    e.display(o);
    o << e.getDocString();
    e.writeGraph(o);
  } catch (const std::exception &x) {
    FAIL("printing a " << e.getClassName() << " raises " << x.what());
  } catch (...) {
    FAIL("printing a " << e.getClassName() << " raises an exception");
  }
}
/// two sides: the texts which contain the name of the entity differ
static void genArg(pbt::Gen &g, Value::Type t, const std::vector<std::string> words[2], Value v[2]) {
  switch (t) {
    case Value::BOOL: v[0] = Value(g.flip()); break;
    case Value::UNSIGNED: v[0] = Value((unsigned)g.integer(0, 8)); break;
    case Value::INT: v[0] = Value((int)g.integer(-3, 8)); break;
    case Value::FLOAT: v[0] = Value((float)g.real(-3, 3)); break;
    case Value::DOUBLE: v[0] = Value(g.chance(1, 8) ? g.pick({0., 1e300, -1e300, 1e-300, HUGE_VAL, (double)NAN}) : g.real(-3, 3)); break;
    case Value::VECTOR: v[0] = Value(genVec(g, (int)g.integer(0, 7))); break;
    case Value::MATRIX: {
      int r = (int)g.integer(0, 6), c = (int)g.integer(0, 6);
      v[0] = Value(genMat(g, r, c));
      break;
    }
    case Value::MATRIX4D: v[0] = Value(Eigen::Matrix4d(genHomo(g).matrix())); break;
    case Value::STRING: {
      if (g.chance(1, 4)) {
        v[0] = Value(g.str("abc 01:.", 0, 6));
        break;
      }
      size_t k = g.draw(words[0].size());
      v[0] = Value(words[0][k]), v[1] = Value(words[1][k]);
      return;
    }
    default: v[0] = Value(std::vector<Value>());
  }
  v[1] = v[0];
}
static std::string text(const Value &v) {
  std::ostringstream o;
  o.precision(17);
  o << Value::typeName(v.type()) << " ";
  switch (v.type()) {
    case Value::BOOL: o << v.boolValue(); break;
    case Value::UNSIGNED: o << v.unsignedValue(); break;
    case Value::INT: o << v.intValue(); break;
    case Value::FLOAT:
    case Value::DOUBLE: o << v.doubleValue(); break;
    case Value::VECTOR: o << v.vectorValue(); break;
    case Value::MATRIX: o << v.matrixXdValue(); break;
    case Value::MATRIX4D: o << v.matrix4dValue(); break;
    default: break;
  }
  return o.str();
}
// any class, no input: each command or output answers or raises, and the one which is printed answers as the other
#ifndef FRESH
#define FRESH fresh
#endif
#define FRESHW(N) PROPW(N, 3)
FRESHW(FRESH) {
  static const std::vector<std::string> cls = classes();
  std::string c = cls[g.draw(cls.size())];
  LOG << c;
  g.label(c);
  Ent a(c), b(c);
  Ent *e[2] = {&a, &b};
  std::vector<std::string> names, sigs, words[2];
  for (auto &k : a->getNewStyleCommandMap()) names.push_back(k.first);
  for (auto &k : a->getSignalMap()) sigs.push_back(k.first);
  for (int s = 0; s < 2; ++s) {
    words[s] = {"", "a", (*e[s])->getName()};
    for (auto &k : sigs) words[s].push_back(k), words[s].push_back((*e[s])->getName() + "." + k);
  }
  int n = (int)g.size(1, 14), t = 0, done = 0;
  for (int i = 0; i < n; ++i) {
    std::string r[2];
    switch (g.draw(4)) {
      case 0:
        LOG << " print";
        print(*a);
        continue;
      case 1: {
        if (names.empty()) continue;
        const std::string &k = g.pick(names);
        std::vector<Value> v[2];
        for (auto ty : a->getNewStyleCommand(k)->valueTypes()) {
          Value x[2];
          genArg(g, ty, words, x);
          v[0].push_back(x[0]), v[1].push_back(x[1]);
        }
        LOG << " " << k << "/" << v[0].size();
        for (int s = 0; s < 2; ++s) try {
            r[s] = text((*e[s])->shimCall(k, v[s]));
            ++done;
          } catch (const std::exception &) {
            r[s] = "refused";
            LOG << "!";
          }
        CHECK(r[0] == r[1], c << ": command " << k << " answers " << r[0] << " and " << r[1]);
        break;
      }
      default: {
        std::vector<std::string> now;
        for (auto &k : a->getSignalMap()) now.push_back(k.first);
        if (now.empty()) continue;
        const std::string &k = g.pick(now);
        t += (int)g.draw(2);
        LOG << " " << k << "@" << t;
        for (int s = 0; s < 2; ++s) try {
            Base &x = (*e[s])->getSignal(k);
            Flat f = readAny(x, t);
            std::ostringstream o;
            o.precision(17);
            for (double y : f) o << y << " ";
            r[s] = o.str();
            ++done;
          } catch (const std::exception &) {
            r[s] = "refused";
            LOG << "!";
          }
        CHECK(r[0] == r[1], c << ": output " << k << " is " << r[0] << " and " << r[1]);
      }
    }
  }
  g.nontrivial(done >= 2 && n >= 3);
}
#ifndef ONLY_FRESH
// a class with well-formed inputs, some of them unset: the one which is printed answers as the other
PROPW(printed, 2) {
  static const std::vector<Mem> ks = mems();
  const Mem &k = g.pick(ks);
  std::vector<int> c = {(int)g.draw(4), (int)g.draw(4)};
  Dims d = {k.nmin + (int)g.draw(3), (int)g.size(1, 4), 6 + c[0] % 3};
  Rig r[2];
  std::vector<Slot> in, out;
  std::vector<std::string> shape;
  k.build(r[0], c), k.build(r[1], c);
  slots(r[0], k, in, shape, out);
  g.label(k.name);
  LOG << k.name;
  auto sig = [](Rig &x, const Slot &s) -> Base & { return (*x.e[s.ent])->getSignal(s.sig); };
  std::vector<std::unique_ptr<Source>> src;
  std::vector<bool> set;
  bool all = g.chance(2, 3);
  for (size_t i = 0; i < in.size(); ++i) src.push_back(sourceFor(sig(r[0], in[i]), shape[i])), set.push_back(false);
  int time = 0, prints = 0, reads = 0;
  for (int round = 0, n = (int)g.size(1, 6); round < n; ++round) {
    for (size_t i = 0; i < in.size(); ++i)
      if (round == 0 ? all || g.flip() : g.chance(1, 3)) {
        src[i]->redraw(g, d);
        src[i]->give(sig(r[0], in[i])), src[i]->give(sig(r[1], in[i]));
        set[i] = true;
        LOG << " " << in[i].sig;
      }
    if (k.cmds.size() && g.chance(2, 3)) {
      size_t w = g.draw(k.cmds.size());
      std::vector<Value> v;
      for (auto &x : k.args[w](g, d)) v.push_back(x.v);
      bool no[2] = {false, false};
      for (int s = 0; s < 2; ++s) try {
          (*r[s].e[0])->shimCall(k.cmds[w], v);
        } catch (const std::exception &) {
          no[s] = true;
        }
      LOG << " " << k.cmds[w] << (no[0] ? "!" : "");
      CHECK(no[0] == no[1], k.name << ": " << k.cmds[w] << " is refused on one side only");
    }
    time += (int)g.size(1, 3);
    for (int j = 0, m = (int)g.size(1, 4); j < m; ++j) {
      if (g.flip()) {
        size_t w = g.draw(r[0].e.size());
        LOG << " print";
        print(**r[0].e[w]);
        ++prints;
      }
      const Slot &o = out[g.draw(out.size())];
      LOG << " -> " << o.sig << "@" << time;
      Flat f[2];
      std::string x[2];
      for (int s = 0; s < 2; ++s) try {
          f[s] = readAny(sig(r[s], o), time);
        } catch (const std::exception &q) {
          x[s] = q.what();
          if (x[s].empty()) x[s] = "?";
          LOG << "!";
        }
      CHECK(x[0].empty() == x[1].empty(), k.name << ": " << o.sig << " raises " << x[0] << x[1] << " on one side only");
      if (!x[0].empty()) ++time;  // what was refused is attempted again at another time
      if (x[0].empty()) same(f[0], f[1], k.name + " " + o.sig), ++reads;
    }
  }
  g.nontrivial(prints >= 1 && reads >= 2);
}
#endif
