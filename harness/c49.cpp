// C49: entities do not disturb each other. A history of inputs, commands and evaluations gives the same answers whether the entities it is about are
// alone or others, of the same class or not, are made, used and destroyed in the middle of it; and the same answers when it is played again.
#include "anyenv.hpp"
#include "mems.hpp"
struct Op {
  enum { IN, CALL, OUT } kind;
  size_t ent;
  std::string name;
  std::shared_ptr<Source> src;
  std::vector<Arg> args;
  int t;
};
typedef std::vector<Op> History;
static std::vector<std::string> words(Rig &r, size_t e) {
  std::vector<std::string> w = {"", "a"};
  for (auto &x : r.e) w.push_back((*x)->getName());
  for (auto &k : (*r.e[e])->getSignalMap()) w.push_back(k.first), w.push_back((*r.e[e])->getName() + "." + k.first);
  return w;
}
static Arg genArg(pbt::Gen &g, Value::Type t, size_t nwords) {
  switch (t) {
    case Value::BOOL: return {Value(g.flip()), -1};
    case Value::UNSIGNED: return {Value((unsigned)g.integer(0, 8)), -1};
    case Value::INT: return {Value((int)g.integer(-3, 8)), -1};
    case Value::FLOAT: return {Value((float)g.real(-3, 3)), -1};
    case Value::DOUBLE: return {Value(g.real(-3, 3)), -1};
    case Value::VECTOR: return {Value(genVec(g, (int)g.integer(0, 7))), -1};
    case Value::MATRIX: {
      int r = (int)g.integer(0, 6), c = (int)g.integer(0, 6);
      return {Value(genMat(g, r, c)), -1};
    }
    case Value::MATRIX4D: return {Value(Eigen::Matrix4d(genHomo(g).matrix())), -1};
    case Value::STRING: return {Value(std::string()), (int)g.draw(nwords)};
    default: return {Value(std::vector<Value>()), -1};
  }
}
/* ---------------------------------------------------------------- histories */
static History genHistory(pbt::Gen &g, const Mem &k, const std::vector<int> &c, const Dims &d, bool log, size_t *outputs) {
  Rig r;
  k.build(r, c);
  std::vector<Slot> in, out;
  std::vector<std::string> shape;
  slots(r, k, in, shape, out);
  History h;
  int t = 0, n = (int)g.size(1, 5);
  bool wild = k.name.find(" (any)") != std::string::npos || g.chance(1, 5), all = g.chance(4, 5);
  if (wild) in.clear();  // any command on a class which has no input yet
  for (int round = 0; round < n; ++round) {
    for (size_t i = 0; i < in.size(); ++i)
      if (round == 0 ? all || g.flip() : g.chance(1, 2)) {
        Op o{Op::IN, in[i].ent, in[i].sig, std::shared_ptr<Source>(sourceFor((*r.e[in[i].ent])->getSignal(in[i].sig), shape[i]).release()), {}, 0};
        o.src->redraw(g, d);
        h.push_back(o);
        if (log) LOG << " " << o.name;
      }
    for (int j = 0, m = (int)g.draw(3); j < m; ++j) {
      Op o{Op::CALL, 0, "", nullptr, {}, 0};
      if (k.cmds.size() && !(wild && g.flip())) {
        size_t w = g.draw(k.cmds.size());
        o.name = k.cmds[w];
        o.args = k.args[w](g, d);
      } else if (wild) {
        o.ent = g.draw(r.e.size());
        auto &m = (*r.e[o.ent])->getNewStyleCommandMap();
        if (m.empty()) continue;
        auto it = m.begin();
        std::advance(it, (long)g.draw(m.size()));
        o.name = it->first;
        if (o.name.find("initial") == std::string::npos && (*r.e[o.ent])->getClassName() == "ParameterServer") continue;  // the description of a robot is shared
        size_t nw = words(r, o.ent).size();
        for (auto ty : it->second->valueTypes()) o.args.push_back(genArg(g, ty, nw));
      } else continue;
      h.push_back(o);
      if (log) LOG << " " << o.name << "()";
    }
    t += (int)g.size(1, 3);
    for (int j = 0, m = (int)g.size(1, 4); j < m && out.size(); ++j) {
      const Slot &s = out[g.draw(out.size())];
      if (!all) ++t;  // what was refused is attempted again at another time
      h.push_back(Op{Op::OUT, s.ent, s.sig, nullptr, {}, t});
      if (log) LOG << " -> " << s.sig << "@" << t;
      if (outputs) ++*outputs;
    }
  }
  return h;
}
struct Answer {
  Flat f;
  bool refused;
};
static Answer play(Rig &r, const Op &o) {
  Answer a{{}, false};
  try {
    dg::Entity &e = **r.e[o.ent];
    if (o.kind == Op::IN) o.src->give(e.getSignal(o.name));
    else if (o.kind == Op::OUT) a.f = readAny(e.getSignal(o.name), o.t);
    else {
      std::vector<Value> v;
      std::vector<std::string> w = words(r, o.ent);
      for (auto &x : o.args) v.push_back(x.word < 0 ? x.v : Value(w[(size_t)x.word % w.size()]));
      Value y = e.shimCall(o.name, v);
      switch (y.type()) {
        case Value::BOOL: a.f = {(double)y.boolValue()}; break;
        case Value::UNSIGNED: a.f = {(double)y.unsignedValue()}; break;
        case Value::INT: a.f = {(double)y.intValue()}; break;
        case Value::FLOAT:
        case Value::DOUBLE: a.f = {y.doubleValue()}; break;
        case Value::VECTOR: flat(a.f, y.vectorValue()); break;
        case Value::MATRIX: flat(a.f, y.matrixXdValue()); break;
        default: break;
      }
    }
  } catch (const std::exception &) {
    a.refused = true;
  }
  return a;
}
#ifndef INDEPENDENT
#define INDEPENDENT independent
#endif
#define PROPN(N) PROP(N)
PROPN(INDEPENDENT) {
  static const std::vector<Mem> ks = mems();
  static const std::vector<std::string> cls = classes();
  static const size_t memories = (size_t)(std::find_if(ks.begin(), ks.end(), [](const Mem &m) { return m.name.find(" (memory)") != std::string::npos; }) - ks.begin());
  auto kind = [&]() { return g.chance(1, 8) ? any(g.pick(cls)) : memories < ks.size() && g.flip() ? ks[memories + g.draw(ks.size() - memories)] : g.pick(ks); };
  Mem k = kind(), k2 = g.chance(3, 4) ? k : kind();
  if (k.name.find("ParameterServer") == 0 || k2.name.find("ParameterServer") == 0) g.discard();
  g.label(k.name);
  LOG << k.name << ":";
  std::vector<int> c = {(int)g.draw(4), (int)g.draw(4)}, c2 = {(int)g.draw(4), (int)g.draw(4)};
  Dims d = {k.nmin + (int)g.draw(3), (int)g.size(1, 4), 6 + c[0] % 3}, d2 = {k2.nmin + (int)g.draw(3), (int)g.size(1, 4), 6 + c2[0] % 3};
  size_t outputs = 0;
  History h = genHistory(g, k, c, d, true, &outputs), h2;
  // the other entity either has a life of its own, or is a twin: the same inputs at about the same moments, with other parameters
  bool twin = k.name == k2.name && g.flip();
  if (twin) {
    if (g.flip()) c2 = c;
    std::vector<std::string> made[2];
    for (int i = 0; i < 2; ++i) {
      Rig r;
      k.build(r, i ? c2 : c);
      for (auto &e : r.e) made[i].push_back((*e)->getClassName() + " " + (*e)->getName());
    }
    if (made[0] != made[1]) c2 = c;  // not of the same entities
    for (auto &o : h) {
      Op q = o;
      size_t w = o.kind == Op::CALL ? (size_t)(std::find(k.cmds.begin(), k.cmds.end(), o.name) - k.cmds.begin()) : 0;
      if (o.kind == Op::CALL && w < k.cmds.size() && g.chance(3, 4)) q.args = k.args[w](g, d);
      if (o.kind == Op::CALL && g.chance(1, 5)) continue;
      h2.push_back(q);
    }
  } else h2 = genHistory(g, k2, c2, d2, false, NULL);
  LOG << " | beside " << (twin ? "a twin" : k2.name);
  g.label(twin ? "a twin" : "another life");
  std::vector<Answer> alone;
  {
    Rig r;
    k.build(r, c);
    for (auto &o : h) alone.push_back(play(r, o));
  }
  std::unique_ptr<Rig> other;
  auto make = [&]() { other.reset(new Rig), k2.build(*other, c2); };
  if (g.flip()) make();
  Rig r;
  k.build(r, c);
  size_t j = 0, between = 0, good = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    for (size_t m = twin && g.chance(3, 4) ? 1 : g.draw(4); m > 0; --m) {
      if (!other) make();
      if (j < h2.size()) play(*other, h2[j++]), ++between;
      else if (g.flip()) other.reset(), j = 0;
    }
    Answer a = play(r, h[i]);
    CHECK(a.refused == alone[i].refused, k.name << ": " << h[i].name << (a.refused ? " is refused beside " : " is not refused beside ") << k2.name);
    if (!a.refused) same(a.f, alone[i].f, k.name + " " + h[i].name + " beside " + k2.name);
    if (!a.refused && h[i].kind == Op::OUT) ++good;
  }
  g.nontrivial(good >= 2 && between >= 3);
}
