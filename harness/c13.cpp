// C13: an entity (or a graph of entities) with a history answers as a new one with the same inputs.
#include "rigs.hpp"

static void history(pbt::Gen &g, const Kind &k, int rounds) {
  std::vector<int> c = {(int)g.draw(4), (int)g.draw(4)};
  Dims d = {k.nmin, 1, 6};
  auto dims = [&]() { d.n = k.nmin + (int)g.draw(3), d.m = (int)g.size(1, 4); };
  dims();
  d.q = 6 + c[0] % 3;
  std::vector<std::unique_ptr<Source>> src;
  Rig r;
  k.build(r, c);
  std::vector<Slot> in, out;
  std::vector<std::string> shape;
  slots(r, k, in, shape, out);
  g.os() << k.name << " " << c[0] << c[1] << ": " << in.size() << " inputs, " << out.size() << " outputs\n";
  g.label(k.name);
  auto sig = [](Rig &x, const Slot &s) -> Base & { return (*x.e[s.ent])->getSignal(s.sig); };
  for (size_t i = 0; i < in.size(); ++i) {
    src.push_back(sourceFor(sig(r, in[i]), shape[i]));
    src[i]->connect(sig(r, in[i]), (int)g.draw(3));
  }
  int time = 0, changes = 0;
  for (int round = 0; round < rounds; ++round) {
    bool all = round == 0 || g.chance(1, 6);
    if (all) dims();
    for (size_t i = 0; i < in.size(); ++i)
      if (all || g.chance(1, 3)) {
        src[i]->redraw(g, d), src[i]->changed(), ++changes;
        g.os() << in[i].ent << "." << in[i].sig << " ";
      }
    time += g.chance(1, 4) ? (int)g.size(2, 9) : 1;
    Rig fresh;
    k.build(fresh, c);
    for (size_t i = 0; i < in.size(); ++i) src[i]->give(sig(fresh, in[i]));
    // some outputs, in some order, some of them twice
    for (int j = 0, n = (int)g.size(1, out.size() + 2); j < n; ++j) {
      const Slot &o = out[g.draw(out.size())];
      Flat a, b;
      std::string ea, eb;
      try { a = readAny(sig(r, o), time); } catch (const std::exception &x) { ea = x.what(); }
      try { b = readAny(sig(fresh, o), time); } catch (const std::exception &x) { eb = x.what(); }
      g.os() << "-> " << o.ent << "." << o.sig << " at " << time << "\n";
      CHECK(ea.empty() == eb.empty(), k.name << ": " << o.sig << " at " << time << (ea.empty() ? " is read, but a new one refuses: " + eb : " is refused, but a new one reads it: " + ea));
      if (ea.size()) {
        g.label("refused: " + k.name);
        return;
      }
      same(a, b, k.name + " " + (*r.e[o.ent])->getClassName() + "." + o.sig + " after a history");
      same(readAny(sig(r, o), time), a, k.name + " " + o.sig + " read again at the same time");
      g.nontrivial(changes > (int)in.size() + 2);
    }
  }
}
PROPW(entity, 4) {
  static const std::vector<Kind> ks = kinds();
  history(g, g.pick(ks), (int)g.size(2, 8));
}

/* ---------------------------------------------------------- random graphs */
struct Op {
  const char *cls, *out, *in[2];
  const char *ins, outType;  // V M H D T
};
static const Op OPS[] = {{"Add_of_vector", "sout", {"sin0", "sin1"}, "VV", 'V'}, {"Substract_of_vector", "sout", {"sin1", "sin2"}, "VV", 'V'},
                         {"Multiply_double_vector", "sout", {"sin1", "sin2"}, "DV", 'V'}, {"Multiply_matrix_vector", "sout", {"sin1", "sin2"}, "MV", 'V'},
                         {"Multiply_matrixTwist_vector", "sout", {"sin1", "sin2"}, "TV", 'V'}, {"MatrixHomoToPoseUTheta", "sout", {"sin", 0}, "H", 'V'},
                         {"MatrixHomoToPoseRollPitchYaw", "sout", {"sin", 0}, "H", 'V'}, {"Norm_of_vector", "sout", {"sin", 0}, "V", 'D'},
                         {"Component_of_vector", "sout", {"sin", 0}, "V", 'D'}, {"Add_of_double", "sout", {"sin0", "sin1"}, "DD", 'D'},
                         {"Substract_of_double", "sout", {"sin1", "sin2"}, "DD", 'D'}, {"GainAdaptive", "gain", {"error", 0}, "V", 'D'},
                         {"GainHyperbolic", "gain", {"error", 0}, "V", 'D'}, {"MatrixDiagonal", "sout", {"sin", 0}, "V", 'M'},
                         {"MatrixTranspose", "sout", {"sin", 0}, "M", 'M'}, {"Add_of_matrix", "sout", {"sin0", "sin1"}, "MM", 'M'},
                         {"Substract_of_matrix", "sout", {"sin1", "sin2"}, "MM", 'M'}, {"WeightAdd_of_matrix", "sout", {"sin1", "sin2"}, "MM", 'M'},
                         {"PoseUThetaToMatrixHomo", "sout", {"sin", 0}, "V", 'H'}, {"Multiply_of_matrixHomo", "sout", {"sin0", "sin1"}, "HH", 'H'},
                         {"Inverse_of_matrixHomo", "sout", {"sin", 0}, "H", 'H'}, {"HomoToTwist", "sout", {"sin", 0}, "H", 'T'},
                         {"Multiply_of_matrixtwist", "sout", {"sin0", "sin1"}, "TT", 'T'}, {"OpPointModifier", "position", {"positionIN", 0}, "H", 'H'},
                         {"OpPointModifier", "jacobian", {"jacobianIN", "positionIN"}, "MH", 'M'}, {"FeatureGeneric", "error", {"errorIN", 0}, "V", 'V'},
                         {"FeatureGeneric", "jacobian", {"jacobianIN", "errorIN"}, "MV", 'M'}, {"ControlGR", "control", {"matrixA", "acceleration"}, "MV", 'V'}};
struct Node {
  int op;       // -1: a source of this type
  char type;
  int from[2];
};
template <class T>
static Base *src(std::vector<std::unique_ptr<Source>> &all, const char *shape) {
  SourceOf<T> *s = new SourceOf<T>(shape);
  all.emplace_back(s);
  return &s->fun;
}
struct Built {
  std::vector<std::unique_ptr<Ent>> e;
  std::vector<Base *> out;
};
static void build(const std::vector<Node> &ns, Built &b, const std::vector<Base *> &sources) {
  size_t s = 0;
  for (auto &n : ns) {
    if (n.op < 0) {
      b.out.push_back(sources[s++]);
      continue;
    }
    const Op &o = OPS[n.op];
    b.e.emplace_back(new Ent(o.cls));
    dg::Entity &x = **b.e.back();
    if (std::string(o.cls) == "FeatureGeneric") dynamic_cast<dg::Signal<Flags, int> &>(x.getSignal("selec")) = Flags(true);
    if (std::string(o.cls) == "Component_of_vector") x.shimCall("setIndex", {Value(2)});
    if (std::string(o.cls) == "ControlGR") dynamic_cast<dg::Signal<Vec, int> &>(x.getSignal("gravity")) = Vec(Vec::Ones(6));
    for (int i = 0; i < 2 && o.in[i]; ++i) x.getSignal(o.in[i]).plug(b.out[(size_t)n.from[i]]);
    b.out.push_back(&x.getSignal(o.out));
  }
}
PROPW(graph, 2) {
  std::vector<Node> ns;
  Dims d = {6, 6, 6};
  std::vector<std::unique_ptr<Source>> sa, sb;
  std::vector<Base *> live, still;
  auto source = [&](char t) {
    ns.push_back({-1, t, {0, 0}});
    int fl = (int)g.draw(2);
#define MK(T, SH)                                        \
  {                                                      \
    SourceOf<T> *a = new SourceOf<T>(SH), *b = new SourceOf<T>(SH); \
    sa.emplace_back(a), sb.emplace_back(b);              \
    live.push_back(fl ? (Base *)&a->set : (Base *)&a->fun); \
    still.push_back(&b->set);                            \
  }
    if (t == 'V') MK(Vec, "6") else if (t == 'M') MK(Mat, "6,6") else if (t == 'H') MK(Homo, "") else if (t == 'T') MK(MatrixTwist, "") else MK(double, "")
    return (int)ns.size() - 1;
  };
  std::string types = "VMHTD";
  for (char t : types) source(t);
  if (g.flip()) source('V');
  for (int i = 0, n = (int)g.size(2, 14); i < n; ++i) {
    Node x;
    x.op = (int)g.draw(sizeof OPS / sizeof *OPS);
    const Op &o = OPS[x.op];
    x.type = o.outType;
    x.from[0] = x.from[1] = 0;
    for (int j = 0; j < 2 && o.in[j]; ++j) {
      std::vector<int> c;
      for (int q = 0; q < (int)ns.size(); ++q)
        if (ns[(size_t)q].type == o.ins[j]) c.push_back(q), c.insert(c.end(), (size_t)(ns[(size_t)q].op >= 0 ? 2 : 0), q);
      x.from[j] = g.pick(c);
    }
    ns.push_back(x);
    g.os() << ns.size() - 1 << "=" << o.cls << "." << o.out << "(" << x.from[0] << (o.in[1] ? "," + std::to_string(x.from[1]) : "") << ") ";
  }
  Built b;
  build(ns, b, live);
  int time = 0, changes = 0, reads = 0;
  for (int round = 0, n = (int)g.size(2, 8); round < n; ++round) {
    for (size_t i = 0; i < sa.size(); ++i)
      if (round == 0 || g.chance(1, 3)) {
        sa[i]->redraw(g, d), sa[i]->changed(), ++changes;
        g.os() << "s" << i << " ";
      }
    time += (int)g.size(1, 3);
    // a new graph, fed with constants
    Built f;
    build(ns, f, still);
    for (size_t i = 0; i < sa.size(); ++i) sa[i]->give(*still[i]);
    for (int j = 0, m = (int)g.size(1, 4); j < m; ++j) {
      size_t o = ns.size() - 1 - g.draw(g.flip() ? 3 : ns.size());
      g.os() << "-> " << o << " at " << time << "\n";
      Flat a = readAny(*b.out[o], time), c = readAny(*f.out[o], time);
      same(a, c, std::string("node ") + std::to_string(o) + (ns[o].op < 0 ? " source" : std::string(" ") + OPS[ns[o].op].cls));
      same(readAny(*b.out[o], time), a, "node " + std::to_string(o) + " read again");
      ++reads;
    }
  }
  g.nontrivial(changes > (int)sa.size() && ns.size() > sa.size() + 3 && reads > 3);
}
