// C08: MultiBound against an optional/pair model.
#include <sot/core/multi-bound.hh>
#include "pbt.hpp"
using namespace dynamicgraph::sot;
typedef MultiBound MB;

struct Model {
  bool dbl = false;
  double s = 0, inf = 0, sup = 0;
  bool hi = false, hs = false;
};
static std::string show(const Model &m) {
  std::ostringstream o;
  o.precision(17);
  if (!m.dbl) o << m.s;
  else {
    o << "(";
    if (m.hi) o << m.inf; else o << "--";
    o << ",";
    if (m.hs) o << m.sup; else o << "--";
    o << ")";
  }
  return o.str();
}
template <class F>
static bool throwsBound(F f) {
  try {
    f();
  } catch (ExceptionTask &e) {
    CHECK(e.getCode() == ExceptionTask::BOUND_TYPE, "code " << e.getCode());
    return true;
  }
  return false;
}
static void same(const MB &b, const Model &m, const char *what) {
  CHECK(b.getMode() == (m.dbl ? MB::MODE_DOUBLE : MB::MODE_SINGLE), what << ": mode, expected " << show(m));
  double v = 0;
  bool t = throwsBound([&] { v = b.getSingleBound(); });
  CHECK(t == m.dbl, what << ": getSingleBound " << (t ? "threw" : "did not throw") << " on " << show(m));
  if (!t) CHECK(v == m.s, what << ": single " << v << " expected " << m.s);
  for (int k = 0; k < 2; ++k) {
    MB::SupInfType ty = k ? MB::BOUND_SUP : MB::BOUND_INF;
    bool has = m.dbl && (k ? m.hs : m.hi);
    t = throwsBound([&] { v = b.getDoubleBound(ty); });
    CHECK(t == !has, what << ": getDoubleBound " << (k ? "sup" : "inf") << " on " << show(m));
    if (!t) CHECK(v == (k ? m.sup : m.inf), what << ": bound " << v << " expected " << show(m));
    bool setup = false;
    t = throwsBound([&] { setup = b.getDoubleBoundSetup(ty); });
    CHECK(t == !m.dbl, what << ": getDoubleBoundSetup on " << show(m));
    if (!t) CHECK(setup == has, what << ": setup flag " << setup << " on " << show(m));
  }
}
static double value(pbt::Gen &g) {
  if (g.chance(1, 4)) return g.real(-1e6, 1e6);
  if (g.chance(1, 6)) return g.real(-1, 1) * g.pick({1e-300, 1e-9, 1e12, 1e300});
  return g.dyadic(-20, 20);
}
static MB gen(pbt::Gen &g, Model &m) {
  m = Model();
  switch (g.draw(4)) {
    case 0: m.s = value(g); return MB(m.s);
    case 1:
      m.dbl = m.hi = m.hs = true;
      m.inf = value(g);
      m.sup = value(g);
      return MB(m.inf, m.sup);
    case 2:
      m.dbl = m.hi = true;
      m.inf = value(g);
      return MB(m.inf, MB::BOUND_INF);
    default:
      m.dbl = m.hs = true;
      m.sup = value(g);
      return MB(m.sup, MB::BOUND_SUP);
  }
}
static void edit(pbt::Gen &g, MB &b, Model &m) {
  double v = value(g);
  bool sup = g.flip();
  switch (g.draw(3)) {
    case 0:
      LOG << " single=" << v;
      b.setSingleBound(v);
      m.dbl = false;
      m.s = v;
      break;
    case 1:
      LOG << (sup ? " sup=" : " inf=") << v;
      b.setDoubleBound(sup ? MB::BOUND_SUP : MB::BOUND_INF, v);
      if (!m.dbl) m.hi = m.hs = false;
      m.dbl = true;
      (sup ? m.hs : m.hi) = true;
      (sup ? m.sup : m.inf) = v;
      break;
    default:
      LOG << (sup ? " unset sup" : " unset inf");
      b.unsetDoubleBound(sup ? MB::BOUND_SUP : MB::BOUND_INF);
      if (!m.dbl) m.hi = m.hs = false;
      m.dbl = true;
      (sup ? m.hs : m.hi) = false;
  }
}
PROP(history) {
  Model m;
  MB b = gen(g, m);
  LOG << show(m);
  same(b, m, "constructed");
  size_t n = g.size(0, 12);
  int sw = 0;
  for (size_t k = 0; k < n; ++k) {
    bool d = m.dbl;
    edit(g, b, m);
    sw += d != m.dbl;
    same(b, m, "edited");
    if (g.chance(1, 3)) {
      MB c(b);
      same(c, m, "copy");
      Model mc = m;
      edit(g, c, mc);
      same(c, mc, "edited copy");
      same(b, m, "original of the copy");
      if (g.flip()) { b = c; m = mc; same(b, m, "assigned"); }
    }
  }
  g.nontrivial(sw >= 2);
}
PROP(round_trip) {
  size_t n = g.size(1, 5);
  std::vector<Model> ms;
  std::ostringstream os;
  os.precision(17);
  for (size_t i = 0; i < n; ++i) {
    Model m;
    MB b = gen(g, m);
    size_t e = g.size(0, 3);
    for (size_t k = 0; k < e; ++k) edit(g, b, m);
    std::ostringstream one;
    one.precision(17);
    one << b;
    CHECK(one.str() == show(m), "printed " << one.str() << " expected " << show(m));
    os << b << ";";
    ms.push_back(m);
  }
  LOG << os.str();
  std::istringstream is(os.str());
  Model mp;
  MB p = gen(g, mp);
  bool any = false;
  for (size_t i = 0; i < n; ++i) {
    is >> p;
    same(p, ms[i], "parsed");
    char c = 0;
    CHECK(is.get(c) && c == ';', "stream position after value " << i << ": next character <" << c << ">");
    any = any || ms[i].dbl;
  }
  g.nontrivial(any && n > 1);
}
PROP(vector_round_trip) {
  size_t nv = g.size(1, 3);
  std::ostringstream os;
  os.precision(17);
  std::vector<std::vector<Model>> all;
  bool half = false;
  for (size_t j = 0; j < nv; ++j) {
    size_t n = g.size(0, 6);
    VectorMultiBound v;
    std::vector<Model> ms;
    for (size_t i = 0; i < n; ++i) {
      Model m;
      v.push_back(gen(g, m));
      half = half || (m.dbl && !(m.hi && m.hs));
      if (g.chance(1, 4)) edit(g, v.back(), m);
      ms.push_back(m);
    }
    all.push_back(ms);
    os << v << "|";
  }
  LOG << os.str();
  std::istringstream is(os.str());
  VectorMultiBound r;
  for (size_t j = 0; j < nv; ++j) {
    if (g.flip()) {  // a former content must not matter
      Model m;
      r.assign(g.size(0, 4), gen(g, m));
    }
    is >> r;
    CHECK(r.size() == all[j].size(), "size " << r.size() << " expected " << all[j].size());
    for (size_t i = 0; i < r.size(); ++i) same(r[i], all[j][i], "element");
    char c = 0;
    CHECK(is.get(c) && c == '|', "stream position after vector " << j << ": next character <" << c << ">");
  }
  g.nontrivial(half);
}
PROP(bad_text) {
  // a separator replaced by another character is reported as a parse error
  Model m;
  VectorMultiBound v;
  size_t n = g.size(1, 4);
  for (size_t i = 0; i < n; ++i) v.push_back(gen(g, m));
  std::ostringstream os;
  os << v;
  std::string s = os.str();
  std::vector<size_t> pos;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == ',' || s[i] == ')' || s[i] == '[' || s[i] == ']') pos.push_back(i);
  size_t p = g.pick(pos);
  s[p] = g.pick({';', '!', '{', '<'});
  LOG << s;
  bool th = false;
  try {
    std::istringstream is(s);
    VectorMultiBound r;
    is >> r;
  } catch (ExceptionTask &e) {
    CHECK(e.getCode() == ExceptionTask::PARSER_MULTI_BOUND, "code " << e.getCode());
    th = true;
  }
  CHECK(th, "accepted");
  g.nontrivial(n > 1);
}
