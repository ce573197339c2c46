// C07: Flags as an infinite bit vector (finitely many explicit bits, then a constant tail).
#include <sot/core/flags.hh>
#include "pbt.hpp"
using namespace dynamicgraph::sot;

struct Model {
  std::vector<bool> b;
  bool tail = false;
  bool at(size_t i) const { return i < b.size() ? b[i] : tail; }
};
static std::string show(const Model &m) {
  std::string s;
  for (bool x : m.b) s += x ? '1' : '0';
  return s + (m.tail ? "+1.." : "+0..");
}
static void same(const Flags &f, const Model &m, const char *what) {
  for (size_t i = 0; i < m.b.size() + 40; ++i)
    CHECK(f((int)i) == m.at(i), what << ": index " << i << " is " << f((int)i) << ", model " << show(m));
  CHECK(f(1000000) == m.tail, what << ": far tail, model " << show(m));
  bool any = m.tail;
  for (bool x : m.b) any = any || x;
  CHECK(bool(f) == any, what << ": conversion to bool, model " << show(m));
  std::ostringstream os;
  os << f;
  std::string e;
  for (bool x : m.b) e += x ? '1' : '0';
  CHECK(os.str() == e, what << ": printed <" << os.str() << "> model " << show(m));
}
static std::string blanks(pbt::Gen &g, const std::string &s) {
  std::string r;
  for (char c : s) {
    while (g.chance(1, 5)) r += ' ';
    r += c;
  }
  while (g.chance(1, 5)) r += ' ';
  return r;
}
static void gen(pbt::Gen &g, Flags &f, Model &m) {
  m = Model();
  size_t n = g.chance(1, 6) ? g.size(0, 150) : g.size(0, 12);
  switch (g.draw(5)) {
    case 0: m.tail = g.flip(); f = Flags(m.tail); break;
    case 1: {
      std::string s = g.str("01", 0, n);
      for (char c : s) m.b.push_back(c == '1');
      f = Flags(blanks(g, s).c_str());
      break;
    }
    case 2: {
      for (size_t i = 0; i < n; ++i) m.b.push_back(g.flip());
      f = Flags(m.b);
      break;
    }
    case 3: {
      m.tail = g.flip();
      f = Flags(m.tail);
      for (size_t i = 0; i < n; ++i) {
        bool x = g.flip();
        f.add(x);
        m.b.push_back(x);
      }
      break;
    }
    default: {
      std::string s = g.str("01", 0, n);
      for (char c : s) m.b.push_back(c == '1');
      f = Flags(g.flip());
      std::istringstream is(blanks(g, s));
      is >> f;
    }
  }
}
PROP(history) {
  Flags f;
  Model m;
  same(f, m, "default");
  gen(g, f, m);
  LOG << show(m);
  same(f, m, "initial");
  size_t n = g.size(1, 15);
  bool mixed = false;
  for (size_t k = 0; k < n; ++k) {
    switch (g.draw(9)) {
      case 0: {
        bool b = g.flip();
        LOG << " add " << b;
        f.add(b);
        m.b.push_back(b);
        break;
      }
      case 1: {
        unsigned i = (unsigned)g.size(0, m.b.size() + 3);
        LOG << " set " << i;
        f.set(i);
        if (i < m.b.size()) m.b[i] = true;
        break;
      }
      case 2: {
        unsigned i = (unsigned)g.size(0, m.b.size() + 3);
        LOG << " unset " << i;
        f.unset(i);
        if (i < m.b.size()) m.b[i] = false;
        break;
      }
      case 3: {
        LOG << " !";
        Flags h = f;
        Flags r = !f;
        same(f, m, "operand of !");
        f = r;
        for (size_t i = 0; i < m.b.size(); ++i) m.b[i] = !m.b[i];
        m.tail = !m.tail;
        break;
      }
      case 4: {  // print then parse keeps the explicit bits, the tail becomes 0
        LOG << " reparse";
        std::ostringstream os;
        os << f;
        std::istringstream is(blanks(g, os.str()));
        is >> f;
        m.tail = false;
        break;
      }
      default: {
        Flags o;
        Model mo;
        gen(g, o, mo);
        bool isAnd = g.flip(), assign = g.flip();
        LOG << (isAnd ? " &" : " |") << (assign ? "= " : " ") << show(mo);
        mixed = mixed || (m.b.size() != mo.b.size());
        Model r;
        r.tail = isAnd ? m.tail && mo.tail : m.tail || mo.tail;
        for (size_t i = 0; i < std::max(m.b.size(), mo.b.size()); ++i)
          r.b.push_back(isAnd ? m.at(i) && mo.at(i) : m.at(i) || mo.at(i));
        if (assign) {
          if (isAnd) f &= o;
          else f |= o;
        } else {
          Flags h = isAnd ? (f & o) : (f | o);
          same(f, m, "left operand");
          f = h;
        }
        same(o, mo, "right operand");
        m = r;
      }
    }
    same(f, m, "after");
  }
  g.nontrivial(mixed);
}
// algebraic laws, independent of the model
PROP(laws) {
  Flags a, b, c;
  Model ma, mb, mc;
  gen(g, a, ma);
  gen(g, b, mb);
  gen(g, c, mc);
  LOG << show(ma) << " , " << show(mb) << " , " << show(mc);
  auto eq = [&](const Flags &x, const Flags &y, const char *w) {
    for (int i = 0; i < 400; ++i) CHECK(x(i) == y(i), w << " at " << i);
  };
  eq(a & b, b & a, "& commutes");
  eq(a | b, b | a, "| commutes");
  eq((a & b) & c, a & (b & c), "& associates");
  eq((a | b) | c, a | (b | c), "| associates");
  eq(a & (b | c), (a & b) | (a & c), "distribution");
  eq(!(a & b), (!a) | (!b), "De Morgan");
  eq(!!a, a, "double complement");
  eq(a & a, a, "idempotence");
  CHECK(!bool(a & (!a)), "a and not a");
  CHECK(bool(a | (!a)), "a or not a");
  Flags s(a);
  s &= s;
  eq(s, a, "self &=");
  s |= s;
  eq(s, a, "self |=");
  g.nontrivial(ma.b.size() != mb.b.size() && (ma.tail || mb.tail || mc.tail));
}
// text other than digits and blanks is refused
PROP(bad_text) {
  std::string s = g.str("01 ", 0, 10) + g.str("2,x-\n;ab", 1, 2) + g.str("01 ", 0, 5);
  LOG << "<" << s << ">";
  g.nontrivial(s.size() > 2);
  bool th = false;
  try {
    Flags f(s.c_str());
  } catch (const std::invalid_argument &) {
    th = true;
  }
  CHECK(th, "constructor accepted it");
  th = false;
  try {
    Flags f;
    std::istringstream is(s);
    is >> f;
  } catch (const std::invalid_argument &) {
    th = true;
  }
  CHECK(th, "operator>> accepted it");
}
