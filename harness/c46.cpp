// C46: text readers on arbitrary bytes.
#define VERIF_WITH_FLAGS
#include <fstream>
#include <regex>
#include <sot/core/contiifstream.hh>
#include <sot/core/flags.hh>
#include <sot/core/joint-trajectory-entity.hh>
#include <sot/core/multi-bound.hh>
#include <sot/core/robot-utils.hh>
#include "ent.hpp"
using namespace dynamicgraph::sot;
using dynamicgraph::command::Value;
typedef std::vector<std::string> Words;

// bytes: a valid text edited by tokens and ranges, words of the language in any order, or noise
static std::string genBytes(pbt::Gen &g, const Words &words, const std::string &valid, bool *broken) {
  static const Words odd = {"", "\n", "\r\n", " ", "\t", std::string(1, '\0'), "\xff", "\xc3\xa9", "--", "(", ")", "[", "]", ",", "-", "+", ".", "e", "1e", "nan", "inf",
                            "0x1p3", "1e999", "-1e999", "4294967295", "4294967296", "18446744073709551616", "99999999999", "2000000000", "-1", "%s%n", "\\", "\"", "A"};
  auto word = [&]() { return g.flip() ? g.pick(words) : g.pick(odd); };
  std::string s;
  *broken = true;
  switch (g.draw(8)) {
    case 0: {
      for (int i = 0, n = (int)g.size(0, 40); i < n; ++i) s += (char)g.draw(256);
      return s;
    }
    case 1: {
      for (int i = 0, n = (int)g.size(0, 30); i < n; ++i) s += word();
      return s;
    }
    case 2: *broken = false; return valid;
    case 3: return valid.substr(0, g.draw(valid.size() + 1));
    default: {
      s = valid;
      for (int i = 0, n = (int)g.size(1, 4); i < n; ++i) {
        size_t at = g.draw(s.size() + 1), len = std::min<size_t>(g.draw(12), s.size() - at);
        switch (g.draw(6)) {
          case 0: s.erase(at, len); break;
          case 1: s.insert(at, word()); break;
          case 2: s.replace(at, len, word()); break;
          case 3: s.insert(g.draw(s.size() + 1), s.substr(at, len)); break;
          case 4: if (at < s.size()) s[at] = (char)g.draw(256); break;
          default: {
            std::string w = word(), l;
            for (int k = 0, m = g.pick({3, 40, 400, 1500}); k < m; ++k) l += w;
            s.insert(at, l);
          }
        }
      }
      return s;
    }
  }
}
static std::string genNum(pbt::Gen &g) {
  std::ostringstream o;
  switch (g.draw(3)) {
    case 0: o << g.integer(-20, 20); break;
    case 1: o << g.real(-50, 50); break;
    default: o << std::scientific << g.real(-9, 9);
  }
  return o.str();
}
static std::string show(const std::string &s) {
  std::ostringstream o;
  for (unsigned char c : s.substr(0, 160))
    if (c >= 32 && c < 127) o << c; else o << "\\x" << std::hex << (int)c << std::dec;
  if (s.size() > 160) o << "... (" << s.size() << " bytes)";
  return o.str();
}
// what operator>>(double) makes of the beginning of a text; false: no number
static bool number(const std::string &s, size_t &pos, double &v) {
  std::istringstream is(s.substr(pos));
  if (!(is >> v)) return false;
  is.clear();
  pos += (size_t)is.tellg();
  return true;
}
struct RefBound {
  bool single, hasInf, hasSup;
  double a, b;
};
// the notation of the documentation: x, or (x,y) where x or y may be --
static bool refBound(const std::string &s, size_t &pos, RefBound &r) {
  if (pos >= s.size()) return false;
  if (s[pos] != '(') {
    r.single = true;
    return number(s, pos, r.a);
  }
  r.single = false;
  ++pos;
  auto one = [&](bool &has, double &v) {
    has = s.compare(pos, 2, "--") != 0;
    if (!has) pos += 2;
    return !has || number(s, pos, v);
  };
  if (!one(r.hasInf, r.a) || s.compare(pos, 1, ",")) return false;
  ++pos;
  if (!one(r.hasSup, r.b) || s.compare(pos, 1, ")")) return false;
  ++pos;
  return true;
}
static void sameBound(const MultiBound &m, const RefBound &r, const std::string &t) {
  CHECK((m.getMode() == MultiBound::MODE_SINGLE) == r.single, "another kind of bound is read from \"" << show(t) << "\"");
  if (r.single) {
    CHECK(m.getSingleBound() == r.a, m.getSingleBound() << " is read from \"" << show(t) << "\"");
    return;
  }
  CHECK(m.getDoubleBoundSetup(MultiBound::BOUND_INF) == r.hasInf && m.getDoubleBoundSetup(MultiBound::BOUND_SUP) == r.hasSup, "other sides are read from \"" << show(t) << "\"");
  if (r.hasInf) CHECK(m.getDoubleBound(MultiBound::BOUND_INF) == r.a, m.getDoubleBound(MultiBound::BOUND_INF) << " is the lower side read from \"" << show(t) << "\"");
  if (r.hasSup) CHECK(m.getDoubleBound(MultiBound::BOUND_SUP) == r.b, m.getDoubleBound(MultiBound::BOUND_SUP) << " is the upper side read from \"" << show(t) << "\"");
}
static std::string boundText(pbt::Gen &g) {
  if (!g.draw(3)) return genNum(g);
  return "(" + (g.draw(3) ? genNum(g) : "--") + "," + (g.draw(3) ? genNum(g) : "--") + ")";
}
// run the reader: 0 rejected, 1 read
template <class F>
static bool accepted(const F &f) {
  try {
    return f();
  } catch (const pbt::Failure &) {
    throw;
  } catch (const pbt::Discard &) {
    throw;
  } catch (const std::exception &) {
    return false;
  }
}
struct TmpFile {
  std::string f;
  TmpFile() : f(pbt::scratch() + "/c46." + std::to_string(getpid())) {}
  void write(const std::string &s, bool app) { std::ofstream(f, app ? std::ios::binary | std::ios::app : std::ios::binary | std::ios::trunc) << s; }
  ~TmpFile() { unlink(f.c_str()); }
};

PROP(flags) {
  bool broken, expected = true;
  std::string t = genBytes(g, {"0", "1", "00", "111", "01 10"}, g.str("01 ", 0, 40), &broken);
  std::vector<bool> bits;
  for (char c : t) {
    if (c == '0' || c == '1') bits.push_back(c == '1');
    else if (c != ' ') expected = false;
  }
  g.os() << show(t);
  for (int way = 0; way < 2; ++way) {
    Flags fl(true);
    if (way && t.find('\0') != std::string::npos) break;
    bool ok = accepted([&]() {
      if (way) {
        fl = Flags(t.c_str());
        return true;
      }
      std::istringstream is(t);
      is >> fl;
      return true;
    });
    CHECK(ok == expected, "\"" << show(t) << "\" is " << (ok ? "read" : "refused"));
    if (!ok) continue;
    for (size_t i = 0; i < bits.size() + 3; ++i) CHECK(fl((int)i) == (i < bits.size() && bits[i]), "bit " << i << " read from \"" << show(t) << "\" is " << fl((int)i));
  }
  g.nontrivial(broken && t.size() > 2);
}
PROPW(bound, 2) {
  bool broken;
  std::string t = genBytes(g, {"(", ",", ")", "--", "1", "2.5", "-3e2", "(1,2)"}, boundText(g), &broken);
  g.os() << show(t);
  std::istringstream is(t);
  MultiBound m(7.25);
  size_t pos = 0;
  RefBound r;
  bool expected = refBound(t, pos, r);
  bool ok = accepted([&]() { return !(is >> m).fail(); });
  CHECK(!ok || expected, "\"" << show(t) << "\" is read");
  if (ok) sameBound(m, r, t);
  if (!broken) CHECK(ok, "\"" << show(t) << "\" is refused");
  g.nontrivial(broken && t.size() > 2);
}
PROPW(bounds, 2) {
  bool broken;
  int n = (int)g.size(0, 5);
  std::string v = "[" + std::to_string(n) + "](";
  for (int i = 0; i < n; ++i) v += (i ? "," : "") + boundText(g);
  v += ")";
  std::string t = genBytes(g, {"[", "](", ")", ",", "(", "--", "1", "3", "(1,--)", "[2](1,2)"}, v, &broken);
  g.os() << show(t);
  std::istringstream is(t);
  VectorMultiBound b;
  bool ok = accepted([&]() { return !(is >> b).fail(); });
  if (!broken) CHECK(ok && (int)b.size() == n, "\"" << show(t) << "\" is refused");
  if (ok) {
    size_t pos = 0;
    auto need = [&](char c) {
      CHECK(pos < t.size() && t[pos] == c, "\"" << show(t) << "\" is read in spite of its missing " << c);
      ++pos;
    };
    need('[');
    size_t digits = t.find(']');
    CHECK(digits != std::string::npos, "\"" << show(t) << "\" is read without ]");
    pos = digits;
    need(']'), need('(');
    for (size_t i = 0; i < b.size(); ++i) {
      RefBound r;
      if (i) need(',');
      CHECK(refBound(t, pos, r), "\"" << show(t) << "\" is read, " << b.size() << " bounds");
      sameBound(b[i], r, t);
    }
    need(')');
  }
  CHECK(b.size() <= t.size(), b.size() << " bounds are left by \"" << show(t) << "\"");
  g.nontrivial(broken && t.size() > 4);
}
static std::string trajText(pbt::Gen &g) {
  std::ostringstream o;
  o << "(" << g.draw(99) << ",(" << g.draw(99) << ".0," << g.draw(99) << ".0)," << g.pick<std::string>({"", "f", "frame_1"}) << "),(";
  int n = (int)g.size(1, 6);
  for (int i = 0; i < n; ++i) o << (i ? "," : "") << "j" << i;
  o << "),(";
  for (int i = 0, k = (int)g.size(0, 3); i < k; ++i) {
    o << (i ? ",(" : "(");
    for (int l = 0; l < 4; ++l) {
      o << (l ? ",(" : "(");
      for (int j = 0, w = g.flip() ? n : (int)g.size(0, 9); j < w; ++j) o << (j ? "," : "") << std::fixed << g.real(-5, 5);
      o << ")";
    }
    o << ")";
  }
  o << ")";
  return o.str();
}
PROPW(trajectory, 3) {
  Trajectory t;
  std::unique_ptr<Ent> e;
  if (g.flip()) e.reset(new Ent("SotJointTrajectoryEntity"));
  int time = 1;
  for (int k = 0, n = (int)g.size(1, 3); k < n; ++k) {
    bool broken;
    std::string s = genBytes(g, {"(", ")", ",", "),(", "(1,(2.0,3.0),f),(", "j1", "1.5", "-0.25", ",(", "),", "()", "((1.0),(),(),())"}, trajText(g), &broken);
    g.os() << show(s) << "\n";
    if (e) {
      accepted([&]() {
        e->call("initTraj", {Value(s)});
        return true;
      });
      for (int i = 0, m = (int)g.size(0, 3); i < m; ++i, ++time)
        accepted([&]() {
          e->out<Vec>("position", time);
          e->out<Homo>("waist", time);
          e->out<unsigned>("seqId", time);
          return true;
        });
    } else {
      std::istringstream is(s);
      accepted([&]() { return t.deserialize(is) == 0; });
      size_t total = t.joint_names_.size();
      for (auto &j : t.joint_names_) CHECK(s.find(j) != std::string::npos, "joint \"" << show(j) << "\" comes from \"" << show(s) << "\"");
      for (auto &p : t.points_) total += 1 + p.positions_.size() + p.velocities_.size() + p.accelerations_.size() + p.efforts_.size();
      CHECK(total <= s.size(), total << " names, points and values come from \"" << show(s) << "\"");
      std::ostringstream o;
      t.display(o);
    }
    g.nontrivial(broken && s.size() > 10);
  }
}
PROP(replay) {
  static TmpFile f;
  Ent e("Reader");
  std::vector<std::vector<double>> rows;
  for (int k = 0, n = (int)g.size(1, 2); k < n; ++k) {
    std::string v;
    bool broken;
    for (int i = 0, m = (int)g.size(0, 5); i < m; ++i) {
      for (int j = 0, w = (int)g.size(0, 6); j < w; ++j) v += (j ? " " : "") + genNum(g);
      v += "\n";
    }
    std::string t = genBytes(g, {"1", " ", "\n", "2.5", "-1e3", "# x", "\t"}, v, &broken);
    g.os() << show(t) << "\n";
    f.write(t, false);
    std::istringstream lines(t);
    std::string l;
    while (std::getline(lines, l)) {
      std::vector<double> r;
      size_t pos = 0;
      double x;
      while (number(l, pos, x)) r.push_back(x);
      if (!r.empty()) rows.push_back(r);
    }
    accepted([&]() {
      e.call("load", {Value(f.f)});
      return true;
    });
    g.nontrivial(broken && t.size() > 4);
  }
  e.call("resize", {Value((int)g.size(0, 4)), Value((int)g.size(0, 4))});
  e.in<Flags>("selec", Flags(true));
  for (int t = 1, n = (int)rows.size() + 2; t < n && t < 400; ++t) {
    Vec v = e.out<Vec>("vector", t);
    std::vector<double> none, &r = rows.empty() ? none : rows[std::min<size_t>((size_t)t, rows.size()) - 1];
    CHECK(v.size() == (int)r.size(), "row " << t << " has " << v.size() << " values instead of " << r.size());
    for (int i = 0; i < v.size(); ++i) CHECK(v(i) == r[(size_t)i] || (v(i) != v(i) && r[(size_t)i] != r[(size_t)i]), "row " << t << " value " << i << " is " << v(i) << " instead of " << r[(size_t)i]);
    e.out<Mat>("matrix", t);
  }
}
PROP(appended) {
  static TmpFile f;
  f.write("", false);
  Contiifstream c(f.f);
  c.loop();
  std::string all;
  Words got;
  for (int k = 0, n = (int)g.size(1, 4); k < n; ++k) {
    bool broken;
    std::string t = genBytes(g, {"\n", "abc", "\n\n", "0123456789", " "}, g.str("ab\n ", 0, 60), &broken);
    g.os() << show(t) << "\n";
    f.write(t, true);
    all += t;
    c.loop();
    while (c.ready()) got.push_back(c.next());
    g.nontrivial(t.size() > 4 && all.find('\n') != std::string::npos);
  }
  Words expected;
  size_t pos = 0, end;
  while ((end = all.find('\n', pos)) != std::string::npos) expected.push_back(all.substr(pos, end - pos)), pos = end + 1;
  CHECK(got.size() == expected.size(), got.size() << " lines instead of " << expected.size());
  for (size_t i = 0; i < got.size(); ++i) CHECK(got[i] == expected[i], "line " << i << " is \"" << show(got[i]) << "\" instead of \"" << show(expected[i]) << "\"");
}
PROP(robot) {
  bool broken;
  std::string v = "<robot name=\"r\">";
  Words expected;
  for (int i = 0, n = (int)g.size(0, 4); i < n; ++i) {
    std::string j = "j" + std::to_string(i);
    v += "<joint name=\"" + j + "\" type=\"revolute\">";
    if (g.flip()) v += "<mimic joint=\"k\"/>", expected.push_back(j);
    v += "<axis xyz=\"0 0 1\"/></joint>";
  }
  v += "</robot>";
  std::string t = genBytes(g, {"<", ">", "/>", "</joint>", "<joint name=\"a\">", "<mimic/>", "name=", "\"", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&#x110000;", "&#0;", "&lt", "<?xml", "?>", "<!DOCTYPE a [", "\xef\xbb\xbf"}, v, &broken);
  g.os() << show(t);
  Words got;
  bool ok = accepted([&]() {
    ExtractJointMimics x(t);
    got = x.get_mimic_joints();
    return true;
  });
  if (!broken) CHECK(ok && got == expected, got.size() << " mimic joints instead of " << expected.size());
  CHECK(got.size() <= t.size(), got.size() << " mimic joints");
  g.nontrivial(broken && t.size() > 10);
}
