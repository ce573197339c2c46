// C37: file replay.
#include <unistd.h>
#include <iomanip>
#define VERIF_WITH_FLAGS
#include "ent.hpp"
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;
using dg::Vector;
using dg::Matrix;

struct TmpFile {
  std::string f;
  explicit TmpFile(const std::string &content) {
    std::string t = pbt::scratch() + "/c37XXXXXX";
    int fd = mkstemp(&t[0]);
    close(fd);
    f = t;
    std::ofstream(f, std::ios::binary) << content;
  }
  ~TmpFile() { unlink(f.c_str()); }
};
typedef std::vector<double> Row;

static std::string genNumber(pbt::Gen &g, double &v) {
  std::ostringstream o;
  switch (g.draw(6)) {
    case 0: v = (double)g.integer(-99, 99); o << (long)v; break;
    case 1: v = g.real(-100, 100); o << std::setprecision(17) << v; break;
    case 2: v = g.real(-1e6, 1e6); o << std::scientific << std::setprecision(16) << v; break;
    case 3: v = (double)g.integer(0, 9) * 0.5; o << '+' << v; break;
    case 4: v = (double)g.integer(0, 999) / 1000.; o << '.' << std::setw(3) << std::setfill('0') << (int)(v * 1000 + .5); break;
    default: v = g.real(-1, 1) * std::pow(10., (double)g.integer(-30, 30)); o << std::setprecision(17) << v;
  }
  v = strtod(o.str().c_str(), 0);
  return o.str();
}
static std::string genFile(pbt::Gen &g, std::vector<Row> &rows, bool &longLine) {
  std::string s;
  int cols = (int)g.size(1, 8);
  for (int i = 0, n = g.chance(1, 12) ? (int)g.integer(40, 300) : (int)g.size(0, 8); i < n; ++i) {
    std::string l;
    int kind = (int)g.draw(12);
    if (kind == 0) l = g.flip() ? "" : std::string((size_t)g.size(1, 5), ' ');
    else if (kind == 1) l = g.pick<std::string>({"# 1 2 3", "time x y", "\t", "-", ",1,2"});
    else {
      Row r;
      int c = g.draw(5) ? cols : (int)g.size(1, 12);
      if (kind == 2) {
        c = g.pick<int>({100, 60, 200, 250, 500});
        for (int k = 0; k < c; ++k) r.push_back((double)g.draw(k % 7 ? 2 : 1000));
        for (double v : r) l += std::to_string((int)v) + "   ";
      } else {
        if (g.chance(1, 5)) l += g.pick<std::string>({" ", "\t", "   "});
        for (int k = 0; k < c; ++k) {
          double v;
          if (k) l += g.pick<std::string>({" ", "\t", "  "});
          l += genNumber(g, v);
          r.push_back(v);
        }
        if (kind == 3) {  // exact length around the limits of a fixed buffer
          size_t want = (size_t)g.pick<int>({1022, 1023, 1024, 1025, 1026, 2047, 2048, 4096});
          double v;
          std::string last = " " + genNumber(g, v);
          if (l.size() + last.size() < want) l += std::string(want - l.size() - last.size(), ' ') + last, r.push_back(v);
        }
        if (kind == 4) l += g.pick<std::string>({" abc 5", " # 7", " ", "\r", " x"});
      }
      rows.push_back(r);
      if (l.size() >= 1023) longLine = true;
    }
    s += l;
    if (i + 1 < n || g.flip()) s += "\n";
  }
  return s;
}

PROP(replay) {
  Ent e("Reader");
  std::vector<Row> rows;
  Sel sel{{}, true};
  bool longLine = false, cur = false;
  size_t at = 0;
  int t = 0, nr = 0, nc = 0, moved = 0, held = 0;
  for (int k = 0, N = (int)g.steps(3, 30); k < N; ++k) {
    switch (k ? g.draw(14) : 0) {
      case 0: {
        size_t b4 = rows.size();
        TmpFile f(genFile(g, rows, longLine));
        e.call("load", {Value(f.f)});
        LOG << " load" << rows.size() - b4;
        break;
      }
      case 1:
        e.call("rewind");
        cur = false;
        LOG << " rewind";
        break;
      case 2:
        if (g.draw(3)) break;
        e.call("clear");
        rows.clear(), cur = false;
        LOG << " clear";
        break;
      case 3:
        sel = genSel(g, 12);
        e.in<dg::sot::Flags>("selec", sel.flags());
        LOG << " sel" << sel.flags();
        break;
      case 4:
        nr = (int)g.size(0, 4), nc = (int)g.size(0, 4);
        e.call("resize", {Value(nr), Value(nc)});
        LOG << " " << nr << "x" << nc;
        break;
      case 5:
        if (g.draw(2)) break;
        e.call("load", {Value(pbt::scratch() + "/missing")});  // nothing is added
        break;
      default: {
        t += (int)g.size(1, 3);
        if (!cur) at = 0, cur = true;
        else if (at + 1 < rows.size()) ++at, ++moved;
        else ++held;
        if (rows.empty()) cur = false;
        Row want;
        if (rows.size())
          for (size_t i = 0; i < rows[at].size(); ++i)
            if (sel(i)) want.push_back(rows[at][i]);
        LOG << " t" << t << ":" << at;
        for (int twice = 0, n = (int)g.size(1, 3); twice < n; ++twice) {
          if (g.flip()) {
            Vector v = e.out<Vector>("vector", t);
            NEARM(v, (Eigen::Map<Vector>(want.data(), (long)want.size())), 0);
          } else {
            Matrix m = e.out<Matrix>("matrix", t);
            if ((size_t)(nr * nc) <= want.size()) {
              CHECK(m.rows() == nr && m.cols() == nc, "matrix is " << m.rows() << "x" << m.cols() << " instead of " << nr << "x" << nc);
              for (int i = 0; i < nr; ++i)
                for (int j = 0; j < nc; ++j) CHECK(m(i, j) == want[(size_t)(i * nc + j)], "matrix coefficient " << i << "," << j << " is " << m(i, j));
            }
          }
        }
      }
    }
  }
  if (longLine) g.label("line over 1022 characters");
  g.nontrivial(moved > 1 && held > 0);
}
