// C05: the trace mechanism.
static int g_mode = 0, g_tmode = 0;
#define VP_DEBUG
#define VP_DEBUG_MODE g_mode
#define VP_TEMPLATE_DEBUG_MODE g_tmode
#include <sot/core/debug.hh>
#include "pbt.hpp"
using namespace dynamicgraph::sot;

struct Msg {
  std::string fmt, s, text;
  int kind, i;
};
static std::string word(pbt::Gen &g, size_t maxLen) {
  static const std::string al = "abcXYZ 019<>_:./%-";
  size_t n = g.chance(1, 4) ? g.size(0, maxLen) : g.size(0, 10);
  std::string s;
  if (n > 30) {
    std::string u = g.str(al, 1, 5);
    while (s.size() < n) s += u;
    s.resize(n);
    return s;
  }
  for (size_t i = 0; i < n; ++i) s += al[g.draw(al.size())];
  return s;
}
static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    r += c;
    if (c == '%') r += '%';
  }
  return r;
}
static Msg genMsg(pbt::Gen &g) {
  Msg m;
  m.kind = (int)g.draw(4);
  m.s = word(g, 1500);
  m.i = (int)g.integer(-1000000, 1000000);
  std::string pre = word(g, 40);
  char b[32];
  snprintf(b, sizeof b, "%d", m.i);
  switch (m.kind) {
    case 0: m.fmt = esc(pre); m.text = pre; break;
    case 1: m.fmt = esc(pre) + "%s"; m.text = pre + m.s; break;
    case 2: m.fmt = esc(pre) + "%d"; m.text = pre + b; break;
    default: m.fmt = "%d" + esc(pre) + "[%s]"; m.text = b + pre + "[" + m.s + "]"; break;
  }
  return m;
}
// consume the formatted line at the head of s; any clean truncation keeping 500 characters is accepted
static bool eat(std::string &s, const std::string &text) {
  size_t e = s.find('\n');
  if (e == std::string::npos) return false;
  std::string l = s.substr(0, e);
  size_t keep = std::min<size_t>(text.size(), 500);
  if (l.size() < keep || l.size() > text.size() || l != text.substr(0, l.size())) return false;
  s.erase(0, e + 1);
  return true;
}
#define SEND(F, ...)                                                  \
  switch (m.kind) {                                                   \
    case 0: F(__VA_ARGS__ m.fmt.c_str()); break;                      \
    case 1: F(__VA_ARGS__ m.fmt.c_str(), m.s.c_str()); break;         \
    case 2: F(__VA_ARGS__ m.fmt.c_str(), m.i); break;                 \
    default: F(__VA_ARGS__ m.fmt.c_str(), m.i, m.s.c_str()); break;   \
  }
static void stream_history(pbt::Gen &g, int maxOps) {
  std::ostringstream out;
  DebugTrace d(out);
  d.traceLevel = (int)g.integer(-2, 6);
  d.traceLevelTemplate = (int)g.integer(-2, 6);
  std::string pending;
  int n = (int)g.steps(1, (size_t)maxOps), shown = 0, hidden = 0;
  for (int k = 0; k < n; ++k) {
    out.str("");
    std::string expectPre = pending;
    size_t op = g.draw(8);
    int level = (int)g.integer(-3, 8);
    Msg m = genMsg(g);
    std::string got;
    switch (op) {
      case 0: {
        LOG << " trace(" << level << "/" << d.traceLevel << ",<" << m.text.substr(0, 30) << ">)";
        SEND(d.trace, level,)
        got = out.str();
        pending = "";
        if (level <= d.traceLevel) { CHECK(eat(got, expectPre + m.text) || (got.compare(0, expectPre.size(), expectPre) == 0 && (got = got.substr(expectPre.size()), eat(got, m.text))), "level " << level << " <= " << d.traceLevel << " wrote <" << out.str() << "> for <" << expectPre << m.text << ">"); ++shown; }
        else ++hidden;
        CHECK(got.empty(), "extra output <" << got << "> (level " << level << ", trace level " << d.traceLevel << ")");
        break;
      }
      case 1: {
        LOG << " trace(<" << m.text.substr(0, 30) << ">)";
        SEND(d.trace,)
        got = out.str();
        pending = "";
        CHECK(got.compare(0, expectPre.size(), expectPre) == 0, "prefix lost: <" << got << ">");
        got = got.substr(expectPre.size());
        CHECK(eat(got, m.text) && got.empty(), "wrote <" << out.str() << "> for <" << m.text << ">");
        ++shown;
        break;
      }
      case 2: {
        LOG << " trace(" << level << "/" << d.traceLevel << ")";
        d.trace(level);
        pending = "";
        std::string e = level <= d.traceLevel ? expectPre : "";
        CHECK(out.str() == e, "wrote <" << out.str() << "> instead of <" << e << ">");
        break;
      }
      case 3: {
        LOG << " traceTemplate(" << level << "/" << d.traceLevelTemplate << ")";
        SEND(d.traceTemplate, level,)
        got = out.str();
        pending = "";
        if (level <= d.traceLevelTemplate) {
          CHECK(got.compare(0, expectPre.size(), expectPre) == 0, "prefix lost: <" << got << ">");
          got = got.substr(expectPre.size());
          CHECK(eat(got, m.text), "wrote <" << out.str() << "> for <" << m.text << ">");
          ++shown;
        } else ++hidden;
        CHECK(got.empty(), "extra output <" << got << ">");
        break;
      }
      case 4: {
        SEND(d.traceTemplate,)
        got = out.str();
        pending = "";
        CHECK(got.compare(0, expectPre.size(), expectPre) == 0, "prefix lost: <" << got << ">");
        got = got.substr(expectPre.size());
        CHECK(eat(got, m.text) && got.empty(), "wrote <" << out.str() << "> for <" << m.text << ">");
        break;
      }
      case 5: {
        std::string p = word(g, 700);
        std::string keep;
        for (char c : p) if (c != '\n') keep += c;
        LOG << " buffer<<" << keep.substr(0, 20);
        d.pre(d.tmpbuffer << keep);
        pending += keep;
        CHECK(out.str().empty(), "buffering wrote " << out.str());
        break;
      }
      case 6: {
        int lv = (int)g.integer(-2, 6);
        LOG << " level=" << lv;
        d.pre(d.tmpbuffer, lv);
        CHECK(d.traceLevel == lv && out.str().empty(), "pre(.., level)");
        break;
      }
      case 7:
        d.traceLevelTemplate = (int)g.integer(-2, 6);
        break;
    }
  }
  g.nontrivial(shown > 0 && hidden > 0);
}
PROP(stream) { stream_history(g, 12); }
PROP(stream_long) { stream_history(g, 50); }

// macros and files
static std::string slurp(const std::string &f) {
  std::ifstream i(f.c_str());
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
struct Dir {
  std::string d;
  Dir() {
    std::string tmpl = pbt::scratch() + "/c05XXXXXX";
    char *t = &tmpl[0];
    d = mkdtemp(t);
  }
  ~Dir() {
    for (int i = 0; i < 4; ++i) unlink((d + "/t" + std::to_string(i)).c_str());
    rmdir(d.c_str());
  }
};
// remove "<file>: <function>(#line) :" from the head of each expected line
static bool eatLine(std::string &s, const std::string &text, bool prefix, bool formatted) {
  if (prefix) {
    size_t p = s.find(") :");
    size_t h = s.find("(#");
    if (p == std::string::npos || h == std::string::npos || h > p || s.substr(0, h).find("prop_") == std::string::npos) return false;
    s.erase(0, p + 3);
  }
  if (formatted) return eat(s, text);
  if (s.compare(0, text.size(), text)) return false;
  s.erase(0, text.size());
  return true;
}
struct Exp { std::string text; bool prefix, formatted; };
PROP(files) {
  static Dir dir;
  std::string none = dir.d + "/nodir/x";
  std::map<std::string, std::vector<Exp> > E;
  std::string cur;  // current file, empty when closed
  DebugTrace::closeFile();
  for (int i = 0; i < 3; ++i) unlink((dir.d + "/t" + std::to_string(i)).c_str());
  int n = (int)g.steps(1, 25), opens = 0, written = 0, muted = 0;
  for (int k = 0; k < n; ++k) {
    g_mode = (int)g.integer(0, 20);
    g_tmode = (int)g.integer(0, 20);
    int lvl = (int)g.integer(0, 25);
    switch (g.weighted({4, 2, 1, 5, 3, 4, 3, 2, 3, 1})) {
      case 0: {
        std::string f = dir.d + "/t" + std::to_string(g.draw(3));
        LOG << " open(" << f.substr(f.size() - 2) << ")";
        DebugTrace::openFile(f.c_str());
        cur = f;
        E[f].clear();
        ++opens;
        break;
      }
      case 1:
        LOG << " close";
        DebugTrace::closeFile();
        cur = "";
        break;
      case 2:
        LOG << " open(bad path)";
        DebugTrace::openFile(none.c_str());
        cur = "";
        break;
      case 3: {
        std::string w = word(g, 900);
        LOG << " sotDEBUG(" << lvl << "/" << g_mode << ")";
        CHECK(sotDEBUG_ENABLE(lvl) == (lvl <= g_mode), "sotDEBUG_ENABLE");
        sotDEBUG(lvl) << w << std::endl;
        if (lvl <= g_mode && cur.size()) { E[cur].push_back(Exp{w + "\n", true, false}); ++written; } else ++muted;
        break;
      }
      case 4: {
        std::string w = word(g, 900);
        sotDEBUGMUTE(lvl) << w << std::endl;
        if (lvl <= g_mode && cur.size()) { E[cur].push_back(Exp{w + "\n", false, false}); ++written; } else ++muted;
        break;
      }
      case 5: {
        Msg m = genMsg(g);
        LOG << " sotDEBUGF(" << lvl << "/" << g_mode << ",<" << m.text.substr(0, 20) << ">)";
        SEND(sotDEBUGF, lvl,)
        if (lvl <= g_mode && cur.size()) { E[cur].push_back(Exp{m.text, true, true}); ++written; } else ++muted;
        break;
      }
      case 6: {
        std::string w = word(g, 100);
        CHECK(sotTDEBUG_ENABLE(lvl) == (lvl <= g_tmode), "sotTDEBUG_ENABLE");
        sotTDEBUG(lvl) << w << std::endl;
        if (lvl <= g_tmode && cur.size()) { E[cur].push_back(Exp{w + "\n", true, false}); ++written; } else ++muted;
        break;
      }
      case 7: {
        Msg m = genMsg(g);
        SEND(sotTDEBUGF, lvl,)
        if (lvl <= g_tmode && cur.size()) { E[cur].push_back(Exp{m.text, true, true}); ++written; } else ++muted;
        break;
      }
      case 8: {
        std::string w = word(g, 100);
        sotERROR << w << std::endl;
        if (cur.size()) { E[cur].push_back(Exp{w + "\n", true, false}); ++written; } else ++muted;
        break;
      }
      case 9:
        // a write error (full device) must not prevent later traces
        LOG << " open(full device), write";
        DebugTrace::openFile("/dev/full");
        g_mode = 10;
        sotDEBUG(1) << "lost" << std::endl;
        cur = "/dev/full";
        E[cur].clear();
        if (g.flip()) { LOG << " close"; DebugTrace::closeFile(); cur = ""; }
        else cur = "";  // the stream is in an error state: nothing more is written until the next openFile
        break;
    }
  }
  DebugTrace::closeFile();
  for (auto &f : E) {
    if (f.first == "/dev/full") continue;
    std::string s = slurp(f.first), all = s;
    size_t i = 0;
    for (auto &e : f.second) {
      CHECK(eatLine(s, e.text, e.prefix, e.formatted), "message " << i << " <" << e.text.substr(0, 100) << "> not found where expected in " << f.first.substr(f.first.size() - 2) << ": <" << all.substr(0, 500) << ">");
      ++i;
    }
    CHECK(s.empty(), "unexpected text in " << f.first.substr(f.first.size() - 2) << ": <" << s << ">");
  }
  g.nontrivial(written > 0 && muted > 0 && opens > 0);
  if (opens > 1) g.label("several files");
}
