// C06: Contiifstream over append/poll interleavings.
#include <sot/core/contiifstream.hh>
#include "pbt.hpp"
using namespace dynamicgraph::sot;
struct TmpFile {
  std::string f;
  TmpFile() {
    std::string tmpl = pbt::scratch() + "/c06XXXXXX";
    char *t = &tmpl[0];
    int fd = mkstemp(t);
    close(fd);
    f = t;
  }
  ~TmpFile() { unlink(f.c_str()); }
};
static std::string genLine(pbt::Gen &g, int id) {
  size_t n = g.pick<size_t>({1, 0, 5, 12, 60, 254, 255, 256, 257, 510, 511, 512, 1023, 1024, 3000});
  std::string s = std::to_string(id) + ":";
  if (n == 0) return "";
  if (g.chance(1, 10)) return std::string(n, ' ');
  std::string u = g.str("abc xyz\t[]()0129,;\\\"", 1, 4);
  while (s.size() < n) s += u;
  s.resize(n);
  return s;
}
static void history(pbt::Gen &g, int maxOps, bool drainEach) {
  static TmpFile tf;
  { std::ofstream o(tf.f.c_str(), std::ios::trunc); }
  std::string content;           // everything written
  std::vector<std::string> expect;  // complete lines not delivered yet
  size_t scanned = 0;            // offset up to which complete lines were accounted
  bool first = true;
  Contiifstream c(tf.f);
  int n = (int)g.steps(2, (size_t)maxOps), delivered = 0, partialPolls = 0, id = 0;
  std::string pendingTail;  // not yet written part of a line
  auto append = [&](const std::string &s) {
    std::ofstream o(tf.f.c_str(), std::ios::app | std::ios::binary);
    o << s;
    o.close();
    content += s;
  };
  auto poll = [&]() {
    size_t before = expect.size();
    bool any = false;
    while (true) {
      size_t e = content.find('\n', scanned);
      if (e == std::string::npos) break;
      any = true;
      if (!first) expect.push_back(content.substr(scanned, e - scanned));
      scanned = e + 1;
    }
    if (scanned < content.size()) ++partialPolls;
    bool r = c.loop();
    LOG << " poll";
    CHECK(r == any, "loop() returned " << r << " while " << (any ? "" : "no ") << "new complete lines were in the file");
    first = false;
    (void)before;
  };
  auto take = [&]() {
    CHECK(c.ready() == !expect.empty(), "ready() = " << c.ready() << " with " << expect.size() << " lines to deliver");
    if (expect.size()) {
      std::string l = c.next();
      CHECK(l == expect[0], "delivered <" << l.substr(0, 80) << "> (" << l.size() << ") instead of <" << expect[0].substr(0, 80) << "> (" << expect[0].size() << ")");
      expect.erase(expect.begin());
      ++delivered;
    }
  };
  for (int k = 0; k < n; ++k) {
    switch (g.weighted({4, 3, 4, 3})) {
      case 0: {  // whole lines
        int m = (int)g.size(1, 4);
        std::string s = pendingTail.empty() ? "" : pendingTail;
        pendingTail = "";
        for (int i = 0; i < m; ++i) s += genLine(g, id++) + "\n";
        LOG << " append(" << s.size() << " bytes, " << std::count(s.begin(), s.end(), '\n') << " lines)";
        append(s);
        break;
      }
      case 1: {  // a piece of a line
        if (pendingTail.empty()) pendingTail = genLine(g, id++) + "\n";
        size_t cut = g.size(0, pendingTail.size());
        LOG << " append(" << cut << " bytes of a line of " << pendingTail.size() << ")";
        append(pendingTail.substr(0, cut));
        pendingTail = pendingTail.substr(cut);
        break;
      }
      case 2: poll(); break;
      case 3:
        take();
        break;
    }
    if (drainEach) while (expect.size()) take();
  }
  poll();
  while (expect.size()) take();
  CHECK(!c.ready(), "a line is delivered that was never completed or was already delivered: <" << c.next().substr(0, 80) << ">");
  g.nontrivial(delivered > 1);
  if (partialPolls) g.label("poll during a partial line");
}
PROP(short_history) { history(g, 12, true); }
PROP(long_history) { history(g, 60, false); }
// a file that appears later is read from its beginning
PROP(late_file) {
  static TmpFile tf;
  unlink(tf.f.c_str());
  Contiifstream c("");
  c.open(tf.f);
  int polls = (int)g.size(1, 3);
  for (int i = 0; i < polls; ++i) CHECK(!c.loop() && !c.ready(), "no file");
  std::vector<std::string> L;
  int n = (int)g.size(1, 6);
  std::ofstream o(tf.f.c_str());
  for (int i = 0; i < n; ++i) {
    L.push_back(genLine(g, i));
    o << L.back() << "\n";
  }
  o.close();
  CHECK(c.loop(), "the new file is not read");
  LOG << n << " lines";
  for (auto &l : L) {
    CHECK(c.ready(), "line missing");
    std::string s = c.next();
    CHECK(s == l, "got <" << s.substr(0, 60) << "> for <" << l.substr(0, 60) << ">");
  }
  CHECK(!c.ready(), "extra line");
  g.nontrivial(n > 1);
}
