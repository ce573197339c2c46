// C41: the loader of the controller, with plug-ins compiled on the fly and a python interpreter which records what it is given.
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>
#include <fstream>
#include "ent.hpp"
#include <boost/program_options.hpp>
#include <sot/core/sot-loader.hh>
namespace dg = dynamicgraph;
using namespace dg::sot;

struct Hook {
  int created, destroyed, sensors, control, step;
  int boom;  // 1-5: exception thrown while the sensors are set, 11-15: while the control is computed
  const void *in, *out;
  std::vector<std::string> *order;
};
static Hook hook;
static const char *code = R"(
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <sot/core/abstract-sot-external-interface.hh>
using namespace dynamicgraph::sot;
struct Hook { int created, destroyed, sensors, control, step; int boom; const void *in, *out; std::vector<std::string> *order; };
static Hook *hook() { void *p = 0; sscanf(getenv("VERIF_HOOK"), "%p", &p); return (Hook *)p; }
static void boom(int k) {
  switch (k) {
    case 1: throw std::runtime_error("broken sensor");
    case 2: throw std::out_of_range("far away");
    case 3: throw std::length_error("too long");
    case 4: throw 17;
    case 5: throw std::domain_error("nowhere");
  }
}
struct Plug : AbstractSotExternalInterface {
  std::vector<double> last;
  ~Plug() { ++hook()->destroyed; }
  void setupSetSensors(std::map<std::string, SensorValues> &) { hook()->order->push_back("setup"); }
  void nominalSetSensors(std::map<std::string, SensorValues> &in) {
    Hook *h = hook();
    ++h->sensors, h->in = &in, h->order->push_back("sensors");
    boom(h->boom);
    last = in["s"].getValues();
  }
  void cleanupSetSensors(std::map<std::string, SensorValues> &) { hook()->order->push_back("cleanup"); }
  void getControl(std::map<std::string, ControlValues> &out) {
    Hook *h = hook();
    ++h->control, h->out = &out, h->order->push_back("control");
    boom(h->boom - 10);
    for (double &x : last) x = 2 * x + FACTOR;
    out["c"].setName("c");
    out["c"].setValues(last);
  }
  void setSecondOrderIntegration() { hook()->order->push_back("second"); }
  void setNoIntegration() { hook()->order->push_back("none"); }
};
#ifndef NO_CREATE
extern "C" AbstractSotExternalInterface *createSotExternalInterface() { ++hook()->created; return new Plug; }
#endif
extern "C" void destroySotExternalInterface(AbstractSotExternalInterface *p) { delete p; }
)";
static std::string dir() {
  static std::string d;
  if (d.size()) return d;
  d = pbt::scratch() + "/plug";
  char b[64];
  snprintf(b, sizeof b, "%p", (void *)&hook);
  setenv("VERIF_HOOK", b, 1);
  int lock = open((d + "lock").c_str(), O_RDWR | O_CREAT, 0600);
  flock(lock, LOCK_EX);
  if (!access((d + "ready").c_str(), F_OK)) return close(lock), d;
  std::string inc = getenv("VERIF_INCLUDES") ? getenv("VERIF_INCLUDES") : "";
  std::ofstream(d + ".cpp") << code;
  std::ofstream(d + "text.so") << "not a library\n";
  struct { const char *n, *f; } var[] = {{"a", "-DFACTOR=1"}, {"b", "-DFACTOR=100"}, {"nocreate", "-DFACTOR=0 -DNO_CREATE"}};
  for (auto &v : var)
    if (system(("g++ -std=c++14 -shared -fPIC -fno-gnu-unique -O0 " + inc + " " + v.f + " " + d + ".cpp -o " + d + v.n + ".so").c_str()))
      throw std::runtime_error("plug-in not compiled");
  std::ofstream(d + "ready") << 1;
  close(lock);
  return d;
}
static std::string lib(int k) {
  static const char *n[] = {"a.so", "b.so", "nocreate.so", "text.so", "absent.so"};
  return dir() + n[k];
}
static bool loaded(int k) {
  void *h = dlopen(lib(k).c_str(), RTLD_LAZY | RTLD_NOLOAD);
  if (h) dlclose(h);
  return h != 0;
}
struct Quiet {
  std::ostringstream s;
  std::streambuf *o = std::cout.rdbuf(s.rdbuf()), *e = std::cerr.rdbuf(s.rdbuf());
  ~Quiet() { std::cout.rdbuf(o), std::cerr.rdbuf(e); }
};
struct Dev : dg::Entity {
  Dev(const std::string &n) : Entity(n) {}
  static const std::string CLASS_NAME;
  const std::string &getClassName() const override { return CLASS_NAME; }
};
const std::string Dev::CLASS_NAME = "Dev";

PROP(loader) {
  dir();
  std::vector<std::string> order;
  hook = Hook();
  hook.order = &order;
  auto &py = dg::python::Interpreter::log();
  py.clear();
  std::unique_ptr<SotLoader> l(new SotLoader);
  std::map<std::string, SensorValues> in;
  std::map<std::string, ControlValues> out;
  std::unique_ptr<Dev> dev;
  bool running = false, given = false;
  int file = -1, live = -1, created = 0, ran = 0, cleaned = 0;
  for (int k = 0, N = (int)g.size(2, 16); k < N; ++k) {
    Quiet q;
    int op = (int)g.draw(12);
    LOG << " " << op;
    switch (op) {
      case 0: case 1:
        if (live >= 0) break;
        if (file < 0 || g.flip()) {
          std::string f = lib(file = g.draw(3) ? (int)g.draw(2) : (int)g.draw(5));
          l->setDynamicLibraryName(f);
        }
        LOG << "/" << file;
        {
          size_t before = py.size();
          bool ok = l->initialization();
          CHECK(ok == (file < 2), "initialisation " << (ok ? "accepted" : "refused") << " for the library " << file);
          if (ok) live = file, ++created;
          CHECK((py.size() > before) == ok, "prologue of the interpreter");
          CHECK(ok || !loaded(file), "a library which was refused stays loaded");
        }
        break;
      case 2: l->startDG(), running = true; break;
      case 3: l->stopDG(), running = false; break;
      case 4: {
        l->cleanUp();
        ++cleaned;
        if (live >= 0) CHECK(!loaded(live), "the library stays loaded");
        live = -1, given = false;
        break;
      }
      case 5: {
        l.reset();
        if (live >= 0) CHECK(!loaded(live), "the library stays loaded");
        live = file = -1, running = given = false;
        l.reset(new SotLoader);
        break;
      }
      case 6: {
        if (given) break;
        dev.reset();
        dev.reset(new Dev(freshName("dev")));
        l->loadDeviceInPython(dev->getName());
        bool seen = false;
        for (auto &c : py) seen = seen || c.find(dev->getName()) != std::string::npos;
        CHECK(seen, "device not loaded");
        given = true;
        break;
      }
      case 7: {
        std::string r, o, e, c = "x = " + std::to_string(k);
        l->runPythonCommand(c, r, o, e);
        CHECK(py.back() == c, "command " << c << " not run");
        if (g.flip()) l->runPythonFile("f.py");
        else l->runPythonFile("f.py", e);
        CHECK(py.back() == "file:f.py", "file not run");
        break;
      }
      default: {
        if (live < 0 && running) break;
        Hook h = hook;
        order.clear();
        std::vector<double> s;
        for (int i = 0, n = (int)g.size(0, 4); i < n; ++i) s.push_back((double)g.integer(-50, 50));
        in["s"].setValues(s);
        std::vector<double> was = out.count("c") ? out["c"].getValues() : std::vector<double>();
        bool had = out.count("c") != 0;
        hook.boom = g.draw(3) ? 0 : (int)g.draw(2) * 10 + (int)g.integer(1, 5);
        int b = hook.boom % 10;
        std::string got = "none", want = "none";
        if (running && b) want = std::vector<std::string>{"runtime broken sensor", "range far away", "length too long", "int 17", "domain nowhere"}[(size_t)b - 1];
        try {
          l->oneIteration(in, out);
        } catch (std::out_of_range &e) {
          got = std::string("range ") + e.what();
        } catch (std::length_error &e) {
          got = std::string("length ") + e.what();
        } catch (std::domain_error &e) {
          got = std::string("domain ") + e.what();
        } catch (std::runtime_error &e) {
          got = std::string("runtime ") + e.what();
        } catch (std::exception &e) {
          got = std::string("exception ") + e.what();
        } catch (int i) {
          got = "int " + std::to_string(i);
        }
        CHECK(got == want, "the plug-in raises \"" << want << "\", the loader \"" << got << "\"");
        CHECK(in["s"].getValues() == s && in.size() == 1, "the sensors are modified");
        bool first = running && hook.boom > 0 && hook.boom < 10;
        CHECK(hook.sensors == h.sensors + running && hook.control == h.control + (running && !first), "calls of the plug-in");
        if (running) {
          CHECK(hook.in == &in && order[0] == "sensors" && (first || (hook.out == &out && order[1] == "control")), "maps and order");
          if (!b) {
            for (double &x : s) x = 2 * x + (live == 0 ? 1 : 100);
            CHECK(out.size() == 1 && out["c"].getValues() == s, "control");
            ++ran;
          }
        } else {
          CHECK(order.empty(), "graph evaluated although it is stopped");
          CHECK((out.count("c") != 0) == had && (!had || out["c"].getValues() == was), "control changed");
        }
      }
    }
    CHECK(l->isDynamicGraphStopped() == !running, "state of the graph");
    CHECK(hook.created == created && hook.destroyed == created - (live >= 0), "controllers created " << hook.created << ", destroyed " << hook.destroyed);
    if (live >= 0) CHECK(loaded(live), "the library is not loaded");
    if (given) CHECK(dg::PoolStorage::getInstance()->existEntity(dev->getName()), "device dropped");
  }
  Quiet q;
  l.reset();
  CHECK(hook.destroyed == created, "controllers not destroyed");
  g.nontrivial(ran > 0 && (created > 1 || cleaned > 0));
}

struct Loader : SotLoader { const std::string &file() { return sot_dynamic_library_filename_; } };

PROP(options) {
  Loader l;
  std::string kept;
  int both = 0;
  for (int line = 0, L = (int)g.size(1, 3); line < L; ++line) {
  std::vector<std::string> a{"prog"};
  std::string want[2];
  bool help = false, bad = false;
  for (int k = 0, N = (int)g.size(0, 3); k < N; ++k) {
    int op = (int)g.draw(8);
    std::string f = g.str("ab/. =", 1, 5);
    if (f[0] == '-' || f[0] == '=') f = "x";
    if (op < 4) {
      int w = op % 2;
      const char *n = w ? "--input-file" : "--sot-dynamic-library";
      if (want[w].size()) continue;
      if (op < 2) a.push_back(n), a.push_back(f);
      else a.push_back(std::string(n) + "=" + f);
      want[w] = f;
    } else if (op < 6) {
      if (!help) a.push_back("--help");
      help = true;
    } else {
      a.push_back(g.pick<std::string>({"--unknown", "-z", "--input-fil-e"}));
      bad = true;
    }
  }
  for (auto &s : a) LOG << " [" << s << "]";
  std::vector<char *> v;
  for (auto &s : a) v.push_back(&s[0]);
  v.push_back(0);
  Quiet q;
  bool thrown = false;
  int r = 7;
  try {
    r = l.parseOptions((int)a.size(), v.data());
  } catch (boost::program_options::error &e) {
    thrown = true;
  }
  CHECK(thrown == bad, (bad ? "unknown option accepted" : "options refused"));
  if (!bad) {
    std::string f = want[0].size() ? want[0] : want[1];
    CHECK(r == (help || f.empty() ? -1 : 0), "parseOptions gives " << r);
    if (!r) kept = f;
    CHECK(l.file() == kept, "library " << l.file() << " instead of " << kept);
    CHECK(!help || q.s.str().find("sot-dynamic-library") != std::string::npos, "no help message");
  }
  both += want[0].size() && want[1].size();
  }
  g.nontrivial(both > 0);
}
