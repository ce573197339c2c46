// C36: periodic calls and sequencer.
#include "ent.hpp"
#include <sot/core/periodic-call-entity.hh>
#include <sot/core/sequencer.hh>
#include <sot/core/sot.hh>
using dynamicgraph::command::Value;
namespace dg = dynamicgraph;

struct Target : dg::Entity {
  static const std::string CLASS_NAME;
  const std::string &getClassName() const override { return CLASS_NAME; }
  dg::SignalTimeDependent<int, int> s;
  std::vector<int> at;
  Target(const std::string &n) : Entity(n), s(boost::bind(&Target::f, this, _1, _2), dg::sotNOSIGNAL, "Target(" + n + ")::output(int)::s") {
    s.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY);
    signalRegistration(s);
  }
  int &f(int &r, int t) { return at.push_back(t), r = t; }
};
const std::string Target::CLASS_NAME = "Target";

struct PCE : dg::sot::PeriodicCallEntity {
  using PeriodicCallEntity::PeriodicCallEntity;
  dg::sot::PeriodicCall &base() { return *this; }
};
// the same scheduler alone or behind the two trigger signals of the entity
PROP(periodic_call) {
  PCE ent(freshName("pc"));
  dg::sot::PeriodicCall alone;
  bool viaEntity = g.flip();
  dg::sot::PeriodicCall &pc = viaEntity ? ent.base() : alone;
  std::vector<std::unique_ptr<Target>> tg;
  for (int i = 0; i < 3; ++i) tg.emplace_back(new Target(freshName("tgt")));
  struct Reg { int target; unsigned factor; };
  std::map<std::string, Reg> reg;
  std::vector<std::vector<int>> want(3);
  int t = (int)g.integer(-1, 20), skipped = 0, run = 0;
  for (int k = 0, N = (int)g.steps(3, 40); k < N; ++k) {
    int i = (int)g.draw(3);
    std::string path = tg[(size_t)i]->getName() + ".s", name = g.flip() ? path : std::string(1, (char)('a' + g.draw(3)));
    unsigned f = (unsigned)(g.draw(3) ? g.integer(1, 4) : g.integer(1, 40));
    switch (g.draw(12)) {
      case 0: pc.addSignal(path); reg[path] = Reg{i, 1}; LOG << " add " << i; break;
      case 1: pc.addSignal(name, tg[(size_t)i]->s); reg[name] = Reg{i, 1}; LOG << " add " << i << " as " << name; break;
      case 2: pc.addDownsampledSignal(path, f); reg[path] = Reg{i, f}; LOG << " add " << i << "/" << f; break;
      case 3:
        pc.addDownsampledSignal(name, tg[(size_t)i]->s, f);
        reg[name] = Reg{i, f};
        LOG << " add " << i << "/" << f << " as " << name;
        break;
      case 4:
        if (reg.size() && g.draw(4)) name = std::next(reg.begin(), (long)g.draw(reg.size()))->first;
        pc.rmSignal(name);
        reg.erase(name);
        LOG << " rm " << name;
        break;
      case 5:
        if (g.draw(3)) break;
        pc.clear(), reg.clear();
        LOG << " clear";
        break;
      case 6: {  // what cannot be registered is refused and changes nothing
        bool refused = false;
        LOG << " refused";
        int kind = (int)g.draw(4);
        try {
          if (kind == 0) pc.addSignal(std::string("nobody.s"));
          else if (kind == 1) pc.addDownsampledSignal(tg[(size_t)i]->getName() + ".none", 2);
          else if (kind == 2) pc.addDownsampledSignal(path, 0);
          else pc.addDownsampledSignal(name, tg[(size_t)i]->s, 0);
        } catch (const std::exception &) {
          refused = true;
        }
        CHECK(refused, (kind < 2 ? "a signal that does not exist" : "a null period") << " was accepted");
        break;
      }
      case 7: {
        std::ostringstream o;
        pc.display(o);
        std::vector<std::string> lines;
        std::istringstream is(o.str());
        for (std::string l; std::getline(is, l);)
          if (l.compare(0, 3, " - ") == 0) lines.push_back(l.substr(3));
        std::vector<std::string> names;
        for (auto &r : reg) names.push_back(r.first);
        CHECK(lines == names, "display lists " << o.str());
        break;
      }
      default: {
        t += g.draw(4) ? 1 : (int)g.size(1, 30);
        bool once = false;
        LOG << " t" << t;
        ++run;
        if (viaEntity) {
          once = !g.draw(4);
          auto &s = dynamic_cast<dg::Signal<int, int> &>(static_cast<dg::Entity &>(ent).getSignal(once ? "trigerOnce" : "triger"));
          s(t);
        } else if (g.flip()) pc.run(t);
        else pc.runSignals(t);
        for (auto &r : reg) {
          if (t % (int)r.second.factor == 0) want[(size_t)r.second.target].push_back(t);
          else ++skipped;
        }
        if (once) reg.clear();
      }
    }
    for (size_t j = 0; j < 3; ++j)
      CHECK(tg[j]->at == want[j], "signal " << j << " was computed " << tg[j]->at.size() << " times, last at " << (tg[j]->at.empty() ? -1 : tg[j]->at.back())
                                            << " instead of " << want[j].size() << ", last at " << (want[j].empty() ? -1 : want[j].back()));
  }
  g.nontrivial(skipped > 0 && run > 3);
}

struct Seq : dg::sot::Sequencer {
  using Sequencer::playMode;
  using Sequencer::Sequencer;
  using Sequencer::timeInit;
};
static std::vector<std::pair<int, const void *>> *g_fired;
static int g_alive = 0;
struct Ev : dg::sot::Sequencer::sotEventAbstract {
  int id;
  Ev(int id, const std::string &n, int type) : sotEventAbstract(n), id(id) { eventType = type, ++g_alive; }
  ~Ev() override { --g_alive; }
  void operator()(dg::sot::Sot *p) override { g_fired->emplace_back(id, (const void *)p); }
};

PROP(sequencer) {
  g_alive = 0;
  std::vector<std::pair<int, const void *>> fired, want;
  g_fired = &fired;
  typedef std::unique_ptr<Ev> P;
  std::vector<P> removed;  // the sequencer gives back what is removed
  struct Item { Ev *e; unsigned at; };
  std::vector<Item> items;
  {
    Seq s(freshName("seq"));
    std::unique_ptr<dg::Entity> sotHold(dg::FactoryStorage::getInstance()->newEntity("SOT", freshName("sot")));
    auto *sot = dynamic_cast<dg::sot::Sot *>(sotHold.get());
    CHECK(sot, "class SOT is a stack of tasks");
    const void *ref = nullptr;
    bool play = false;
    int t = (int)g.size(0, 30), t0 = -1, id = 0;
    for (int k = 0, N = (int)g.steps(3, 50); k < N; ++k) {
      switch (g.draw(10)) {
        case 0: case 1: {
          Ev *e = new Ev(++id, std::string(1, (char)('a' + g.draw(3))), (int)g.draw(3));
          // the default base is the time the next evaluation gives
          unsigned at = (unsigned)((t0 < 0 ? 0 : t - t0) + (int)g.size(0, 8));
          s.addTask(e, at);
          items.push_back(Item{e, at});
          LOG << " add#" << id << e->getName() << e->getEventType() << "@" << at;
          break;
        }
        case 2: {
          if (items.empty()) break;
          Item it = items[g.draw(items.size())];
          std::string nm = g.draw(4) ? it.e->getName() : "z";
          int type = g.draw(4) ? it.e->getEventType() : 7;
          unsigned at = g.draw(4) ? it.at : 1000;
          s.rmTask(type, nm, at);
          LOG << " rm" << nm << type << "@" << at;
          for (auto i = items.begin(); i != items.end(); ++i)
            if (i->at == at && i->e->getName() == nm && i->e->getEventType() == type) {
              removed.emplace_back(i->e);
              items.erase(i);
              break;
            }
          break;
        }
        case 3:
          if (g.draw(5)) break;
          s.clearAll();
          items.clear();
          LOG << " clear";
          CHECK(g_alive == (int)removed.size(), "clearing leaves " << g_alive - (int)removed.size() << " events");
          break;
        case 4:
          s.playMode = play = g.draw(4) != 0;
          LOG << (play ? " start" : " stop");
          break;
        case 5:
          if (g.draw(3)) break;
          s.timeInit = t0 = -1;
          LOG << " reset";
          break;
        case 6: {
          if (g.draw(3)) break;
          s.setSotRef(sot);
          ref = sot;
          break;
        }
        default: {
          ++t;
          LOG << " t" << t;
          s.triggerSOUT(t);
          if (play) {
            if (t0 < 0) t0 = t;
            for (auto &i : items)
              if ((int)i.at == t - t0) want.emplace_back(i.e->id, ref);
          }
        }
      }
      CHECK(fired.size() == want.size(), fired.size() << " events fired instead of " << want.size());
      for (size_t i = 0; i < fired.size(); ++i) {
        CHECK(fired[i].first == want[i].first, "event " << fired[i].first << " fired instead of " << want[i].first);
        CHECK(fired[i].second == want[i].second, "event run with another stack than the one given");
      }
      CHECK(g_alive == (int)(items.size() + removed.size()), "events destroyed while scheduled");
    }
    s.clearAll();
    std::ostringstream o;
    s.display(o);
    CHECK(o.str().find("- t=") == std::string::npos, "the cleared sequencer displays " << o.str());
  }
  g.nontrivial(want.size() > 1);
}
