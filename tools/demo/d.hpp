// Small helpers of the demonstrations: entities by class name, signals by name.
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/factory.h>
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/pool.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <sot/core/matrix-geometry.hh>
namespace dg = dynamicgraph;
typedef dynamicgraph::Vector Vec;
typedef dynamicgraph::Matrix Mat;
typedef dynamicgraph::sot::MatrixHomogeneous Homo;
using dynamicgraph::command::Value;
struct Ent {
  std::unique_ptr<dg::Entity> p;
  explicit Ent(const std::string &c) {
    static int n = 0;
    p.reset(dg::FactoryStorage::getInstance()->newEntity(c, "d" + std::to_string(++n)));
  }
  template <class T> dg::Signal<T, int> &sig(const std::string &n) { return dynamic_cast<dg::Signal<T, int> &>(p->getSignal(n)); }
  template <class T> void in(const std::string &n, const T &v) { sig<T>(n) = v; }
  template <class T> T out(const std::string &n, int t) { return sig<T>(n).access(t); }
  Value call(const std::string &c, const std::vector<Value> &v = {}) { return p->shimCall(c, v); }
};
inline Vec V(std::initializer_list<double> l) { Vec v((long)l.size()); int i = 0; for (double x : l) v(i++) = x; return v; }
static int bad = 0;
#define EXPECT(C) do { if (!(C)) { ++bad; std::cerr << "line " << __LINE__ << ": not " #C << std::endl; } } while (0)
#define EXPECT_NEAR(A, B) do { double a_ = (A), b_ = (B); if (!(std::fabs(a_ - b_) <= 1e-7 * (1 + std::fabs(b_)))) { ++bad; std::cerr << "line " << __LINE__ << ": " #A " = " << a_ << ", expected " << b_ << std::endl; } } while (0)
