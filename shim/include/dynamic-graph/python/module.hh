// stand-in for dynamic-graph-python: entities, signals and commands seen from python
#pragma once
#include <boost/python.hpp>
#include <dynamic-graph/dg-shim.hh>
#include <dynamic-graph/python/signal.hh>
namespace dynamicgraph { namespace python {
constexpr int AddSignals = 1;
constexpr int AddCommands = 2;
namespace internal {
template <typename T>
T *makeEntity(const std::string &n) {
  if (PoolStorage::getInstance()->existEntity(n)) throw std::invalid_argument("entity " + n + " exists");
  return new T(n);
}
}  // namespace internal
template <typename T, typename bases = boost::python::bases<dynamicgraph::Entity>, int Options = AddCommands | AddSignals>
inline auto exposeEntity() {
  boost::python::class_<T, bases, boost::noncopyable> obj(T::CLASS_NAME.c_str(), boost::python::no_init);
  obj.def("__init__", boost::python::make_constructor(&internal::makeEntity<T>));
  return obj;
}
}}
