#pragma once
#include <boost/python.hpp>
#include <dynamic-graph/dg-shim.hh>
namespace bp = boost::python;
namespace dynamicgraph { namespace python {
template <typename T> struct Conv {
  static bp::object to(const T &v) { return bp::object(v); }
  static T from(const bp::object &o) { return bp::extract<T>(o); }
};
template <typename T>
bp::object getValue(const Signal<T, int> &s) { return Conv<T>::to(s.accessCopy()); }
template <typename T>
void setValue(Signal<T, int> &s, const bp::object &o) { s = Conv<T>::from(o); }
template <typename T>
bp::object readAt(Signal<T, int> &s, int t) { return Conv<T>::to(s.access(t)); }
template <typename T, typename Time>
void exposeSignalsOfType(const std::string &n) {
  typedef Signal<T, int> S;
  bp::class_<S, bp::bases<SignalBase<int> >, boost::noncopyable>(("Signal" + n).c_str(), bp::no_init)
      .add_property("value", &getValue<T>, &setValue<T>)
      .def("at", &readAt<T>);
  bp::class_<SignalPtr<T, int>, bp::bases<S>, boost::noncopyable>(("SignalPtr" + n).c_str(), bp::no_init);
  bp::class_<SignalTimeDependent<T, int>, bp::bases<S>, boost::noncopyable>(("SignalTimeDependent" + n).c_str(), bp::no_init);
}
}}
