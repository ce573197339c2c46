#pragma once
#include <boost/python.hpp>
#include <boost/python/stl_iterator.hpp>
#include <dynamic-graph/python/module.hh>
namespace dynamicgraph { namespace python {
template <typename Iterator>
inline bp::list to_py_list(Iterator begin, Iterator end) {
  bp::list l;
  for (Iterator i = begin; i != end; ++i) l.append(bp::object(*i));
  return l;
}
template <typename T>
inline std::vector<T> to_std_vector(const bp::object &iterable) {
  return std::vector<T>(bp::stl_input_iterator<T>(iterable), bp::stl_input_iterator<T>());
}
}}
#include <boost/python/stl_iterator.hpp>
