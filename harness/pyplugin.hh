// The python modules of the plugins, made from the headers which list their classes as the build of the repository does.
#pragma once
#include <dynamic-graph/python/module.hh>
#include <boost/mpl/for_each.hpp>
#include <boost/mpl/vector.hpp>
struct Expose {
  template <class T>
  void operator()(T *) const {
    dynamicgraph::python::exposeEntity<T>();
  }
};
struct Pointer {
  template <class T>
  struct apply {
    typedef T *type;
  };
};
template <class Entities>
void exposeAll() {
  boost::mpl::for_each<Entities, Pointer>(Expose());
}
