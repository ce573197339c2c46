// The python module "dynamic_graph" of C50: a stand-in of dynamic-graph-python (entities, signals, commands, vectors and matrices),
// linked with the binding sources of the repository in one shared library.
#include <dynamic-graph/python/dynamic-graph-py.hh>
#include <boost/python/raw_function.hpp>
#include <sot/core/device.hh>
#include <sot/core/matrix-geometry.hh>
namespace dg = dynamicgraph;
namespace dgs = dynamicgraph::sot;
using dg::Matrix;
using dg::Vector;
using dg::command::Value;
template <class M>
static bp::list rowsOf(const M &m) {
  bp::list r;
  for (int i = 0; i < m.rows(); ++i) {
    bp::list l;
    for (int j = 0; j < m.cols(); ++j) l.append((double)m(i, j));
    r.append(l);
  }
  return r;
}
static bp::list listOf(const Vector &v) {
  bp::list r;
  for (int i = 0; i < v.size(); ++i) r.append((double)v(i));
  return r;
}
/// any number of python or numpy
static double toDouble(const bp::object &o) {
  double d = PyFloat_AsDouble(o.ptr());
  if (d == -1 && PyErr_Occurred()) bp::throw_error_already_set();
  return d;
}
static Vector toVector(const bp::object &o) {
  Vector v(bp::len(o));
  for (int i = 0; i < v.size(); ++i) v(i) = toDouble(o[i]);
  return v;
}
static Matrix toMatrix(const bp::object &o) {
  long n = bp::len(o), m = n ? bp::len(o[0]) : 0;
  Matrix r(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) r(i, j) = toDouble(o[i][j]);
  return r;
}
namespace dynamicgraph { namespace python {
template <> struct Conv<Vector> {
  static bp::object to(const Vector &v) { return listOf(v); }
  static Vector from(const bp::object &o) { return toVector(o); }
};
template <int R, int C> struct Conv<Eigen::Matrix<double, R, C> > {
  typedef Eigen::Matrix<double, R, C> M;
  static bp::object to(const M &v) { return rowsOf(v); }
  static M from(const bp::object &o) { return toMatrix(o); }
};
template <int R> struct Conv<Eigen::Matrix<double, R, 1> > {
  typedef Eigen::Matrix<double, R, 1> M;
  static bp::object to(const M &v) { return listOf(v); }
  static M from(const bp::object &o) { return toVector(o); }
};
template <> struct Conv<dgs::MatrixHomogeneous> {
  static bp::object to(const dgs::MatrixHomogeneous &v) { return rowsOf(v.matrix()); }
  static dgs::MatrixHomogeneous from(const bp::object &o) { return dgs::MatrixHomogeneous(Eigen::Matrix4d(toMatrix(o))); }
};
template <> struct Conv<dgs::VectorQuaternion> {
  static bp::object to(const dgs::VectorQuaternion &v) { return listOf(v.coeffs()); }
  static dgs::VectorQuaternion from(const bp::object &o) { return dgs::VectorQuaternion(Eigen::Vector4d(toVector(o))); }
};
template <> struct Conv<dgs::VectorUTheta> {
  static bp::object to(const dgs::VectorUTheta &v) { return listOf(Vector(v.axis() * v.angle())); }
  static dgs::VectorUTheta from(const bp::object &o) { Vector v = toVector(o); return dgs::VectorUTheta(v.norm(), v.normalized()); }
};
}}
/// python lists and tuples are accepted for vectors and matrices
template <class T, int depth>
struct FromList {
  FromList() { bp::converter::registry::push_back(&ok, &make, bp::type_id<T>()); }
  static void *ok(PyObject *o) {
    if (!PyList_Check(o) && !PyTuple_Check(o)) return 0;
    bp::object x{bp::handle<>(bp::borrowed(o))};
    if (bp::len(x)) {
      bp::object f = x[0];
      bool nested = PyList_Check(f.ptr()) || PyTuple_Check(f.ptr());
      if (nested != (depth == 2)) return 0;
    }
    return o;
  }
  static void make(PyObject *o, bp::converter::rvalue_from_python_stage1_data *d) {
    void *p = ((bp::converter::rvalue_from_python_storage<T> *)d)->storage.bytes;
    new (p) T(dg::python::Conv<T>::from(bp::object{bp::handle<>(bp::borrowed(o))}));
    d->convertible = p;
  }
};
typedef dg::SignalBase<int> Base;
static Base &entSignal(dg::Entity &e, const std::string &n) { return e.getSignal(n); }
static Value toValue(const bp::object &o, Value::Type t) {
  switch (t) {
    case Value::BOOL: return Value((bool)bp::extract<bool>(o));
    case Value::UNSIGNED: return Value((unsigned)bp::extract<unsigned>(o));
    case Value::INT: return Value((int)bp::extract<int>(o));
    case Value::FLOAT: return Value((float)toDouble(o));
    case Value::DOUBLE: return Value(toDouble(o));
    case Value::STRING: return Value(std::string(bp::extract<std::string>(o)));
    case Value::VECTOR: return Value(toVector(o));
    case Value::MATRIX: return Value(toMatrix(o));
    case Value::MATRIX4D: return Value(Eigen::Matrix4d(toMatrix(o)));
    default: throw std::invalid_argument("type of a parameter of a command");
  }
}
static bp::object fromValue(const Value &v) {
  switch (v.type()) {
    case Value::BOOL: return bp::object(v.boolValue());
    case Value::UNSIGNED: return bp::object(v.unsignedValue());
    case Value::INT: return bp::object(v.intValue());
    case Value::FLOAT: case Value::DOUBLE: return bp::object(v.doubleValue());
    case Value::STRING: return bp::object(v.stringValue());
    case Value::VECTOR: return listOf(v.vectorValue());
    case Value::MATRIX: return rowsOf(v.matrixXdValue());
    case Value::MATRIX4D: return rowsOf(v.matrix4dValue());
    case Value::VALUES: {
      bp::list l;
      for (auto &x : v.valuesValue()) l.append(fromValue(x));
      return l;
    }
    default: return bp::object();
  }
}
static bp::object entCall(bp::tuple a, bp::dict) {
  dg::Entity &e = bp::extract<dg::Entity &>(a[0]);
  std::string n = bp::extract<std::string>(a[1]);
  const std::vector<Value::Type> types = e.getNewStyleCommand(n)->valueTypes();
  if ((int)types.size() != bp::len(a) - 2) throw std::invalid_argument("number of parameters of command " + n);
  std::vector<Value> v;
  for (int i = 2; i < bp::len(a); ++i) v.push_back(toValue(a[i], types[i - 2]));
  return fromValue(e.shimCall(n, v));
}
static bp::tuple commandsOf(dg::Entity &e) {
  bp::list l;
  for (auto &c : e.getNewStyleCommandMap()) l.append(c.first);
  return bp::tuple(l);
}
static bp::list typesOf(dg::Entity &e, const std::string &n) {
  bp::list l;
  for (auto t : e.getNewStyleCommand(n)->valueTypes()) l.append(Value::typeName(t));
  return l;
}
/// signals and commands are attributes of their entity
static bp::object entAttribute(bp::object self, const std::string &n) {
  dg::Entity &e = bp::extract<dg::Entity &>(self);
  if (n == "obj") return bp::object(e.getName());
  if (e.hasSignal(n)) return self.attr("signal")(n);
  if (!e.getNewStyleCommandMap().count(n)) {
    PyErr_SetString(PyExc_AttributeError, (e.getName() + " has no signal and no command " + n).c_str());
    bp::throw_error_already_set();
  }
  return bp::import("functools").attr("partial")(self.attr("call"), n);
}
static bp::tuple signalsOf(bp::object self) {
  dg::Entity &e = bp::extract<dg::Entity &>(self);
  bp::list l;
  for (auto &s : e.getSignalMap()) l.append(self.attr("signal")(s.first));
  return bp::tuple(l);
}
/// an entity with the signals which are asked for (a robot, seen from its tasks)
struct Provider : dg::Entity {
  DYNAMIC_GRAPH_ENTITY_DECL();
  Provider(const std::string &n) : Entity(n) {}
  template <class T>
  void add(const std::string &n) {
    auto *s = new dg::SignalTimeDependent<T, int>(dg::sotNOSIGNAL, "Provider(" + getName() + ")::output(any)::" + n);
    made.push_back(std::shared_ptr<Base>(s));
    signalRegistration(*s);
  }
  void make(const std::string &type, const std::string &n) {
    if (type == "homo") add<dgs::MatrixHomogeneous>(n);
    else if (type == "matrix") add<Matrix>(n);
    else add<Vector>(n);
  }
  std::vector<std::shared_ptr<Base> > made;
};
DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Provider, "Provider");
static std::string fullName(const Base &s) { return s.getName(); }
static std::string sigName(const Base &s) { return s.shortName(); }
static void plug(Base &out, Base &in) { in.plug(&out); }
static long addr(const Base &s) { return (long)&s; }
struct Stepped : dgs::Device {
  Stepped() : Device("") {}
  using dgs::Device::increment;
};
static void increment(dgs::Device &d, double dt) { (d.*(&Stepped::increment))(dt); }
static bp::list registered() {
  bp::list r;
  for (auto &n : dg::FactoryStorage::getInstance()->shimNames()) r.append(n);
  return r;
}
static std::string className(const dg::Entity &e) { return e.getClassName(); }
static void resize(dgs::Device &d, unsigned n) { d.setStateSize(n); }
BOOST_PYTHON_MODULE(dynamic_graph) {
  using namespace dg::python;
  bp::class_<Base, boost::noncopyable>("SignalBase", bp::no_init)
      .add_property("name", &sigName)
      .def("getName", &fullName)
      .add_property("address", &addr)
      .add_property("time", bp::make_function(&Base::getTime, bp::return_value_policy<bp::copy_const_reference>()))
      .add_property("plugged", &Base::isPlugged)
      .def("recompute", &Base::recompute)
      .def("unplug", &Base::unplug);
  bp::class_<dg::Entity, boost::noncopyable>("Entity", bp::no_init)
      .add_property("name", bp::make_function(&dg::Entity::getName, bp::return_value_policy<bp::copy_const_reference>()))
      .add_property("className", &className)
      .def("signal", &entSignal, bp::return_value_policy<bp::reference_existing_object>())
      .def("hasSignal", &dg::Entity::hasSignal)
      .def("call", bp::raw_function(&entCall, 2))
      .def("__getattr__", &entAttribute)
      .def("signals", &signalsOf)
      .def("commands", &commandsOf)
      .def("typesOf", &typesOf);
  exposeEntity<Provider>().def("make", &Provider::make);
  bp::class_<Vector>("Vector", bp::no_init).def("tolist", &listOf);
  bp::class_<Matrix>("Matrix", bp::no_init).def("tolist", &rowsOf<Matrix>);
  FromList<Vector, 1>();
  FromList<Matrix, 2>();
  bp::def("plug", &plug);
  bp::def("increment", &increment);
  bp::def("registered", &registered);
  bp::def("resize", &resize);
  exposeSignalsOfType<bool, int>("Bool");
  exposeSignalsOfType<int, int>("Int");
  exposeSignalsOfType<unsigned, int>("Unsigned");
  exposeSignalsOfType<double, int>("Double");
  exposeSignalsOfType<Vector, int>("Vector");
  exposeSignalsOfType<Matrix, int>("Matrix");
  exposeSignalsOfType<dgs::MatrixHomogeneous, int>("MatrixHomo");
  exposeSignalsOfType<dgs::MatrixTwist, int>("MatrixTwist");
  exposeSignalsOfType<dgs::MatrixRotation, int>("MatrixRotation");
  exposeSignalsOfType<dgs::VectorQuaternion, int>("Quaternion");
  exposeSignalsOfType<dgs::VectorUTheta, int>("UTheta");
  exposeSignalsOfType<dgs::VectorRollPitchYaw, int>("RPY");
}
