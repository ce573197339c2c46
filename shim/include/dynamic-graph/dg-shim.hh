// A stand-in for dynamic-graph 4.x, which is not installed in this sandbox.
// It re-implements, from the public documentation of that library, the part of
// its API that sot-core uses, with the same evaluation semantics (double
// buffered signals, time dependencies, ready flags, pool, factory, commands).
// Nothing of sot-core is replaced: its sources are compiled unmodified on top.
#ifndef VERIF_DG_SHIM_HH
#define VERIF_DG_SHIM_HH
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <boost/assign/list_of.hpp>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>
#include <cassert>
#include <cstdarg>
#include <cstdio>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <vector>

#ifndef DYNAMIC_GRAPH_DLLAPI
#define DYNAMIC_GRAPH_DLLAPI
#endif
using namespace boost::placeholders;

namespace dynamicgraph {
typedef Eigen::MatrixXd Matrix;
typedef Eigen::VectorXd Vector;

/* ------------------------------------------------------------ exceptions */
class ExceptionAbstract : public std::exception {
 public:
  enum ExceptionEnum { ABSTRACT = 0, SIGNAL = 100, FACTORY = 200, TRACES = 300, TOOLS = 700, DYNAMIC = 500 };
  static const std::string &name_() { static const std::string n("Abstract"); return n; }
  virtual const std::string &getExceptionName() const { return name_(); }
  ExceptionAbstract(const int &c, const std::string &m = "") : code(c), message(m) {}
  virtual ~ExceptionAbstract() throw() {}
  int getCode() const { return code; }
  const std::string &getStringMessage() const { return message; }
  const char *getMessage() const { return message.c_str(); }
  const char *what() const throw() { return message.c_str(); }
  friend std::ostream &operator<<(std::ostream &os, const ExceptionAbstract &e) {
    return os << e.getExceptionName() << "Error [#" << e.code << "]: " << e.message;
  }

 protected:
  void fmt(const char *format, va_list args) {
    char buffer[512];
    vsnprintf(buffer, sizeof(buffer), format, args);
    message += buffer;
  }
  int code;
  std::string message;
};
#define VERIF_DG_EXC(NAME, ...)                                               \
  class NAME : public ExceptionAbstract {                                     \
   public:                                                                    \
    enum ErrorCodeEnum { __VA_ARGS__ };                                       \
    virtual const std::string &getExceptionName() const {                     \
      static const std::string n(#NAME);                                      \
      return n;                                                               \
    }                                                                         \
    NAME(const ErrorCodeEnum &c, const std::string &m = "") : ExceptionAbstract(c, m) {} \
    NAME(const ErrorCodeEnum &c, const std::string &m, const char *format, ...) \
        : ExceptionAbstract(c, m) {                                           \
      va_list args;                                                           \
      va_start(args, format);                                                 \
      fmt(format, args);                                                      \
      va_end(args);                                                           \
    }                                                                         \
    virtual ~NAME() throw() {}                                                \
  };
VERIF_DG_EXC(ExceptionSignal, GENERIC = 100, READWRITE_LOCK, COPY_NOT_INITIALIZED, NOT_INITIALIZED,
             PLUG_IMPOSSIBLE, SET_IMPOSSIBLE, BAD_CAST)
VERIF_DG_EXC(ExceptionFactory, GENERIC = 200, UNREFERED_OBJECT, UNREFERED_SIGNAL, UNREFERED_FUNCTION,
             DYNAMIC_LOADING, SIGNAL_CONFLICT, FUNCTION_CONFLICT, OBJECT_CONFLICT, SYNTAX_ERROR, READ_FILE)
VERIF_DG_EXC(ExceptionTraces, GENERIC = 300, NOT_OPEN)
#define DG_THROW throw

/* ------------------------------------------------------------------ debug */
struct NullStream {
  template <class T>
  NullStream &operator<<(const T &) { return *this; }
  NullStream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
#define dgDEBUG(level) if (true) ; else ::dynamicgraph::NullStream()
#define dgDEBUGIN(level)
#define dgDEBUGOUT(level)
#define dgDEBUGINOUT(level)
#define dgERROR if (true) ; else ::dynamicgraph::NullStream()
#define dgTDEBUG(level) dgDEBUG(level)

/* ----------------------------------------------------------------- logger */
enum MsgType { MSG_TYPE_TYPE_BITS = 1 << 0, MSG_TYPE_STREAM_BITS = 1 << 4,
  MSG_TYPE_DEBUG = 1 << 3, MSG_TYPE_INFO = 1 << 2, MSG_TYPE_WARNING = 1 << 1, MSG_TYPE_ERROR = 1 << 0,
  MSG_TYPE_DEBUG_STREAM = (1 << 3) | (1 << 4), MSG_TYPE_INFO_STREAM = (1 << 2) | (1 << 4),
  MSG_TYPE_WARNING_STREAM = (1 << 1) | (1 << 4), MSG_TYPE_ERROR_STREAM = (1 << 0) | (1 << 4) };
enum LoggerVerbosity { VERBOSITY_ALL = 1 << 3, VERBOSITY_INFO_WARNING_ERROR = 1 << 2,
  VERBOSITY_WARNING_ERROR = 1 << 1, VERBOSITY_ERROR = 1 << 0, VERBOSITY_NONE = 0 };
/// counts messages instead of printing them
struct ShimLog { static long &count() { static long c = 0; return c; } };
class Logger {
 public:
  Logger(double = 0.001, double = 5.0) : lv_(VERBOSITY_ERROR) {}
  std::ostream &stream(MsgType = MSG_TYPE_INFO, const std::string & = "") {
    ++ShimLog::count();
    static std::ostringstream sink;
    sink.str("");
    sink.clear();
    return sink;
  }
  template <typename S>
  std::ostream &stream(MsgType t, const std::string &, const S &) { return stream(t); }
  void sendMsg(const std::string &, MsgType, const std::string & = "") { ++ShimLog::count(); }
  void sendMsg(const std::string &, MsgType, const std::string &, int) { ++ShimLog::count(); }
  void countdown() {}
  void setVerbosity(LoggerVerbosity lv) { lv_ = lv; }
  LoggerVerbosity getVerbosity() { return lv_; }
  bool setTimeSample(double) { return true; }
  double getTimeSample() { return 0.001; }
  bool setStreamPrintPeriod(double) { return true; }
  double getStreamPrintPeriod() { return 1; }

 private:
  LoggerVerbosity lv_;
};
#define dgRTLOG() (::dynamicgraph::shim_rtlog())
inline std::ostream &shim_rtlog() {
  static std::ostringstream sink;
  sink.str("");
  sink.clear();
  return sink;
}
#define SEND_MSG(msg, type) this->sendMsg(msg, type, __FILE__)
#define SEND_DEBUG_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_DEBUG_STREAM)
#define SEND_INFO_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_INFO_STREAM)
#define SEND_WARNING_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) SEND_MSG(msg, ::dynamicgraph::MSG_TYPE_ERROR_STREAM)
#define DYNAMIC_GRAPH_ENTITY_DEBUG(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_DEBUG)
#define DYNAMIC_GRAPH_ENTITY_INFO(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_INFO)
#define DYNAMIC_GRAPH_ENTITY_WARNING(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_WARNING)
#define DYNAMIC_GRAPH_ENTITY_ERROR(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_ERROR)
#define DYNAMIC_GRAPH_ENTITY_DEBUG_STREAM(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_DEBUG_STREAM)
#define DYNAMIC_GRAPH_ENTITY_INFO_STREAM(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_INFO_STREAM)
#define DYNAMIC_GRAPH_ENTITY_WARNING_STREAM(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_WARNING_STREAM)
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_ERROR_STREAM)
template <typename T>
std::string toString(const T &v) { std::ostringstream o; o << v; return o.str(); }

/* ------------------------------------------------------------ signal base */
template <class Time> class SignalBase;
template <class Time>
class SignalArray_const {
 public:
  std::vector<const SignalBase<Time> *> array;
};
template <class Time>
class SignalArray {
 public:
  std::vector<SignalBase<Time> *> array;
  explicit SignalArray(int = 20) {}
  SignalArray(SignalBase<Time> &s) { array.push_back(&s); }
  SignalArray &operator<<(SignalBase<Time> &s) { array.push_back(&s); return *this; }
  SignalArray operator<<(SignalBase<Time> &s) const { SignalArray r(*this); r.array.push_back(&s); return r; }
  SignalArray &operator<<(const SignalArray &o) { array.insert(array.end(), o.array.begin(), o.array.end()); return *this; }
  std::size_t getSize() const { return array.size(); }
  SignalBase<Time> &operator[](std::size_t i) const { return *array[i]; }
};
template <class Time>
SignalArray<Time> operator<<(SignalBase<Time> &a, SignalBase<Time> &b) {
  SignalArray<Time> r;
  r << a << b;
  return r;
}
static const SignalArray<int> sotNOSIGNAL(0);

template <class Time>
class SignalBase {
 public:
  explicit SignalBase(std::string n = "") : name(n), signalTime(0), ready(false) {}
  virtual ~SignalBase() {}
  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const bool &getReady() const { return ready; }
  const std::string &getName() const { return name; }
  void getClassName(std::string &aClassName) const { aClassName = typeid(*this).name(); }
  void setReady(const bool sready = true) { ready = sready; }
  virtual void addDependency(const SignalBase<Time> &) {}
  virtual void removeDependency(const SignalBase<Time> &) {}
  virtual void clearDependencies() {}
  virtual bool needUpdate(const Time &) const { return ready; }
  virtual void setPeriodTime(const Time &) {}
  virtual Time getPeriodTime() const { return 1; }
  virtual void plug(SignalBase<Time> *) {
    DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Plug-in operation not possible with this signal. ");
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void recompute(const Time &) {
    DG_THROW ExceptionSignal(ExceptionSignal::SET_IMPOSSIBLE, "Recompute operation not possible with this signal. ");
  }
  virtual void set(std::istringstream &) {}
  virtual void get(std::ostream &) const {}
  virtual void trace(std::ostream &) const {}
  virtual std::ostream &display(std::ostream &os) const { return os << "Sig:" << name; }
  std::string shortName() const {
    std::string::size_type p = name.rfind(':');
    return p == std::string::npos ? name : name.substr(p + 1);
  }
  virtual void checkCompatibility() {}

 protected:
  std::string name;
  Time signalTime;
  bool ready;
};
template <class Time>
std::ostream &operator<<(std::ostream &os, const SignalBase<Time> &s) { return s.display(os); }

/* ----------------------------------------------------------------- signal */
template <class T, class Time>
class Signal : public SignalBase<Time> {
 public:
  typedef T type;
  typedef int MutexShim;
  enum SignalType { CONSTANT, REFERENCE, REFERENCE_NON_CONST, FUNCTION };
  explicit Signal(std::string name) : SignalBase<Time>(name), signalType(CONSTANT), Treference(0),
        TreferenceNonConst(0), keepReference(false), Tcopy1(), Tcopy2(), Tcopy(&Tcopy1), copyInit(false) {}
  virtual ~Signal() {}
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW

  virtual const T &accessCopy() const { return *Tcopy; }
  virtual const T &access(const Time &t) {
    switch (signalType) {
      case REFERENCE:
      case REFERENCE_NON_CONST:
        copyInit = true;
        this->signalTime = t;
        return setTcopy(*Treference);
      case CONSTANT:
        if (this->getReady()) {
          this->setReady(false);
          this->setTime(t);
        }
        return accessCopy();
      case FUNCTION:
      default:
        this->signalTime = t;
        Tfunction(getTwork(), t);
        copyInit = true;
        return switchTcopy();
    }
  }
  virtual const T &operator()(const Time &t) { return access(t); }
  operator const T &() const { return accessCopy(); }
  virtual Signal &operator=(const T &t) {
    if (keepReference && REFERENCE_NON_CONST == signalType && TreferenceNonConst) {
      *TreferenceNonConst = t;
      this->setReady();
    } else
      setConstant(t);
    return *this;
  }
  virtual void setConstant(const T &t) {
    signalType = CONSTANT;
    setTcopy(t);
    this->setReady();
  }
  virtual void setReference(const T *t, MutexShim * = NULL) {
    signalType = REFERENCE;
    Treference = t;
    copyInit = false;
    this->setReady();
  }
  virtual void setReferenceNonConstant(T *t, MutexShim *m = NULL) {
    setReference(t, m);
    signalType = REFERENCE_NON_CONST;
    TreferenceNonConst = t;
  }
  virtual void setFunction(boost::function2<T &, T &, Time> t, MutexShim * = NULL) {
    signalType = FUNCTION;
    Tfunction = t;
    copyInit = false;
    this->setReady();
  }
  bool getKeepReference() { return keepReference; }
  void setKeepReference(const bool &v) { keepReference = v; }
  virtual void recompute(const Time &t) { access(t); }

 protected:
  T &getTwork() { return &Tcopy1 == Tcopy ? Tcopy2 : Tcopy1; }
  const T &switchTcopy() {
    Tcopy = (Tcopy == &Tcopy1) ? &Tcopy2 : &Tcopy1;
    return *Tcopy;
  }
  const T &setTcopy(const T &t) {
    T &w = getTwork();
    w = t;
    copyInit = true;
    Tcopy = &w;
    return w;
  }
  SignalType signalType;
  const T *Treference;
  T *TreferenceNonConst;
  boost::function2<T &, T &, Time> Tfunction;
  bool keepReference;
  T Tcopy1, Tcopy2;
  T *Tcopy;
  bool copyInit;

 private:
  Signal(const Signal &);
};

/* ---------------------------------------------------------- signal caster */
template <typename T> struct signal_io {
  static void disp(const T &v, std::ostream &os) { os << v << '\n'; }
  static T cast(std::istringstream &is) { T v; is >> v; return v; }
  static void trace(const T &v, std::ostream &os) { disp(v, os); }
};
template <typename T> struct signal_io_unimplemented {
  static void disp(const T &, std::ostream &) { throw std::logic_error("this disp is not implemented."); }
  static T cast(std::istringstream &) { throw std::logic_error("this cast is not implemented."); }
  static void trace(const T &, std::ostream &) { throw std::logic_error("this trace is not implemented."); }
};

/* ------------------------------------------------------------- signal ptr */
template <class T, class Time>
class SignalPtr : public Signal<T, Time> {
  typedef Signal<T, Time> Base;

 public:
  SignalPtr(Signal<T, Time> *ptr, std::string name = "") : Base(name), signalPtr(ptr), modeNoThrow(false) {}
  virtual ~SignalPtr() { signalPtr = NULL; }
  using Base::operator=;
  virtual Signal<T, Time> *getPtr() {
    if (NULL == signalPtr)
      DG_THROW ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "In SignalPtr: SIN ptr not set.", "(in signal <%s>)",
                               this->getName().c_str());
    return signalPtr;
  }
  virtual const Signal<T, Time> *getPtr() const { return const_cast<SignalPtr *>(this)->getPtr(); }
  virtual void plug(SignalBase<Time> *ref) {
    if (!ref) {
      signalPtr = NULL;
      return;
    }
    Signal<T, Time> *p = dynamic_cast<Signal<T, Time> *>(ref);
    if (!p)
      DG_THROW ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE, "Compl. Uncompatible types for plugging.",
                               "(while trying to plug <%s> on <%s>)", ref->getName().c_str(), this->getName().c_str());
    signalPtr = p;
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return NULL != signalPtr; }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  virtual bool needUpdate(const Time &t) const {
    if (!autoref() && signalPtr) return signalPtr->needUpdate(t);
    return Base::needUpdate(t);
  }
  virtual const Time &getTime() const {
    if (autoref() || !signalPtr) return Base::getTime();
    return getPtr()->getTime();
  }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual const T &access(const Time &t) {
    if (autoref()) return Base::access(t);
    return getPtr()->access(t);
  }
  virtual const T &accessCopy() const {
    if (autoref()) return Base::accessCopy();
    return getPtr()->accessCopy();
  }
  operator const T &() const { return accessCopy(); }
  virtual void recompute(const Time &t) { access(t); }
  virtual Signal<T, Time> &operator=(const T &t) {
    plug(this);
    return Base::operator=(t);
  }
  virtual void setConstant(const T &t) { plug(this); Base::setConstant(t); }
  virtual void setReference(const T *t, typename Base::MutexShim *m = NULL) { plug(this); Base::setReference(t, m); }
  virtual void setReferenceNonConstant(T *t, typename Base::MutexShim *m = NULL) {
    plug(this);
    Base::setReferenceNonConstant(t, m);
  }
  virtual void setFunction(boost::function2<T &, T &, Time> t, typename Base::MutexShim *m = NULL) {
    plug(this);
    Base::setFunction(t, m);
  }

 protected:
  bool autoref() const { return signalPtr == static_cast<const Signal<T, Time> *>(this); }
  Signal<T, Time> *signalPtr;
  bool modeNoThrow;
};

/* -------------------------------------------------------- time dependency */
template <class Time>
class TimeDependency {
 public:
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
  mutable Time lastAskForUpdate;
  SignalBase<Time> &leader;
  std::list<const SignalBase<Time> *> dependencies;
  bool updateFromAllChildren;
  DependencyType dependencyType;
  Time periodTime;
  TimeDependency(SignalBase<Time> *sig, const SignalArray<Time> &arr, const DependencyType dep = TIME_DEPENDENT)
      : lastAskForUpdate(), leader(*sig), updateFromAllChildren(false), dependencyType(dep), periodTime(1) {
    addDependencies(arr);
  }
  virtual ~TimeDependency() {}
  void addDependencies(const SignalArray<Time> &arr) {
    for (std::size_t i = 0; i < arr.getSize(); ++i) addDependency(arr[i]);
  }
  void addDependency(const SignalBase<Time> &sig) { dependencies.push_front(&sig); }
  void removeDependency(const SignalBase<Time> &sig) { dependencies.remove(&sig); }
  void clearDependency() { dependencies.clear(); }
  void setDependencyType(DependencyType d) { dependencyType = d; }
  void setNeedUpdateFromAllChildren(const bool b = true) { updateFromAllChildren = b; }
  bool getNeedUpdateFromAllChildren() const { return updateFromAllChildren; }
  bool needUpdate(const Time &t1) const {
    if (dependencyType == ALWAYS_READY) return true;
    if (dependencyType == BOOL_DEPENDENT) return leader.getReady();
    if (leader.getReady()) return true;
    if (leader.getTime() + periodTime > t1) return false;
    bool res = false;
    for (const SignalBase<Time> *d : dependencies) {
      if (d->needUpdate(t1) || d->getTime() > leader.getTime()) {
        res = true;
        if (!updateFromAllChildren) break;
      }
    }
    return res;
  }
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() const { return periodTime; }
};

template <class T, class Time>
class SignalTimeDependent : public Signal<T, Time>, protected TimeDependency<Time> {
 public:
  typedef TimeDependency<Time> TD;
  explicit SignalTimeDependent(std::string name = "signal")
      : Signal<T, Time>(name), TD(this, SignalArray<Time>(0)) {}
  SignalTimeDependent(const SignalArray<Time> &arr, std::string name = "") : Signal<T, Time>(name), TD(this, arr) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> t, const SignalArray<Time> &sig, std::string name = "")
      : Signal<T, Time>(name), TD(this, sig) {
    this->setFunction(t);
  }
  virtual ~SignalTimeDependent() {}
  using Signal<T, Time>::operator=;
  const T &operator()(const Time &t1) { return access(t1); }
  const T &access(const Time &t1) {
    if (TD::needUpdate(t1)) {
      TD::lastAskForUpdate = t1;
      const T &r = Signal<T, Time>::access(t1);
      this->setReady(false);
      return r;
    }
    return Signal<T, Time>::accessCopy();
  }
  void recompute(const Time &t) { access(t); }
  virtual void addDependencies(const SignalArray<Time> &sigarr) { TD::addDependencies(sigarr); }
  virtual void addDependency(const SignalBase<Time> &sig) { TD::addDependency(sig); }
  virtual void removeDependency(const SignalBase<Time> &sig) { TD::removeDependency(sig); }
  virtual void clearDependencies() { TD::clearDependency(); }
  virtual bool needUpdate(const Time &t) const { return TD::needUpdate(t); }
  void setDependencyType(typename TD::DependencyType d) { TD::setDependencyType(d); }
  void setNeedUpdateFromAllChildren(const bool b = true) { TD::setNeedUpdateFromAllChildren(b); }
  virtual void setPeriodTime(const Time &p) { TD::setPeriodTime(p); }
  virtual Time getPeriodTime() const { return TD::getPeriodTime(); }
  /// shim only: for checks that look at the dependency set
  const std::list<const SignalBase<Time> *> &shimDependencies() const { return TD::dependencies; }
};

/* --------------------------------------------------------------- commands */
class Entity;
namespace command {
class Value {
 public:
  enum Type { NONE, BOOL, UNSIGNED, INT, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D, VALUES, NB_TYPES };
  Value() : type_(NONE), u_(0) {}
  Value(const bool &v) : type_(BOOL), u_(v) {}
  Value(const unsigned &v) : type_(UNSIGNED), u_(v) {}
  Value(const unsigned long &v) : type_(UNSIGNED), u_((unsigned)v) {}
  Value(const int &v) : type_(INT), i_(v) {}
  Value(const float &v) : type_(FLOAT), d_(v) {}
  Value(const double &v) : type_(DOUBLE), d_(v) {}
  Value(const std::string &v) : type_(STRING), s_(v) {}
  Value(const char *v) : type_(STRING), s_(v) {}
  Value(const Vector &v) : type_(VECTOR), v_(v) {}
  Value(const Matrix &v) : type_(MATRIX), m_(v) {}
  Value(const Eigen::Matrix4d &v) : type_(MATRIX4D), m_(v) {}
  Value(const std::vector<Value> &v) : type_(VALUES), vs_(new std::vector<Value>(v)) {}
  Type type() const { return type_; }
  const Value value() const { return *this; }
  bool boolValue() const { return (need(BOOL), u_ != 0); }
  unsigned unsignedValue() const { return (need(UNSIGNED), u_); }
  int intValue() const { return (need(INT), i_); }
  float floatValue() const { return (need(FLOAT), (float)d_); }
  double doubleValue() const {
    if (type_ == FLOAT) return d_;
    if (type_ == INT) return i_;
    if (type_ == UNSIGNED) return u_;
    return (need(DOUBLE), d_);
  }
  std::string stringValue() const { return (need(STRING), s_); }
  Vector vectorValue() const { return (need(VECTOR), v_); }
  Matrix matrixXdValue() const { return (need(MATRIX), m_); }
  Eigen::Matrix4d matrix4dValue() const { return (need(MATRIX4D), Eigen::Matrix4d(m_)); }
  std::vector<Value> valuesValue() const { return (need(VALUES), *vs_); }
  operator bool() const { return boolValue(); }
  operator unsigned() const { return unsignedValue(); }
  operator int() const { return intValue(); }
  operator float() const { return floatValue(); }
  operator double() const { return doubleValue(); }
  operator std::string() const { return stringValue(); }
  operator Vector() const { return vectorValue(); }
  operator Matrix() const { return matrixXdValue(); }
  operator Eigen::Matrix4d() const { return matrix4dValue(); }
  static std::string typeName(Type t) {
    static const char *n[] = {"void", "bool", "unsigned int", "int", "float", "double", "string", "vector",
                              "matrixXd", "matrix4d", "values", "unknown"};
    return n[t];
  }

 private:
  void need(Type t) const {
    if (type_ != t) DG_THROW ExceptionAbstract(ExceptionAbstract::TOOLS, "value is not a " + typeName(t));
  }
  Type type_;
  union { unsigned u_; int i_; double d_; };
  std::string s_;
  Vector v_;
  Matrix m_;
  std::shared_ptr<std::vector<Value> > vs_;
};
typedef std::vector<Value> Values;
template <typename T> struct TypeIdOf { enum { id = Value::NONE }; };
#define VERIF_VH(T, ID) template <> struct TypeIdOf<T> { enum { id = Value::ID }; };
VERIF_VH(bool, BOOL) VERIF_VH(unsigned, UNSIGNED) VERIF_VH(int, INT) VERIF_VH(float, FLOAT) VERIF_VH(double, DOUBLE)
VERIF_VH(std::string, STRING) VERIF_VH(Vector, VECTOR) VERIF_VH(Matrix, MATRIX) VERIF_VH(Eigen::Matrix4d, MATRIX4D)
VERIF_VH(Values, VALUES)
template <typename T> struct ValueHelper { static const Value::Type TypeID; };
template <typename T> const Value::Type ValueHelper<T>::TypeID = (Value::Type)TypeIdOf<T>::id;
// conversion of one argument
template <typename T> struct ArgOf { static T get(const Value &v) { return static_cast<T>(v); } };
template <> struct ArgOf<std::string> { static std::string get(const Value &v) { return v.stringValue(); } };
template <> struct ArgOf<Vector> { static Vector get(const Value &v) { return v.vectorValue(); } };
template <> struct ArgOf<Matrix> { static Matrix get(const Value &v) { return v.matrixXdValue(); } };
template <> struct ArgOf<Eigen::Matrix4d> { static Eigen::Matrix4d get(const Value &v) { return v.matrix4dValue(); } };
template <> struct ArgOf<Values> { static Values get(const Value &v) { return v.valuesValue(); } };

class Command {
 public:
  virtual ~Command() {}
  Command(Entity &entity, const std::vector<Value::Type> &types, const std::string &doc)
      : owner_(entity), types_(types), doc_(doc) {}
  const std::vector<Value::Type> &valueTypes() const { return types_; }
  void setParameterValues(const std::vector<Value> &values) {
    if (values.size() != types_.size())
      DG_THROW ExceptionAbstract(ExceptionAbstract::TOOLS, "wrong number of parameters");
    for (std::size_t i = 0; i < values.size(); ++i) {
      Value::Type a = values[i].type(), b = types_[i];
      bool ok = a == b || (b == Value::DOUBLE && (a == Value::FLOAT || a == Value::INT || a == Value::UNSIGNED));
      if (!ok) DG_THROW ExceptionAbstract(ExceptionAbstract::TOOLS, "argument is of wrong type");
    }
    values_ = values;
  }
  const std::vector<Value> &getParameterValues() const { return values_; }
  Value execute() { return doExecute(); }
  Entity &owner() { return owner_; }
  std::string getDocstring() const { return doc_; }

 protected:
  virtual Value doExecute() = 0;

 private:
  Entity &owner_;
  std::vector<Value::Type> types_;
  std::vector<Value> values_;
  std::string doc_;
};
template <class E, typename T>
class Setter : public Command {
 public:
  typedef void (E::*SetterMethod)(const T &);
  Setter(E &entity, SetterMethod m, const std::string &doc)
      : Command(entity, std::vector<Value::Type>(1, ValueHelper<T>::TypeID), doc), m_(m) {}

 protected:
  virtual Value doExecute() {
    E &e = static_cast<E &>(owner());
    (e.*m_)(ArgOf<T>::get(getParameterValues()[0]));
    return Value();
  }
  SetterMethod m_;
};
template <class E, typename T>
class Getter : public Command {
 public:
  typedef T (E::*GetterMethod)() const;
  Getter(E &entity, GetterMethod m, const std::string &doc)
      : Command(entity, std::vector<Value::Type>(), doc), m_(m) {}

 protected:
  virtual Value doExecute() { return Value((static_cast<E &>(owner()).*m_)()); }
  GetterMethod m_;
};
template <class E, typename T>
class DirectSetter : public Command {
 public:
  DirectSetter(E &entity, T *ptr, const std::string &doc)
      : Command(entity, std::vector<Value::Type>(1, ValueHelper<T>::TypeID), doc), p_(ptr) {}

 protected:
  virtual Value doExecute() { *p_ = ArgOf<T>::get(getParameterValues()[0]); return Value(); }
  T *p_;
};
template <class E, typename T>
class DirectGetter : public Command {
 public:
  DirectGetter(E &entity, T *ptr, const std::string &doc) : Command(entity, std::vector<Value::Type>(), doc), p_(ptr) {}

 protected:
  virtual Value doExecute() { return Value(*p_); }
  T *p_;
};
template <class E, typename T>
DirectSetter<E, T> *makeDirectSetter(E &e, T *p, const std::string &d) { return new DirectSetter<E, T>(e, p, d); }
template <class E, typename T>
DirectGetter<E, T> *makeDirectGetter(E &e, T *p, const std::string &d) { return new DirectGetter<E, T>(e, p, d); }
inline std::string docDirectSetter(const std::string &n, const std::string &t) { return "Set " + n + " " + t; }
inline std::string docDirectGetter(const std::string &n, const std::string &t) { return "Get " + n + " " + t; }

// generic command calling a std::function on converted values
class FnCommand : public Command {
 public:
  FnCommand(Entity &e, const std::vector<Value::Type> &t, const std::string &d,
            const std::function<Value(const std::vector<Value> &)> &f)
      : Command(e, t, d), f_(f) {}

 protected:
  virtual Value doExecute() { return f_(getParameterValues()); }
  std::function<Value(const std::vector<Value> &)> f_;
};
template <class E>
Command *makeCommandVoid0(E &e, boost::function<void(void)> f, const std::string &d) {
  return new FnCommand(e, {}, d, [f](const std::vector<Value> &) { f(); return Value(); });
}
template <class E, class B>
Command *makeCommandVoid0(E &e, void (B::*f)(void), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {}, d, [b, f](const std::vector<Value> &) { (b->*f)(); return Value(); });
}
#define VERIF_VT(T) ValueHelper<T>::TypeID
#define VERIF_A(T, i) ArgOf<T>::get(v[i])
template <class E, typename T>
Command *makeCommandVoid1(E &e, boost::function<void(const T &)> f, const std::string &d) {
  return new FnCommand(e, {VERIF_VT(T)}, d, [f](const std::vector<Value> &v) { f(VERIF_A(T, 0)); return Value(); });
}
template <class E, class B, typename T>
Command *makeCommandVoid1(E &e, void (B::*f)(const T &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {VERIF_VT(T)}, d, [b, f](const std::vector<Value> &v) { (b->*f)(VERIF_A(T, 0)); return Value(); });
}
template <class E, typename T1, typename T2>
Command *makeCommandVoid2(E &e, boost::function<void(const T1 &, const T2 &)> f, const std::string &d) {
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2)}, d,
                       [f](const std::vector<Value> &v) { f(VERIF_A(T1, 0), VERIF_A(T2, 1)); return Value(); });
}
template <class E, class B, typename T1, typename T2>
Command *makeCommandVoid2(E &e, void (B::*f)(const T1 &, const T2 &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2)}, d,
                       [b, f](const std::vector<Value> &v) { (b->*f)(VERIF_A(T1, 0), VERIF_A(T2, 1)); return Value(); });
}
template <class E, typename T1, typename T2, typename T3>
Command *makeCommandVoid3(E &e, boost::function<void(const T1 &, const T2 &, const T3 &)> f, const std::string &d) {
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2), VERIF_VT(T3)}, d, [f](const std::vector<Value> &v) {
    f(VERIF_A(T1, 0), VERIF_A(T2, 1), VERIF_A(T3, 2)); return Value(); });
}
template <class E, class B, typename T1, typename T2, typename T3>
Command *makeCommandVoid3(E &e, void (B::*f)(const T1 &, const T2 &, const T3 &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2), VERIF_VT(T3)}, d, [b, f](const std::vector<Value> &v) {
    (b->*f)(VERIF_A(T1, 0), VERIF_A(T2, 1), VERIF_A(T3, 2)); return Value(); });
}
template <class E, typename T1, typename T2, typename T3, typename T4>
Command *makeCommandVoid4(E &e, boost::function<void(const T1 &, const T2 &, const T3 &, const T4 &)> f, const std::string &d) {
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2), VERIF_VT(T3), VERIF_VT(T4)}, d, [f](const std::vector<Value> &v) {
    f(VERIF_A(T1, 0), VERIF_A(T2, 1), VERIF_A(T3, 2), VERIF_A(T4, 3)); return Value(); });
}
template <class E, class B, typename T1, typename T2, typename T3, typename T4>
Command *makeCommandVoid4(E &e, void (B::*f)(const T1 &, const T2 &, const T3 &, const T4 &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2), VERIF_VT(T3), VERIF_VT(T4)}, d, [b, f](const std::vector<Value> &v) {
    (b->*f)(VERIF_A(T1, 0), VERIF_A(T2, 1), VERIF_A(T3, 2), VERIF_A(T4, 3)); return Value(); });
}
template <class E, class B, typename R>
Command *makeCommandReturnType0(E &e, R (B::*f)(), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {}, d, [b, f](const std::vector<Value> &) { return Value((b->*f)()); });
}
template <class E, class B, typename R, typename T>
Command *makeCommandReturnType1(E &e, R (B::*f)(const T &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {VERIF_VT(T)}, d, [b, f](const std::vector<Value> &v) { return Value((b->*f)(VERIF_A(T, 0))); });
}
template <class E, class B, typename R, typename T1, typename T2>
Command *makeCommandReturnType2(E &e, R (B::*f)(const T1 &, const T2 &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {VERIF_VT(T1), VERIF_VT(T2)}, d,
                       [b, f](const std::vector<Value> &v) { return Value((b->*f)(VERIF_A(T1, 0), VERIF_A(T2, 1))); });
}
template <class E>
Command *makeCommandVerbose(E &e, const boost::function<void(std::ostream &)> &f, const std::string &d) {
  return new FnCommand(e, {}, d, [f](const std::vector<Value> &) { std::ostringstream o; f(o); return Value(o.str()); });
}
template <class E, class B>
Command *makeCommandVerbose(E &e, void (B::*f)(std::ostream &), const std::string &d) {
  B *b = &e;
  return new FnCommand(e, {}, d, [b, f](const std::vector<Value> &) { std::ostringstream o; (b->*f)(o); return Value(o.str()); });
}
template <class E, class B>
Command *makeCommandVerbose(E &e, void (B::*f)(std::ostream &) const, const std::string &d) {
  const B *b = &e;
  return new FnCommand(e, {}, d, [b, f](const std::vector<Value> &) { std::ostringstream o; (b->*f)(o); return Value(o.str()); });
}
inline std::string docCommandVoid0(const std::string &d) { return d + "\nVoid input.\nVoid return.\n\n"; }
inline std::string docCommandVoid1(const std::string &d, const std::string &a) { return d + "\nInput:\n - A " + a + ".\nVoid return.\n\n"; }
inline std::string docCommandVoid2(const std::string &d, const std::string &a, const std::string &b) { return docCommandVoid1(d, a) + b; }
inline std::string docCommandVoid3(const std::string &d, const std::string &a, const std::string &b, const std::string &c) { return docCommandVoid2(d, a, b) + c; }
inline std::string docCommandVoid4(const std::string &d, const std::string &a, const std::string &b, const std::string &c, const std::string &e) { return docCommandVoid3(d, a, b, c) + e; }
template <typename R> std::string docCommandReturnType0(const std::string &d) { return d; }
template <typename R> std::string docCommandReturnType1(const std::string &d, const std::string &a) { return d + a; }
template <typename R> std::string docCommandReturnType2(const std::string &d, const std::string &a, const std::string &b) { return d + a + b; }
inline std::string docCommandVerbose(const std::string &d) { return d; }
}  // namespace command

/* ----------------------------------------------------------------- entity */
class Entity {
 public:
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  typedef std::map<const std::string, command::Command *> CommandMap_t;
  explicit Entity(const std::string &n);
  virtual ~Entity();
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName() const {
    static const std::string c("Entity");
    return c;
  }
  virtual std::string getDocString() const { return docString; }
  bool hasSignal(const std::string &s) const { return signalMap.count(s) != 0; }
  SignalBase<int> &getSignal(const std::string &s) {
    SignalMap::iterator it = signalMap.find(s);
    if (it == signalMap.end())
      DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "The requested signal is not registered", ": %s", s.c_str());
    return *it->second;
  }
  const SignalBase<int> &getSignal(const std::string &s) const { return const_cast<Entity *>(this)->getSignal(s); }
  SignalMap getSignalMap() const { return signalMap; }
  virtual void display(std::ostream &os) const { os << getClassName() << ": " << name; }
  virtual SignalBase<int> *test() { return 0; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os << "\t\"" << name << "\"\n"; }
  std::ostream &displaySignalList(std::ostream &os) const { return os; }
  const CommandMap_t getNewStyleCommandMap() { return commandMap; }
  command::Command *getNewStyleCommand(const std::string &n) {
    CommandMap_t::iterator it = commandMap.find(n);
    if (it == commandMap.end())
      DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_FUNCTION, "Command <" + n + "> is not registered in Entity.");
    return it->second;
  }
  std::string getCommandList() const { return ""; }
  void setLoggerVerbosityLevel(LoggerVerbosity lv) { logger_.setVerbosity(lv); }
  LoggerVerbosity getLoggerVerbosityLevel() { return logger_.getVerbosity(); }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }
  void sendMsg(const std::string &m, MsgType t = MSG_TYPE_INFO, const std::string &l = "") const {
    const_cast<Logger &>(logger_).sendMsg(m, t, l);
  }
  bool setTimeSample(double) { return true; }
  /// shim only: run a command with the given values
  command::Value shimCall(const std::string &n, const std::vector<command::Value> &v = {}) {
    command::Command *c = getNewStyleCommand(n);
    c->setParameterValues(v);
    return c->execute();
  }

 protected:
  void addCommand(const std::string &n, command::Command *c) {
    if (commandMap.count(n))
      DG_THROW ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Command " + n + " already registered in Entity.");
    commandMap[n] = c;
  }
  void entityRegistration();
  void entityDeregistration();
  void signalRegistration(const SignalArray<int> &signals) {
    for (std::size_t i = 0; i < signals.getSize(); ++i) {
      std::string s = signals[i].shortName();
      if (signalMap.count(s) && signalMap[s] != &signals[i])
        throw ExceptionFactory(ExceptionFactory::SIGNAL_CONFLICT, "Another signal already defined with the same name. ",
                               "Signal name is <%s>.", s.c_str());
      signalMap[s] = &signals[i];
    }
  }
  void signalDeregistration(const std::string &n) {
    if (!signalMap.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "No signal to be removed.", "Name is <%s>.", n.c_str());
    signalMap.erase(n);
  }
  std::string name;
  SignalMap signalMap;
  CommandMap_t commandMap;
  std::string docString;
  Logger logger_;
};
inline std::ostream &operator<<(std::ostream &os, const Entity &e) { e.display(os); return os; }

template <typename T>
struct EntityHelper { typedef T EntityClassName; };

/* ------------------------------------------------------------------- pool */
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  static PoolStorage *getInstance() {
    if (!instance()) instance() = new PoolStorage;
    return instance();
  }
  static void destroy() { delete instance(); instance() = 0; }
  const Entities &getEntityMap() const { return entityMap; }
  void registerEntity(const std::string &n, Entity *e) {
    if (entityMap.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Another entity already defined with the same name. ",
                             "Entity name is <%s>.", n.c_str());
    entityMap[n] = e;
  }
  void deregisterEntity(const std::string &n) {
    if (!entityMap.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT, "Entity name doesnot exist in the pool.", "Entity name is <%s>.",
                             n.c_str());
    entityMap.erase(n);
  }
  void forget(const std::string &n, const Entity *e) {
    Entities::iterator it = entityMap.find(n);
    if (it != entityMap.end() && it->second == e) entityMap.erase(it);
  }
  Entity &getEntity(const std::string &n) {
    Entities::iterator it = entityMap.find(n);
    if (it == entityMap.end())
      DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (while calling <%s>)", n.c_str());
    return *it->second;
  }
  bool existEntity(const std::string &n) { return entityMap.count(n) != 0; }
  bool existEntity(const std::string &n, Entity *&p) {
    Entities::iterator it = entityMap.find(n);
    if (it == entityMap.end()) return false;
    p = it->second;
    return true;
  }
  void clearPlugin(const std::string &n) {
    Entities::iterator it = entityMap.find(n);
    if (it != entityMap.end()) delete it->second;
  }
  SignalBase<int> &getSignal(std::istringstream &sigpath) {
    std::string s;
    sigpath >> s;
    std::string::size_type p = s.rfind('.');
    if (p == std::string::npos)
      DG_THROW ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "Parse error in signal name");
    return getEntity(s.substr(0, p)).getSignal(s.substr(p + 1));
  }

 private:
  static PoolStorage *&instance() { static PoolStorage *p = 0; return p; }
  Entities entityMap;
};
class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  static FactoryStorage *getInstance() { static FactoryStorage f; return &f; }
  void registerEntity(const std::string &c, EntityConstructor_ptr p) { m[c] = p; }
  void deregisterEntity(const std::string &c) { m.erase(c); }
  bool existEntity(const std::string &c) { return m.count(c) != 0; }
  Entity *newEntity(const std::string &c, const std::string &n) {
    if (!m.count(c)) throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT, "Unknown entity.", " (%s)", c.c_str());
    return m[c](n);
  }
  /// shim only: the registered classes
  std::vector<std::string> shimNames() const {
    std::vector<std::string> r;
    for (std::map<std::string, EntityConstructor_ptr>::const_iterator i = m.begin(); i != m.end(); ++i) r.push_back(i->first);
    return r;
  }

 private:
  std::map<std::string, EntityConstructor_ptr> m;
};
class EntityRegisterer {
 public:
  EntityRegisterer(const std::string &c, FactoryStorage::EntityConstructor_ptr p) : c_(c) {
    FactoryStorage::getInstance()->registerEntity(c, p);
  }
  std::string c_;
};
inline Entity::Entity(const std::string &n) : name(n) {
  if (name == "") {
    static int id = 0;
    std::ostringstream o;
    o << "ent" << ++id;
    name = o.str();
  }
  entityRegistration();
}
inline void Entity::entityRegistration() { PoolStorage::getInstance()->registerEntity(name, this); }
inline void Entity::entityDeregistration() { PoolStorage::getInstance()->deregisterEntity(name); }
inline Entity::~Entity() {
  PoolStorage::getInstance()->forget(name, this);
  for (CommandMap_t::iterator it = commandMap.begin(); it != commandMap.end(); ++it) delete it->second;
}
}  // namespace dynamicgraph

#define DYNAMIC_GRAPH_ENTITY_DECL()                                          \
 public:                                                                     \
  virtual const std::string &getClassName() const { return CLASS_NAME; }     \
  static const std::string CLASS_NAME

#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASSTYPE, CLASSNAME)             \
  const std::string CLASSTYPE::CLASS_NAME = CLASSNAME;                       \
  extern "C" {                                                               \
  ::dynamicgraph::Entity *EntityMaker##_##CLASSTYPE(const std::string &objname) { return new CLASSTYPE(objname); } \
  ::dynamicgraph::EntityRegisterer reg##_##CLASSTYPE(CLASSNAME, &EntityMaker##_##CLASSTYPE); \
  }                                                                          \
  struct e_n_d__w_i_t_h__s_e_m_i_c_o_l_o_n##CLASSTYPE

/* ---------------------------------------------------------- signal helper */
#define VERIF_SIGNAME(io, name, type) getClassName() + "(" + getName() + ")::" #io "(" #type ")::" #name
#define DECLARE_SIGNAL(name, IO, type) ::dynamicgraph::Signal<type, int> m_##name##S##IO
#define CONSTRUCT_SIGNAL(name, IO, type) m_##name##S##IO(VERIF_SIGNAME(IO##put, name, type))
#define DECLARE_SIGNAL_IN(name, type) ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define CONSTRUCT_SIGNAL_IN(name, type) m_##name##SIN(NULL, VERIF_SIGNAME(input, name, type))
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) type &name##SOUT_function(type &, int)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) type &EntityClassName::name##SOUT_function(type &s, int iter)
#define DECLARE_SIGNAL_OUT(name, type)                                       \
 public:                                                                     \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT;             \
                                                                             \
 protected:                                                                  \
  DECLARE_SIGNAL_OUT_FUNCTION(name, type)
#define CONSTRUCT_SIGNAL_OUT(name, type, dep)                                \
  m_##name##SOUT(boost::bind(&EntityClassName::name##SOUT_function, this, _1, _2), dep, VERIF_SIGNAME(output, name, type))
#define DECLARE_SIGNAL_INNER_FUNCTION(name, type) type &name##SINNER_function(type &, int)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) type &EntityClassName::name##SINNER_function(type &s, int iter)
#define DECLARE_SIGNAL_INNER(name, type)                                     \
 public:                                                                     \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER;           \
                                                                             \
 protected:                                                                  \
  DECLARE_SIGNAL_INNER_FUNCTION(name, type)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep)                              \
  m_##name##SINNER(boost::bind(&EntityClassName::name##SINNER_function, this, _1, _2), dep, VERIF_SIGNAME(inner, name, type))
#define DG_ADD_CASTER(TYPE, ID)
#define DG_SIGNAL_CAST_DEFINITION(TYPE)
#define DG_SIGNAL_CAST_DEFINITION_HPP(TYPE)
#define DG_SIGNAL_CAST_DEFINITION_TRACE(TYPE)

/* --------------------------------------------------------------- eigen io */
namespace Eigen {
// dynamic-graph's own stream operators for Eigen vectors and matrices
inline std::istream &operator>>(std::istream &is, VectorXd &v) {
  unsigned n;
  char c;
  if (is >> c && c == '[' && is >> n >> c) {
    v.resize(n);
    is >> c;
    for (unsigned i = 0; i < n; ++i) is >> v[i] >> c;
  }
  return is;
}
template <int M>
inline std::ostream &operator<<(std::ostream &os, const Transform<double, 3, M> &h) { return os << h.matrix(); }
inline std::ostream &operator<<(std::ostream &os, const AngleAxisd &q) {
  return os << q.angle() * q.axis().transpose();
}
}  // namespace Eigen
#endif
