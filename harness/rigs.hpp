// Entities of every class with well-formed inputs: how to build them, what their inputs look like, and their outputs as numbers.
#ifndef VERIF_RIGS_HPP
#define VERIF_RIGS_HPP
#define VERIF_WITH_FLAGS
#include <sot/core/flags.hh>
#include <sot/core/multi-bound.hh>
#include <sot/core/variadic-op.hh>
#include "ent.hpp"
using dynamicgraph::command::Value;
using dynamicgraph::sot::Flags;
using dynamicgraph::sot::MatrixRotation;
using dynamicgraph::sot::MatrixTwist;
using dynamicgraph::sot::MultiBound;
using dynamicgraph::sot::VectorMultiBound;
using dynamicgraph::sot::VectorQuaternion;
using dynamicgraph::sot::VectorRollPitchYaw;
using dynamicgraph::sot::VectorUTheta;
typedef dg::SignalBase<int> Base;
typedef std::vector<double> Flat;

/* ------------------------------------------------------ values of each type */
struct Dims {
  int n, m, q;
};
// "a" or "a,b": n, m, q, 2 (twice n), or digits
static int dim(const std::string &s, const Dims &d) {
  if (s == "n") return d.n;
  if (s == "m") return d.m;
  if (s == "q") return d.q;
  if (s == "2n") return 2 * d.n;
  return atoi(s.c_str());
}
static void draw(pbt::Gen &g, const std::string &sh, const Dims &, double &v) { v = sh == "+" ? g.real(.1, 3) : g.real(-5, 5); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, int &v) { v = (int)g.integer(0, 2); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, unsigned &v) { v = (unsigned)g.integer(0, 2); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, bool &v) { v = g.flip(); }
static void draw(pbt::Gen &g, const std::string &sh, const Dims &d, Vec &v) {
  size_t p = sh.find('>');  // ">a": above a, "<a": below -a
  bool below = sh.size() && sh[sh.size() - 1] == '-';
  v = genVec(g, dim(p == std::string::npos && below ? sh.substr(0, sh.size() - 1) : sh.substr(0, p), d), 3);
  if (p != std::string::npos) v = (v.array().abs() + atof(sh.c_str() + p + 1)).matrix();
  if (below) v = -v;
}
static void draw(pbt::Gen &g, const std::string &sh, const Dims &d, Mat &v) {
  size_t p = sh.find(',');
  v = genMat(g, dim(sh.substr(0, p), d), dim(sh.substr(p + 1), d), 3);
}
static void draw(pbt::Gen &g, const std::string &sh, const Dims &, Homo &v) { v = mkHomo(sh == "ahead" ? Rot(Rot::Identity()) : genRot(g), genV3(g, 3)); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, MatrixTwist &v) { v = genMat(g, 6, 6, 3); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, MatrixRotation &v) { v = genRot(g); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, VectorQuaternion &v) { v = VectorQuaternion(genRot(g)); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, VectorUTheta &v) { v = VectorUTheta(genRot(g)); }
static void draw(pbt::Gen &g, const std::string &, const Dims &, VectorRollPitchYaw &v) { v = genV3(g, 3); }
static void draw(pbt::Gen &g, const std::string &sh, const Dims &, Flags &v) {
  std::string t = sh == "full" ? "" : g.str("01", 0, 8);
  v = Flags(t.c_str());
  if (sh == "full" || g.flip()) {
    v = !v;  // infinite tail of ones
  }
}
static void flat(Flat &f, double v) { f.push_back(v); }
template <class D>
static void flat(Flat &f, const Eigen::MatrixBase<D> &v) {
  f.push_back((double)v.rows()), f.push_back((double)v.cols());
  for (int i = 0; i < v.rows(); ++i)
    for (int j = 0; j < v.cols(); ++j) f.push_back(v(i, j));
}
static void flat(Flat &f, const Homo &h) { flat(f, h.matrix()); }
static void flat(Flat &f, const VectorQuaternion &q) { flat(f, q.coeffs()); }
static void flat(Flat &f, const VectorUTheta &q) { flat(f, q.axis()), f.push_back(q.angle()); }
static void flat(Flat &f, const VectorMultiBound &v) {
  f.push_back((double)v.size());
  for (auto &b : v) {
    f.push_back(b.getMode());
    if (b.getMode() == MultiBound::MODE_SINGLE) f.push_back(b.getSingleBound());
    else
      for (auto s : {MultiBound::BOUND_INF, MultiBound::BOUND_SUP}) {
        f.push_back(b.getDoubleBoundSetup(s));
        if (b.getDoubleBoundSetup(s)) f.push_back(b.getDoubleBound(s));
      }
  }
}
template <class T>
static bool readAs(Base &s, int t, Flat &f) {
  dg::Signal<T, int> *x = dynamic_cast<dg::Signal<T, int> *>(&s);
  if (x) flat(f, x->access(t));
  return x != NULL;
}
static Flat readAny(Base &s, int t) {
  Flat f;
  if (!(readAs<double>(s, t, f) || readAs<int>(s, t, f) || readAs<unsigned>(s, t, f) || readAs<bool>(s, t, f) || readAs<Vec>(s, t, f) || readAs<Mat>(s, t, f) ||
        readAs<Homo>(s, t, f) || readAs<MatrixTwist>(s, t, f) || readAs<MatrixRotation>(s, t, f) || readAs<VectorQuaternion>(s, t, f) ||
        readAs<VectorUTheta>(s, t, f) || readAs<VectorRollPitchYaw>(s, t, f) || readAs<VectorMultiBound>(s, t, f)))
    f.push_back(-1e300);
  return f;
}
/* ---------------------------------------------------------------- sources */
// the current value of an input, and the ways to give it
struct Source {
  virtual ~Source() {}
  virtual void redraw(pbt::Gen &, const Dims &) = 0;
  virtual void give(Base &in) = 0;                    // as a constant
  virtual void connect(Base &in, int flavour) = 0;    // 0: constant at each change, 1: from a signal set at each change, 2: from a function of time
  virtual void changed() = 0;                         // to the connected inputs
};
template <class T>
struct SourceOf : Source {
  std::string shape;
  T v;
  dg::Signal<T, int> set;
  dg::SignalTimeDependent<T, int> fun;
  std::vector<std::pair<Base *, int>> to;
  explicit SourceOf(const std::string &s) : shape(s), set("set"), fun("fun") {
    fun.setFunction([this](T &r, int) -> T & { return r = v; });
    fun.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY);
  }
  void redraw(pbt::Gen &g, const Dims &d) { draw(g, shape, d, v); }
  void give(Base &in) { dynamic_cast<dg::Signal<T, int> &>(in) = v; }
  void connect(Base &in, int flavour) {
    to.push_back({&in, flavour});
    if (flavour == 1) in.plug(&set);
    if (flavour == 2) in.plug(&fun);
  }
  void changed() {
    set = v;
    for (auto &t : to)
      if (t.second == 0) give(*t.first);
  }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
template <class T>
static bool inputOf(Base &s, const std::string &shape, const char *def, std::unique_ptr<Source> &r) {
  if (!dynamic_cast<dg::SignalPtr<T, int> *>(&s)) return false;
  r.reset(new SourceOf<T>(shape.size() ? shape : def));
  return true;
}
static std::unique_ptr<Source> sourceFor(Base &s, const std::string &sh) {
  std::unique_ptr<Source> r;
  inputOf<double>(s, sh, "", r) || inputOf<int>(s, sh, "", r) || inputOf<unsigned>(s, sh, "", r) || inputOf<bool>(s, sh, "", r) || inputOf<Vec>(s, sh, "n", r) || inputOf<Mat>(s, sh, "n,n", r) ||
      inputOf<Homo>(s, sh, "", r) || inputOf<MatrixTwist>(s, sh, "", r) || inputOf<MatrixRotation>(s, sh, "", r) || inputOf<VectorQuaternion>(s, sh, "", r) ||
      inputOf<VectorUTheta>(s, sh, "", r) || inputOf<VectorRollPitchYaw>(s, sh, "", r) || inputOf<Flags>(s, sh, "", r);
  return r;
}
/* ------------------------------------------------------------------- rigs */
typedef std::map<std::string, std::string> Shapes;
// entities, in the same order at each construction
struct Rig {
  std::vector<std::unique_ptr<Ent>> e;
  std::vector<std::pair<int, std::string>> plugged;
  Ent &add(const std::string &cls) {
    e.emplace_back(new Ent(cls));
    return *e.back();
  }
  const std::string &name(int i) { return (*e[(size_t)i])->getName(); }
  void plug(int from, const std::string &out, int to, const std::string &in) {
    (*e[(size_t)to])->getSignal(in).plug(&(*e[(size_t)from])->getSignal(out));
    plugged.push_back({to, in});
  }
  ~Rig() {
    while (e.size()) e.pop_back();
  }
};
template <class T>
static bool three(dg::Entity *e) {
  auto *v = dynamic_cast<dg::sot::VariadicAbstract<T, T, int> *>(e);
  if (v) v->setSignalNumber(3);
  return v != NULL;
}
struct Kind {
  std::string name;
  std::function<void(Rig &, const std::vector<int> &)> build;  // with choices, the same for both
  Shapes shapes;                                              // "class.signal" -> shape; "" = leave unset
  int nmin;
};
static Shapes common() {
  return {{"FeatureGeneric.jacobianIN", "n,q"}, {"Feature1D.jacobianIN", "n,q"}, {"FeatureTask.jacobianIN", "n,q"}, {"FeatureLineDistance.Jq", "6,q"},
          {"FeatureLineDistance.positionRef", "6"}, {"FeatureLineDistance.vector", "3"}, {"FeaturePoint6d.Jq", "6,q"}, {"FeaturePoint6d.velocity", "6"},
          {"FeaturePoint6dRelative.Jq", "6,q"}, {"FeaturePoint6dRelative.JqRef", "6,q"}, {"FeaturePoint6dRelative.velocity", "6"},
          {"FeaturePose.jaJja", "6,q"}, {"FeaturePose.jbJjb", "6,q"}, {"FeaturePose.faNufafbDes", "6"},
          {"FeaturePoseSE3.jaJja", "6,q"}, {"FeaturePoseSE3.jbJjb", "6,q"}, {"FeaturePoseSE3.faNufafbDes", "6"},
          {"FeatureVisualPoint.xy", "2"}, {"FeatureVisualPoint.Jq", "6,q"}, {"FeatureVisualPoint.Z", "+"}, {"FeatureVector3.vector", "3"},
          {"FeatureVector3.positionRef", "3"}, {"FeatureVector3.Jq", "6,q"}, {"FeatureJointLimits.lowerJl", "n>3-"}, {"FeatureJointLimits.upperJl", "n>3"},
          {"Multiply_matrix_vector.sin1", "m,n"}, {"Compose_R_and_T.sin1", "3,3"}, {"Compose_R_and_T.sin2", "3"}, {"MatrixToHomo.sin", "4,4"},
          {"PoseQuaternionToMatrixHomo.sin", "7>1"}, {"PoseRollPitchYawToMatrixHomo.sin", "6"}, {"PoseRollPitchYawToPoseUTheta.sin", "6"},
          {"PoseUThetaToMatrixHomo.sin", "6"}, {"SE3VectorToMatrixHomo.sin", "12"}, {"SkewSymToVector.sin", "3,3"}, {"Multiply_matrixHomo_vector.sin2", "4"},
          {"Multiply_matrixTwist_vector.sin2", "6"}, {"MatrixTranspose.sin", "n,m"}, {"OpPointModifier.jacobianIN", "6,q"}, {"JointLimitator.lowerJl", "n>3-"},
          {"JointLimitator.upperJl", "n>3"}, {"VisualPointProjecter.point3D", "3>5"}, {"VisualPointProjecter.transfo", "ahead"}, {"Task.controlGain", "+"}, {"Task.damping", "+"}, {"TaskPD.controlGain", "+"},
          {"TaskPD.damping", "+"}, {"TaskUnilateral.controlGain", "+"}, {"TaskUnilateral.damping", "+"}, {"TaskUnilateral.dt", "+"},
          {"SOT.damping", "+"}, {"SOT.proj0", ""}, {"SOT.q0", "q"}, {"Component_of_vector.sin", "n"}};
}
static std::vector<Kind> kinds() {
  std::vector<Kind> ks;
  auto single = [&](const std::string &c, int nmin = 1) {
    Kind k;
    k.name = c;
    k.shapes = common();
    k.nmin = nmin;
    k.build = [c](Rig &r, const std::vector<int> &) { r.add(c); };
    ks.push_back(k);
    return &ks.back();
  };
  for (const char *c :
       {"Add_of_double", "Add_of_matrix", "Add_of_vector", "BinaryIntToUint", "CompareDouble", "CompareVector", "Compose_R_and_T", "ControlGR",
        "ControlPD", "Feature1D", "FeatureGeneric", "FeatureJointLimits", "FeatureLineDistance", "FeaturePose", "FeaturePoseSE3", "FeatureVector3", "GainAdaptive",
        "GainHyperbolic", "HomoToMatrix", "HomoToRotation", "HomoToTwist", "Inverse_of_matrix", "Inverse_of_matrixHomo", "Inverse_of_matrixrotation",
        "Inverse_of_matrixtwist", "Inverse_of_unitquat", "JointLimitator", "MatrixDiagonal", "MatrixHomoToPose", "MatrixHomoToPoseQuaternion",
        "MatrixHomoToPoseRollPitchYaw", "MatrixHomoToPoseUTheta", "MatrixHomoToSE3Vector", "MatrixToHomo", "MatrixToQuaternion", "MatrixToRPY", "MatrixToUTheta",
        "MatrixTranspose", "Multiply_double_vector", "Multiply_matrixHomo_vector", "Multiply_matrixTwist_vector", "Multiply_matrix_vector", "Multiply_of_double",
        "Multiply_of_matrix", "Multiply_of_matrixHomo", "Multiply_of_matrixrotation", "Multiply_of_matrixtwist", "Multiply_of_quaternion", "Multiply_of_vector",
        "Norm_of_vector", "OpPointModifier", "PoseQuaternionToMatrixHomo", "PoseRollPitchYawToMatrixHomo", "PoseRollPitchYawToPoseUTheta", "PoseUThetaToMatrixHomo",
        "QuaternionToMatrix", "QuaternionToRPY", "RPYToMatrix", "RPYToQuaternion", "SE3VectorToMatrixHomo", "SkewSymToVector", "Substract_of_double",
        "Substract_of_matrix", "Substract_of_vector", "UThetaToQuaternion", "VisualPointProjecter", "WeightAdd_of_double", "WeightAdd_of_matrix", "WeightAdd_of_vector"})
    single(c);
  single("NeckLimitation", 20);
  Kind *k = single("OpPointModifier");
  k->build = [](Rig &r, const std::vector<int> &c) {
    Ent &e = r.add("OpPointModifier");
    Mat m = Mat::Identity(4, 4);
    m(0, 3) = .5, m(1, 3) = c[0];
    e.call("setTransformation", {Value(Eigen::Matrix4d(m))});
    if (c[1] & 1) e.call("setEndEffector", {Value(c[1] > 1)});
  };
  k = single("GainAdaptive");
  k->build = [](Rig &r, const std::vector<int> &c) { r.add("GainAdaptive").call("set", {Value(5.), Value(1. + c[0]), Value(2. + c[1])}); };
  k = single("Component_of_vector", 3);
  k->build = [](Rig &r, const std::vector<int> &c) { r.add("Component_of_vector").call("setIndex", {Value(c[0] % 3)}); };
  k = single("Selec_of_vector", 3);
  k->build = [](Rig &r, const std::vector<int> &c) {
    Ent &e = r.add("Selec_of_vector");
    e.call("selec", {Value(0), Value(1 + c[0] % 2)});
    if (c[1]) e.call("addSelec", {Value(1), Value(3)});
  };
  k = single("Stack_of_vector", 3);
  k->build = [](Rig &r, const std::vector<int> &c) {
    Ent &e = r.add("Stack_of_vector");
    e.call("selec1", {Value(0), Value(1 + c[0] % 3)});
    e.call("selec2", {Value(c[1] % 2), Value(3)});
  };
  for (const char *c : {"SwitchVector", "SwitchMatrixHomogeneous", "SwitchBoolean", "Add_of_vector", "Add_of_double", "Multiply_of_matrixHomo", "And", "Or"}) {
    k = single(c);
    std::string cls = c;
    k->name += "(3)";
    k->build = [cls](Rig &r, const std::vector<int> &) {
      dg::Entity *e = r.add(cls).p.get();
      if (cls[0] == 'S') e->shimCall("setSignalNumber", {Value(3)});
      else if (!(three<Vec>(e) || three<double>(e) || three<Homo>(e) || three<bool>(e))) throw pbt::Failure("no operator");
    };
    if (cls[0] == 'S') k->shapes[cls + ".boolSelection"] = "unset";
  }
  // a feature and its reference
  for (const char *c : {"Feature1D", "FeatureGeneric", "FeaturePoint6d", "FeaturePoint6dRelative", "FeatureVisualPoint"}) {
    k = single(c);
    std::string cls = c;
    k->name += "+reference";
    if (cls == "FeaturePoint6dRelative") k->shapes[cls + ".dotposition"] = k->shapes[cls + ".dotpositionRef"] = "";
    k->build = [cls](Rig &r, const std::vector<int> &c) {
      r.add(cls), r.add(cls);
      if (cls != "Feature1D") r.e[0]->call("setReference", {Value(r.name(1))});
      if (cls == "FeatureVisualPoint") r.e[1]->call("setReference", {Value(r.name(0))});
      if (cls == "FeaturePoint6d") r.e[0]->call("frame", {Value(c[0] & 1 ? "current" : "desired")});
    };
  }
  for (const char *c : {"Task", "TaskPD", "TaskUnilateral"}) {
    k = single(c);
    std::string cls = c;
    k->name += "+features";
    if (cls != "Task") k->shapes["FeatureGeneric.selec"] = "full";
    k->shapes["TaskPD.errorDotOUT"] = "skip";
    k->shapes["TaskPD.errorDot"] = k->shapes["TaskUnilateral.position"] = "2n";
    k->shapes["TaskUnilateral.referenceInf"] = "2n-", k->shapes["TaskUnilateral.referenceSup"] = "2n>3";
    k->build = [cls](Rig &r, const std::vector<int> &c) {
      r.add(cls), r.add("FeatureGeneric"), r.add("FeatureGeneric");
      r.e[0]->call("add", {Value(r.name(1))}), r.e[0]->call("add", {Value(r.name(2))});
      if (c[0] & 1) {
        r.add("FeatureGeneric");
        r.e[1]->call("setReference", {Value(r.name(3))});
        if (cls == "Task" && c[1] & 1) r.e[0]->call("setWithDerivative", {Value(true)});
      }
      if (c[1] & 2) {
        int a = (int)r.e.size();
        r.add("GainAdaptive").call("set", {Value(5.), Value(1.), Value(2.)});
        r.plug(0, "error", a, "error"), r.plug(a, "gain", 0, "controlGain");
      }
    };
  }
  k = single("SOT");
  k->name = "SOT+tasks";
  k->shapes["Task.controlSelec"] = "";
  k->build = [](Rig &r, const std::vector<int> &c) {
    Ent &s = r.add("SOT");
    s.call("setSize", {Value((unsigned)(6 + c[0] % 3))});
    for (int i = 0; i < 1 + c[1] % 3; ++i) {
      int t = (int)r.e.size();
      r.add("Task"), r.add("FeatureGeneric");
      r.e[(size_t)t]->call("add", {Value(r.name(t + 1))});
      s.call("push", {Value(r.name(t))});
    }
  };
  k = single("SOT");
  k->name = "SOT+pose tasks";
  k->shapes["Task.controlSelec"] = "";
  k->build = [](Rig &r, const std::vector<int> &c) {
    Ent &s = r.add("SOT");
    s.call("setSize", {Value((unsigned)(6 + c[0] % 3))});
    r.add("Task"), r.add("FeaturePose"), r.add("OpPointModifier"), r.add("Task"), r.add("FeaturePoint6d"), r.add("FeaturePoint6d");
    r.plug(3, "position", 2, "jbMfb"), r.plug(3, "position", 5, "position"), r.plug(3, "jacobian", 5, "Jq"), r.plug(3, "jacobian", 2, "jbJjb");
    r.e[5]->call("setReference", {Value(r.name(6))});
    r.e[1]->call("add", {Value(r.name(2))}), r.e[4]->call("add", {Value(r.name(5))});
    s.call("push", {Value(r.name(1))}), s.call("push", {Value(r.name(4))});
  };
  return ks;
}
static void same(const Flat &a, const Flat &b, const std::string &what) {
  CHECK(a.size() == b.size(), what << ": " << a.size() << " numbers instead of " << b.size());
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] != a[i] && b[i] != b[i]) continue;
    double s = std::max(1., std::max(std::fabs(a[i]), std::fabs(b[i])));
    CHECK(a[i] == b[i] || std::fabs(a[i] - b[i]) <= 1e-9 * s, what << ": number " << i << " is " << a[i] << " instead of " << b[i]);
  }
}
struct Slot {
  size_t ent;
  std::string sig;
};
// inputs that are not connected inside, outputs
static void slots(Rig &r, const Kind &k, std::vector<Slot> &in, std::vector<std::string> &shape, std::vector<Slot> &out) {
  for (size_t i = 0; i < r.e.size(); ++i)
    for (auto &s : (*r.e[i])->getSignalMap()) {
      auto sh = k.shapes.find((*r.e[i])->getClassName() + "." + s.first);
      std::string w = sh == k.shapes.end() ? "" : sh->second;
      bool inside = std::count(r.plugged.begin(), r.plugged.end(), std::make_pair((int)i, s.first)) > 0;
      std::unique_ptr<Source> src = sourceFor(*s.second, w);
      bool isIn = src.get() != NULL || s.second->getName().find("::input(") != std::string::npos;
      if (!isIn && w == "skip") continue;  // keeps a memory
      if (!isIn) out.push_back({i, s.first});
      else if (src && !inside && w != "unset" && (w.size() || sh == k.shapes.end())) in.push_back({i, s.first}), shape.push_back(w);
    }
}
#endif
