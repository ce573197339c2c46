// C04: exceptions keep their code, family and complete message.
#include <sot/core/exception-abstract.hh>
#include <sot/core/exception-dynamic.hh>
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-signal.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/exception-tools.hh>
#include "pbt.hpp"
using namespace dynamicgraph::sot;

struct Case {
  std::string msg, sarg, fmt, expect;  // expect: complete formatted text
  int kind, iarg;
  double darg;
};
static std::string text(pbt::Gen &g, size_t maxLen) {
  static const std::string al = "abc XYZ019<>_:./%\\\"'-\t";
  size_t n = g.chance(1, 3) ? g.size(0, maxLen) : g.size(0, 12);
  std::string s;
  if (n > 40) {
    std::string u = g.str(al, 1, 7);
    while (s.size() < n) s += u;
    s.resize(n);
    return s;
  }
  for (size_t i = 0; i < n; ++i) s += al[g.draw(al.size())];
  return s;
}
static std::string escape(const std::string &s) {
  std::string r;
  for (char c : s) {
    r += c;
    if (c == '%') r += '%';
  }
  return r;
}
template <class E>
static void inspect(pbt::Gen &g, E &e, int code, const std::string &family, const Case &c, bool formatted) {
  ExceptionAbstract &a = e;
  const std::exception &s = e;
  CHECK(a.getCode() == code, "code " << a.getCode() << " instead of " << code);
  CHECK(a.getExceptionName() == family, "family " << a.getExceptionName() << " instead of " << family);
  std::string m = a.getStringMessage();
  CHECK(m == a.getMessage() && m == s.what(), "getStringMessage, getMessage and what differ");
  CHECK(m.compare(0, c.msg.size(), c.msg) == 0, "plain message lost: got <" << m << "> for <" << c.msg << ">");
  if (!formatted) {
    CHECK(m == c.msg, "message altered: <" << m << ">");
  } else {
    std::string rest = m.substr(c.msg.size());
    // any clean truncation of long parameters is accepted, provided 200 characters are kept
    size_t keep = std::min<size_t>(c.expect.size(), 200);
    CHECK(rest.size() >= keep && rest.size() <= c.expect.size() && rest == c.expect.substr(0, rest.size()),
          "formatted parameters: got <" << rest << "> expected <" << c.expect << ">");
  }
  std::ostringstream o;
  o << a;
  std::ostringstream num;
  num << code;
  CHECK(o.str().find(family) != std::string::npos, "printed form has no family: " << o.str());
  CHECK(o.str().find(num.str()) != std::string::npos, "printed form has no code: " << o.str());
  CHECK(o.str().find(m) != std::string::npos, "printed form has no message: " << o.str());
}
template <class E, class Code>
static E make(const Case &c, Code code) {
  switch (c.kind) {
    case 1: return E(code, c.msg, c.fmt.c_str(), c.sarg.c_str());
    case 2: return E(code, c.msg, c.fmt.c_str(), c.iarg);
    case 3: return E(code, c.msg, c.fmt.c_str(), c.sarg.c_str(), c.iarg);
    case 4: return E(code, c.msg, c.fmt.c_str(), c.darg);
    case 5: return E(code, c.msg, c.fmt.c_str());
    default: return E(code, c.msg);
  }
}
template <class E, class Code>
static void fam(pbt::Gen &g, const Case &c, std::vector<Code> codes, int base, const std::string &family) {
  size_t i = g.draw(codes.size());
  int code = codes[i];
  CHECK(code == base + (int)i, family << " code number " << i << " is " << code);
  LOG << family << " code " << code << " kind " << c.kind << " msg <" << c.msg.substr(0, 60) << "> args <" << c.expect.substr(0, 60) << "> (" << c.expect.size() << ")";
  bool f = c.kind != 0;
  try {
    throw make<E>(c, codes[i]);
  } catch (E &e) {
    inspect(g, e, code, family, c, f);
  }
  // through the base class, by reference
  try {
    throw make<E>(c, codes[i]);
  } catch (ExceptionAbstract &e) {
    inspect(g, e, code, family, c, f);
  }
  try {
    SOT_THROW make<E>(c, codes[i]);
  } catch (const std::exception &e) {
    E *p = dynamic_cast<E *>(const_cast<std::exception *>(&e));
    CHECK(p, "dynamic type lost");
    inspect(g, *p, code, family, c, f);
  }
  // a copy and the same exception thrown again are equivalent
  E a = make<E>(c, codes[i]);
  E b(a);
  inspect(g, b, code, family, c, f);
  try {
    try {
      throw b;
    } catch (ExceptionAbstract &) {
      throw;
    }
  } catch (E &e) {
    inspect(g, e, code, family, c, f);
  }
  g.label(family);
}
static void run(pbt::Gen &g, size_t maxLen) {
  Case c;
  c.kind = (int)g.draw(6);
  c.msg = text(g, maxLen);
  c.sarg = text(g, maxLen);
  c.iarg = (int)g.integer(-2000000000ll, 2000000000ll);
  c.darg = g.dyadic(-1000, 1000);
  std::string pre = text(g, 20), post = text(g, 20);
  char num[64];
  switch (c.kind) {
    case 1:
      c.fmt = escape(pre) + "%s" + escape(post);
      c.expect = pre + c.sarg + post;
      break;
    case 2:
      c.fmt = escape(pre) + "%d" + escape(post);
      snprintf(num, sizeof num, "%d", c.iarg);
      c.expect = pre + num + post;
      break;
    case 3:
      c.fmt = escape(pre) + "%s" + escape(post) + "(%d)";
      snprintf(num, sizeof num, "(%d)", c.iarg);
      c.expect = pre + c.sarg + post + num;
      break;
    case 4:
      c.fmt = escape(pre) + "%f" + escape(post);
      snprintf(num, sizeof num, "%f", c.darg);
      c.expect = pre + num + post;
      break;
    case 5:
      c.fmt = escape(pre);
      c.expect = pre;
      break;
  }
  switch (g.draw(6)) {
    case 0: {
      typedef ExceptionSignal E;
      fam<E, E::ErrorCodeEnum>(g, c, {E::GENERIC, E::READWRITE_LOCK, E::COPY_NOT_INITIALIZED, E::NOT_INITIALIZED, E::PLUG_IMPOSSIBLE, E::SET_IMPOSSIBLE, E::BAD_CAST}, 100, "Signal");
      break;
    }
    case 1: {
      typedef ExceptionTask E;
      fam<E, E::ErrorCodeEnum>(g, c, {E::GENERIC, E::EMPTY_LIST, E::NON_ADEQUATE_FEATURES, E::MATRIX_SIZE, E::BOUND_TYPE, E::PARSER_MULTI_BOUND}, 200, "Task");
      break;
    }
    case 2: {
      typedef ExceptionFeature E;
      fam<E, E::ErrorCodeEnum>(g, c, {E::GENERIC, E::BAD_INIT, E::UNCOMPATIBLE_SIZE}, 300, "Feature");
      break;
    }
    case 3: {
      typedef ExceptionFactory E;
      fam<E, E::ErrorCodeEnum>(g, c, {E::GENERIC, E::UNREFERED_OBJECT, E::UNREFERED_SIGNAL, E::UNREFERED_FUNCTION, E::DYNAMIC_LOADING, E::SIGNAL_CONFLICT, E::FUNCTION_CONFLICT, E::OBJECT_CONFLICT, E::SYNTAX_ERROR, E::READ_FILE}, 400, "Factory");
      break;
    }
    case 4: {
      typedef ExceptionDynamic E;
      fam<E, E::ErrorCodeEnum>(g, c, {E::GENERIC, E::CANT_DESTROY_SIGNAL, E::JOINT_RANK, E::DYNAMIC_JRL, E::JOINT_SIZE, E::INTEGRATION}, 500, "Dynamic");
      break;
    }
    case 5: {
      typedef ExceptionTools E;
      fam<E, E::ErrorCodeEnum>(g, c, {E::GENERIC, E::CORBA, E::KALMAN_SIZE, E::PARAMETER_SERVER}, 700, "Tools");
      break;
    }
  }
  if (g.chance(1, 4)) {
    int code = (int)g.integer(-5, 2000);
    ExceptionAbstract e(code, c.msg);
    inspect(g, e, code, "Abstract", c, false);
  }
  g.nontrivial(c.kind != 0 && c.expect.size() && c.msg.size());
}
PROP(short_messages) { run(g, 60); }
PROP(any_length) { run(g, 3000); }
