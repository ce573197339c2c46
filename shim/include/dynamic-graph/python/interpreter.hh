// stand-in for the embedded python interpreter: records what it is asked to run
#pragma once
#include <string>
#include <vector>
#include <dynamic-graph/dg-shim.hh>
namespace dynamicgraph { namespace python {
class Interpreter {
 public:
  std::string python(const std::string &c) { log().push_back(c); return ""; }
  void python(const std::string &c, std::string &res, std::string &out, std::string &err) { log().push_back(c); res = out = err = ""; }
  std::string runPythonFile(std::string f) { log().push_back("file:" + f); return ""; }
  void runPythonFile(std::string f, std::string &err) { log().push_back("file:" + f); err = ""; }
  void runMain() {}
  std::string processStream(std::istream &, std::ostream &) { return ""; }
  static std::vector<std::string> &log() { static std::vector<std::string> l; return l; }
};
}}
