// Stand-in for the embedded Python interpreter: records what it is asked.
#ifndef DG_STANDIN_INTERPRETER
#define DG_STANDIN_INTERPRETER
#include <dynamic-graph/standin.h>
namespace dynamicgraph {
namespace python {
class Interpreter {
 public:
  static std::vector<std::string> &log() {
    static std::vector<std::string> l;
    return l;
  }
  std::string python(const std::string &c) {
    log().push_back(c);
    return "";
  }
  void python(const std::string &c, std::string &res, std::string &out, std::string &err) {
    log().push_back(c);
    res = "result of " + c;
    out = "output of " + c;
    err = "errors of " + c;
  }
  void runPythonFile(std::string f) { log().push_back("file " + f); }
  void runPythonFile(std::string f, std::string &err) {
    log().push_back("file " + f);
    err = "errors of " + f;
  }
  void runMain() {}
  std::string processStream(std::istream &, std::ostream &) { return ""; }
};
}  // namespace python
}  // namespace dynamicgraph
#endif
