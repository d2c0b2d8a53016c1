// Helpers for the checks that run real entities on the stand-in of
// dynamic-graph: unique names, commands by name, signals by name.
#ifndef MC_DGX_HH
#define MC_DGX_HH
#include <dynamic-graph/all-commands.h>
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/linear-algebra.h>

#include "mc.hh"

namespace mc {
namespace dg = dynamicgraph;

// entities of abandoned executions may stay registered: never reuse a name
inline std::string uniq(const std::string &base) {
  static long n = 0;
  std::ostringstream os;
  os << base << "_" << ++n;
  return os.str();
}
typedef dg::command::Value Value;
inline Value run(dg::Entity &e, const std::string &cmd, const std::vector<Value> &args = std::vector<Value>()) {
  dg::command::Command *c = e.getNewStyleCommand(cmd);
  c->setParameterValues(args);
  return c->execute();
}
template <class T>
dg::Signal<T, int> &sig(dg::Entity &e, const std::string &name) {
  return dynamic_cast<dg::Signal<T, int> &>(e.getSignal(name));
}
inline dg::Vector vec(std::initializer_list<double> l) {
  dg::Vector v(l.size());
  int i = 0;
  for (double x : l) v(i++) = x;
  return v;
}
inline bool near(const dg::Vector &a, const dg::Vector &b, double tol = 1e-9) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!near(a(i), b(i), tol)) return false;
  return true;
}
inline bool near(const dg::Matrix &a, const dg::Matrix &b, double tol = 1e-9) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!near(a(i, j), b(i, j), tol)) return false;
  return true;
}
inline std::string show(const dg::Matrix &m) {
  std::ostringstream os;
  os.precision(12);
  os << "[";
  for (int i = 0; i < m.rows(); ++i) {
    if (i) os << "; ";
    for (int j = 0; j < m.cols(); ++j) os << (j ? " " : "") << m(i, j);
  }
  os << "]";
  return os.str();
}
inline uint64_t hmat(const dg::Matrix &m, uint64_t h = 7) {
  h = mix(h, (uint64_t)m.rows());
  h = mix(h, (uint64_t)m.cols());
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) h = hdbl(std::floor(m(i, j) * 1e6 + 0.5), h);
  return h;
}
// the k-th matrix over a set of values
inline dg::Matrix grid(Ctx &c, int r, int n, const std::vector<double> &vals, const char *what) {
  dg::Matrix m(r, n);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < n; ++j) m(i, j) = vals[(size_t)c.choose((int)vals.size(), what)];
  return m;
}
}  // namespace mc
#endif
