// Inputs of an entity as a history of constants, varying and failing signals,
// and readings of an output compared with what it should be.
#ifndef MC_INPUTS_HH
#define MC_INPUTS_HH
#include <sot/core/matrix-geometry.hh>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef MatrixHomogeneous MH;
typedef VectorQuaternion Q;
typedef VectorUTheta UT;
typedef VectorRollPitchYaw RPY;

/* --- values ----------------------------------------------------------- */
inline Matrix flat(double x) { return Matrix::Constant(1, 1, x); }
inline Matrix flat(bool x) { return Matrix::Constant(1, 1, x); }
inline Matrix flat(int x) { return Matrix::Constant(1, 1, x); }
inline Matrix flat(unsigned x) { return Matrix::Constant(1, 1, x); }
inline Matrix flat(const Vector &x) { return x; }
inline Matrix flat(const Matrix &x) { return x; }
inline Matrix flat(const MH &x) { return x.matrix(); }
inline Matrix flat(const M3 &x) { return x; }
inline Matrix flat(const V3 &x) { return x; }
inline Matrix flat(const MatrixTwist &x) { return x; }
inline Matrix flat(const Q &x) { return x.coeffs(); }
inline Matrix flat(const UT &x) { return Vector(x.axis() * x.angle()); }
template <class X>
std::string sh(const X &x) {
  return mc::show(flat(x));
}

/* --- an input, its kinds and its model --------------------------------- */
template <class X>
struct Input {
  enum Kind { NONE, CONSTANT, VARYING, FAILING };
  const std::vector<X> &vals;
  SignalPtr<X, int> *s;
  SignalTimeDependent<X, int> varying, failing;
  Kind kind;
  int k, fresh;
  Input(const std::vector<X> &v, SignalPtr<X, int> *sig)
      : vals(v), s(sig), varying("varying"), failing("failing"), kind(NONE), k(0), fresh(0) {
    varying.setDependencyType(TimeDependency<int>::ALWAYS_READY);
    failing.setDependencyType(TimeDependency<int>::ALWAYS_READY);
    varying.setFunction([this](X &r, int t) -> X & { return r = vals[(size_t)t % vals.size()]; });
    failing.setFunction([](X &, int) -> X & { throw ExceptionSignal(ExceptionSignal::GENERIC, "no input"); });
  }
  void forget() {  // the signal is gone
    s = NULL;
    kind = NONE;
  }
  int choices() const { return (int)vals.size() + 2; }
  std::string change(int w) {
    fresh = 1;
    if (w < (int)vals.size()) {
      kind = CONSTANT;
      k = w;
      *s = X(vals[(size_t)w]);
      return sh(X(vals[(size_t)w]));
    }
    kind = w == (int)vals.size() ? VARYING : FAILING;
    s->plug(kind == VARYING ? &varying : &failing);
    return kind == VARYING ? "varying" : "failing";
  }
  bool ok() const { return kind == CONSTANT || kind == VARYING; }
  X at(int t) const { return kind == CONSTANT ? vals[(size_t)k] : vals[(size_t)t % vals.size()]; }
};
struct Cmd {
  std::string name;
  std::vector<mc::Value> args;
};
typedef std::vector<int> Applied;  // commands applied so far
enum Want { VALUE, REFUSED, ANY };

// one reading of an output, compared with what it should be
template <class Tout>
struct Reader {
  bool lastRefused = false;
  int t = 0;
  template <class Sig, class Ref, class Eq>
  void read(mc::Ctx &c, Sig &out, bool inputs, bool changed, Ref ref, Eq eq) {
    ++t;
    std::string err;
    Tout got;
    bool th = false;
    try {
      got = out(t);
    } catch (std::exception &e) {
      th = true;
      err = e.what();
    }
    if (lastRefused && !changed) return;
    Tout want;
    Want w = inputs ? ref(t, want) : REFUSED;
    if (w == ANY) {
      lastRefused = true;
      return;
    }
    MC_OP(c, "read at " << t << (th ? ": " + err : ": " + sh(got)));
    MC_EXPECT(c, th == (w == REFUSED), "refused", (th ? "refused: " + err : "gave " + sh(got) + " instead of an error"));
    lastRefused = th;
    if (th) return;
    MC_EXPECT(c, eq(got, want), "value", "output is " << sh(got) << " instead of " << sh(want));
    c.observe(mc::hmat(flat(got), (uint64_t)t));
    MC_EXPECT(c, eq(out(t), want), "again", "a second reading gives another value");
  }
};
struct Near {
  template <class X>
  bool operator()(const X &a, const X &b) const {
    return mc::near(flat(a), flat(b));
  }
};

#endif
