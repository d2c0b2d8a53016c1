// C19: filters, derivators and integrators along time.
#include <dlfcn.h>

#include <sot/core/exp-moving-avg.hh>
#include <sot/core/filter-differentiator.hh>
#include <sot/core/fir-filter.hh>
#include <sot/core/gradient-ascent.hh>

// templates whose headers may be included only once in a program
#include "matrix/derivator.cpp"
#undef SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN
#define regFunction_double_double regFunction_fir_double_double
#include "matrix/fir-filter.cpp"
#undef regFunction_double_double
#undef SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN
#include "matrix/integrator-euler.cpp"

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;

// FilterDifferentiator keeps a log at a fixed place: not here
extern "C" FILE *fopen64(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = (F)dlsym(RTLD_NEXT, "fopen64");
  return f(std::string(p) == "/tmp/fd_log.dat" ? "/dev/null" : p, m);
}
extern "C" FILE *fopen(const char *p, const char *m) {
  typedef FILE *(*F)(const char *, const char *);
  static F f = (F)dlsym(RTLD_NEXT, "fopen");
  return f(std::string(p) == "/tmp/fd_log.dat" ? "/dev/null" : p, m);
}

template <class F>
static bool throws(F f) {
  try {
    f();
  } catch (std::exception &) {
    return true;
  }
  return false;
}
/* values of the kinds of signals */
template <class T>
struct K;
static const double X[] = {1, -2.5, 0.25, 7};
template <>
struct K<double> {
  static double val(int k) { return X[k]; }
  static double zero() { return 0; }
  static bool near(double a, double b) { return mc::near(a, b); }
  static std::string show(double a) { return std::to_string(a); }
  static uint64_t h(double a) { return mc::hdbl(std::floor(a * 1e6 + .5), 7); }
};
template <>
struct K<Vector> {
  static Vector val(int k) { return mc::vec({X[k], X[(k + 1) % 4] * 2}); }
  static Vector zero() { return Vector::Zero(2); }
  static bool near(const Vector &a, const Vector &b) { return mc::near(a, b); }
  static std::string show(const Vector &a) { return mc::show(a); }
  static uint64_t h(const Vector &a) { return mc::hmat(a); }
};
template <>
struct K<Matrix> {
  static Matrix val(int k) {
    Matrix m(2, 2);
    m << X[k], X[(k + 1) % 4], 0.5, X[(k + 3) % 4];
    return m;
  }
  static Matrix zero() { return Matrix::Zero(2, 2); }
  static bool near(const Matrix &a, const Matrix &b) { return mc::near(a, b); }
  static std::string show(const Matrix &a) { return mc::show(a); }
  static uint64_t h(const Matrix &a) { return mc::hmat(a); }
};
template <>
struct K<VectorQuaternion> {
  typedef VectorQuaternion Q;
  static Q val(int k) {
    Q q;
    q.coeffs() << X[k], X[(k + 1) % 4], 0.5, X[(k + 3) % 4];
    return q;
  }
  static Q zero() {
    Q q;
    q.coeffs().setZero();
    return q;
  }
  static bool near(const Q &a, const Q &b) { return mc::near(Vector(a.coeffs()), Vector(b.coeffs())); }
  static std::string show(const Q &a) { return mc::show(Vector(a.coeffs())); }
  static uint64_t h(const Q &a) { return mc::hmat(Vector(a.coeffs())); }
};
template <class T>
static T comb(const T &a, const T &b, double s) {  // (a-b)*s
  return (a - b) * s;
}
template <>
VectorQuaternion comb(const VectorQuaternion &a, const VectorQuaternion &b, double s) {
  VectorQuaternion q;
  q.coeffs() = (a.coeffs() - b.coeffs()) * s;
  return q;
}

/* an input that is given at every time and may fail */
template <class T>
struct Source {
  T v;
  bool fails;
  SignalTimeDependent<T, int> s;
  Source() : v(K<T>::zero()), fails(false), s(boost::bind(&Source::get, this, _1, _2), sotNOSIGNAL, "source") {
    s.setDependencyType(TimeDependency<int>::ALWAYS_READY);
  }
  T &get(T &r, int) {
    if (fails) throw ExceptionSignal(ExceptionSignal::GENERIC, "no input");
    return r = v;
  }
};

/* ------------------------------------------------------------ FIR */
template <class T, class C>
static void fir(mc::Ctx &c, int depth) {
  FIRFilter<T, C> f(mc::uniq("fir"));
  std::vector<C> coefs;
  std::vector<T> in;  // newest first
  size_t cap = 1;
  int t = 0;
  bool matrices = std::is_same<C, Matrix>::value;
  for (int k = 0; k < depth; ++k) {
    int n = k == 0 ? 1 : (int)coefs.size();
    int op = k == 0 ? 3 : c.choose(4, "operation");
    (void)n;
    c.step();
    if (op == 0 || op == 1) {
      T x = K<T>::val(op + (k % 2) * 2);
      f.SIN = x;
      MC_OP(c, "sample " << K<T>::show(x));
      const T &r = f.SOUT(++t);
      in.insert(in.begin(), x);
      if (in.size() > cap) in.resize(cap);
      T w = K<T>::zero();
      for (size_t i = 0; i < coefs.size() && i < in.size(); ++i) w += coefs[i] * in[i];
      MC_EXPECT(c, K<T>::near(r, w), "sum", "output is " << K<T>::show(r) << " instead of " << K<T>::show(w));
      T again = f.SOUT(t);
      MC_EXPECT(c, K<T>::near(again, w), "same-time", "second reading of the same time is " << K<T>::show(again));
      c.observe(K<T>::h(r));
    } else if (op == 2) {
      int rank = c.choose(4, "rank"), v = (k + rank) % 4;
      MC_OP(c, "coefficient " << rank << " is " << K<C>::show(K<C>::val(v)));
      bool th = throws([&] { mc::run(f, "setElement", {mc::Value((unsigned)rank), mc::Value(K<C>::val(v))}); });
      MC_EXPECT(c, th == (rank >= (int)coefs.size()), "rank", "setting coefficient " << rank << " refused: " << th);
      if (!th) coefs[(size_t)rank] = K<C>::val(v);
      th = throws([&] {
        C g = mc::run(f, "getElement", {mc::Value((unsigned)rank)}).value();
        MC_EXPECT(c, K<C>::near(g, coefs[(size_t)rank]), "element", "coefficient read back as " << K<C>::show(g));
      });
      MC_EXPECT(c, th == (rank >= (int)coefs.size()), "rank", "reading coefficient " << rank << " refused: " << th);
    } else {
      int s = c.choose(k ? 4 : 5, "size");
      MC_OP(c, "size " << s);
      mc::run(f, "setSize", {mc::Value((unsigned)s)});
      size_t old = coefs.size();
      coefs.resize((size_t)s);
      cap = (size_t)s;
      in.clear();
      for (size_t i = matrices || k == 0 ? old : (size_t)s; i < (size_t)s; ++i) {
        // new coefficients: given at once (matrices have no default)
        coefs[i] = K<C>::val((int)(i + k) % 4);
        mc::run(f, "setElement", {mc::Value((unsigned)i), mc::Value(coefs[i])});
      }
      for (size_t i = old; i < (size_t)s && !matrices && k; ++i) coefs[i] = C();
      unsigned g = mc::run(f, "getSize").value();
      MC_EXPECT(c, g == (unsigned)s, "size", "size is " << g << " instead of " << s);
    }
  }
}

/* ------------------------------------------------------------ derivator */
template <class T>
static void derivator(mc::Ctx &c, int depth) {
  Source<T> src;
  Derivator<T> d(mc::uniq("derivator"));
  d.SIN.plug(&src.s);
  bool has = false;
  T last = K<T>::zero();
  double dt = 1;
  int t = 0;
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(7, "operation");
    c.step();
    if (op < 3) {
      T x = K<T>::val((op + k) % 4);
      MC_OP(c, "sample " << K<T>::show(x));
      src.fails = false;
      src.v = x;
      T r = d.SOUT(++t), w = has ? comb<T>(x, last, 1 / dt) : K<T>::zero();
      has = true;
      last = x;
      MC_EXPECT(c, K<T>::near(r, w), "difference", "output is " << K<T>::show(r) << " instead of " << K<T>::show(w));
      r = d.SOUT(t);
      MC_EXPECT(c, K<T>::near(r, w), "same-time", "second reading of the same time is " << K<T>::show(r));
      c.observe(K<T>::h(r));
    } else if (op == 3) {
      MC_OP(c, "the input fails");
      src.fails = true;
      MC_EXPECT(c, throws([&] { d.SOUT(++t); }), "refused", "output without an input");
    } else {
      static const double D[] = {0.5, 1, 0.005};
      d.timestepSIN = dt = D[op - 4];
      MC_OP(c, "time step " << dt);
    }
  }
}

/* ------------------------------------------------------------ integrator */
static double coefId(double) { return 1; }
static Matrix coefId(const Matrix &) { return Matrix::Identity(2, 2); }
template <class C>
static C coef(int k) {
  return k == 3 ? coefId(C()) : K<C>::val(k);
}
template <class T, class C>
static void integrator(mc::Ctx &c, int depth) {
  IntegratorEuler<T, C> f(mc::uniq("integrator"));
  std::vector<C> num, den;
  std::vector<T> xm, ym;
  double dt = 0.005;
  int t = 0;
  bool input = false;
  T cur = K<T>::zero();
  auto push = [&](bool n, int k) {
    MC_OP(c, (n ? "numerator " : "denominator ") << K<C>::show(coef<C>(k)));
    mc::run(f, n ? "pushNumCoef" : "pushDenomCoef", {mc::Value(coef<C>(k))});
    (n ? num : den).push_back(coef<C>(k));
  };
  auto pop = [&](bool n) {
    if ((n ? num : den).empty()) return;
    MC_OP(c, "pop " << (n ? "numerator" : "denominator"));
    mc::run(f, n ? "popNumCoef" : "popDenomCoef");
    (n ? num : den).pop_back();
  };
  auto init = [&] {
    bool th = throws([&] { mc::run(f, "initialize"); }),
         wth = num.empty() || den.empty() || !K<C>::near(den.back(), coefId(C())) || !input;
    MC_OP(c, "initialize");
    MC_EXPECT(c, th == wth, "initialize", "initialization refused: " << th);
    if (!th) {
      xm.assign(num.size(), cur);
      ym.assign(den.size(), cur);
    }
  };
  int nn = c.choose(4, "numerators"), nd = c.choose(4, "denominators");
  for (int i = 0; i < nn; ++i) push(true, i ? (i + 1) % 3 : c.choose(3, "coefficient"));
  for (int i = 0; i < nd; ++i) push(false, i == nd - 1 ? c.flag("last is one") ? 3 : 2 : i);
  if (c.flag("input known")) {
    f.SIN = cur = K<T>::val(0);
    input = true;
  }
  init();
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(7, "operation");
    c.step();
    if (op < 3) {
      cur = K<T>::val(op < 2 ? (op + k) % 4 : (k + 2) % 4);
      f.SIN = cur;
      input = true;
      ++t;
      MC_OP(c, "sample " << K<T>::show(cur) << (op == 2 ? " read through the derivative" : ""));
      bool bad = num.empty() || den.empty() || xm.size() != num.size() || ym.size() != den.size();
      bool th = false;
      T got = K<T>::zero(), der = K<T>::zero();
      Signal<T, int> &ds = mc::sig<T>(f, "derivativesout");
      if (!bad) {
        T prev = xm[0];
        xm[0] = cur;
        T s = num[0] * cur;
        for (size_t i = 1; i < num.size(); ++i) {
          T v = (xm[i - 1] - prev) * (1 / dt);
          prev = xm[i];
          xm[i] = v;
          s += num[i] * v;
        }
        size_t n = den.size() - 1;
        for (size_t i = 0; i < n; ++i) s -= den[i] * ym[i];
        ym[n] = s;
        for (size_t i = n; i-- > 0;) ym[i] += ym[i + 1] * dt;
      }
      if (op == 2) {
        th = throws([&] { der = ds(t); });
        MC_EXPECT(c, th == (bad || den.size() < 2), "derivative", "derivative refused: " << th);
        if (!th) MC_EXPECT(c, K<T>::near(der, ym[1]), "derivative", "derivative is " << K<T>::show(der) << " instead of " << K<T>::show(ym[1]));
        if (bad) continue;
      }
      th = throws([&] { got = f.SOUT(t); });
      MC_EXPECT(c, th == bad, "refused", "output refused: " << th);
      if (!th) {
        MC_EXPECT(c, K<T>::near(got, ym[0]), "integral", "output is " << K<T>::show(got) << " instead of " << K<T>::show(ym[0]));
        c.observe(K<T>::h(got));
      }
    } else if (op == 3) {
      dt = dt == 0.005 ? 0.5 : 0.005;
      MC_OP(c, "period " << dt);
      mc::run(f, "setSamplingPeriod", {mc::Value(dt)});
      double g = mc::run(f, "getSamplingPeriod").value();
      MC_EXPECT(c, g == dt, "period", "period is " << g);
    } else if (op == 4) {
      push(true, k % 3);
    } else if (op == 5) {
      if (c.flag("numerator")) {
        pop(true);
      } else {
        pop(false);
        pop(false);
        push(false, 3);
      }
    } else
      init();
  }
}

/* ------------------------------------------------------------ averages */
static void average(mc::Ctx &c, int depth) {
  Source<Vector> src;
  src.fails = true;
  ExpMovingAvg f(mc::uniq("avg"));
  f.updateSIN.plug(&src.s);
  static const double A[] = {0, 0.5, 1, 0.9};
  double alpha = 0;
  Vector avg = Vector::Zero(2), cur;
  bool input = false;
  int t = 0;
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(8, "operation");
    c.step();
    if (op < 4) {
      alpha = A[op];
      MC_OP(c, "alpha " << alpha);
      mc::run(f, "setAlpha", {mc::Value(alpha)});
    } else if (op == 7) {
      MC_OP(c, "the input fails");
      src.fails = true;
      input = false;
      MC_EXPECT(c, throws([&] { f.averageSOUT(++t); }), "refused", "average without an input");
    } else {
      if (op < 6) {
        src.v = cur = K<Vector>::val((op + k) % 4);
        input = true;
        src.fails = false;
      }
      MC_OP(c, (op < 6 ? "new sample" : "same sample"));
      Vector r;
      bool th = throws([&] { r = f.averageSOUT(++t); });
      MC_EXPECT(c, th == !input, "refused", "average refused: " << th);
      if (th) continue;
      avg = alpha * avg + (1 - alpha) * cur;
      MC_EXPECT(c, mc::near(r, avg), "average", "average is " << mc::show(r) << " instead of " << mc::show(avg));
      r = f.averageSOUT(t);
      MC_EXPECT(c, mc::near(r, avg), "same-time", "second reading of the same time is " << mc::show(r));
      c.observe(mc::hmat(r));
    }
  }
}
static void gradient(mc::Ctx &c, int depth) {
  Source<Vector> src;
  Source<double> rsrc;
  src.fails = rsrc.fails = true;
  GradientAscent f(mc::uniq("gradient"));
  f.gradientSIN.plug(&src.s);
  f.learningRateSIN.plug(&rsrc.s);
  Vector v = Vector::Zero(2), cur;
  double rate = 0;
  bool input = false, hasRate = false;
  int t = 0;
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(6, "operation");
    c.step();
    if (op == 0) {
      MC_OP(c, "the input fails");
      src.fails = true;
      input = false;
    }
    if (op == 1) {
      MC_OP(c, "the rate fails");
      rsrc.fails = true;
      hasRate = false;
    }
    if (op == 2) {
      rsrc.v = rate = X[k % 4];
      hasRate = true;
      rsrc.fails = false;
      MC_OP(c, "rate " << rate);
    }
    if (op == 3 || op == 4) {
      src.v = cur = K<Vector>::val((op + k) % 4);
      input = true;
      src.fails = false;
      MC_OP(c, "gradient " << mc::show(cur));
    }
    Vector r;
    bool th = throws([&] { r = f.valueSOUT(++t); });
    MC_EXPECT(c, th == (!input || !hasRate), "refused", "value refused: " << th);
    if (th) continue;
    v += rate * cur;
    MC_EXPECT(c, mc::near(r, v), "value", "value is " << mc::show(r) << " instead of " << mc::show(v));
    r = f.valueSOUT(t);
    MC_EXPECT(c, mc::near(r, v), "same-time", "second reading of the same time is " << mc::show(r));
    c.observe(mc::hmat(r));
  }
}

/* ------------------------------------------------------------ differentiator */
static void differentiator(mc::Ctx &c, int depth) {
  FilterDifferentiator f(mc::uniq("diff"));
  static const std::vector<double> B[] = {{1}, {0.5, 0.5}, {0.2, 0.3, 0.1}}, A[] = {{1}, {1, -0.5}, {2, -0.5, 0.25}, {1, 0.1, 0.2, -0.3}};
  auto V = [](const std::vector<double> &v) {
    Vector r(v.size());
    for (size_t i = 0; i < v.size(); ++i) r((int)i) = v[i];
    return r;
  };
  bool ready = false;
  int n = 2, b = 0, a = 0, t = 0, order = c.thorough ? c.choose(6, "order of the readings") : c.choose(3, "order of the readings") * 2 + 1;
  static const int O[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  double dt = 1;
  std::vector<Vector> xs, ys;  // newest first
  Vector last;
  auto past = [&](const Vector &x) {
    double sb = V(B[b]).sum(), sa = V(A[a]).sum();
    xs.assign(5, x);
    ys.assign(5, x * (sb / sa));
  };
  for (int k = 0; k < depth; ++k) {
    int op = k == 0 && c.flag("initialized first") ? 0 : c.choose(5, "operation");
    c.step();
    if (op == 0) {
      b = c.choose(3, "numerator");
      a = k ? (a + 1) % 4 : c.choose(4, "denominator");
      n = 1 + k % 2;
      dt = k ? 0.5 : 0.001;
      MC_OP(c, "init " << dt << " " << n << " filter " << b << " " << a);
      mc::run(f, "init", {mc::Value(dt), mc::Value(n), mc::Value(V(B[b])), mc::Value(V(A[a]))});
      ready = true;
      xs.clear();
      double gdt = mc::run(f, "getTimestep").value();
      int gn = mc::run(f, "getSize").value();
      MC_EXPECT(c, gdt == dt && gn == n, "getters", "time step " << gdt << " size " << gn);
    } else if (op == 1) {
      if (ready && xs.empty()) continue;  // no sample to start from
      int nb = c.choose(3, "numerator"), na = (a + k) % 4;
      MC_OP(c, "switch to filter " << nb << " " << na);
      bool th = throws([&] { mc::run(f, "switch_filter", {mc::Value(V(B[nb])), mc::Value(V(A[na]))}); });
      MC_EXPECT(c, th == !ready, "switch", "switch refused: " << th);
      if (th) continue;
      b = nb;
      a = na;
      past(xs[0]);
    } else {
      Vector x = K<Vector>::val((op + k) % 4).head(n);
      f.m_xSIN = x;
      ++t;
      MC_OP(c, "sample " << mc::show(x));
      Vector got[3];
      bool th = false;
      for (int q = 0; q < 3; ++q)
        th |= throws([&] {
          int o = O[order][q];
          got[o] = o == 0 ? f.m_x_filteredSOUT(t) : o == 1 ? f.m_dxSOUT(t) : f.m_ddxSOUT(t);
        });
      MC_EXPECT(c, th == !ready, "refused", "outputs refused: " << th);
      if (th) continue;
      if (xs.empty()) past(x);
      xs.insert(xs.begin(), x);
      xs.resize(5);
      Vector y = Vector::Zero(n);
      for (size_t i = 0; i < B[b].size(); ++i) y += B[b][i] * xs[i];
      for (size_t i = 1; i < A[a].size(); ++i) y -= A[a][i] * ys[i - 1];
      y /= A[a][0];
      Vector dx = (y - ys[0]) / dt, ddx = (y - 2 * ys[0] + ys[1]) / dt / dt;
      ys.insert(ys.begin(), y);
      ys.resize(5);
      MC_EXPECT(c, mc::near(got[0], y), "filtered", "output is " << mc::show(got[0]) << " instead of " << mc::show(y));
      MC_EXPECT(c, mc::near(got[1], dx, 1e-7), "derivative", "derivative is " << mc::show(got[1]) << " instead of " << mc::show(dx));
      MC_EXPECT(c, mc::near(got[2], ddx, 1e-6), "second-derivative", "second derivative is " << mc::show(got[2]) << " instead of " << mc::show(ddx));
      c.observe(mc::hmat(y));
    }
  }
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"fir-double", [](mc::Ctx &c) { fir<double, double>(c, c.thorough ? 7 : 6); },
               "every history of 6 (thorough: 7) samples, coefficients and sizes", 3});
  S.push_back({"fir-vector", [](mc::Ctx &c) { fir<Vector, double>(c, c.thorough ? 6 : 5); }, "the same for vectors, 5 (6) operations", 3});
  S.push_back({"fir-matrix", [](mc::Ctx &c) { fir<Vector, Matrix>(c, c.thorough ? 6 : 5); }, "the same for matrices, 5 (6) operations", 3});
  S.push_back({"derivator-double", [](mc::Ctx &c) { derivator<double>(c, c.thorough ? 7 : 6); },
               "every history of 6 (thorough: 7) samples, failures of the input and time steps", 3});
  S.push_back({"derivator-vector", [](mc::Ctx &c) { derivator<Vector>(c, c.thorough ? 6 : 5); }, "the same for vectors, 5 (6) operations", 3});
  S.push_back({"derivator-matrix", [](mc::Ctx &c) { derivator<Matrix>(c, c.thorough ? 6 : 5); }, "the same for matrices, 5 (6) operations", 3});
  S.push_back({"derivator-quaternion", [](mc::Ctx &c) { derivator<VectorQuaternion>(c, c.thorough ? 6 : 5); },
               "the same for quaternions, 5 (6) operations", 3});
  S.push_back({"integrator-double", [](mc::Ctx &c) { integrator<double, double>(c, c.thorough ? 5 : 4); },
               "every numerator and denominator of 0 to 3 coefficients, every history of 4 (thorough: 5) samples, periods, "
               "coefficients and initializations", 3});
  S.push_back({"integrator-vector", [](mc::Ctx &c) { integrator<Vector, double>(c, c.thorough ? 4 : 3); }, "the same for vectors, 3 (4) operations", 3});
  S.push_back({"integrator-matrix", [](mc::Ctx &c) { integrator<Vector, Matrix>(c, c.thorough ? 4 : 3); }, "the same for matrices, 3 (4) operations", 3});
  S.push_back({"moving-average", [](mc::Ctx &c) { average(c, c.thorough ? 7 : 6); }, "every history of 6 (thorough: 7) operations", 3});
  S.push_back({"gradient", [](mc::Ctx &c) { gradient(c, c.thorough ? 7 : 6); }, "every history of 6 (thorough: 7) operations", 3});
  S.push_back({"differentiator", [](mc::Ctx &c) { differentiator(c, c.thorough ? 5 : 4); },
               "every history of 4 (thorough: 5) samples, initializations and switches of filters, 3 (thorough: 6) orders of reading", 3});
  return mc::main(argc, argv, "C19", S);
}
