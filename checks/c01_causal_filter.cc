// Causal filter: the outputs equal the difference equation for every input
// history, filter order, coefficient change and interleaving of two filters.
#include <mc.hh>
#include <Eigen/Core>
#include <deque>
#include <memory>
#include <sot/core/causal-filter.hh>

using dynamicgraph::sot::CausalFilter;
typedef Eigen::VectorXd V;

struct Coef {
  std::vector<double> b, a;
};
static V vec(const std::vector<double> &v) {
  V r((int)v.size());
  for (size_t i = 0; i < v.size(); ++i) r[(int)i] = v[i];
  return r;
}
static std::string str(const V &v) {
  std::ostringstream os;
  os.precision(12);
  os << "[";
  for (int i = 0; i < v.size(); ++i) os << (i ? " " : "") << v[i];
  os << "]";
  return os.str();
}

// The textbook definition: y[N] = (sum b_i x[N-i] - sum a_j y[N-j]) / a_0,
// the past before the first sample being the steady state of that sample.
struct Ref {
  Coef c;
  double dt;
  int n;
  bool started = false;
  std::deque<V> xs, ys;  // newest first
  Ref(const Coef &c, double dt, int n) : c(c), dt(dt), n(n) {}
  void prime(const V &x) {
    double sb = 0, sa = 0;
    for (double v : c.b) sb += v;
    for (double v : c.a) sa += v;
    xs.assign(8, x);
    ys.assign(8, x * (sb / sa));
    started = true;
  }
  V step(const V &x) {
    if (!started) prime(x);
    xs.push_front(x);
    xs.pop_back();
    V y = V::Zero(n);
    for (size_t i = 0; i < c.b.size(); ++i) y += c.b[i] * xs[i];
    for (size_t j = 1; j < c.a.size(); ++j) y -= c.a[j] * ys[j - 1];
    y /= c.a[0];
    V out(3 * n);
    out.head(n) = y;
    out.segment(n, n) = (y - ys[0]) / dt;
    out.tail(n) = (y - 2 * ys[0] + ys[1]) / dt / dt;
    ys.push_front(y);
    ys.pop_back();
    return out;
  }
  void sw(const Coef &nc) {
    c = nc;
    if (started) {
      V last = xs[0];
      prime(last);
    }
  }
  uint64_t hash() const {
    uint64_t h = 7;
    for (double v : c.b) h = mc::hdbl(v, h);
    for (double v : c.a) h = mc::hdbl(v, h);
    if (started) {
      for (size_t i = 0; i + 1 < c.b.size(); ++i)
        for (int k = 0; k < n; ++k) h = mc::hdbl(xs[i][k], h);
      for (size_t i = 0; i < std::max<size_t>(2, c.a.size() - 1); ++i)
        for (int k = 0; k < n; ++k) h = mc::hdbl(std::round(ys[i][k] * 1e9), h);
    }
    return h;
  }
};

static const std::vector<Coef> &coefs(bool all) {
  // every numerator size 1..4 with every denominator size 1..4, coefficients
  // all distinct so that a permuted or shifted coefficient is visible
  static std::vector<Coef> full, few;
  if (full.empty()) {
    double B[4] = {0.5, -0.25, 1.5, 0.75}, A[4] = {2, 0.5, -0.25, 0.125};
    for (int m = 1; m <= 4; ++m)
      for (int n = 1; n <= 4; ++n)
        full.push_back(Coef{std::vector<double>(B, B + m), std::vector<double>(A, A + n)});
    few = {Coef{{0.5, -0.25}, {2, 0.5, -0.25}}, Coef{{1}, {1, -0.5, 0.25}},
           Coef{{0.5, 0.25, 1}, {1, 0.25, -0.5, 0.125}},
           Coef{{0.25, 0.5, -1, 2}, {4, 1, 0.5}}, Coef{{3, 1}, {1}},
           Coef{{1.5, 0.5, 1}, {2, -0.5}}};
  }
  return all ? full : few;
}

static V input(int k, int n) {
  static const double A[4] = {1, 0, -2, 5};
  V x(n);
  x[0] = A[k];
  for (int i = 1; i < n; ++i) x[i] = 3 * A[k] - 1 + i;
  return x;
}

static void compare(mc::Ctx &c, const V &got, const V &want, double dt, const std::string &who) {
  for (int i = 0; i < want.size(); ++i) {
    double scale = i < want.size() / 3 ? 1 : (i < 2 * want.size() / 3 ? 1 / dt : 1 / dt / dt);
    double tol = 1e-9 * std::max(scale, std::fabs(want[i]));
    if (!(std::fabs(got[i] - want[i]) <= tol))
      MC_FAIL(c, "difference-equation", who << "component " << i << " of [x dx ddx] is " << str(got)
                                            << ", the difference equation gives " << str(want));
  }
}

static void history(mc::Ctx &c, int depth, bool allCoefs, bool withSwitch, int alphabet) {
  const std::vector<Coef> &cs = coefs(allCoefs);
  int n = 1 + c.choose(2, "size");
  double dt = 0.25;
  const Coef &c0 = cs[(size_t)c.choose((int)cs.size(), "coefficients")];
  CausalFilter f(dt, n, vec(c0.b), vec(c0.a));
  Ref r(c0, dt, n);
  MC_OP(c, "filter size=" << n << " b=" << str(vec(c0.b)) << " a=" << str(vec(c0.a)));
  V out(3 * n);
  bool switched = false;
  for (int d = 0; d < depth; ++d) {
    int nsw = (withSwitch && !switched) ? (int)cs.size() : 0;
    int k = c.choose(alphabet + nsw, "op");
    if (k < alphabet) {
      V x = input(k, n);
      MC_OP(c, "sample " << str(x));
      f.get_x_dx_ddx(x, out);
      V want = r.step(x);
      compare(c, out, want, dt, "");
      for (int i = 0; i < n; ++i) c.observe(mc::hdbl(std::round(out[i] * 1e9), 1));
    } else {
      const Coef &nc = cs[(size_t)(k - alphabet)];
      MC_OP(c, "switch to b=" << str(vec(nc.b)) << " a=" << str(vec(nc.a)));
      f.switch_filter(vec(nc.b), vec(nc.a));
      r.sw(nc);
      switched = true;
    }
    c.state(r.hash());
  }
}

// Repeated switches, also back to back and before any sample.
static void manySwitch(mc::Ctx &c, int depth) {
  const std::vector<Coef> &cs = coefs(false);
  int n = 1;
  double dt = 0.5;
  const Coef &c0 = cs[(size_t)c.choose(3, "coefficients")];
  CausalFilter f(dt, n, vec(c0.b), vec(c0.a));
  Ref r(c0, dt, n);
  MC_OP(c, "filter b=" << str(vec(c0.b)) << " a=" << str(vec(c0.a)));
  V out(3);
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(5, "op");
    if (k < 2) {
      V x = input(2 * k, n);
      MC_OP(c, "sample " << str(x));
      f.get_x_dx_ddx(x, out);
      compare(c, out, r.step(x), dt, "");
      c.observe(mc::hdbl(std::round(out[0] * 1e9), 1));
    } else {
      const Coef &nc = cs[(size_t)(2 * (k - 2) + (k == 4))];
      MC_OP(c, "switch to b=" << str(vec(nc.b)) << " a=" << str(vec(nc.a)));
      f.switch_filter(vec(nc.b), vec(nc.a));
      r.sw(nc);
    }
    c.state(r.hash());
  }
}

// Two filters used in turn do not influence each other.
static void interleaved(mc::Ctx &c, int depth) {
  const std::vector<Coef> &cs = coefs(false);
  double dt = 0.25;
  size_t i0 = (size_t)c.choose((int)cs.size(), "first"), i1 = (size_t)c.choose((int)cs.size(), "second");
  CausalFilter f0(dt, 1, vec(cs[i0].b), vec(cs[i0].a)), f1(dt, 2, vec(cs[i1].b), vec(cs[i1].a));
  Ref r0(cs[i0], dt, 1), r1(cs[i1], dt, 2);
  V o0(3), o1(6);
  for (int d = 0; d < depth; ++d) {
    int k = c.choose(4, "op");
    V x = input(k & 1 ? 2 : 0, k < 2 ? 1 : 2);
    MC_OP(c, "filter" << (k < 2 ? 0 : 1) << " sample " << str(x));
    if (k < 2) {
      f0.get_x_dx_ddx(x, o0);
      compare(c, o0, r0.step(x), dt, "filter0 ");
      c.observe(mc::hdbl(o0[0], 1));
    } else {
      f1.get_x_dx_ddx(x, o1);
      compare(c, o1, r1.step(x), dt, "filter1 ");
      c.observe(mc::hdbl(o1[0], 2));
    }
    c.state(mc::mix(r0.hash(), r1.hash()));
  }
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> s;
  s.push_back({"history", [](mc::Ctx &c) { history(c, c.thorough ? 10 : 8, true, false, 3); },
               "sizes 1-2; numerator and denominator sizes 1-4 (16 pairs); every input sequence of length 8 (thorough 10) over 3 values"});
  s.push_back({"switch", [](mc::Ctx &c) { history(c, c.thorough ? 7 : 6, false, true, 3); },
               "sizes 1-2; 6 coefficient pairs; one switch to each of the 6 at every position of every input sequence of length 6 (thorough 7)"});
  s.push_back({"switches", [](mc::Ctx &c) { manySwitch(c, c.thorough ? 9 : 7); },
               "every sequence of 7 (thorough 9) operations over 2 samples and 3 filter switches"});
  s.push_back({"interleaved", [](mc::Ctx &c) { interleaved(c, c.thorough ? 8 : 6); },
               "two filters, every pair of 6 coefficient sets, every interleaving of 6 (thorough 8) samples"});
  return mc::main(argc, argv, "C01", s);
}
