// C20: the device integrates the control into the state, within bounds.
#include <sot/core/device.hh>
#include <new>
#include <cstring>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
using mc::show;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;

static M3 skew(const V3 &v) {
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
// motion with a constant body twist during one unit of time
static M4 moved(const M4 &m, const Eigen::Matrix<double, 6, 1> &xi) {
  V3 v = xi.head<3>(), w = xi.tail<3>();
  double a = w.norm();
  M3 k = skew(w), R, V;
  if (a < 1e-4) {
    R = M3::Identity() + k + k * k / 2 + k * k * k / 6;
    V = M3::Identity() + k / 2 + k * k / 6;
  } else {
    R = M3::Identity() + k * (std::sin(a) / a) + k * k * ((1 - std::cos(a)) / a / a);
    V = M3::Identity() + k * ((1 - std::cos(a)) / a / a) + k * k * ((a - std::sin(a)) / a / a / a);
  }
  M4 e = M4::Identity();
  e.topLeftCorner<3, 3>() = R;
  e.topRightCorner<3, 1>() = V * v;
  return m * e;
}
static M3 rot(int axis, double a) {
  int j = (axis + 1) % 3, k = (axis + 2) % 3;
  M3 m = M3::Identity();
  m(j, j) = m(k, k) = std::cos(a);
  m(k, j) = std::sin(a);
  m(j, k) = -std::sin(a);
  return m;
}
static M4 root(const Vector &q) {
  M4 m = M4::Identity();
  m.topLeftCorner<3, 3>() = rot(2, q(5)) * rot(1, q(4)) * rot(0, q(3));
  m.topRightCorner<3, 1>() = q.head<3>();
  return m;
}
enum Mode { NO, ONE, TWO };
struct Model {
  Vector q = Vector::Zero(6), v = Vector::Zero(6), vout = Vector::Zero(6);
  Vector lo[3], up[3];  // position, velocity, torque
  Mode mode = ONE;
  bool sanity = true;
  int time = 0;
  bool matches(int k, Vector::Index n) const { return lo[k].size() == n && up[k].size() == n; }
};
static void clamp(Vector &x, const Vector &lo, const Vector &up) {
  for (int i = 0; i < x.size(); ++i) x(i) = x(i) < lo(i) ? lo(i) : up(i) < x(i) ? up(i) : x(i);
}
template <class F>
static bool refused(F f) {
  try {
    f();
  } catch (std::invalid_argument &) {
    return true;
  }
  return false;
}
static const double INF = std::numeric_limits<double>::infinity();
static Vector ramp(Vector::Index n, double s) {
  Vector r(n);
  for (int i = 0; i < n; ++i) r(i) = s * ((i * 5 + 2) % 7 - 3);
  return r;
}
static void bounds(mc::Ctx &c, Device &d, Model &m, int what, int kind) {
  static const char *CMD[] = {"setPositionBounds", "setVelocityBounds", "setTorqueBounds"};
  Vector::Index n = what == 1 ? m.v.size() : m.q.size();
  Vector lo(n + (kind == 2)), up(n + (kind == 3));
  lo.setConstant(kind == 1 ? (what ? -0.3 : -0.5) : -100);
  up.setConstant(kind == 1 ? (what ? 0.2 : 0.4) : 100);
  if (what == 0)
    for (int i = 3; i < 6 && i < n; ++i) lo(i) = -INF, up(i) = INF;
  MC_OP(c, CMD[what] << " " << show(lo) << " " << show(up));
  bool th = refused([&] { mc::run(d, CMD[what], {mc::Value(lo), mc::Value(up)}); });
  MC_EXPECT(c, th == (kind > 1), "bounds", CMD[what] << " refused: " << th);
  if (!th) m.lo[what] = lo, m.up[what] = up;
}
static void compare(mc::Ctx &c, Device &d, const Model &m, const char *what) {
  const Vector &q = d.stateSOUT.accessCopy(), &v = d.velocitySOUT.accessCopy();
  MC_EXPECT(c, mc::near(q, m.q), what, "state is " << show(q) << " instead of " << show(m.q));
  MC_EXPECT(c, mc::near(v, m.vout), what, "velocity is " << show(v) << " instead of " << show(m.vout));
  if (m.time) {
    const Vector &mo = d.motorcontrolSOUT.accessCopy();
    MC_EXPECT(c, mc::near(mo, m.q), what, "motor control is " << show(mo) << " instead of " << show(m.q));
  }
  MC_EXPECT(c, d.stateSOUT.getTime() == m.time, "time", "time of the state is " << d.stateSOUT.getTime() << " instead of " << m.time);
}
static void increment(mc::Ctx &c, Device &d, Model &m, int kind, int pattern, double dt) {
  Vector::Index n = m.q.size(), s = kind == 0 ? n : kind == 1 ? std::max<Vector::Index>(n - 6, 1) : kind == 2 ? n + 1 : 2;
  Vector u = ramp(s, pattern == 1 ? 5 : 0.1);
  if (pattern == 2) u(s - 1) = std::nan("");
  MC_OP(c, "increment " << dt << " control " << show(u));
  d.controlSIN = u;
  bool nan = m.sanity && pattern == 2, bad = false;
  if (!m.sanity && pattern == 2) c.prune();
  if (!nan) {
    bad = s > n || (m.mode == TWO && s > m.v.size());
    if (m.sanity) {
      bad |= !m.matches(0, n);
      if (m.mode != NO) bad |= !m.matches(1, m.mode == TWO ? m.v.size() : n);
    }
  }
  bool th = refused([&] { d.increment(dt); });
  MC_EXPECT(c, th == bad, "refused", "increment refused: " << th);
  if (bad) return compare(c, d, m, "refused");
  ++m.time;
  Vector before = m.q, applied = Vector::Zero(s);
  bool free = false;
  if (!nan) {
    if (m.mode == NO)
      m.q.tail(s) = u;
    else {
      applied = u;
      if (m.mode == TWO) {
        applied = m.v.tail(s) + 0.5 * dt * u;
        m.v.tail(s) += dt * u;
        if (m.sanity) clamp(m.v, m.lo[1], m.up[1]);
      } else if (m.sanity)
        clamp(applied, m.lo[1].tail(s), m.up[1].tail(s));
      free = s == n && n >= 6;
      for (Vector::Index i = free ? 6 : 0; i < s; ++i) m.q(n - s + i) += applied(i) * dt;
    }
  }
  if (free) {
    M4 want = moved(root(before), applied.head<6>() * dt);
    const Vector &q = d.stateSOUT.accessCopy();
    MC_EXPECT(c, q.size() == n, "state", "state is " << show(q));
    m.q.head<3>() = want.topRightCorner<3, 1>();
    m.q.segment<3>(3) = q.segment<3>(3);
    M3 R = root(q).topLeftCorner<3, 3>();
    MC_EXPECT(c, (R - want.topLeftCorner<3, 3>()).norm() < 1e-9, "root", "orientation of the root is " << show(Matrix(R)) << " instead of " << show(Matrix(want.topLeftCorner<3, 3>())));
  }
  if (m.sanity && !nan) clamp(m.q, m.lo[0], m.up[0]);
  if (m.mode == TWO) m.vout = m.v;
  if (m.mode == ONE) m.vout = applied;
  compare(c, d, m, "state");
  for (int i = 0; i < 4; ++i) MC_EXPECT(c, d.forcesSOUT[i]->accessCopy() == Vector::Zero(6), "forces", "force " << i << " is not null");
  MC_EXPECT(c, d.ZMPPreviousControllerSOUT.accessCopy() == Vector::Zero(3), "zmp", "zmp is not null");
  c.observe(mc::hmat(m.q) ^ mc::hmat(m.vout));
}
static void change(mc::Ctx &c, Device &d, Model &m, int k) {
  int op = c.choose(10, "operation");
  Vector::Index n = m.q.size();
  if (op == 0) {
    int w = c.choose(6, "mode");
    static const char *N[] = {"noInteg", "oneInteg", "twoInteg", "other"};
    if (w < 4) {
      MC_OP(c, "control type " << N[w]);
      mc::run(d, "setControlInputType", {mc::Value(std::string(N[w]))});
      if (w < 3) m.mode = (Mode)w;
    } else if (w == 4) {
      MC_OP(c, "second order");
      mc::run(d, "setSecondOrderIntegration");
      m.mode = TWO;
      m.v = m.vout = Vector::Zero(n);
    } else {
      MC_OP(c, "no integration");
      d.setNoIntegration();
      m.mode = NO;
      m.v = m.vout = Vector::Zero(n);
    }
  } else if (op <= 3) {
    bounds(c, d, m, op - 1, c.choose(4, "bounds"));
  } else if (op == 4) {
    bool on = c.flag("sanity check");
    MC_OP(c, "sanity check " << on);
    bool bad = on && (!m.matches(0, n) || (m.mode != NO && !m.matches(1, n)) || (m.mode == TWO && !m.matches(2, n)));
    bool th = refused([&] { mc::run(d, "setSanityCheck", {mc::Value(on)}); });
    MC_EXPECT(c, th == bad, "sanity", "sanity check refused: " << th);
    if (!th) m.sanity = on;
  } else if (op == 5) {
    Vector q = ramp(n + c.choose(2, "size"), 0.1 + 0.05 * k);
    MC_OP(c, "set " << show(q));
    bool bad = m.sanity && ((m.mode != NO && !m.matches(1, q.size())) || (m.mode == TWO && !m.matches(2, q.size())));
    bool th = refused([&] { mc::run(d, "set", {mc::Value(q)}); });
    MC_EXPECT(c, th == bad, "set", "state refused: " << th);
    if (!th) m.q = q;
  } else if (op == 6) {
    m.v = m.vout = ramp(n + c.choose(2, "size"), 0.05);
    MC_OP(c, "velocity " << show(m.v));
    mc::run(d, "setVelocity", {mc::Value(m.v)});
  } else if (op == 7) {
    M4 g = M4::Identity();
    static const double A[][3] = {{0.1, -0.2, 0.3}, {-1, 0.5, 2}};
    int w = c.choose(2, "pose");
    g.topLeftCorner<3, 3>() = rot(2, A[w][2]) * rot(1, A[w][1]) * rot(0, A[w][0]);
    g.topRightCorner<3, 1>() << 0.1, 0.2, -0.3;
    MC_OP(c, "root " << show(Matrix(g)));
    bool th = refused([&] { mc::run(d, "setRoot", {mc::Value(Matrix(g))}); });
    MC_EXPECT(c, th == (n < 6), "root", "root refused: " << th);
    if (!th) {
      const Vector &q = d.stateSOUT.accessCopy();
      MC_EXPECT(c, q.size() == n && (root(q) - g).norm() < 1e-9, "root", "state is " << show(q));
      m.q.head<6>() = q.head<6>();
    }
  } else if (op == 8) {
    static const unsigned N[] = {6, 8, 3};
    unsigned s = N[c.choose(3, "size")];
    MC_OP(c, "resize " << s);
    mc::run(d, "resize", {mc::Value(s)});
    m.q = m.v = m.vout = Vector::Zero(s);
    MC_EXPECT(c, d.previousControlSOUT.accessCopy() == m.q && d.pseudoTorqueSOUT.accessCopy() == m.q, "resize", "other outputs");
  } else
    return;
  compare(c, d, m, "command");
}
static void history(mc::Ctx &c, int changes, int kinds) {
  Device d(mc::uniq("device"));
  Model m;
  static const unsigned N[] = {8, 6, 3};
  unsigned n = N[c.choose(3, "size")];
  int b = c.choose(3, "bounds");
  mc::run(d, "resize", {mc::Value(n)});
  m.q = m.v = m.vout = Vector::Zero(n);
  if (b)
    for (int k = 0; k < 3; ++k) bounds(c, d, m, k, b - 1);
  compare(c, d, m, "resize");
  for (int k = 0; k < changes; ++k) {
    c.step();
    change(c, d, m, k);
    bool full = k + 1 < changes || kinds == 4;
    int kind = full ? c.choose(4, "size of the control") : c.choose(2, "size of the control");
    int pattern = full ? c.choose(3, "control") : c.choose(2, "control");
    increment(c, d, m, kind, pattern, k % 2 ? 0.5 : 0.01);
  }
}
// calls of signals around an iteration
static void cycle(mc::Ctx &c) {
  Device d(mc::uniq("device"));
  mc::run(d, "setSanityCheck", {mc::Value(false)});
  std::vector<std::string> log;
  int fail[2] = {0, 0};
  struct S {
    SignalTimeDependent<int, int> s;
    S(const char *n) : s(n) { s.setDependencyType(TimeDependency<int>::ALWAYS_READY); }
  } before("before"), after("after");
  SignalTimeDependent<Vector, int> ctl("control");
  ctl.setDependencyType(TimeDependency<int>::ALWAYS_READY);
  double speed = 1, seen = 0;
  auto call = [&](int w, int &r, int t) -> int & {
    std::ostringstream os;
    os << (w ? "after " : "before ") << t;
    log.push_back(os.str());
    if (w) seen = d.stateSOUT(t)(0);
    if (fail[w] == 1) throw std::runtime_error("failure");
    if (fail[w] == 2) throw "failure";
    if (fail[w] == 3) throw 3;
    return r;
  };
  before.s.setFunction([&](int &r, int t) -> int & { return call(0, r, t); });
  after.s.setFunction([&](int &r, int t) -> int & { return call(1, r, t); });
  ctl.setFunction([&](Vector &r, int t) -> Vector & {
    std::ostringstream os;
    os << "control " << t;
    log.push_back(os.str());
    r = Vector::Zero(6);
    r(0) = speed;
    return r;
  });
  d.controlSIN.plug(&ctl);
  const int T = 5;
  d.stateSOUT.setTime(T);
  unsigned fb = 1 + (unsigned)c.choose(3, "factor before"), fa = 1 + (unsigned)c.choose(3, "factor after");
  d.periodicCallBefore().addDownsampledSignal("b", before.s, fb);
  d.periodicCallAfter().addDownsampledSignal("a", after.s, fa);
  double x = 0;
  for (int k = 0; k < (c.thorough ? 4 : 3); ++k) {
    fail[0] = c.choose(4, "failure before");
    fail[1] = c.choose(4, "failure after");
    speed = k + 1;
    log.clear();
    MC_OP(c, "increment, failures " << fail[0] << " " << fail[1]);
    d.increment(0.5);
    c.step();
    x += 0.5 * speed;
    std::vector<std::string> want;
    if ((T + k + 1) % fb == 0) want.push_back("before " + std::to_string(T + k + 1));
    want.push_back("control " + std::to_string(T + k));
    if ((T + k + 1) % fa == 0) want.push_back("after " + std::to_string(T + k + 1));
    std::string a, b;
    for (auto &s : log) a += s + "; ";
    for (auto &s : want) b += s + "; ";
    MC_EXPECT(c, log == want, "order", "called " << a << " instead of " << b);
    MC_EXPECT(c, mc::near(d.stateSOUT.accessCopy()(0), x), "state", "position is " << d.stateSOUT.accessCopy()(0) << " instead of " << x);
    const double mo = d.motorcontrolSOUT.accessCopy()(0);
    MC_EXPECT(c, mc::near(mo, x), "motor", "motor control is " << mo << " instead of " << x);
    MC_EXPECT(c, d.stateSOUT.getTime() == T + k + 1, "time", "time of the state is " << d.stateSOUT.getTime());
    if ((T + k + 1) % fa == 0) MC_EXPECT(c, mc::near(seen, x), "after", "the calls after the iteration see " << seen << " instead of " << x);
    c.observe(log.size() * 17 + (uint64_t)fail[1]);
  }
}
// the first values, in clean and used memory
static void fresh(mc::Ctx &c) {
  alignas(Device) static unsigned char mem[sizeof(Device)];
  std::memset(mem, c.flag("used memory") ? 0x5a : 0, sizeof mem);
  Device *d = new (mem) Device(mc::uniq("device"));
  double dt = mc::run(*d, "getTimeStep").value();
  MC_OP(c, "new device");
  MC_EXPECT(c, mc::near(dt, 5e-2), "time-step", "time step is " << dt);
  Model m;
  compare(c, *d, m, "fresh");
  increment(c, *d, m, c.choose(4, "size of the control"), c.choose(3, "control"), 0.5);
  d->~Device();
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"history", [](mc::Ctx &c) { history(c, 2, c.thorough ? 4 : 2); },
               "3 sizes, 3 settings of bounds, every pair of changes each followed by an increment with every size and kind of control", 3});
  S.push_back({"history-long", [](mc::Ctx &c) { history(c, 3, 2); }, "every triple of changes, each followed by an increment", 4});
  S.back().onlyThorough = true;
  S.push_back({"cycle", cycle, "every factor and kind of failure of the signals called around 3 (thorough: 4) iterations", 3});
  S.push_back({"fresh", fresh, "new devices in clean and used memory", 1});
  return mc::main(argc, argv, "C20", S);
}
