// C26: limiters keep commands inside of their limits and generators play the
// curve they were given.
#include <sot/core/clamp-workspace.hh>
#include <sot/core/com-freezer.hh>
#include <sot/core/double-constant.hh>
#include <sot/core/gripper-control.hh>
#include <sot/core/joint-limitator.hh>
#include <sot/core/matrix-constant.hh>
#include <sot/core/motion-period.hh>
#include <sot/core/neck-limitation.hh>
#include <sot/core/smooth-reach.hh>
#include <sot/core/vector-constant.hh>

#include "laws.hh"
using laws::in;
static MH pose(double x, double y, double z, double a, V3 axis) {
  MH m;
  m.setIdentity();
  m.linear() = Eigen::AngleAxisd(a, axis.normalized()).toRotationMatrix();
  m.translation() = V3(x, y, z);
  return m;
}

static void joints(mc::Ctx &c) {
  JointLimitator e(mc::uniq("limitator"));
  const std::vector<Vector> Q = {mc::vec({9, 9, 9, -9, -9, -9, 0.1, -0.2}), mc::vec({0, 0, 0, 0, 0, 0, 0.49, 0.3}), mc::vec({0, 0, 0, 0, 0, 0, 0.6, -1.2})},
                            U = {mc::vec({1, 1, 1, 1, 1, 1, 0.5, 0.25}), mc::vec({-1, -1, -1, -1, -1, -1, 2, 0.5})},
                            L = {mc::vec({-1, -1, -1, -1, -1, -1, -0.5, -0.25}), mc::vec({-2, -2, -2, -2, -2, -2, 0.05, -3})},
                            V = {mc::vec({1, -2, 3, -4, 5, -6, 30, -50}), mc::vec({4, 8}), mc::vec({-100, 200}), mc::vec({3})};
  Input<Vector> q(Q, &e.jointSIN), up(U, &e.upperJlSIN), lo(L, &e.lowerJlSIN), u(V, &e.controlSIN);
  laws::play(c, {in("joint", q), in("upperJl", up), in("lowerJl", lo), in("controlIN", u)},
             {{"control", [&](int t) { return flat(e.controlSOUT(t)); }, [&]() { return q.ok() && up.ok() && lo.ok() && u.ok(); },
               [&](int t) {
                 Vector r = u.at(t);
                 int off = 8 - (int)r.size();
                 for (int i = 0; i < r.size(); ++i) {
                   int j = i + off;
                   double next = q.at(t)(j) + 0.005 * r(i);
                   if (j >= 6 && !(next > lo.at(t)(j) && next < up.at(t)(j))) r(i) = 0;
                 }
                 return Matrix(r);
               },
               laws::always},
              {"widthJl", [&](int t) { return flat(e.widthJlSINTERN(t)); }, [&]() { return up.ok() && lo.ok(); }, [&](int t) { return Matrix(up.at(t) - lo.at(t)); }, laws::always}},
             {}, c.thorough ? 3 : 2);
}
static void neck(mc::Ctx &c) {
  NeckLimitation e(mc::uniq("neck")), again(mc::uniq("neck"));
  static const double pans[] = {-1.4, -0.7, -0.002, -0.0005, 0, 0.0005, 0.002, 0.3, 1.4}, over[] = {-2, -0.3, -0.001, 0.001, 0.2, 1};
  static const int sizes[] = {16, 17, 40};
  int n = c.choose(2, "changes") + 1;
  for (int k = 1; k <= n; ++k) {
    int size = sizes[c.choose(3, "size")];
    double pan = pans[c.choose(9, "pan")], bound = std::fabs(pan) < 1e-3 ? 0.6981 : 0.6981 - std::fabs(pan) * 25 / 42, tilt = bound + over[c.choose(6, "tilt")];
    Vector q(size);
    for (int i = 0; i < size; ++i) q(i) = 0.01 * i * (i % 2 ? 1 : -1);
    q(14) = pan;
    q(15) = tilt;
    e.jointSIN = q;
    Vector want = q;
    want(15) = std::min(tilt, bound);
    MC_OP(c, "pan " << pan << " and tilt " << tilt << " of " << size << " joints");
    Vector got = e.jointSOUT(k);
    MC_EXPECT(c, mc::near(got, want), "neck", "the neck is at " << got(14) << ", " << got(15) << " instead of " << want(14) << ", " << want(15));
    again.jointSIN = got;
    Vector g = again.jointSOUT(k);
    MC_EXPECT(c, mc::near(g, want), "twice", "limited twice, the neck is at " << g(14) << ", " << g(15));
    c.observe(mc::hmat(Matrix(got), 0));
  }
}
static void gripper(mc::Ctx &c) {
  std::unique_ptr<GripperControlPlugin> ptr(new GripperControlPlugin(mc::uniq("gripper")));
  GripperControlPlugin &e = *ptr;
  const std::vector<Vector> P = {mc::vec({0.1, 0.2, 0.3}), mc::vec({0.15, -0.2, 0.1}), mc::vec({0, 0.4, 0.2})}, T = {mc::vec({5, -5, 0.5}), mc::vec({-3, 8, 2}), Vector(0)},
                            L = {mc::vec({1, 1, 1}), mc::vec({6, 0.2, 10})};
  Input<Vector> pos(P, &e.positionFullSizeSIN), tor(T, &e.torqueFullSizeSIN), lim(L, &e.torqueLimitFullSizeSIN);
  pos.change((int)P.size());  // a sensor: always another measure
  static const bool sel[][3] = {{true, true, true}, {true, false, true}, {false, true, true}, {false, true, false}};
  static const double des[][3] = {{0.3, -0.3, 0.1}, {-0.1, 0.2, 0.6}};
  int s = -1, d = 0;
  Vector factor(0);
  double offset = 0.9;
  auto put = [&]() {
    Vector v(0);
    Flags f;
    for (int i = 0; i < 3; ++i) {
      f.add(sel[s][i]);
      if (sel[s][i]) {
        v.conservativeResize(v.size() + 1);
        v(v.size() - 1) = des[d][i];
      }
    }
    e.positionDesSIN = v;
    e.selectionSIN = f;
    return v;
  };
  Vector goal(0);
  auto red = [&](const Vector &v) {
    Vector r(0);
    for (int i = 0; i < v.size(); ++i)
      if (sel[s][i]) {
        r.conservativeResize(r.size() + 1);
        r(r.size() - 1) = v(i);
      }
    return r;
  };
  std::vector<laws::Act> acts;
  for (int k = 0; k < 4; ++k)
    acts.push_back({"selection " + std::string(k == 0 ? "111" : k == 1 ? "101" : k == 2 ? "011" : "010"), [&, k]() {
                      s = k;
                      goal = put();
                    }});
  for (int k = 0; k < 2; ++k)
    acts.push_back({k ? "open" : "close", [&, k]() {
                      d = k;
                      goal = put();
                    }});
  for (double o : {0.5, 0., 1., -0.2, 1.5})
    acts.push_back({"offset " + std::to_string(o), [&, o]() {
                      bool th = false;
                      try {
                        mc::run(e, "offset", {mc::Value(o)});
                      } catch (std::exception &) {
                        th = true;
                      }
                      MC_EXPECT(c, th == !(o > 0 && o < 1), "offset", "an offset of " << o << " is " << (th ? "refused" : "accepted"));
                      if (!th) offset = o;
                    }});
  s = c.choose(4, "first selection");
  goal = put();
  auto ok = [&]() { return pos.ok() && tor.ok() && lim.ok(); };
  laws::play(c, {in("torqueFullIN", tor), in("torqueLimitFullIN", lim)},
             {{"reference", [&](int t) { return flat(e.desiredPositionSOUT(t)); }, ok,
               [&](int t) {
                 Vector p = red(pos.at(t)), r(p.size());
                 for (int i = 0; i < p.size(); ++i) r(i) = p(i) + factor(i) * (goal(i) - p(i));
                 return Matrix(r);
               },
               laws::always},
              {"positionReducedOUT", [&](int t) { return flat(e.positionReduceSOUT(t)); }, [&]() { return pos.ok(); }, [&](int t) { return Matrix(red(pos.at(t))); }, laws::always},
              {"torqueReducedOUT", [&](int t) { return flat(e.torqueReduceSOUT(t)); }, [&]() { return tor.ok(); }, [&](int t) { return Matrix(red(tor.at(t))); }, laws::always},
              {"torqueLimitReducedOUT", [&](int t) { return flat(e.torqueLimitReduceSOUT(t)); }, [&]() { return lim.ok(); }, [&](int t) { return Matrix(red(lim.at(t))); }, laws::always}},
             acts, c.thorough ? 3 : 2,
             [&](int t) {
               if (!ok()) return;
               Vector p = red(pos.at(t)), tq = red(tor.at(t)), l = red(lim.at(t));
               if (factor.size() != p.size()) factor = Vector::Ones(p.size());
               if (!tq.size()) return;
               for (int i = 0; i < p.size(); ++i) {
                 double v = goal(i) - p(i);
                 bool pushes = (v > 0 && tq(i) > l(i)) || (v < 0 && tq(i) < -l(i));
                 factor(i) = pushes ? factor(i) * offset : std::min(1., factor(i) / offset);
               }
             });
}
static void clamp(mc::Ctx &c) {
  ClampWorkspace e(mc::uniq("clamp"));
  const std::vector<MH> R = {pose(0, 0, 0, 0, V3(1, 0, 0)), pose(-1, 0.5, 2, 2.1, V3(0.3, -1, 0.2))}, P = {pose(0.3, -0.3, 0.4, 0.7, V3(0, 0, 1)), pose(-0.7, 0.1, 2.2, -1.3, V3(1, 1, 0))};
  Input<MH> r(R, &e.positionrefSIN), p(P, &e.positionSIN);
  auto ok = [&]() { return r.ok() && p.ok(); };
  laws::play(c, {in("positionref", r), in("position", p)},
             {{"alpha", [&](int t) { return flat(e.alphaSOUT(t)); }, ok,
               [&](int) -> Matrix {
                 Matrix m = Matrix::Zero(6, 6);
                 m.topLeftCorner(3, 3).setIdentity();
                 return m;
               },
               laws::always},
              {"alphabar", [&](int t) { return flat(e.alphabarSOUT(t)); }, ok,
               [&](int) -> Matrix {
                 Matrix m = Matrix::Zero(6, 6);
                 m.bottomRightCorner(3, 3).setIdentity();
                 return m;
               },
               laws::always},
              {"ref", [&](int t) { return flat(e.handrefSOUT(t)); }, ok,
               [&](int t) {
                 V3 x = r.at(t).linear().transpose() * (V3(p.at(t).translation()) - V3(r.at(t).translation()));
                 double yaw = (-30 + 35 * (x(1) + 0.4) / 0.15) * M_PI / 180;
                 MH m;
                 m.setIdentity();
                 m.linear() = (Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(-M_PI / 2, V3::UnitY())).toRotationMatrix();
                 m.translation() = V3(0.325, -0.325, 0.35);
                 return Matrix(m.matrix());
               },
               laws::always}},
             {}, c.thorough ? 4 : 3, std::function<void(int)>(), 1, 1e-4);
}
static void freezer(mc::Ctx &c) {
  CoMFreezer e(mc::uniq("freezer"));
  const std::vector<Vector> R = {mc::vec({0, 0, 0.8}), mc::vec({0.1, -0.2, 0.7}), mc::vec({0.5, 0.5, 0.75})};
  const std::vector<unsigned> B = {0, 1, 2};
  Input<Vector> ref(R, &e.CoMRefSIN);
  Input<unsigned> pg(B, &e.PGInProcessSIN);
  static const int skips[] = {1, 199, 200, 201};
  ref.change(c.choose(4, "reference"));
  pg.change(c.choose(3, "in process"));
  int depth = c.thorough ? 4 : 3, t = 0, stop = -1;
  bool was = false, begun = false;
  Vector held;
  for (int k = 0; k <= depth; ++k) {
    if (k) {
      int w = c.choose(6, "change");
      std::string to = !w ? "" : w < 4 ? pg.change(w - 1) : ref.change(w == 4 ? (ref.k + 1) % 3 : 3);
      if (w) MC_OP(c, (w < 4 ? "inprocess" : "the reference") << " is " << to);
    }
    t += k ? skips[c.choose(4, "skip")] : 1;
    bool now = pg.at(t) != 0;
    if (now || was || !begun || t < stop + 200) held = ref.at(t);
    if (!now && (was || !begun)) stop = t;
    if (!begun) stop = t;
    begun = true;
    was = now;
    Vector got = e.freezedCoMSOUT(t);
    MC_EXPECT(c, mc::near(got, held), "freezed", "at " << t << " the center of mass is " << mc::show(got) << " instead of " << mc::show(held) << (now ? "" : ", stopped at " + std::to_string(stop)));
    c.observe(mc::hmat(Matrix(got), (uint64_t)t));
  }
}
static void reach(mc::Ctx &c) {
  std::unique_ptr<SmoothReach> ptr(new SmoothReach(mc::uniq("reach")));
  SmoothReach &e = *ptr;
  const std::vector<Vector> S = {mc::vec({0, 1}), mc::vec({-3, 2})}, G = {mc::vec({10, -10}), mc::vec({0.5, 1})};
  Input<Vector> start(S, &e.startSIN);
  bool pending = false, started = false;
  Vector from, to;
  int at = 0, length = 0, mode = 2;
  double beta = 1.2;
  std::vector<laws::Act> acts;
  static const int lens[] = {0, 1, 4, 7};
  for (int g = 0; g < 2; ++g)
    for (int l : lens)
      acts.push_back({"set " + mc::show(G[(size_t)g]) + " in " + std::to_string(l), [&, g, l]() {
                        mc::run(e, "set", {mc::Value(G[(size_t)g]), mc::Value(l)});
                        to = G[(size_t)g];
                        length = l;
                        pending = true;
                        MC_EXPECT(c, e.getLength() == l && mc::near(Vector(e.getGoal()), to), "get", "the goal is " << mc::show(e.getGoal()) << " in " << e.getLength());
                      }});
  for (int m = 0; m < 3; ++m)
    acts.push_back({"param " + std::to_string(m), [&, m]() {
                      beta = m ? 0.45 * m : 3;
                      mc::run(e, "param", {mc::Value(m), mc::Value(beta)});
                      mode = m;
                    }});
  int skip = c.flag("steps of 2") ? 2 : 1;
  laws::play(c, {in("start", start)},
             {{"goal", [&](int t) { return flat(e.goalSOUT(t)); }, [&]() { return !pending || start.ok(); },
               [&](int t) -> Matrix {
                 if (!started) return Matrix(0, 1);
                 MC_EXPECT(c, e.getStart() == at, "get", "the curve starts at " << e.getStart() << " instead of " << at);
                 double x = length > 0 ? std::min(1., (t - at) / (double)length) : 1, y = x;
                 if (x > 0 && x < 1 && mode) {
                   double z = beta * (2 * x - 1) / (x * (1 - x));
                   y = mode == 1 ? (1 + std::tanh(z)) / 2 : 0.5 + std::atan(z) / M_PI;
                 }
                 return from + y * (to - from);
               },
               laws::always}},
             acts, c.thorough ? 4 : 3,
             [&](int t) {
               if (!pending || !start.ok()) return;
               from = start.at(t);
               at = t;
               pending = false;
               started = true;
             },
             skip);
}
// any parameters, shorter than the whole curve
struct Period : MotionPeriod {
  Period(const std::string &n) : MotionPeriod(n) {}
  void put(unsigned i, int type, unsigned period, unsigned begin, double a, double b) {
    sotMotionParam p = {(MotionPeriodType)type, period, begin, a, b};
    motionParams[i] = p;
  }
  void size_is(unsigned n) { resize(n); }
};
static void period(mc::Ctx &c) {
  Period e(mc::uniq("period"));
  struct P {
    int type;
    unsigned period, begin;
    double a, b;
  };
  static const P all[] = {{0, 1, 0, 0, 0}, {0, 3, 2, 0.5, 1}, {1, 4, 0, 2, -1}, {1, 7, 5, -1, 0}, {2, 4, 3, 2, 0.5}, {2, 5, 40, 1, 0}};
  std::vector<P> now;
  int t = 0, depth = c.thorough ? 4 : 3;
  for (int k = 0; k < depth; ++k) {
    int w = c.choose(5, "act");
    if (w < 3) {  // resized: everything is constant again
      MC_OP(c, "resize " << w);
      e.size_is((unsigned)w);
      now.assign((size_t)w, all[0]);
    } else if (now.size()) {
      size_t i = (size_t)c.choose((int)now.size(), "rank");
      now[i] = all[c.choose(6, "motion")];
      MC_OP(c, "motion " << i << " of type " << now[i].type << " and period " << now[i].period << " from " << now[i].begin);
      e.put((unsigned)i, now[i].type, now[i].period, now[i].begin, now[i].a, now[i].b);
    }
    t += c.flag("skip") ? 11 : 1;
    Matrix want((int)now.size(), 1);
    for (size_t i = 0; i < now.size(); ++i) {
      const P &p = now[i];
      double x = 2 * M_PI * (t - (double)p.begin) / p.period;
      want((int)i, 0) = p.b + p.a * (p.type == 0 ? 1 : p.type == 1 ? std::sin(x) : std::cos(x));
    }
    Vector got = e.motionSOUT(t);
    MC_EXPECT(c, mc::near(Matrix(got), want), "motion", "at " << t << " the motion is " << mc::show(got) << " instead of " << mc::show(want));
    c.observe(mc::hmat(Matrix(got), (uint64_t)t));
  }
}
static void constants(mc::Ctx &c) {
  VectorConstant v(mc::uniq("vector"));
  MatrixConstant m(mc::uniq("matrix"));
  DoubleConstant d(mc::uniq("double"));
  Matrix A(2, 3);
  A << 1, 2, 3, 4, 5, 6;
  Vector V;
  Matrix M;
  double D = 0;
  bool hv = false, hm = false, hd = false;
  int t = 0, depth = c.thorough ? 6 : 5;
  for (int k = 0; k < depth; ++k) {
    switch (c.choose(7, "act")) {
      case 0:
        V = Vector::Zero(c.flag("empty") ? 0 : 3);
        mc::run(v, "resize", {mc::Value((unsigned)V.size())});
        hv = true;
        break;
      case 1:
        V = mc::vec({1, -2});
        mc::run(v, "set", {mc::Value(V)});
        hv = true;
        break;
      case 2:
        M = c.flag("wide") ? Matrix::Zero(1, 4) : Matrix::Zero(3, 2);
        mc::run(m, "resize", {mc::Value((unsigned)M.rows()), mc::Value((unsigned)M.cols())});
        hm = true;
        break;
      case 3:
        M = A;
        mc::run(m, "set", {mc::Value(Eigen::MatrixXd(A))});
        hm = true;
        break;
      case 4:
        D = c.flag("negative") ? -0.5 : 7;
        mc::run(d, "set", {mc::Value(D)});
        hd = true;
        break;
      case 5:
        t += 10;
        break;
      default:
        break;
    }
    ++t;
    if (hv) MC_EXPECT(c, mc::near(Matrix(v.SOUT(t)), Matrix(V)), "vector", "the vector is " << mc::show(v.SOUT(t)) << " instead of " << mc::show(V));
    if (hm) MC_EXPECT(c, m.SOUT(t).rows() == M.rows() && m.SOUT(t).cols() == M.cols() && mc::near(Matrix(m.SOUT(t)), M), "matrix", "the matrix is " << mc::show(m.SOUT(t)) << " instead of " << mc::show(M));
    if (hd) MC_EXPECT(c, d.SOUT(t) == D, "double", "the number is " << d.SOUT(t) << " instead of " << D);
    c.observe((uint64_t)(hv + 2 * hm + 4 * hd));
  }
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"joints", joints, "histories of 3 (thorough 4) changes of 4 inputs, readings in every order", 2});
  S.push_back({"neck", neck, "grid of 9 pans, 6 tilts and 3 sizes, once or twice", 3});
  S.push_back({"gripper", gripper, "histories of 3 (thorough 4) changes of torques, limits, goals, selections and offsets", 3});
  S.push_back({"clamp", clamp, "histories of 4 (thorough 5) changes of 2 inputs", 2});
  S.push_back({"freezer", freezer, "histories of 3 (thorough 4) changes and skips of 1 to 201 iterations", 3});
  S.push_back({"reach", reach, "histories of 4 (thorough 5) goals, parameters and starts", 2});
  S.push_back({"period", period, "histories of 3 (thorough 4) sizes and motions", 2});
  S.push_back({"constants", constants, "histories of 5 (thorough 6) commands", 2});
  return mc::main(argc, argv, "C26", S);
}
