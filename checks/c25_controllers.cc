// C25: controllers, admittance, operational points and projections follow
// their law of the current inputs.
#include <sot/core/admittance-control-op-point.hh>
#include <sot/core/control-gr.hh>
#include <sot/core/control-pd.hh>
#include <sot/core/op-point-modifier.hh>
#include <sot/core/visual-point-projecter.hh>

#include "laws.hh"
using laws::In;
using laws::in;
using laws::Out;
static MH pose(double x, double y, double z, double a, V3 axis) {
  MH m;
  m.setIdentity();
  m.linear() = Eigen::AngleAxisd(a, axis.normalized()).toRotationMatrix();
  m.translation() = V3(x, y, z);
  return m;
}
static M3 skew(const V3 &v) {
  M3 s;
  s << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return s;
}

static void pd(mc::Ctx &c) {
  ControlPD e(mc::uniq("pd"));
  const std::vector<Vector> K = {mc::vec({2, 0.5}), mc::vec({-1, 0})}, P = {mc::vec({0.1, 0.2}), mc::vec({3, -4})}, D = {mc::vec({1, -1}), mc::vec({0, 0.7})};
  Input<Vector> kp(K, &e.KpSIN), kd(P, &e.KdSIN), p(P, &e.positionSIN), pr(D, &e.desiredpositionSIN), v(D, &e.velocitySIN), vr(K, &e.desiredvelocitySIN);
  auto ok = [&]() { return kp.ok() && kd.ok() && p.ok() && pr.ok() && v.ok() && vr.ok(); };
  laws::play(c, {in("Kp", kp), in("Kd", kd), in("position", p), in("desired_position", pr), in("velocity", v), in("desired_velocity", vr)},
             {{"control", [&](int t) { return flat(e.controlSOUT(t)); }, ok,
               [&](int t) {
                 Matrix r(2, 1);
                 for (int i = 0; i < 2; ++i) r(i, 0) = (pr.at(t)(i) - p.at(t)(i)) * kp.at(t)(i) + (vr.at(t)(i) - v.at(t)(i)) * kd.at(t)(i);
                 return r;
               },
               laws::always},
              {"position_error", [&](int t) { return flat(e.positionErrorSOUT(t)); }, ok, [&](int t) { return Matrix(pr.at(t) - p.at(t)); }, laws::always},
              {"velocity_error", [&](int t) { return flat(e.velocityErrorSOUT(t)); }, ok, [&](int t) { return Matrix(vr.at(t) - v.at(t)); }, laws::always}},
             {}, c.thorough ? 2 : 1);
}
static void gr(mc::Ctx &c) {
  ControlGR e(mc::uniq("gr"));
  Matrix A(2, 2), B(2, 2), C(2, 2);
  A << 1, 2, 3, 4;
  B << 0, -1, 0.5, 0;
  const std::vector<Matrix> M = {A, B};
  const std::vector<Vector> V = {mc::vec({1, 2}), mc::vec({-0.3, 5})}, G = {mc::vec({0, -9.81}), mc::vec({7, 0.1})};
  Input<Matrix> m(M, &e.matrixASIN);
  Input<Vector> a(V, &e.accelerationSIN), g(G, &e.gravitySIN);
  laws::play(c, {in("matrixA", m), in("acceleration", a), in("gravity", g)},
             {{"control", [&](int t) { return flat(e.controlSOUT(t)); }, [&]() { return m.ok() && a.ok() && g.ok(); },
               [&](int t) {
                 Matrix r(2, 1);
                 for (int i = 0; i < 2; ++i) r(i, 0) = m.at(t)(i, 0) * a.at(t)(0) + m.at(t)(i, 1) * a.at(t)(1) + g.at(t)(i);
                 return r;
               },
               laws::always}},
             {}, c.thorough ? 4 : 3);
}
static void admittance(mc::Ctx &c) {
  std::unique_ptr<core::AdmittanceControlOpPoint> ptr(new core::AdmittanceControlOpPoint(mc::uniq("admittance")));  // new memory is filled by the sanitizer
  core::AdmittanceControlOpPoint &e = *ptr;
  auto six = [](double a, double b) { return mc::vec({a, b, -a, a + b, 0, 2 * b}); };
  const std::vector<Vector> kpv = {six(1, 2), six(100, 50)}, kdv = {six(0, 0), six(0.5, -0.25)}, sat = {six(0.1, 0.1).cwiseAbs(), six(0.03, 10).cwiseAbs()}, force = {six(1, -1), six(3, 0.5), six(-2, -8)},
                            des = {six(0, 0), six(-4, 6)};
  const std::vector<MH> op = {pose(0.1, 0.2, 0.3, 0.7, V3(1, 0, 0)), pose(-1, 0.5, 2, 2.1, V3(0.3, -1, 0.2))}, sensor = {pose(0, 0, 0, 0, V3(1, 0, 0)), pose(1, -2, 0.4, -1.3, V3(1, 1, 0))};
  Input<Vector> kp(kpv, &e.m_KpSIN), kd(kdv, &e.m_KdSIN), s(sat, &e.m_dqSaturationSIN), f(force, &e.m_forceSIN), d(des, &e.m_w_forceDesSIN);
  Input<MH> o(op, &e.m_opPoseSIN), p(sensor, &e.m_sensorPoseSIN);
  e.m_forceSIN.plug(&f.varying);  // a sensor: always another measure
  f.kind = Input<Vector>::VARYING;
  bool init = false;
  double dt = 0;
  Vector dq(6);
  dq.setZero();
  auto integrates = [&]() { return init && p.ok() && d.ok() && kp.ok() && kd.ok() && s.ok(); };
  auto wforce = [&](int t) {
    MH m = p.at(t);
    Vector r(6);
    r.head<3>() = m.linear() * f.at(t).head<3>();
    r.tail<3>() = m.linear() * f.at(t).tail<3>() + skew(m.translation()) * r.head<3>();
    return r;
  };
  int first = c.choose(3, "initialized");  // 0: at once, 1: later, 2: reset before
  std::vector<In> ins = {in("Kp", kp), in("Kd", kd), in("dqSaturation", s), in("w_forceDes", d), in("opPose", o), in("sensorPose", p)};
  auto inits = [&]() {
    mc::run(e, "init", {mc::Value(0.02)});
    dt = 0.02;
    init = true;
    dq.setZero();
  };
  if (first == 2) mc::run(e, "resetDq");
  if (first == 0) {
    for (In &i : ins) i.change(0);
    inits();
  }
  std::vector<laws::Act> acts = {{"resetDq",
                                  [&]() {
                                    mc::run(e, "resetDq");
                                    dq.setZero();
                                  }},
                                 {"init", inits}};
  auto said = [&]() { return init; };
  laws::play(c, ins,
             {{"dq",
               [&](int t) {
                 if (!o.ok() && integrates()) e.m_w_dqSINNER(t);  // integrated whether the pose is read before or after
                 return flat(e.m_dqSOUT(t));
               }, [&]() { return !init || (integrates() && o.ok()); },
               [&](int t) {
                 MH m = o.at(t);
                 Vector r(6);
                 r.head<3>() = m.linear().transpose() * (dq.head<3>() - skew(m.translation()) * dq.tail<3>());
                 r.tail<3>() = m.linear().transpose() * dq.tail<3>();
                 return Matrix(r);
               },
               said},
              {"w_dq", [&](int t) { return flat(e.m_w_dqSINNER(t)); }, [&]() { return !init || integrates(); }, [&](int) { return Matrix(dq); }, said},
              {"w_force", [&](int t) { return flat(e.m_w_forceSINNER(t)); }, [&]() { return !init || p.ok(); }, [&](int t) { return Matrix(wforce(t)); }, said}},
             acts, c.thorough ? 3 : 2, [&](int t) {
               if (!integrates()) return;
               Vector w = wforce(t);
               for (int i = 0; i < 6; ++i) {
                 double x = dq(i) + dt * kp.at(t)(i) * (d.at(t)(i) - w(i)) - kd.at(t)(i) * dq(i), l = s.at(t)(i);
                 dq(i) = x > l ? l : x < -l ? -l : x;
               }
             });
}
// the force in the world follows the measure and the pose of the sensor
static void admittance_force(mc::Ctx &c) {
  core::AdmittanceControlOpPoint e(mc::uniq("admittance"));
  const std::vector<Vector> one = {mc::vec({1, 1, 1, 1, 1, 1})}, force = {mc::vec({1, -1, 2, 0.5, 0, 3}), mc::vec({0, 0, -9, 0, 4, 0})};
  const std::vector<MH> sensor = {pose(0, 0, 0, 0, V3(1, 0, 0)), pose(1, -2, 0.4, -1.3, V3(1, 1, 0))};
  for (auto s : {&e.m_KpSIN, &e.m_KdSIN, &e.m_dqSaturationSIN, &e.m_forceSIN, &e.m_w_forceDesSIN}) *s = one[0];
  e.m_opPoseSIN = sensor[0];
  e.m_sensorPoseSIN = sensor[0];
  mc::run(e, "init", {mc::Value(0.001)});
  Input<Vector> f(force, &e.m_forceSIN);
  Input<MH> p(sensor, &e.m_sensorPoseSIN);
  laws::play(c, {in("force", f), in("sensorPose", p)},
             {{"w_force", [&](int t) { return flat(e.m_w_forceSINNER(t)); }, [&]() { return f.ok() && p.ok(); },
               [&](int t) {
                 Vector r(6);
                 r.head<3>() = p.at(t).linear() * f.at(t).head<3>();
                 r.tail<3>() = p.at(t).linear() * f.at(t).tail<3>() + skew(p.at(t).translation()) * r.head<3>();
                 return Matrix(r);
               },
               laws::always}},
             {}, c.thorough ? 4 : 3);
}
// init does nothing while an input is missing
static void admittance_missing(mc::Ctx &c) {
  core::AdmittanceControlOpPoint e(mc::uniq("admittance"));
  const std::vector<Vector> v = {mc::vec({1, 1, 1, 1, 1, 1})};
  const std::vector<MH> m = {pose(0, 0, 0, 0, V3(1, 0, 0))};
  std::vector<SignalPtr<Vector, int> *> sv = {&e.m_KpSIN, &e.m_KdSIN, &e.m_dqSaturationSIN, &e.m_forceSIN, &e.m_w_forceDesSIN};
  std::vector<SignalPtr<MH, int> *> sm = {&e.m_opPoseSIN, &e.m_sensorPoseSIN};
  bool all = true;
  for (auto s : sv)
    if (c.flag("plugged"))
      *s = v[0];
    else
      all = false;
  for (auto s : sm)
    if (c.flag("plugged"))
      *s = m[0];
    else
      all = false;
  mc::run(e, "init", {mc::Value(0.001)});
  c.step();
  Vector r;
  bool th = false;
  try {
    r = e.m_dqSOUT(1);
  } catch (std::exception &) {
    th = true;
  }
  MC_EXPECT(c, !th && (all ? r.size() == 6 : r.size() == 0), "init", "with " << (all ? "all" : "some") << " inputs the velocity " << (th ? "is refused" : "has " + std::to_string(r.size()) + " coordinates"));
  c.observe(all);
}
static void op_point(mc::Ctx &c) {
  OpPointModifier e(mc::uniq("modifier"));
  Matrix A(6, 2), B(6, 3);
  for (int i = 0; i < 6; ++i) {
    for (int j = 0; j < 2; ++j) A(i, j) = i * 0.5 - j * 2 + 1;
    for (int j = 0; j < 3; ++j) B(i, j) = std::sin(1. + i * 3 + j);
  }
  const std::vector<Matrix> J = {A, B};
  const std::vector<MH> P = {pose(0.1, 0.2, 0.3, 0.7, V3(1, 0, 0)), pose(-1, 0.5, 2, 2.1, V3(0.3, -1, 0.2))},
                        T = {pose(0, 0, 0, 0, V3(1, 0, 0)), pose(0.4, 0.5, -0.6, -1.3, V3(1, 1, 0)), pose(1, -2, 0, 3, V3(0, 0, 1))};
  Input<Matrix> j(J, &e.jacobianSIN);
  Input<MH> p(P, &e.positionSIN);
  MH M = T[0];
  bool end = true;
  std::vector<laws::Act> acts;
  for (size_t k = 0; k < T.size(); ++k)
    acts.push_back({"setTransformation " + sh(T[k]), [&e, &M, &T, &c, k]() {
                      mc::run(e, "setTransformation", {mc::Value(Eigen::Matrix4d(T[k].matrix()))});
                      M = T[k];
                      Eigen::Matrix4d g = mc::run(e, "getTransformation").value();
                      MC_EXPECT(c, mc::near(Matrix(g), Matrix(M.matrix())), "get", "the transformation is " << mc::show(g));
                    }});
  for (int k = 0; k < 2; ++k)
    acts.push_back({k ? "setEndEffector true" : "setEndEffector false", [&e, &end, &c, k]() {
                      mc::run(e, "setEndEffector", {mc::Value(k == 1)});
                      end = k == 1;
                      bool g = mc::run(e, "getEndEffector").value();
                      MC_EXPECT(c, g == end, "get", "the mode is " << g);
                    }});
  laws::play(c, {in("jacobian", j), in("position", p)},
             {{"position", [&](int t) { return flat(e.positionSOUT(t)); }, [&]() { return p.ok(); }, [&](int t) { return Matrix(p.at(t).matrix() * M.matrix()); }, laws::always},
              {"jacobian", [&](int t) { return flat(e.jacobianSOUT(t)); }, [&]() { return j.ok() && (end || p.ok()); },
               [&](int t) {
                 Matrix a = j.at(t), r(6, a.cols());
                 V3 ab = M.translation();
                 for (int k = 0; k < a.cols(); ++k) {
                   V3 v = a.block(0, k, 3, 1), w = a.block(3, k, 3, 1);
                   if (end) {
                     r.block(0, k, 3, 1) = M.linear().transpose() * (v + w.cross(ab));
                     r.block(3, k, 3, 1) = M.linear().transpose() * w;
                   } else {
                     r.block(0, k, 3, 1) = v + w.cross(V3(p.at(t).linear() * ab));
                     r.block(3, k, 3, 1) = w;
                   }
                 }
                 return r;
               },
               laws::always}},
             acts, c.thorough ? 4 : 3);
}
static void projecter(mc::Ctx &c) {
  VisualPointProjecter e(mc::uniq("projecter"));
  const std::vector<Vector> X = {mc::vec({0.1, -0.2, 3}), mc::vec({1, 2, 5})};
  const std::vector<MH> P = {pose(0, 0, 0, 0, V3(1, 0, 0)), pose(-1, 0.5, 0.2, 0.4, V3(0.3, -1, 0.2))};
  Input<Vector> x(X, &e.m_point3DSIN);
  Input<MH> m(P, &e.m_transfoSIN);
  auto ok = [&]() { return x.ok() && m.ok(); };
  auto gaze = [&](int t) { return V3(m.at(t).linear().transpose() * (V3(x.at(t)) - V3(m.at(t).translation()))); };
  laws::play(c, {in("point3D", x), in("transfo", m)},
             {{"point3Dgaze", [&](int t) { return flat(e.m_point3DgazeSOUT(t)); }, ok, [&](int t) { return Matrix(gaze(t)); }, laws::always},
              {"depth", [&](int t) { return flat(e.m_depthSOUT(t)); }, ok, [&](int t) { return flat(gaze(t)(2)); }, laws::always},
              {"point2D", [&](int t) { return flat(e.m_point2DSOUT(t)); }, ok, [&](int t) { return Matrix(gaze(t).head<2>() / gaze(t)(2)); }, laws::always}},
             {}, c.thorough ? 4 : 3);
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"pd", pd, "histories of 2 (thorough 3) changes of 6 inputs, readings in every order", 2});
  S.push_back({"gr", gr, "histories of 4 (thorough 5) changes of 3 inputs", 2});
  S.push_back({"admittance", admittance, "histories of 3 (thorough 4) changes of 6 inputs and commands under a varying force", 3});
  S.push_back({"force", admittance_force, "histories of 4 (thorough 5) changes of 2 inputs", 2});
  S.push_back({"missing", admittance_missing, "every set of inputs plugged", 2});
  S.push_back({"op-point", op_point, "histories of 4 (thorough 5) changes of inputs, transformations and modes", 3});
  S.push_back({"projecter", projecter, "histories of 4 (thorough 5) changes of 2 inputs", 2});
  return mc::main(argc, argv, "C25", S);
}
