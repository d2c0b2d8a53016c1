// C27: estimates of a state from measures follow their recursion once per time.
#include <sot/core/kalman.hh>
#include <sot/core/madgwickahrs.hh>

#include "laws.hh"
using laws::in;

/* --- Kalman ------------------------------------------------------------ */
static Matrix mat(int r, int k, std::initializer_list<double> l) {
  Matrix m(r, k);
  int i = 0;
  for (double x : l) {
    m(i / k, i % k) = x;
    ++i;
  }
  return m;
}
static void filter(mc::Ctx &c, bool full) {
  Kalman e(mc::uniq("kalman"));
  const std::vector<Matrix> F = {mat(2, 2, {1, 0.1, 0, 1}), mat(2, 2, {0.5, -0.3, 0.2, 0.9})}, Q = {mat(2, 2, {0.1, 0.02, 0.02, 0.3}), mat(2, 2, {2, 0, 0, 0})};
  const std::vector<Matrix> H1 = {mat(1, 2, {1, 0}), mat(1, 2, {0.5, -2})}, R1 = {mat(1, 1, {0.5}), mat(1, 1, {3})}, H2 = {mat(2, 2, {1, 0, 0, 1}), mat(2, 2, {1, 1, 0, 2})},
                            R2 = {mat(2, 2, {0.5, 0.1, 0.1, 0.2}), mat(2, 2, {3, 0, 0, 1})};
  const std::vector<Vector> X = {mc::vec({1, -1}), mc::vec({0.3, 4})}, Y1 = {mc::vec({2}), mc::vec({-0.7})}, Y2 = {mc::vec({2, 1}), mc::vec({-0.7, 5})};
  const std::vector<Matrix> P0 = {mat(2, 2, {1, 0, 0, 1}), mat(2, 2, {4, 1, 1, 0.5})};
  bool two = c.flag("two measures");
  Input<Matrix> f(F, &e.modelTransitionSIN), q(Q, &e.noiseTransitionSIN), h(two ? H2 : H1, &e.modelMeasureSIN), r(two ? R2 : R1, &e.noiseMeasureSIN);
  Input<Vector> xp(X, &e.statePredictedSIN), y(two ? Y2 : Y1, &e.measureSIN), yp(two ? Y2 : Y1, &e.observationPredictedSIN);
  Matrix P;
  Vector x0;
  auto var = [&](int k) {
    mc::run(e, "setInitialVariance", {mc::Value(Eigen::MatrixXd(P0[(size_t)k]))});
    P = P0[(size_t)k];
  };
  auto state = [&](int k) {
    mc::run(e, "setInitialState", {mc::Value(X[(size_t)k])});
    x0 = X[(size_t)k];
  };
  bool order = full && c.flag("state first");
  int n = full ? c.choose(2, "times initialized") + 1 : 1;
  for (int k = 0; k < n; ++k) {
    int v = full ? c.choose(2, "variance") : 1, s = full ? c.choose(2, "state") : 0;
    if (order) state(s);
    var(v);
    if (!order) state(s);
  }
  if (full && c.flag("read at once")) {
    Matrix p = e.varianceUpdateSOUT(0);
    Vector x = e.stateUpdateSOUT(0);
    MC_EXPECT(c, mc::near(p, P), "P", "the initial variance is " << mc::show(p) << " instead of " << mc::show(P));
    MC_EXPECT(c, mc::near(x, x0), "x_est", "the initial state is " << mc::show(x) << " instead of " << mc::show(x0));
  }
  Matrix K;
  auto covariance = [&]() { return f.ok() && q.ok() && h.ok() && r.ok(); };
  std::vector<laws::Act> acts;
  for (int k = 0; k < 2; ++k) acts.push_back({"setInitialVariance " + std::to_string(k), [&var, k]() { var(k); }});
  laws::play(c, {in("F", f), in("Q", q), in("H", h), in("R", r), in("x_pred", xp), in("y", y), in("y_pred", yp)},
             {{"P", [&](int t) { return flat(e.varianceUpdateSOUT(t)); }, covariance, [&](int) { return P; }, laws::always},
              {"x_est",
               [&](int t) {
                 if (covariance()) e.varianceUpdateSOUT(t);  // whether the variance is computed before or after a missing input is read
                 return flat(e.stateUpdateSOUT(t));
               },
               [&]() { return covariance() && xp.ok() && y.ok() && yp.ok(); }, [&](int t) { return Matrix(xp.at(t) + K * (y.at(t) - yp.at(t))); }, laws::always}},
             acts, full ? (c.thorough ? 1 : 0) : c.thorough ? 3 : 2, [&](int t) {
               if (!covariance()) return;
               // in the information form
               Matrix Pm = f.at(t) * P * f.at(t).transpose() + q.at(t), Ri = r.at(t).inverse();
               P = (Pm.inverse() + h.at(t).transpose() * Ri * h.at(t)).inverse();
               K = P * h.at(t).transpose() * Ri;
             });
}
static void initial(mc::Ctx &c) { filter(c, true); }
static void kalman(mc::Ctx &c) { filter(c, false); }
// the first reading is that of the state, no variance is read
static void state_only(mc::Ctx &c) {
  Kalman e(mc::uniq("kalman"));
  const std::vector<Vector> Y = {mc::vec({2}), mc::vec({-0.7}), mc::vec({1})};
  double f = c.flag("f") ? 1 : 0.8, h = c.flag("h") ? 1 : 2, q = c.flag("q") ? 0.1 : 1, r = c.flag("r") ? 0.5 : 2, p = c.flag("p") ? 1 : 10;
  e.modelTransitionSIN = mat(1, 1, {f});
  e.modelMeasureSIN = mat(1, 1, {h});
  e.noiseTransitionSIN = mat(1, 1, {q});
  e.noiseMeasureSIN = mat(1, 1, {r});
  mc::run(e, "setInitialVariance", {mc::Value(Eigen::MatrixXd(mat(1, 1, {p})))});
  mc::run(e, "setInitialState", {mc::Value(mc::vec({0}))});
  double x = 0;
  int n = c.thorough ? 5 : 4, t = 0;
  for (int k = 0; k < n; ++k) {
    int w = c.choose(3, "measure");
    t += c.choose(2, "skip") + 1;
    e.statePredictedSIN = mc::vec({f * x});
    e.observationPredictedSIN = mc::vec({h * f * x});
    e.measureSIN = Y[(size_t)w];
    c.step();
    p = f * f * p + q;
    double g = p * h / (h * h * p + r);
    x = f * x + g * (Y[(size_t)w](0) - h * f * x);
    p = (1 - g * h) * p;
    Vector got = e.stateUpdateSOUT(t);
    MC_EXPECT(c, got.size() == 1 && mc::near(got(0), x), "x_est", "at " << t << " the state is " << mc::show(got) << " instead of " << x);
    c.observe(mc::hmat(Matrix(got), (uint64_t)t));
    // a second reading integrates nothing
    MC_EXPECT(c, mc::near(Vector(e.stateUpdateSOUT(t)), got), "x_est", "at " << t << " the state is another one when read again");
  }
}

/* --- Madgwick ------------------------------------------------------------ */
static void madgwick(mc::Ctx &c) {
  MadgwickAHRS e(mc::uniq("imu"));
  const std::vector<Vector> A = {mc::vec({0.3, -0.5, 9.5}), mc::vec({-4, 2, -1}), mc::vec({0, 0, 0})}, G = {mc::vec({0.1, 0.2, -0.3}), mc::vec({-2, 1, 0.5}), mc::vec({0, 0, 0})};
  Input<Vector> a(A, &e.m_accelerometerSIN), g(G, &e.m_gyroscopeSIN);
  a.change((int)A.size());  // a sensor: always another measure
  bool init = false;
  double dt = 0, beta = 0.01;
  Eigen::Vector4d q(1, 0, 0, 0);
  static const double quats[][4] = {{1, 0, 0, 0}, {0.5, -0.5, 0.5, 0.5}, {0, 3, 0, 4}}, dts[] = {0.01, 0, -1, 0.002}, betas[] = {0, 1, 0.5, -0.1, 1.01};
  beta = mc::run(e, "getBeta").value();
  MC_EXPECT(c, beta > 0 && beta <= 1, "beta", "beta is " << beta);
  std::vector<laws::Act> acts;
  for (double d : dts)
    acts.push_back({"init " + std::to_string(d), [&, d]() {
                      mc::run(e, "init", {mc::Value(d)});
                      if (d > 0) {
                        dt = d;
                        init = true;
                      }
                    }});
  for (double b : betas)
    acts.push_back({"setBeta " + std::to_string(b), [&, b]() {
                      mc::run(e, "setBeta", {mc::Value(b)});
                      if (b >= 0 && b <= 1) beta = b;
                      double got = mc::run(e, "getBeta").value();
                      MC_EXPECT(c, got == beta, "beta", "beta is " << got << " instead of " << beta);
                    }});
  for (auto &x : quats)
    acts.push_back({"set_imu_quat " + std::to_string(x[0]), [&, x]() {
                      mc::run(e, "set_imu_quat", {mc::Value(mc::vec({x[0], x[1], x[2], x[3]}))});
                      for (int i = 0; i < 4; ++i) q(i) = x[i];
                    }});
  if (c.flag("initialized")) acts[0].run();
  bool sure = true;
  auto run = [&](int t) {
    if (!init || !a.ok() || !g.ok()) return;
    V3 w = g.at(t), f = a.at(t);
    Eigen::Quaterniond r(q(0), q(1), q(2), q(3)), d = r * Eigen::Quaterniond(0, w(0), w(1), w(2));
    Eigen::Vector4d dq = 0.5 * Eigen::Vector4d(d.w(), d.x(), d.y(), d.z());
    if (f.norm() > 0) {
      f.normalize();
      // gradient of half the squared distance of the gravity seen to the one measured
      V3 s(2 * (q(1) * q(3) - q(0) * q(2)) - f(0), 2 * (q(0) * q(1) + q(2) * q(3)) - f(1), 1 - 2 * (q(1) * q(1) + q(2) * q(2)) - f(2));
      Eigen::Matrix<double, 3, 4> J;
      J << -2 * q(2), 2 * q(3), -2 * q(0), 2 * q(1), 2 * q(1), 2 * q(0), 2 * q(3), 2 * q(2), 0, -4 * q(1), -4 * q(2), 0;
      Eigen::Vector4d grad = J.transpose() * s;
      if (grad.norm() < 1e-7) sure = false;  // no direction
      dq -= beta * grad.normalized();
    }
    q += dt * dq;
    q.normalize();
  };
  laws::play(c, {in("gyroscope", g)},
             {{"imu_quat", [&](int t) { return flat(e.m_imu_quatSOUT(t)); }, [&]() { return !init || (a.ok() && g.ok()); },
               [&](int) -> Matrix { return q; }, [&]() { return init && sure; }}},
             acts, c.thorough ? 4 : 3, run);
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"kalman", kalman, "histories of 3 (thorough 4) changes of 7 inputs and of the variance", 3});
  S.push_back({"initial", initial, "1 or 2 initializations, then 1 (thorough 2) changes", 3});
  S.push_back({"state", state_only, "4 (thorough 5) steps of scalar filters of constant models", 4});
  S.push_back({"madgwick", madgwick, "histories of 4 (thorough 5) changes of the rotation and commands", 3});
  return mc::main(argc, argv, "C27", S);
}
