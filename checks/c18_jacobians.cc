// C18: geometric features: errors against the definition, Jacobians and
// derivatives against the motion of the frames.
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-line-distance.hh>
#include <sot/core/feature-point6d-relative.hh>
#include <sot/core/feature-point6d.hh>
#include <sot/core/feature-pose.hh>
#include <sot/core/feature-vector3.hh>
#include <sot/core/feature-visual-point.hh>

#include <Eigen/LU>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
using mc::show;
typedef Eigen::Matrix4d M4;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;

static M3 skew(const V3 &v) {
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
static M3 rexp(const V3 &w) {
  double a = w.norm();
  M3 k = skew(w);
  if (a < 1e-4) return M3::Identity() + k * (1 - a * a / 6) + k * k * (0.5 - a * a / 24);
  return M3::Identity() + k * (std::sin(a) / a) + k * k * ((1 - std::cos(a)) / a / a);
}
static V3 vee(const M3 &m) { return V3(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)) / 2; }
static V3 rlog(const M3 &r) {
  V3 s = vee(r);
  double sn = s.norm(), a = std::atan2(sn, (r.trace() - 1) / 2);
  return sn < 1e-9 ? s : V3(s * (a / sn));
}
// exact motion with the body twist (v,w) during h
static M4 move(const M4 &m, const Eigen::Matrix<double, 6, 1> &xi, double h) {
  V3 v = xi.head<3>() * h, w = xi.tail<3>() * h;
  double a = w.norm();
  M3 k = skew(w), V;
  if (a < 1e-4)
    V = M3::Identity() + k * 0.5 + k * k / 6;
  else
    V = M3::Identity() + k * ((1 - std::cos(a)) / a / a) + k * k * ((a - std::sin(a)) / a / a / a);
  M4 e = M4::Identity();
  e.topLeftCorner<3, 3>() = rexp(w);
  e.topRightCorner<3, 1>() = V * v;
  return m * e;
}
static MatrixHomogeneous mh(const M4 &m) {
  MatrixHomogeneous r;
  r.matrix() = m;
  return r;
}
static M4 pose(const V3 &t, const V3 &axis, double angle) {
  M4 m = M4::Identity();
  m.topLeftCorner<3, 3>() = rexp(axis.normalized() * angle);
  m.topRightCorner<3, 1>() = t;
  return m;
}
// the k-th pose of a list
static const int NP = 10;
static M4 P(int k) {
  static const double A[][7] = {{0, 0, 0, 1, 0, 0, 0},          {1, -2, 0.5, 1, 0, 0, 0.7},  {0.3, 0.2, -1, 0, 1, 0, -1.2},
                                {-0.5, 1, 2, 0, 0, 1, 0.4},     {0, 0, 1, 1, 1, 1, 0.9},     {2, 1, 0, 1, -2, 0.5, -1.4},
                                {1, 1, 1, 0, 1, -1, 1e-6},      {-1, 0, 0.25, -1, 0.3, 2, 1}, {1, -2, 0.5, 0, 1, 1, 2.2},
                                {0.1, -0.2, 0.3, 0.2, -0.9, 0.4, -0.05}};
  const double *a = A[k];
  return pose(V3(a[0], a[1], a[2]), V3(a[3], a[4], a[5]), a[6]);
}
typedef Eigen::Matrix<double, 6, 1> V6;
static V6 unit(int k) {
  V6 v = V6::Zero();
  v(k) = 1;
  return v;
}
static M3 rot(const M4 &m) { return m.topLeftCorner<3, 3>(); }
static V3 tr(const M4 &m) { return m.topRightCorner<3, 1>(); }
static V6 stack(const V3 &a, const V3 &b) {
  V6 v;
  v << a, b;
  return v;
}
static const double H = 1e-5;
static const double TOL = 2e-6;

static Flags fl(int mask) {
  Flags f;
  for (int i = 0; i < 6; ++i) f.add((mask >> i) & 1);
  return f;
}
template <class X>
static X rows(const X &m, int mask) {
  X r(m.rows(), m.cols());
  int k = 0;
  for (int i = 0; i < (int)m.rows(); ++i)
    if ((mask >> i) & 1) r.row(k++) = m.row(i);
  r.conservativeResize(k, m.cols());
  return r;
}
static Vector rowsv(const Vector &v, int mask) {
  Vector r(v.size());
  int k = 0;
  for (int i = 0; i < v.size(); ++i)
    if ((mask >> i) & 1) r(k++) = v(i);
  r.conservativeResize(k);
  return r;
}
// robots: the Jacobian in body coordinates
static Matrix robot(int k) {
  Matrix I = Matrix::Identity(6, 6);
  if (k == 0) return I;
  Matrix J(6, 2);
  J << 1, 0, -0.5, 2, 0.25, 0, 0, 1, 1, -1, 0.5, 0.125;
  return J;
}

/* ------------------------------------------------------------ point 6d */
struct Six {
  M4 M, R;
  bool hasRef;
  bool desired;
  M4 rel() const { return desired ? M4(R.inverse() * M) : M4(M.inverse() * R); }
  V6 err() const {
    M4 e = rel();
    return stack(tr(e), rlog(rot(e)));
  }
};
static V6 refTwistError(Six s, const V6 &vel, double h) {
  // the reference moves with the velocity of its origin and its rotation in the world
  s.R.topRightCorner<3, 1>() += h * vel.head<3>();
  s.R.topLeftCorner<3, 3>() = (rexp(vel.tail<3>() * h) * rot(s.R)).eval();
  return s.err();
}
static Matrix sixJac(const Six &s, const Matrix &Jq) {
  Matrix J(6, Jq.cols());
  for (int j = 0; j < Jq.cols(); ++j) {
    Six a = s, b = s;
    a.M = move(s.M, Jq.col(j), H);
    b.M = move(s.M, Jq.col(j), -H);
    M4 ra = a.rel(), rb = b.rel();
    V3 t = (tr(ra) - tr(rb)) / (2 * H);
    M3 d = (rot(ra) - rot(rb)) / (2 * H), r = rot(s.rel());
    // rotation: in the desired frame in both cases
    J.col(j) = stack(t, vee(s.desired ? M3(d * r.transpose()) : M3(r.transpose() * d)));
  }
  return J;
}
static void sixCheck(mc::Ctx &c, FeaturePoint6d &f, const Six &s, const Matrix &Jq, const V6 &vel, int mask, int t, int order) {
  for (int q = 0; q < 3; ++q) {
    int what = (q + order) % 3;
    c.step();
    if (what == 0) {
      Vector e = f.errorSOUT(t), w = rowsv(s.err(), mask);
      MC_EXPECT(c, mc::near(e, w, TOL), "error", "error is " << show(e) << " instead of " << show(w));
    } else if (what == 1) {
      Matrix J = f.jacobianSOUT(t), w = rows(sixJac(s, Jq), mask);
      MC_EXPECT(c, mc::near(J, w, TOL), "jacobian", "Jacobian is " << show(J) << " instead of " << show(w));
      if (mask == 63) {
        // the Jacobian tells how the norm of the error varies
        Vector e = s.err(), g = J.transpose() * e;
        for (int j = 0; j < Jq.cols(); ++j) {
          Six a = s, b = s;
          a.M = move(s.M, Jq.col(j), H);
          b.M = move(s.M, Jq.col(j), -H);
          double d = (a.err().squaredNorm() - b.err().squaredNorm()) / (4 * H);
          MC_EXPECT(c, mc::near(g(j), d, 1e-5), "descent", "the norm of the error varies by " << d << " and not " << g(j));
        }
      }
    } else {
      Vector d = f.errordotSOUT(t);
      V6 w = V6::Zero();
      if (s.hasRef) w = (refTwistError(s, vel, H) - refTwistError(s, vel, -H)) / (2 * H);
      Vector ww = rowsv(w, mask);
      MC_EXPECT(c, mc::near(d, ww, 5e-6), "derivative", "derivative is " << show(d) << " instead of " << show(ww));
    }
  }
  MC_EXPECT(c, (int)f.dimensionSOUT(t) == __builtin_popcount((unsigned)mask), "dimension", "wrong dimension");
}
static void point6d(mc::Ctx &c) {
  FeaturePoint6d f(mc::uniq("f")), d(mc::uniq("d"));
  Six s;
  int a = c.choose(NP, "pose"), b = c.choose(NP + 1, "reference"), r = c.choose(2, "robot");
  s.M = P(a);
  s.hasRef = b < NP;
  s.R = s.hasRef ? P(b) : M4(M4::Identity());
  s.desired = c.flag("desired frame");
  if (rlog(rot(s.rel())).norm() > 3) c.prune();
  int w = c.choose(8, "velocity of the reference"), mask = 63;
  V6 vel = w < 6 ? unit(w) : V6(V6::Ones() * (w - 5) * 0.5);
  if (w == 0) mask = c.choose(64, "selection");
  MC_OP(c, "pose " << a << " reference " << b << (s.desired ? " desired" : " current") << " robot " << r << " velocity " << w << " selection " << mask);
  mc::run(f, "frame", {mc::Value(std::string(s.desired ? "desired" : "current"))});
  std::string got = mc::run(f, "getFrame").value();
  MC_EXPECT(c, got == (s.desired ? "desired" : "current"), "frame", "frame is " << got);
  f.positionSIN = mh(s.M);
  f.articularJacobianSIN = robot(r);
  f.selectionSIN = mask == 63 ? Flags(true) : fl(mask);
  if (s.hasRef) {
    d.positionSIN = mh(s.R);
    d.velocitySIN = Vector(vel);
    f.setReference(&d);
  }
  sixCheck(c, f, s, robot(r), vel, mask, 1, w % 3);
  if (s.hasRef) {
    mc::run(f, "keep");
    f.positionSIN = mh(s.M);
    Vector e = f.errorSOUT(2);
    MC_EXPECT(c, e.norm() < 1e-7, "keep", "error after keep is " << show(e));
  } else {
    bool thrown = false;
    try {
      mc::run(f, "keep");
    } catch (ExceptionFeature &) {
      thrown = true;
    }
    MC_EXPECT(c, thrown, "keep", "keep is accepted without reference");
  }
  c.observe(mc::hmat(s.err()));
  f.FeatureAbstract::unsetReference();
}
static void six(mc::Ctx &c, int depth) {
  FeaturePoint6d f(mc::uniq("f")), d0(mc::uniq("d")), d1(mc::uniq("d"));
  FeaturePoint6d *d[2] = {&d0, &d1};
  Six s;
  s.M = P(1);
  s.R = M4::Identity();
  s.hasRef = false;
  s.desired = true;
  int rb = 0, mask = 63, t = 0, ref = -1, order = c.choose(3, "order of the reads");
  M4 rp[2] = {P(2), P(3)};
  V6 rv[2] = {unit(1), unit(4)};
  f.positionSIN = mh(s.M);
  f.articularJacobianSIN = robot(0);
  for (int i = 0; i < 2; ++i) {
    d[i]->positionSIN = mh(rp[i]);
    d[i]->velocitySIN = Vector(rv[i]);
  }
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(8, "operation");
    if (op == 0) {
      MC_OP(c, "position");
      s.M = P((3 * k + 4) % NP);
      f.positionSIN = mh(s.M);
    } else if (op == 1) {
      MC_OP(c, "position of the references");
      for (int i = 0; i < 2; ++i) d[i]->positionSIN = mh(rp[i] = P((2 * k + i + 5) % NP));
    } else if (op == 2) {
      MC_OP(c, "velocity of the references");
      for (int i = 0; i < 2; ++i) d[i]->velocitySIN = Vector(rv[i] = V6::Ones() * (i + 1) + unit((k + i) % 6));
    } else if (op == 3) {
      s.desired = !s.desired;
      MC_OP(c, (s.desired ? "desired" : "current"));
      mc::run(f, "frame", {mc::Value(std::string(s.desired ? "desired" : "current"))});
      if (t && c.flag("at the same time")) --t;
    } else if (op == 4) {
      static const int MASK[] = {63, 7, 56, 21, 42, 1, 32, 0, 63};
      int i = 0;
      while (MASK[i] != mask) ++i;
      mask = MASK[i + 1 + (k == 0 ? c.choose(7 - i < 1 ? 1 : 7 - i, "selection") : 0)];
      MC_OP(c, "selection " << mask);
      f.selectionSIN = fl(mask);
    } else if (op == 5) {
      ref = ref == 0 ? 1 : 0;
      MC_OP(c, "reference " << ref);
      mc::run(f, "setReference", {mc::Value(d[ref]->getName())});
      s.M = P((3 * k + 2) % NP);
      f.positionSIN = mh(s.M);
    } else if (op == 6) {
      rb = 1 - rb;
      MC_OP(c, "robot " << rb);
      f.articularJacobianSIN = robot(rb);
    } else {
      if (ref < 0) c.prune();
      MC_OP(c, "keep");
      mc::run(f, "keep");
      rp[ref] = s.M;
    }
    ++t;
    s.hasRef = ref >= 0;
    s.R = s.hasRef ? rp[ref] : M4(M4::Identity());
    if (rlog(rot(s.rel())).norm() > 3) c.prune();
    sixCheck(c, f, s, robot(rb), s.hasRef ? rv[ref] : V6(V6::Zero()), mask, t, order);
    c.observe(mc::hmat(s.err()));
  }
  f.FeatureAbstract::unsetReference();
}

/* ------------------------------------------------------------ relative */
static void relative(mc::Ctx &c) {
  FeaturePoint6dRelative f(mc::uniq("f")), d(mc::uniq("d"));
  FeaturePoint6d d6(mc::uniq("d"));
  int a = c.choose(NP, "pose"), b = c.choose(NP, "other pose"), form = c.choose(4, "reference");
  M4 A = P(a), B = P(b), D = M4::Identity();
  int da = 0, db = 0;
  if (form == 1) {
    da = c.choose(NP, "desired pose"), db = c.choose(3, "desired other pose") * 3;
    D = P(da).inverse() * P(db);
    d.positionSIN = mh(P(da));
    d.positionReferenceSIN = mh(P(db));
    f.setReference(&d);
  } else if (form == 2) {
    da = c.choose(NP, "desired relative pose");
    D = P(da);
    d6.positionSIN = mh(D);
    f.setReference(&d6);
  }
  int mask = da || form == 0 ? 63 : c.choose(64, "selection");
  MC_OP(c, "poses " << a << " " << b << " reference " << form << " " << da << " " << db << " selection " << mask);
  Matrix JA = robot(0), JB(6, 6);
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j) JB(i, j) = (i * 7 + j * 3) % 5 - 2;
  f.positionSIN = mh(A);
  f.positionReferenceSIN = mh(B);
  f.articularJacobianSIN = JA;
  f.articularJacobianReferenceSIN = JB;
  f.selectionSIN = fl(mask);
  int t = 1;
  if (form == 3) {
    mc::run(f, "initSdes", {mc::Value(d.getName())});
    t = f.positionSIN.getTime() + 2;
    Vector e = f.errorSOUT(t);
    MC_EXPECT(c, e.norm() < 1e-6, "initSdes", "error after initSdes is " << show(e));
    D = A.inverse() * B;
    A = P((a + 1) % NP);
    f.positionSIN = mh(A);
    ++t;
  }
  M4 X = A.inverse() * B * D.inverse();
  V3 r = rlog(rot(X));
  if (r.norm() > 3) c.prune();
  V6 we = stack(tr(X), r);
  c.step();
  Vector e = f.errorSOUT(t), w = rowsv(we, mask);
  MC_EXPECT(c, mc::near(e, w, TOL), "error", "error is " << show(e) << " instead of " << show(w));
  // twist of the error, in the frame of the point
  Matrix wj(6, 6);
  for (int j = 0; j < 6; ++j) {
    M4 p = move(A, JA.col(j), H).inverse() * move(B, JB.col(j), H) * D.inverse();
    M4 m = move(A, JA.col(j), -H).inverse() * move(B, JB.col(j), -H) * D.inverse();
    M4 v = (p - m) / (2 * H) * X.inverse();
    wj.col(j) = stack(tr(v), vee(rot(v)));
  }
  Matrix J = f.jacobianSOUT(t), W = rows(wj, mask);
  MC_EXPECT(c, mc::near(J, W, TOL), "jacobian", "Jacobian is " << show(J) << " instead of " << show(W));
  MC_EXPECT(c, (int)f.dimensionSOUT(t) == __builtin_popcount((unsigned)mask), "dimension", "wrong dimension");
  c.observe(mc::hmat(w));
  f.FeaturePoint6d::setReference(NULL);
}

/* ------------------------------------------------------------ pose */
template <Representation_t R>
struct PoseRef {
  M4 ja, A, jb, B, D;
  M4 rel() const { return (ja * A).inverse() * jb * B; }
  V6 err() const {
    M4 M = rel();
    V3 w = rlog(rot(D).transpose() * rot(M));
    if (R == R3xSO3Representation) return stack(tr(M) - tr(D), w);
    // logarithm of a motion
    M4 E = D.inverse() * M;
    double a = w.norm();
    M3 k = skew(w), Vi;
    if (a < 1e-4)
      Vi = M3::Identity() - k / 2 + k * k / 12;
    else
      Vi = M3::Identity() - k / 2 + k * k * ((1 - a * std::cos(a / 2) / (2 * std::sin(a / 2))) / a / a);
    return stack(Vi * tr(E), w);
  }
};
static Eigen::Matrix<double, 6, 6> ad(const M4 &m) {
  Eigen::Matrix<double, 6, 6> X;
  X.setZero();
  X.topLeftCorner<3, 3>() = X.bottomRightCorner<3, 3>() = rot(m);
  X.topRightCorner<3, 3>() = skew(tr(m)) * rot(m);
  return X;
}
template <Representation_t R>
static void poseT(mc::Ctx &c) {
  FeaturePose<R> f(mc::uniq("f"));
  PoseRef<R> s;
  int a = c.choose(c.thorough ? NP : 5, "joint a"), b = c.choose(NP, "joint b"), k = c.choose(3, "frames"), d = c.choose(c.thorough ? NP : 6, "desired");
  s.ja = P(a);
  s.jb = P(b);
  s.A = k ? P(k + 1) : M4(M4::Identity());
  s.B = k ? P(9 - k) : M4(M4::Identity());
  s.D = P(d);
  if (s.err().template tail<3>().norm() > 3) c.prune();
  bool moving = c.flag("joint a moves");
  int mask = a == 0 ? c.choose(64, "selection") : 63;
  MC_OP(c, "joints " << a << " " << b << " frames " << k << " desired " << d << " moving " << moving << " selection " << mask);
  f.oMja = mh(s.ja);
  f.oMjb = mh(s.jb);
  if (k) {
    f.jaMfa = mh(s.A);
    f.jbMfb = mh(s.B);
  }
  f.faMfbDes = mh(s.D);
  Matrix JB = robot(0), JA(6, 6);
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j) JA(i, j) = moving ? (i * 7 + j * 3) % 5 - 2 : 0;
  f.jbJjb = JB;
  if (moving) f.jaJja = JA;
  f.selectionSIN = fl(mask);
  V6 nu = d % 2 ? V6(V6::Ones()) : stack(V3(0.5, -1, 2), V3(1, 0.25, -0.5));
  f.faNufafbDes = Vector(nu);
  V6 we = s.err();
  Matrix wj(6, 6);
  for (int j = 0; j < 6; ++j) {
    PoseRef<R> p = s, m = s;
    p.ja = move(s.ja, JA.col(j), H);
    p.jb = move(s.jb, JB.col(j), H);
    m.ja = move(s.ja, JA.col(j), -H);
    m.jb = move(s.jb, JB.col(j), -H);
    wj.col(j) = (p.err() - m.err()) / (2 * H);
  }
  Vector wd;
  {
    // the derivative: what compensates the desired motion of b in a (joint b alone)
    V6 xi = ad(s.rel() * s.B.inverse()).inverse() * nu;
    PoseRef<R> p = s, m = s;
    p.jb = move(s.jb, xi, H);
    m.jb = move(s.jb, xi, -H);
    wd = -(p.err() - m.err()) / (2 * H);
  }
  int order = (a + b + d) % 3;
  for (int q = 0; q < 3; ++q) {
    int what = (q + order) % 3;
    c.step();
    if (what == 0) {
      Vector e = f.errorSOUT(1), w = rowsv(we, mask);
      MC_EXPECT(c, mc::near(e, w, TOL), "error", "error is " << show(e) << " instead of " << show(w));
    } else if (what == 1) {
      Matrix J = f.jacobianSOUT(1), w = rows(wj, mask);
      MC_EXPECT(c, mc::near(J, w, 5e-6), "jacobian", "Jacobian is " << show(J) << " instead of " << show(w));
    } else {
      Vector e = f.errordotSOUT(1), w = rowsv(wd, mask);
      MC_EXPECT(c, mc::near(e, w, 5e-6), "derivative", "derivative is " << show(e) << " instead of " << show(w));
    }
  }
  MC_EXPECT(c, (int)f.dimensionSOUT(1) == __builtin_popcount((unsigned)mask), "dimension", "wrong dimension");
  MC_EXPECT(c, mc::near(Matrix(f.faMfb(1).matrix()), Matrix(s.rel()), TOL), "pose", "wrong relative pose");
  mc::run(f, "keep", {mc::Value(2)});
  f.oMjb = mh(s.jb);
  Vector e = f.errorSOUT(3);
  MC_EXPECT(c, e.norm() < 1e-6, "keep", "error after keep is " << show(e));
  c.observe(mc::hmat(we));
}
// inputs of a pose change one at a time
template <Representation_t R>
static void poseH(mc::Ctx &c, int depth) {
  FeaturePose<R> f(mc::uniq("f"));
  PoseRef<R> s;
  s.ja = s.A = s.B = M4::Identity();
  s.jb = P(1);
  s.D = P(3);
  V6 nu = V6::Ones();
  Matrix JB = robot(0), JA = Matrix::Zero(6, 6);
  bool moving = false;
  int t = 0;
  f.oMjb = mh(s.jb);
  f.jbJjb = JB;
  f.faMfbDes = mh(s.D);
  f.faNufafbDes = Vector(nu);
  int order = c.choose(3, "order of the reads");
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(8, "operation");
    MC_OP(c, "change " << op);
    if (op == 0) f.oMja = mh(s.ja = P((k + 2) % NP));
    if (op == 1) f.jaMfa = mh(s.A = P((k + 3) % NP));
    if (op == 2) f.oMjb = mh(s.jb = P((2 * k + 4) % NP));
    if (op == 3) f.jbMfb = mh(s.B = P((k + 5) % NP));
    if (op == 4) f.faMfbDes = mh(s.D = P((2 * k + 1) % NP));
    if (op == 5) f.faNufafbDes = Vector(nu = stack(V3(k, -1, 2), V3(1, k, 0.5)));
    if (op == 6) f.jbJjb = JB = robot(0) * (k + 2);
    if (op == 7) {
      if (!moving) {
        // a Jacobian given late: from the next time on
        moving = true;
      }
      f.jaJja = JA = robot(0) * (k - 3);
      f.oMjb = mh(s.jb);
    }
    if (s.err().template tail<3>().norm() > 3) c.prune();
    ++t;
    for (int q = 0; q < 3; ++q) {
      int what = (q + order) % 3;
      c.step();
      if (what == 0) {
        Vector e = f.errorSOUT(t), w = s.err();
        MC_EXPECT(c, mc::near(e, w, TOL), "error", "error is " << show(e) << " instead of " << show(w));
      } else if (what == 1) {
        Matrix J = f.jacobianSOUT(t), w(6, 6);
        for (int j = 0; j < 6; ++j) {
          PoseRef<R> p = s, m = s;
          p.ja = move(s.ja, JA.col(j), H);
          p.jb = move(s.jb, JB.col(j), H);
          m.ja = move(s.ja, JA.col(j), -H);
          m.jb = move(s.jb, JB.col(j), -H);
          w.col(j) = (p.err() - m.err()) / (2 * H);
        }
        MC_EXPECT(c, mc::near(J, w, 1e-5), "jacobian", "Jacobian is " << show(J) << " instead of " << show(w));
      } else {
        V6 xi = ad(s.rel() * s.B.inverse()).inverse() * nu;
        PoseRef<R> p = s, m = s;
        p.jb = move(s.jb, xi, H);
        m.jb = move(s.jb, xi, -H);
        Vector w = -(p.err() - m.err()) / (2 * H), e = f.errordotSOUT(t);
        MC_EXPECT(c, mc::near(e, w, 1e-5), "derivative", "derivative is " << show(e) << " instead of " << show(w));
      }
    }
    c.observe(mc::hmat(s.err()));
  }
}

/* ------------------------------------------------------------ others */
static V3 vec3(int k) {
  static const double A[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 0.5}, {-0.3, 0.2, 2}};
  return V3(A[k][0], A[k][1], A[k][2]);
}
static void vector3(mc::Ctx &c) {
  FeatureVector3 f(mc::uniq("f"));
  int t = 0, a = 0, v = 0, r = 0, rb = 0;
  for (int k = 0; k < (c.thorough ? 4 : 3); ++k) {
    int op = k ? c.choose(4, "change") : 4;
    if (op == 0 || op == 4) f.positionSIN = mh(P(a = (a + c.choose(k ? 2 : NP, "pose")) % NP));
    if (op == 1 || op == 4) f.vectorSIN = Vector(vec3(v = k ? (v + 1) % 5 : c.choose(5, "vector")));
    if (op == 2 || op == 4) f.positionRefSIN = Vector(vec3(r = k ? (r + 1) % 5 : c.choose(5, "reference")));
    if (op == 3 || op == 4) f.articularJacobianSIN = robot(rb = k ? 1 - rb : 0);
    MC_OP(c, "pose " << a << " vector " << v << " reference " << r << " robot " << rb);
    ++t;
    c.step();
    V3 e = rot(P(a)) * vec3(v) - vec3(r);
    Vector g = f.errorSOUT(t);
    MC_EXPECT(c, mc::near(g, Vector(e), 1e-9), "error", "error is " << show(g) << " instead of " << show(e));
    Matrix J = f.jacobianSOUT(t), Jq = robot(rb), w(3, Jq.cols());
    for (int j = 0; j < Jq.cols(); ++j)
      w.col(j) = (rot(move(P(a), Jq.col(j), H)) - rot(move(P(a), Jq.col(j), -H))) * vec3(v) / (2 * H);
    MC_EXPECT(c, mc::near(J, w, TOL), "jacobian", "Jacobian is " << show(J) << " instead of " << show(w));
    MC_EXPECT(c, f.dimensionSOUT(t) == 3, "dimension", "wrong dimension");
    c.observe(mc::hmat(g));
  }
}
static void visual(mc::Ctx &c) {
  FeatureVisualPoint f(mc::uniq("f")), d(mc::uniq("d"));
  static const double X[] = {0, -0.4, 1, 0.2}, Z[] = {1, 0.25, 3, -1, 0, 1e-7, 1e-3};
  double x = X[c.choose(4, "x")], y = X[c.choose(4, "y")], z = Z[c.choose(7, "z")];
  Vector xy(2), ref(2);
  xy << x, y;
  ref << X[c.choose(4, "x*")], X[c.choose(4, "y*")];
  int mask = c.choose(4, "selection"), rb = c.choose(2, "robot");
  bool hasRef = c.flag("reference");
  MC_OP(c, "point " << x << " " << y << " " << z << " selection " << mask);
  f.xySIN = xy;
  bool dflt = z == 1 && c.flag("default depth");
  if (!dflt) f.ZSIN = z;
  f.selectionSIN = fl(mask);
  Matrix Jq = robot(rb);
  f.articularJacobianSIN = Jq;
  d.xySIN = ref;
  if (hasRef) f.setReference(&d);
  c.step();
  bool thrown = false;
  try {
    Vector e = f.errorSOUT(1), w = rowsv(xy - ref, mask);
    MC_EXPECT(c, mc::near(e, w), "error", "error is " << show(e) << " instead of " << show(w));
  } catch (ExceptionFeature &) {
    thrown = true;
  }
  MC_EXPECT(c, thrown == !hasRef, "reference", "refused: " << thrown);
  thrown = false;
  try {
    Matrix J = f.jacobianSOUT(1), w(2, Jq.cols());
    for (int j = 0; j < Jq.cols(); ++j) {
      V3 p(x * z, y * z, z);
      double hh = H * z;
      Eigen::Vector4d q(p(0), p(1), p(2), 1), a = move(M4::Identity(), Jq.col(j), hh).inverse() * q,
                                             b = move(M4::Identity(), Jq.col(j), -hh).inverse() * q;
      w(0, j) = (a(0) / a(2) - b(0) / b(2)) / (2 * hh);
      w(1, j) = (a(1) / a(2) - b(1) / b(2)) / (2 * hh);
    }
    w = rows(w, mask);
    MC_EXPECT(c, mc::near(J, w, 1e-5), "jacobian", "Jacobian is " << show(J) << " instead of " << show(w));
  } catch (ExceptionFeature &) {
    thrown = true;
  }
  MC_EXPECT(c, thrown == (z < 1e-6), "depth", "depth " << z << " refused: " << thrown);
  MC_EXPECT(c, (int)f.dimensionSOUT(1) == __builtin_popcount((unsigned)mask), "dimension", "wrong dimension");
  c.observe(mc::hmat(xy));
  f.FeatureAbstract::unsetReference();
}
static double lineErr(const M4 &M, const V3 &v, const V3 &p1, const V3 &v1) {
  V3 n = (rot(M) * v).cross(v1);
  return (p1 - tr(M)).dot(n) / n.squaredNorm();
}
static void line(mc::Ctx &c) {
  FeatureLineDistance f(mc::uniq("f"));
  int t = 0, a = 0, v = 0, r = 0, rb = 0;
  for (int k = 0; k < (c.thorough ? 4 : 3); ++k) {
    int op = k ? c.choose(4, "change") : 4;
    if (op == 0 || op == 4) f.positionSIN = mh(P(a = (a + c.choose(k ? 2 : NP, "pose")) % NP));
    if (op == 1 || op == 4) f.vectorSIN = Vector(vec3(v = k ? (v + 1) % 5 : c.choose(5, "vector")));
    if (op == 2 || op == 4) {
      r = k ? (r + 1) % 5 : c.choose(5, "reference");
      f.positionRefSIN = Vector(stack(vec3((r + 2) % 5), vec3(r)));
    }
    if (op == 3 || op == 4) f.articularJacobianSIN = robot(rb = k ? 1 - rb : 0);
    MC_OP(c, "pose " << a << " vector " << v << " reference " << r << " robot " << rb);
    ++t;
    c.step();
    V3 p1 = vec3((r + 2) % 5), v1 = vec3(r);
    if ((rot(P(a)) * vec3(v)).cross(v1).norm() < 0.05) c.prune();  // parallel lines
    Matrix Jq = robot(rb), w(1, Jq.cols());
    for (int j = 0; j < Jq.cols(); ++j)
      w(0, j) = (lineErr(move(P(a), Jq.col(j), H), vec3(v), p1, v1) - lineErr(move(P(a), Jq.col(j), -H), vec3(v), p1, v1)) / (2 * H);
    bool first = c.flag("Jacobian first");
    for (int q = 0; q < 2; ++q)
      if ((q == 0) == first) {
        Matrix J = f.jacobianSOUT(t);
        MC_EXPECT(c, mc::near(J, w, 1e-5), "jacobian", "Jacobian is " << show(J) << " instead of " << show(w));
      } else {
        double e = lineErr(P(a), vec3(v), p1, v1);
        Vector g = f.errorSOUT(t);
        MC_EXPECT(c, g.size() == 1 && mc::near(g(0), e), "error", "error is " << show(g) << " instead of " << e);
        Vector l = f.lineSOUT(t), wl = stack(tr(P(a)), rot(P(a)) * vec3(v));
        MC_EXPECT(c, mc::near(l, wl), "line", "line is " << show(l) << " instead of " << show(wl));
      }
    c.observe(mc::hmat(w));
  }
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"point6d", point6d, "every pair of 10 poses, both frames, 2 robots, 8 velocities, every selection", 3});
  S.push_back({"point6d-history", [](mc::Ctx &c) { six(c, c.thorough ? 6 : 4); },
               "every history of 4 (thorough: 6) changes of inputs, references, frame, selection; 3 orders of reading", 3});
  S.push_back({"relative", relative, "every pair of 10 poses with every form of reference, every selection", 3});
  S.push_back({"pose-r3so3", poseT<R3xSO3Representation>, "every combination of poses of joints, frames and desired pose, every selection", 3});
  S.push_back({"pose-se3", poseT<SE3Representation>, "the same with the other representation", 3});
  S.push_back({"pose-r3so3-history", [](mc::Ctx &c) { poseH<R3xSO3Representation>(c, c.thorough ? 5 : 4); },
               "every history of 4 (thorough: 5) changes of one input", 2});
  S.push_back({"pose-se3-history", [](mc::Ctx &c) { poseH<SE3Representation>(c, c.thorough ? 5 : 4); }, "the same", 2});
  S.push_back({"vector3", vector3, "every pose, vector and reference, followed by every pair (thorough: triple) of changes of one input", 3});
  S.push_back({"visual-point", visual, "every point, depth, reference, selection over grids", 3});
  S.push_back({"line-distance", line, "every pose, line and reference, followed by every pair (thorough: triple) of changes of one input", 3});
  return mc::main(argc, argv, "C18", S);
}
