// Stand-in for the few pinocchio classes sot-core uses (pinocchio is not
// installed in this sandbox): spatial vectors are (linear; angular), unit
// quaternions are (x, y, z, w), differences are taken in the tangent space at
// the first argument (right Jacobians), as in pinocchio.
#ifndef PINOCCHIO_STANDIN_H
#define PINOCCHIO_STANDIN_H
#include <Eigen/Dense>
#include <cmath>
namespace pinocchio {
typedef Eigen::Matrix<double, 6, 1> Vector6;
typedef Eigen::Matrix<double, 6, 6> Matrix6;
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2, ARG3 = 3, ARG4 = 4 };

inline Eigen::Matrix3d skew(const Eigen::Vector3d &v) {
  Eigen::Matrix3d m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
// sum_k m^k/(k+1)!
template <class M>
M standinPhi1(const M &m) {
  M r = M::Identity(), t = M::Identity();
  for (int k = 1; k < 60; ++k) {
    t = (t * m / (k + 1)).eval();
    r += t;
  }
  return r;
}
inline Eigen::Matrix3d exp3(const Eigen::Vector3d &w) {
  double n = w.norm();
  if (n < 1e-12) return Eigen::Matrix3d::Identity() + skew(w);
  return Eigen::AngleAxisd(n, w / n).toRotationMatrix();
}
inline Eigen::Vector3d log3(const Eigen::Matrix3d &R) {
  Eigen::AngleAxisd a(R);
  double t = a.angle();
  if (t > M_PI) t -= 2 * M_PI;
  return t * a.axis();
}
inline Eigen::Matrix3d Jlog3(const Eigen::Matrix3d &R) {
  return standinPhi1<Eigen::Matrix3d>(-skew(log3(R))).inverse();
}
inline Matrix6 standinAd(const Vector6 &n) {  // motion cross product, (v; w)
  Matrix6 m = Matrix6::Zero();
  m.topLeftCorner<3, 3>() = skew(n.tail<3>());
  m.bottomRightCorner<3, 3>() = skew(n.tail<3>());
  m.topRightCorner<3, 3>() = skew(n.head<3>());
  return m;
}
class Force {
  Vector6 d;

 public:
  template <class V>
  explicit Force(const Eigen::MatrixBase<V> &v) : d(v) {}
  const Vector6 &toVector() const { return d; }
};
class Motion {
  Vector6 d;

 public:
  template <class V>
  explicit Motion(const Eigen::MatrixBase<V> &v) : d(v) {}
  const Vector6 &toVector() const { return d; }
};
class SE3 {
  Eigen::Matrix3d R;
  Eigen::Vector3d p;

 public:
  SE3() : R(Eigen::Matrix3d::Identity()), p(Eigen::Vector3d::Zero()) {}
  SE3(const Eigen::Matrix3d &r, const Eigen::Vector3d &t) : R(r), p(t) {}
  explicit SE3(const Eigen::Matrix4d &m) : R(m.topLeftCorner<3, 3>()), p(m.topRightCorner<3, 1>()) {}
  const Eigen::Matrix3d &rotation() const { return R; }
  const Eigen::Vector3d &translation() const { return p; }
  SE3 inverse() const { return SE3(R.transpose(), -(R.transpose() * p)); }
  SE3 operator*(const SE3 &o) const { return SE3(R * o.R, p + R * o.p); }
  Matrix6 toActionMatrix() const {
    Matrix6 m = Matrix6::Zero();
    m.topLeftCorner<3, 3>() = R;
    m.bottomRightCorner<3, 3>() = R;
    m.topRightCorner<3, 3>() = skew(p) * R;
    return m;
  }
  Force act(const Force &f) const {
    Vector6 r;
    r.head<3>() = R * f.toVector().head<3>();
    r.tail<3>() = R * f.toVector().tail<3>() + p.cross(Eigen::Vector3d(r.head<3>()));
    return Force(r);
  }
  Motion actInv(const Motion &m) const {
    Vector6 r;
    Eigen::Vector3d v = m.toVector().head<3>(), w = m.toVector().tail<3>();
    r.head<3>() = R.transpose() * (v - p.cross(w));
    r.tail<3>() = R.transpose() * w;
    return Motion(r);
  }
};
inline SE3 exp6(const Vector6 &n) {
  return SE3(exp3(n.tail<3>()), standinPhi1<Eigen::Matrix3d>(skew(n.tail<3>())) * n.head<3>());
}
inline Vector6 log6(const SE3 &M) {
  Vector6 r;
  r.tail<3>() = log3(M.rotation());
  r.head<3>() = standinPhi1<Eigen::Matrix3d>(skew(r.tail<3>())).inverse() * M.translation();
  return r;
}
inline Matrix6 Jlog6(const SE3 &M) { return standinPhi1<Matrix6>(-standinAd(log6(M))).inverse(); }

template <class Q>
Eigen::Matrix3d standinRot(const Eigen::MatrixBase<Q> &q) {  // q: x, y, z, w
  return Eigen::Quaterniond(q[3], q[0], q[1], q[2]).toRotationMatrix();
}
template <int Dim, typename Scalar, int Options = 0>
struct VectorSpaceOperationTpl {
  enum { NQ = Dim, NV = Dim };
};
template <int N, typename Scalar, int Options = 0>
struct SpecialOrthogonalOperationTpl {
  enum { NQ = 4, NV = 3 };
};
template <class A, class B>
struct CartesianProductOperation;
template <>
struct CartesianProductOperation<VectorSpaceOperationTpl<3, double>, SpecialOrthogonalOperationTpl<3, double> > {
  typedef Eigen::Matrix<double, 7, 1> Q;
  template <class A, class B, class D>
  void difference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<D> &d_) const {
    D &d = const_cast<D &>(d_.derived());
    Q q0 = a, q1 = b;
    d.template head<3>() = q1.head<3>() - q0.head<3>();
    d.template tail<3>() = log3(standinRot(q0.tail<4>()).transpose() * standinRot(q1.tail<4>()));
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<J> &j_) const {
    J &j = const_cast<J &>(j_.derived());
    Q q0 = a, q1 = b;
    Eigen::Matrix3d R = standinRot(q0.tail<4>()).transpose() * standinRot(q1.tail<4>());
    j.setZero();
    if (arg == ARG1) {
      j.template topLeftCorner<3, 3>().setIdentity();
      j.template bottomRightCorner<3, 3>() = Jlog3(R);
    } else {
      j.template topLeftCorner<3, 3>() = -Eigen::Matrix3d::Identity();
      j.template bottomRightCorner<3, 3>() = -Jlog3(R) * R.transpose();
    }
  }
};
template <int N, typename Scalar, int Options = 0>
struct SpecialEuclideanOperationTpl {
  enum { NQ = 7, NV = 6 };
  typedef Eigen::Matrix<double, 7, 1> Q;
  static SE3 m(const Q &q) { return SE3(standinRot(q.tail<4>()), q.head<3>()); }
  template <class A, class B, class D>
  void difference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<D> &d) const {
    const_cast<D &>(d.derived()) = log6(m(a).inverse() * m(b));
  }
  template <ArgumentPosition arg, class A, class B, class J>
  void dDifference(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, const Eigen::MatrixBase<J> &j) const {
    SE3 M = m(a).inverse() * m(b);
    Matrix6 r = Jlog6(M);
    if (arg == ARG0) r = (-r * M.inverse().toActionMatrix()).eval();
    const_cast<J &>(j.derived()) = r;
  }
  template <class A, class V, class O>
  void integrate(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<V> &v, const Eigen::MatrixBase<O> &o_) const {
    Q q0 = a;
    SE3 r = m(q0) * exp6(v);
    Eigen::Quaterniond q(r.rotation()), p(q0[6], q0[3], q0[4], q0[5]);
    if (q.dot(p) < 0) q.coeffs() = -q.coeffs();
    O &o = const_cast<O &>(o_.derived());
    o.template head<3>() = r.translation();
    o.template tail<4>() = q.coeffs();
  }
};
}  // namespace pinocchio
#endif
