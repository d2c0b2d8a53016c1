// C21: operators on signals compute their documented function of their
// current inputs and parameters.
#include <sot/core/factory.hh>

#include "matrix/operator.cpp"

#include "inputs.hh"

/* --- reference definitions -------------------------------------------- */
static M3 rot(int axis, double a) {
  int j = (axis + 1) % 3, k = (axis + 2) % 3;
  M3 m = M3::Identity();
  m(j, j) = m(k, k) = std::cos(a);
  m(k, j) = std::sin(a);
  m(j, k) = -std::sin(a);
  return m;
}
static M3 rpy(const V3 &r) { return rot(2, r(2)) * rot(1, r(1)) * rot(0, r(0)); }
static M3 turn(const V3 &u) {  // rotation vector
  double a = u.norm();
  if (a < 1e-12) return M3::Identity();
  V3 n = u / a;
  M3 k;
  k << 0, -n(2), n(1), n(2), 0, -n(0), -n(1), n(0), 0;
  return M3::Identity() + k * std::sin(a) + k * k * (1 - std::cos(a));
}
static M3 quat(double x, double y, double z, double w) {
  M3 m;
  m << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z),
      2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
  return m;
}
static M3 quat(const Q &q) { return quat(q.x(), q.y(), q.z(), q.w()); }
static Q quatOf(const V3 &u) {
  double a = u.norm();
  V3 n = a > 0 ? V3(u / a) : V3(1, 0, 0);
  return Q(std::cos(a / 2), n(0) * std::sin(a / 2), n(1) * std::sin(a / 2), n(2) * std::sin(a / 2));
}
static MH homo(const M3 &R, const V3 &t) {
  MH m;
  m.matrix().setIdentity();
  m.matrix().block<3, 3>(0, 0) = R;
  m.matrix().block<3, 1>(0, 3) = t;
  return m;
}
static const double PI = 3.14159265358979323846;
static const V3 U[] = {V3(0, 0, 0), V3(0.3, -0.7, 0.4), 
                       /* a pitch of pi/2 */ V3(0.078533915032245147, 1.5693691838593147, -0.078533915032245147), V3(2.9, 0, -0.9)};
static const V3 T[] = {V3(0, 0, 0), V3(1, -2, 3), V3(0.5, 0, 0), V3(-4, 1, 2)};

template <class Op, class Ref, class Eq>
static void unary(mc::Ctx &c, const std::vector<typename Op::Tin> &vals, const std::vector<Cmd> &cmds, Ref ref, Eq eq) {
  typedef UnaryOp<Op> E;
  E e(mc::uniq("op"));
  Input<typename Op::Tin> in(vals, &e.SIN);
  Reader<typename Op::Tout> r;
  Applied ap;
  bool pending = false;
  const int N = cmds.empty() ? 4 : c.thorough ? 4 : 3;
  for (int i = 0; i < N; ++i) {
    int a = c.choose(in.choices() + (int)cmds.size() + 1, "change");
    c.step();
    bool changed = in.kind == Input<typename Op::Tin>::VARYING || a;
    if (a > in.choices()) {
      const Cmd &m = cmds[(size_t)(a - in.choices() - 1)];
      MC_OP(c, m.name);
      mc::run(e, m.name, m.args);
      ap.push_back(a - in.choices() - 1);
    } else if (a) {
      std::string s = in.change(a - 1);
      MC_OP(c, "input " << s);
    }
    pending |= changed;
    if (i + 1 < N && !c.flag("read")) continue;
    r.read(c, e.SOUT, in.ok(), pending, [&](int t, typename Op::Tout &w) { return ref(in.at(t), ap, w); }, eq);
    pending = false;
  }
}
template <class Op, class Ref>
static void unary(mc::Ctx &c, const std::vector<typename Op::Tin> &vals, Ref ref) {
  unary<Op>(c, vals, std::vector<Cmd>(), [&](const typename Op::Tin &x, const Applied &, typename Op::Tout &w) {
    w = ref(x);
    return VALUE;
  }, Near());
}
template <class Op, class Ref>
static void binary(mc::Ctx &c, const std::vector<typename Op::Tin1> &v1, const std::vector<typename Op::Tin2> &v2,
                   const std::vector<Cmd> &cmds, Ref ref) {
  typedef BinaryOp<Op> E;
  E e(mc::uniq("op"));
  Input<typename Op::Tin1> a(v1, &e.SIN1);
  Input<typename Op::Tin2> b(v2, &e.SIN2);
  Reader<typename Op::Tout> r;
  Applied ap;
  bool pending = false;
  const int N = c.thorough ? 4 : 3;
  // start from any inputs
  a.change(c.choose(a.choices(), "first input"));
  b.change(c.choose(b.choices(), "second input"));
  for (int i = 0; i < N; ++i) {
    if (i) {
      int w = c.choose(a.choices() + b.choices() + (int)cmds.size() + 1, "change");
      if (w > a.choices() + b.choices()) {
        int k = w - a.choices() - b.choices() - 1;
        MC_OP(c, cmds[(size_t)k].name);
        mc::run(e, cmds[(size_t)k].name, cmds[(size_t)k].args);
        ap.push_back(k);
      } else if (w > a.choices()) {
        std::string s = b.change(w - a.choices() - 1);
        MC_OP(c, "second input " << s);
      } else if (w) {
        std::string s = a.change(w - 1);
        MC_OP(c, "first input " << s);
      }
      pending |= w || a.kind >= 2 || b.kind >= 2;
    }
    c.step();
    if (i + 1 < N && !c.flag("read")) continue;
    r.read(c, e.SOUT, a.ok() && b.ok(), pending || !r.t, [&](int t, typename Op::Tout &w) { return ref(a.at(t), b.at(t), ap, w); }, Near());
    pending = false;
  }
}
template <class Op, class Ref>
static void binary(mc::Ctx &c, const std::vector<typename Op::Tin1> &v1, const std::vector<typename Op::Tin2> &v2, Ref ref) {
  binary<Op>(c, v1, v2, std::vector<Cmd>(), [&](const typename Op::Tin1 &x, const typename Op::Tin2 &y, const Applied &, typename Op::Tout &w) {
    w = ref(x, y);
    return VALUE;
  });
}
/* operators of any number of inputs; ref(values, parameters, result) */
template <class Op>
struct Var {
  typedef typename Op::Tin X;
  typedef VariadicOp<Op> E;
  E e;
  const std::vector<X> &vals;
  std::vector<std::unique_ptr<Input<X> > > in;
  Var(const std::vector<X> &v) : e(mc::uniq("op")), vals(v) { sync(); }
  void sync() {
    size_t n = (size_t)e.getSignalNumber();
    while (in.size() > n) in.pop_back();
    while (in.size() < n) in.emplace_back(new Input<X>(vals, e.getSignalIn((int)in.size())));
  }
  bool ok() const {
    for (auto &i : in)
      if (!i->ok()) return false;
    return true;
  }
  bool varying() const {
    for (auto &i : in)
      if (i->kind >= 2) return true;
    return false;
  }
  std::vector<X> at(int t) const {
    std::vector<X> r;
    for (auto &i : in) r.push_back(i->at(t));
    return r;
  }
};
// acts: changes of parameters, each returns a text
template <class Op, class Ref>
static void variadic(mc::Ctx &c, const std::vector<typename Op::Tin> &vals, int start, int minNumber, int nact,
                     std::function<std::string(Var<Op> &, int)> act, Ref ref) {
  Var<Op> v(vals);
  MC_EXPECT(c, v.e.getSignalNumber() == start, "number", "starts with " << v.e.getSignalNumber() << " inputs");
  Reader<typename Op::Tout> r;
  bool pending = true;
  // shorter histories for products, and sums of vectors and matrices
  const int N = (c.thorough ? 5 : 4) - (std::is_arithmetic<typename Op::Tout>::value || std::is_same<Op, VectorMix>::value ? 0 : 1);
  int number = start;
  for (int i = 0; i < N; ++i) {
    c.step();
    if (i == 0) {
      for (auto &x : v.in) x->change(c.choose(x->choices(), "input"));
    } else {
      int w = c.choose(3 + (nact ? 1 : 0), "operation");
      if (w == 1) {
        int n = minNumber + c.choose(3 - minNumber, "number of inputs");
        n += n >= number;
        bool one = n == number + 1 && c.flag("one by one");
        MC_OP(c, "number of inputs " << n);
        if (one)
          v.e.addSignal();
        else
          v.e.setSignalNumber(n);
        number = n;
        v.sync();
        MC_EXPECT(c, v.e.getSignalNumber() == n, "number", "has " << v.e.getSignalNumber() << " inputs");
        // the new inputs
        for (auto &x : v.in)
          if (x->kind == Input<typename Op::Tin>::NONE && c.flag("plugged")) x->change(0);
        act(v, -1);
      } else if (w == 2 && number) {
        int k = c.choose(number, "input");
        std::string s = v.in[(size_t)k]->change(c.choose(v.in[(size_t)k]->choices(), "value"));
        MC_OP(c, "input " << k << " " << s);
      } else if (w == 3) {
        std::string s = act(v, c.choose(nact, "parameter"));
        MC_OP(c, s);
      }
      pending |= w || v.varying();
    }
    if (i + 1 < N && !c.flag("read")) continue;
    r.read(c, v.e.SOUT, v.ok(), pending || v.varying(), [&](int t, typename Op::Tout &w) { return ref(v.at(t), w); }, Near());
    pending = false;
  }
}
template <class Op, class Ref>
static void variadic(mc::Ctx &c, const std::vector<typename Op::Tin> &vals, int start, int minNumber, Ref ref) {
  variadic<Op>(c, vals, start, minNumber, 0, [](Var<Op> &, int) { return std::string(); }, ref);
}

/* --- values of the suites ------------------------------------------------ */
static std::vector<Vector> vecs() { return {mc::vec({1, -2, 3, 4}), mc::vec({5, 6}), mc::vec({7, 8, 9, 10})}; }
static std::vector<Matrix> mats() {
  Matrix a(3, 3), b(2, 3), d(3, 3);
  a << 1, 2, 3, -4, 5, 6, 7, 8, 10;
  b << 0.5, 1, 2, 3, -1, 4;
  d << 0, 1, 0, 2, 0, 1, 1, 1, 1;
  return {a, b, d};
}
static std::vector<Matrix> squares() { return {mats()[0], mats()[2], Matrix(mats()[0].topLeftCorner(2, 2))}; }
static std::vector<MH> homos() {
  std::vector<MH> r;
  for (int i = 0; i < 4; ++i) r.push_back(homo(turn(U[i]), T[i]));
  return r;
}
static std::vector<M3> rots() {
  std::vector<M3> r;
  for (int i = 0; i < 4; ++i) r.push_back(turn(U[i]));
  return r;
}
static std::vector<Q> quats() {
  std::vector<Q> r;
  for (int i = 0; i < 4; ++i) r.push_back(quatOf(U[i]));
  return r;
}
static std::vector<RPY> rpys() { return {RPY(0, 0, 0), RPY(0.1, -0.4, 2), RPY(-2, 1.3, -1), RPY(0.3, PI / 2, 0.2)}; }
static std::vector<UT> uthetas() {
  std::vector<UT> r;
  for (int i = 0; i < 4; ++i) r.push_back(U[i].norm() > 0 ? UT(U[i].norm(), U[i] / U[i].norm()) : UT(0, V3(1, 0, 0)));
  return r;
}
static MatrixTwist twist(const MH &m) {
  MatrixTwist r;
  M3 R = m.matrix().block<3, 3>(0, 0), k;
  V3 t = m.matrix().block<3, 1>(0, 3);
  k << 0, -t(2), t(1), t(2), 0, -t(0), -t(1), t(0), 0;
  r << R, k * R, M3::Zero(), R;
  return r;
}
static std::vector<MatrixTwist> twists() {
  std::vector<MatrixTwist> r;
  for (auto &m : homos()) r.push_back(twist(m));
  return r;
}
static Vector join(const V3 &t, const Vector &r) {
  Vector v(3 + r.size());
  v << t, r;
  return v;
}
static std::vector<Vector> poses(int kind) {  // rotation vector, quaternion, rows, angles; and a short one
  std::vector<Vector> r;
  for (int i = 0; i < 4; ++i) {
    Vector x;
    M3 R = turn(U[i]);
    if (kind == 0) x = U[i];
    if (kind == 1) x = quatOf(U[i]).coeffs();
    if (kind == 2) {
      x.resize(9);
      x << R.row(0).transpose(), R.row(1).transpose(), R.row(2).transpose();
    }
    if (kind == 3) x = rpys()[(size_t)i];
    r.push_back(join(T[i], x));
  }
  r.push_back(mc::vec({1, 2, 3}));
  return r;
}
static Cmd cmd(const char *n, std::vector<mc::Value> a) { return Cmd{n, a}; }

static void selections(mc::Ctx &c) {
  switch (c.choose(6, "operator")) {
    case 0: {
      static const int A[][3] = {{0, 0, 2}, {0, 3, 5}, {1, 1, 3}, {1, 0, 1}, {0, 3, 1}, {1, -1, 1}};
      std::vector<Cmd> cm;
      for (auto &a : A) cm.push_back(cmd(a[0] ? "addSelec" : "selec", {mc::Value(a[1]), mc::Value(a[2])}));
      return unary<VectorSelecter>(c, vecs(), cm, [&](const Vector &x, const Applied &ap, Vector &w) {
        std::vector<double> r;
        std::vector<std::pair<int, int> > s;
        for (int k : ap) {
          if (!A[k][0]) s.clear();
          s.push_back({A[k][1], A[k][2]});
        }
        for (auto &p : s) {
          if (p.first < 0 || p.second < p.first || p.second > x.size()) return REFUSED;
          for (int i = p.first; i < p.second; ++i) r.push_back(x(i));
        }
        w = Eigen::Map<Vector>(r.data(), (long)r.size());
        return VALUE;
      }, Near());
    }
    case 1:
      return unary<VectorComponent>(c, vecs(), {cmd("setIndex", {mc::Value(1)}), cmd("setIndex", {mc::Value(3)}), cmd("setIndex", {mc::Value(-1)})},
                                    [](const Vector &x, const Applied &ap, double &w) {
                                      static const int I[] = {1, 3, -1};
                                      int i = ap.empty() ? 0 : I[ap.back()];
                                      if (i < 0 || i >= x.size()) return REFUSED;
                                      w = x(i);
                                      return VALUE;
                                    }, Near());
    case 2:
    case 3: {
      bool column = c.flag("column");
      static const int B[][2] = {{0, 2}, {1, 3}, {2, 1}};
      std::vector<Cmd> cm;
      for (auto &b : B) cm.push_back(cmd("selecRows", {mc::Value(b[0]), mc::Value(b[1])}));
      for (auto &b : B)
        cm.push_back(column ? cmd("selecCols", {mc::Value(b[0] == 2 ? 3 : b[0])}) : cmd("selecCols", {mc::Value(b[0]), mc::Value(b[1])}));
      auto f = [&](const Matrix &x, const Applied &ap, Matrix &w) {
        int r[2] = {0, 0}, k[2] = {0, column ? 1 : 0};
        for (int a : ap)
          for (int j = 0; j < 2; ++j)
            if (a < 3)
              r[j] = B[a][j];
            else if (column)
              k[0] = B[a - 3][0] == 2 ? 3 : B[a - 3][0], k[1] = k[0] + 1;
            else
              k[j] = B[a - 3][j];
        if (r[1] < r[0] || k[1] < k[0] || r[1] > x.rows() || k[1] > x.cols()) return REFUSED;
        w = x.block(r[0], k[0], r[1] - r[0], k[1] - k[0]);
        return VALUE;
      };
      if (column)
        return unary<MatrixColumnSelector>(c, mats(), cm, [&](const Matrix &x, const Applied &ap, Vector &w) {
          Matrix m;
          Want k = f(x, ap, m);
          if (k == VALUE) w = m.col(0);
          return k;
        }, Near());
      return unary<MatrixSelector>(c, mats(), cm, f, Near());
    }
    case 4: {
      static const int S[][2] = {{3, 3}, {2, 5}, {5, 1}, {0, 0}, {6, 4}};
      std::vector<Cmd> cm;
      for (auto &s : S) cm.push_back(cmd("resize", {mc::Value(s[0]), mc::Value(s[1])}));
      return unary<Diagonalizer>(c, vecs(), cm, [&](const Vector &x, const Applied &ap, Matrix &w) {
        long r = x.size(), k = x.size();
        if (!ap.empty() && S[ap.back()][0]) r = S[ap.back()][0], k = S[ap.back()][1];
        w = Matrix::Zero(r, k);
        for (long i = 0; i < std::min(x.size(), std::min(r, k)); ++i) w(i, i) = x(i);
        return VALUE;
      }, Near());
    }
    default: {
      static const int B[][3] = {{1, 0, 2}, {1, 2, 4}, {2, 1, 2}, {2, 0, 4}, {1, 2, 1}, {2, -1, 1}};
      std::vector<Cmd> cm;
      for (auto &b : B) cm.push_back(cmd(b[0] == 1 ? "selec1" : "selec2", {mc::Value(b[1]), mc::Value(b[2])}));
      return binary<VectorStack>(c, vecs(), vecs(), cm, [&](const Vector &x, const Vector &y, const Applied &ap, Vector &w) {
        int s[2][2] = {{0, 0}, {0, 0}};
        for (int a : ap) s[B[a][0] - 1][0] = B[a][1], s[B[a][0] - 1][1] = B[a][2];
        for (int j = 0; j < 2; ++j)
          if (s[j][0] < 0 || s[j][1] < s[j][0] || s[j][1] > (j ? y : x).size()) return REFUSED;
        w.resize(s[0][1] - s[0][0] + s[1][1] - s[1][0]);
        w << x.segment(s[0][0], s[0][1] - s[0][0]), y.segment(s[1][0], s[1][1] - s[1][0]);
        return VALUE;
      });
    }
  }
}
static void algebra(mc::Ctx &c) {
  switch (c.choose(7, "operator")) {
    case 0:
      return unary<MatrixTranspose>(c, mats(), [](const Matrix &x) {
        Matrix r(x.cols(), x.rows());
        for (int i = 0; i < x.rows(); ++i)
          for (int j = 0; j < x.cols(); ++j) r(j, i) = x(i, j);
        return r;
      });
    case 1:
      return unary<Inverser<Matrix> >(c, squares(), {}, [](const Matrix &x, const Applied &, Matrix &w) {
        w = x;
        return VALUE;
      }, [](const Matrix &inv, const Matrix &x) { return mc::near(Matrix(inv * x), Matrix(Matrix::Identity(x.rows(), x.rows()))); });
    case 2:
      return unary<Inverser<MH> >(c, homos(), [](const MH &m) {
        M3 R = m.matrix().block<3, 3>(0, 0).transpose();
        return homo(R, -R * V3(m.matrix().block<3, 1>(0, 3)));
      });
    case 3:
      return unary<Inverser<MatrixTwist> >(c, twists(), {}, [](const MatrixTwist &x, const Applied &, MatrixTwist &w) {
        w = x;
        return VALUE;
      }, [](const MatrixTwist &inv, const MatrixTwist &x) { return (inv * x - MatrixTwist::Identity()).norm() < 1e-9; });
    case 4:
      return unary<Normalize>(c, vecs(), [](const Vector &x) {
        double s = 0;
        for (int i = 0; i < x.size(); ++i) s += x(i) * x(i);
        return std::sqrt(s);
      });
    case 5:
      return unary<InverserRotation>(c, rots(), [](const M3 &x) { return M3(x.transpose()); });
    default:
      return unary<InverserQuaternion>(c, quats(), [](const Q &q) { return Q(q.w(), -q.x(), -q.y(), -q.z()); });
  }
}
static M3 lin(const MH &m) { return m.matrix().block<3, 3>(0, 0); }
static V3 tra(const MH &m) { return m.matrix().block<3, 1>(0, 3); }
static bool sameR(const M3 &a, const M3 &b) { return (a - b).norm() < 1e-8; }
// a pose given by a vector, compared with another one by what it means
template <class F>
static std::function<bool(const Vector &, const Vector &)> pose(F f, long size) {
  return [f, size](const Vector &a, const Vector &b) {
    return a.size() == size && (a.head<3>() - b.head<3>()).norm() < 1e-9 && sameR(f(a.tail(size - 3)), f(b.tail(size - 3)));
  };
}
static M3 fUT(const Vector &v) { return turn(V3(v)); }
static M3 fQ(const Vector &v) { return std::fabs(v.norm() - 1) < 1e-9 ? quat(v(0), v(1), v(2), v(3)) : M3(M3::Zero()); }
static M3 fRPY(const Vector &v) { return rpy(V3(v)); }
static void conversions(mc::Ctx &c) {
  auto none = std::vector<Cmd>();
  auto sized = [](long n, std::function<MH(const Vector &)> f) {
    return [n, f](const Vector &x, const Applied &, MH &w) {
      if (x.size() < n) return REFUSED;
      w = f(x);
      return VALUE;
    };
  };
  switch (c.choose(23, "operator")) {
    case 0:
      return unary<MatrixHomoToPoseUTheta>(c, homos(), none, [](const MH &m, const Applied &, Vector &w) {
        for (int i = 0; i < 4; ++i)
          if (sameR(lin(m), turn(U[i])) && (tra(m) - T[i]).norm() < 1e-9) w = join(T[i], U[i]);
        return VALUE;
      }, pose(fUT, 6));
    case 1:
      return unary<MatrixHomoToSE3Vector>(c, homos(), [](const MH &m) {
        Vector r(12);
        for (int i = 0; i < 3; ++i) {
          r(i) = m(i, 3);
          for (int j = 0; j < 3; ++j) r(3 + 3 * i + j) = m(i, j);
        }
        return r;
      });
    case 2:
      return unary<SE3VectorToMatrixHomo>(c, poses(2), none, sized(12, [](const Vector &v) {
        M3 R;
        for (int i = 0; i < 9; ++i) R(i / 3, i % 3) = v(3 + i);
        return homo(R, v.head<3>());
      }), Near());
    case 3: {
      std::vector<Matrix> s;
      for (int i = 0; i < 4; ++i) {
        M3 k;
        const V3 &t = T[i];
        k << 0, -t(2), t(1), t(2), 0, -t(0), -t(1), t(0), 0;
        s.push_back(k);
      }
      s.push_back(mats()[1]);
      return unary<SkewSymToVector>(c, s, none, [](const Matrix &m, const Applied &, Vector &w) {
        if (m.rows() != 3) return REFUSED;
        w = mc::vec({-m(1, 2), m(0, 2), -m(0, 1)});
        return VALUE;
      }, Near());
    }
    case 4:
      return unary<PoseUThetaToMatrixHomo>(c, poses(0), none, sized(6, [](const Vector &v) { return homo(turn(v.segment<3>(3)), v.head<3>()); }), Near());
    case 5:
      return unary<MatrixHomoToPoseQuaternion>(c, homos(), none, [](const MH &m, const Applied &, Vector &w) {
        for (int i = 0; i < 4; ++i)
          if (sameR(lin(m), turn(U[i])) && (tra(m) - T[i]).norm() < 1e-9) w = join(T[i], quatOf(U[i]).coeffs());
        return VALUE;
      }, pose(fQ, 7));
    case 6:
      return unary<PoseQuaternionToMatrixHomo>(c, poses(1), none, sized(7, [](const Vector &v) { return homo(fQ(v.tail<4>()), v.head<3>()); }), Near());
    case 7:
      return unary<MatrixHomoToPoseRollPitchYaw>(c, homos(), none, [](const MH &m, const Applied &, Vector &w) {
        w = join(tra(m), mc::vec({0, 0, 0}));
        return VALUE;
      }, [&](const Vector &a, const Vector &b) {
        // the rotation is one of those of the inputs with this translation
        for (int i = 0; i < 4; ++i)
          if ((b.head<3>() - T[i]).norm() < 1e-9) return a.size() == 6 && (a.head<3>() - T[i]).norm() < 1e-9 && sameR(fRPY(a.tail<3>()), turn(U[i]));
        return false;
      });
    case 8:
      return unary<PoseRollPitchYawToMatrixHomo>(c, poses(3), none, sized(6, [](const Vector &v) { return homo(fRPY(v.segment<3>(3)), v.head<3>()); }), Near());
    case 9:
      return unary<PoseRollPitchYawToPoseUTheta>(c, poses(3), none, [](const Vector &v, const Applied &, Vector &w) {
        if (v.size() < 6) return REFUSED;
        w = v;
        return VALUE;
      }, [](const Vector &a, const Vector &b) {
        return a.size() == 6 && (a.head<3>() - b.head<3>()).norm() < 1e-9 && sameR(fUT(a.tail<3>()), fRPY(b.tail<3>()));
      });
    case 10:
      return unary<HomoToMatrix>(c, homos(), [](const MH &m) { return Matrix(m.matrix()); });
    case 11: {
      std::vector<Matrix> s;
      for (auto &m : homos()) s.push_back(m.matrix());
      s.push_back(mats()[0]);
      return unary<MatrixToHomo>(c, s, none, [](const Matrix &m, const Applied &, MH &w) {
        if (m.rows() != 4) return REFUSED;
        w = homo(m.block<3, 3>(0, 0), m.block<3, 1>(0, 3));
        return VALUE;
      }, Near());
    }
    case 12:
      return unary<HomoToTwist>(c, homos(), [](const MH &m) { return twist(m); });
    case 13:
      return unary<HomoToRotation>(c, homos(), [](const MH &m) { return lin(m); });
    case 14:
      return unary<MatrixHomoToPose>(c, homos(), [](const MH &m) { return Vector(tra(m)); });
    case 15:
      return unary<RPYToMatrix>(c, rpys(), [](const RPY &r) { return rpy(r); });
    case 16:
      return unary<MatrixToRPY>(c, rots(), none, [](const M3 &m, const Applied &, RPY &w) {
        w = RPY(0, 0, 0);
        for (int i = 0; i < 4; ++i)
          if (sameR(m, turn(U[i]))) w = RPY(i, 0, 0);
        return VALUE;
      }, [](const RPY &a, const RPY &i) { return sameR(rpy(a), turn(U[(int)i(0)])); });
    case 17:
      return unary<RPYToQuaternion>(c, rpys(), none, [](const RPY &r, const Applied &, Q &w) {
        w = Q(rpy(r));
        return VALUE;
      }, [](const Q &a, const Q &b) { return std::fabs(a.norm() - 1) < 1e-9 && sameR(quat(a), quat(b)); });
    case 18:
      return unary<QuaternionToRPY>(c, quats(), none, [](const Q &q, const Applied &, RPY &w) {
        for (int i = 0; i < 4; ++i)
          if (sameR(quat(q), turn(U[i]))) w = RPY(i, 0, 0);
        return VALUE;
      }, [](const RPY &a, const RPY &i) { return sameR(rpy(a), turn(U[(int)i(0)])); });
    case 19:
      return unary<QuaternionToMatrix>(c, quats(), [](const Q &q) { return quat(q); });
    case 20:
      return unary<MatrixToQuaternion>(c, rots(), none, [](const M3 &m, const Applied &, Q &w) {
        for (int i = 0; i < 4; ++i)
          if (sameR(m, turn(U[i]))) w = quatOf(U[i]);
        return VALUE;
      }, [](const Q &a, const Q &b) { return std::fabs(a.norm() - 1) < 1e-9 && sameR(quat(a), quat(b)); });
    case 21:
      return unary<MatrixToUTheta>(c, rots(), none, [](const M3 &m, const Applied &, UT &w) {
        for (int i = 0; i < 4; ++i)
          if (sameR(m, turn(U[i]))) w = uthetas()[(size_t)i];
        return VALUE;
      }, [](const UT &a, const UT &b) { return sameR(turn(a.axis() * a.angle()), turn(b.axis() * b.angle())); });
    default:
      return unary<UThetaToQuaternion>(c, uthetas(), none, [](const UT &u, const Applied &, Q &w) {
        w = quatOf(u.axis() * u.angle());
        return VALUE;
      }, [](const Q &a, const Q &b) { return std::fabs(a.norm() - 1) < 1e-9 && sameR(quat(a), quat(b)); });
  }
}
static void pairs(mc::Ctx &c) {
  const std::vector<double> D = {0, -1.5, 2};
  std::vector<Vector> v3 = {mc::vec({1, 2, 3}), mc::vec({-1, 0.5, 4})}, v4 = {mc::vec({1, 2, 3, 1}), mc::vec({-1, 0.5, 4, 0}), mc::vec({1, 2, 3})},
                      v6 = {mc::vec({1, 2, 3, 4, 5, 6}), mc::vec({0, -1, 1, 0.5, 0, 2})};
  auto add = [](const Vector &g) {
    std::vector<Cmd> cm;
    for (int k = 1; k < 3; ++k)
      for (int i = 0; i < g.size(); ++i) cm.push_back(Cmd{k == 1 ? "setGain1" : "setGain2", {mc::Value(g(i))}});
    return cm;
  };
  const Vector G = mc::vec({2, -0.5});
  auto gains = [&](const Applied &ap) {
    std::pair<double, double> g(1, 1);
    for (int a : ap) (a < 2 ? g.first : g.second) = G(a % 2);
    return g;
  };
  switch (c.choose(12, "operator")) {
    case 0:
      return binary<Multiplier_double_vector>(c, D, vecs(), [](double x, const Vector &v) {
        Vector r(v.size());
        for (int i = 0; i < v.size(); ++i) r(i) = x * v(i);
        return r;
      });
    case 1:
      return binary<Multiplier_matrix_vector>(c, mats(), v3, [](const Matrix &m, const Vector &v) {
        Vector r = Vector::Zero(m.rows());
        for (int i = 0; i < m.rows(); ++i)
          for (int j = 0; j < m.cols(); ++j) r(i) += m(i, j) * v(j);
        return r;
      });
    case 2:
      return binary<Multiplier_matrixHomo_vector>(c, homos(), v4, {}, [](const MH &m, const Vector &v, const Applied &, Vector &w) {
        if (v.size() != 4) return REFUSED;
        w = join(lin(m) * V3(v.head<3>()) + tra(m) * v(3), mc::vec({v(3)}));
        return VALUE;
      });
    case 3:
      return binary<Multiplier_matrixTwist_vector>(c, twists(), v6, [](const MatrixTwist &m, const Vector &v) {
        Vector r = Vector::Zero(6);
        for (int i = 0; i < 6; ++i)
          for (int j = 0; j < 6; ++j) r(i) += m(i, j) * v(j);
        return r;
      });
    case 4:
      if (c.flag("matrix"))
        return binary<Substraction<Matrix> >(c, {mats()[0], mats()[2]}, {mats()[2], mats()[0]}, [](const Matrix &a, const Matrix &b) { return Matrix(a - b); });
      return binary<Substraction<Vector> >(c, v3, v3, [](const Vector &a, const Vector &b) { return mc::vec({a(0) - b(0), a(1) - b(1), a(2) - b(2)}); });
    case 5:
      return binary<Substraction<double> >(c, D, D, [](double a, double b) { return a - b; });
    case 6:
      return binary<Composer>(c, {Matrix(turn(U[1])), Matrix(turn(U[3])), mats()[1]}, {v3[0], v3[1], v6[0]}, {}, [](const Matrix &R, const Vector &t, const Applied &, MH &w) {
        if (R.rows() != 3 || t.size() != 3) return REFUSED;
        w = homo(R, t);
        return VALUE;
      });
    case 7:
      return binary<Comparison<double> >(c, D, D, [](double a, double b) { return a < b; });
    case 8: {
      std::vector<Cmd> cm;
      for (int k = 0; k < 4; ++k) cm.push_back(Cmd{k < 2 ? "setTrueIfAny" : "setEqual", {mc::Value(bool(k % 2))}});
      std::vector<Vector> a = {mc::vec({1, 2}), mc::vec({1, 3}), mc::vec({0, 2}), mc::vec({2, 3})};
      return binary<MatrixComparison<Vector> >(c, a, {a[0], a[1]}, cm, [](const Vector &x, const Vector &y, const Applied &ap, bool &w) {
        bool any = true, eq = false;
        for (int k : ap) (k < 2 ? any : eq) = k % 2;
        int n = 0;
        for (int i = 0; i < 2; ++i) n += x(i) < y(i) || (eq && x(i) == y(i));
        w = any ? n > 0 : n == 2;
        return VALUE;
      });
    }
    case 9:
      return binary<WeightedAdder<double> >(c, D, D, add(G), [&](double a, double b, const Applied &ap, double &w) {
        auto g = gains(ap);
        w = g.first * a + g.second * b;
        return VALUE;
      });
    case 10:
      return binary<WeightedAdder<Vector> >(c, v3, v3, add(G), [&](const Vector &a, const Vector &b, const Applied &ap, Vector &w) {
        auto g = gains(ap);
        w = Vector(3);
        for (int i = 0; i < 3; ++i) w(i) = g.first * a(i) + g.second * b(i);
        return VALUE;
      });
    default:
      return binary<WeightedAdder<Matrix> >(c, {mats()[0], mats()[2]}, {mats()[2], mats()[0]}, add(G), [&](const Matrix &a, const Matrix &b, const Applied &ap, Matrix &w) {
        auto g = gains(ap);
        w = Matrix(3, 3);
        for (int i = 0; i < 9; ++i) w(i / 3, i % 3) = g.first * a(i / 3, i % 3) + g.second * b(i / 3, i % 3);
        return VALUE;
      });
  }
}
// a sum over the last inputs, one reading at a time
static void convolution(mc::Ctx &c) {
  BinaryOp<ConvolutionTemporal> e(mc::uniq("op"));
  std::vector<Vector> seen;
  for (int t = 1; t <= (c.thorough ? 5 : 4); ++t) {
    c.step();
    Vector v = mc::vec({1.0 + c.choose(2, "input"), -2.0 * t});
    int n = 1 + c.choose(3, "length");
    Matrix m(2, n);
    for (int i = 0; i < 2 * n; ++i) m(i % 2, i / 2) = 1 + i * i;
    e.SIN1 = v;
    e.SIN2 = m;
    seen.insert(seen.begin(), v);
    if ((int)seen.size() > n) seen.resize((size_t)n);
    Vector want = Vector::Zero(2);
    for (size_t j = 0; j < seen.size(); ++j)
      for (int i = 0; i < 2; ++i) want(i) += m(i, (int)j) * seen[j](i);
    const Vector &got = e.SOUT(t);
    MC_OP(c, "input " << sh(v) << " weights " << sh(m));
    MC_EXPECT(c, mc::near(got, want), "value", "output is " << sh(got) << " instead of " << sh(want));
    c.observe(mc::hmat(got));
  }
}
template <class X>
static void sums(mc::Ctx &c, const std::vector<X> &vals) {
  std::vector<double> co(2, 1.0);
  typedef AdderVariadic<X> Op;
  variadic<Op>(c, vals, 2, 0, 3, [&](Var<Op> &v, int k) -> std::string {
    size_t n = v.in.size();
    if (k < 0) {
      co.assign(n, 1.0);
      return "";
    }
    Vector x((long)n + (k == 2));
    for (int i = 0; i < x.size(); ++i) x(i) = k ? i - 1.5 : 2 + i;
    bool th = false;
    try {
      v.e.op.setCoeffs(x);  // the property of the python class
    } catch (std::invalid_argument &) {
      th = true;
    }
    MC_EXPECT(c, th == (k == 2), "coefficients", "coefficients refused: " << th);
    if (!th) co.assign(x.data(), x.data() + x.size());
    return "coefficients " + sh(x);
  }, [&](const std::vector<X> &in, X &w) {
    if (in.empty()) return ANY;
    w = co[0] * in[0];
    for (size_t i = 1; i < in.size(); ++i) w = X(w + co[i] * in[i]);
    return VALUE;
  });
}
static void several(mc::Ctx &c) {
  const std::vector<double> D = {3, -1.5};
  switch (c.choose(12, "operator")) {
    case 0: return sums<double>(c, D);
    case 1: return sums<Vector>(c, {mc::vec({1, 2}), mc::vec({-3, 0.5})});
    case 2: return sums<Matrix>(c, {mats()[0], mats()[2]});
    case 3:
      return variadic<Multiplier<double> >(c, D, 2, 0, [](const std::vector<double> &in, double &w) {
        w = 1;
        for (double x : in) w *= x;
        return VALUE;
      });
    case 4:
      return variadic<Multiplier<Vector> >(c, {mc::vec({1, 2}), mc::vec({-3, 0.5})}, 2, 0, [](const std::vector<Vector> &in, Vector &w) {
        w = in.empty() ? Vector() : in[0];
        for (size_t k = 1; k < in.size(); ++k)
          for (int i = 0; i < 2; ++i) w(i) *= in[k](i);
        return VALUE;
      });
    case 5:
      return variadic<Multiplier<Matrix> >(c, {mats()[0], mats()[2]}, 2, 0, [](const std::vector<Matrix> &in, Matrix &w) {
        if (in.empty()) return ANY;
        w = in[0];
        for (size_t k = 1; k < in.size(); ++k) w = Matrix(w * in[k]);
        return VALUE;
      });
    case 6:
      return variadic<Multiplier<M3> >(c, {turn(U[1]), turn(U[3])}, 2, 0, [](const std::vector<M3> &in, M3 &w) {
        w.setIdentity();
        for (auto &m : in) w = M3(w * m);
        return VALUE;
      });
    case 7:
      return variadic<Multiplier<MH> >(c, {homos()[1], homos()[3]}, 2, 0, [](const std::vector<MH> &in, MH &w) {
        w = homo(M3::Identity(), V3(0, 0, 0));
        for (auto &m : in) w = homo(lin(w) * lin(m), lin(w) * tra(m) + tra(w));
        return VALUE;
      });
    case 8:
      return variadic<Multiplier<MatrixTwist> >(c, {twists()[1], twists()[3]}, 2, 0, [](const std::vector<MatrixTwist> &in, MatrixTwist &w) {
        w.setIdentity();
        for (auto &m : in) w = MatrixTwist(w * m);
        return VALUE;
      });
    case 9:
      return variadic<Multiplier<Q> >(c, {quats()[1], quats()[3]}, 2, 0, [](const std::vector<Q> &in, Q &w) {
        w = Q(1, 0, 0, 0);
        for (auto &q : in)
          w = Q(w.w() * q.w() - w.x() * q.x() - w.y() * q.y() - w.z() * q.z(), w.w() * q.x() + w.x() * q.w() + w.y() * q.z() - w.z() * q.y(),
                w.w() * q.y() - w.x() * q.z() + w.y() * q.w() + w.z() * q.x(), w.w() * q.z() + w.x() * q.y() - w.y() * q.x() + w.z() * q.w());
        return VALUE;
      });
    case 10:
      return variadic<BoolOp<0> >(c, {true, false}, 0, 0, [](const std::vector<bool> &in, bool &w) {
        w = true;
        for (bool b : in) w = w && b;
        return VALUE;
      });
    default:
      return variadic<BoolOp<1> >(c, {true, false}, 0, 0, [](const std::vector<bool> &in, bool &w) {
        w = false;
        for (bool b : in) w = w || b;
        return VALUE;
      });
  }
}
static void mix(mc::Ctx &c) {
  static const int S[][3] = {{1, 0, 2}, {1, 1, 1}, {2, 2, 2}, {1, 3, 2}, {3, 0, 2}, {0, 0, 4}};
  std::vector<int> ap;
  const std::vector<Vector> vals = {mc::vec({1, 2, 3, 4}), mc::vec({5, 6}), mc::vec({7})};
  variadic<VectorMix>(c, vals, 1, 0, 6, [&](Var<VectorMix> &v, int k) -> std::string {
    if (k < 0) return "";
    ap.push_back(k);
    std::ostringstream os;
    os << "selection from " << S[k][0] << " at " << S[k][1] << " of " << S[k][2];
    mc::run(v.e, "addSelec", {mc::Value(S[k][0]), mc::Value(S[k][1]), mc::Value(S[k][2])});
    return os.str();
  }, [&](const std::vector<Vector> &in, Vector &w) {
    if (in.empty()) return REFUSED;
    w = in[0];
    for (int k : ap) {
      if (S[k][0] >= (int)in.size() || S[k][1] + S[k][2] > w.size() || in[(size_t)S[k][0]].size() != S[k][2]) return REFUSED;
      for (int i = 0; i < S[k][2]; ++i) w(S[k][1] + i) = in[(size_t)S[k][0]](i);
    }
    return VALUE;
  });
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"selections", selections, "selection operators: histories of inputs, parameters and readings", 3});
  S.push_back({"algebra", algebra, "transposition, inversions, norm: histories of inputs and readings", 3});
  S.push_back({"conversions", conversions, "conversions of rotations and poses: histories of inputs and readings", 3});
  S.push_back({"pairs", pairs, "operators of two inputs: histories of inputs, parameters and readings", 4});
  S.push_back({"convolution", convolution, "sums over the last inputs", 2});
  S.push_back({"several", several, "sums, products, and, or of any number of inputs", 4});
  S.push_back({"mix", mix, "mix of vectors", 3});
  return mc::main(argc, argv, "C21", S);
}
