// C12: the stack of tasks solves its hierarchy, whatever the history.
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/flags.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>

#include <Eigen/Eigenvalues>
#include <Eigen/SVD>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
using mc::show;

// a task given by its two outputs
struct T : TaskAbstract {
  Matrix J;
  Vector e;
  T(const std::string &n) : TaskAbstract(n) {}
  void put(const Matrix &j, const Vector &err) {
    J = j;
    e = err;
    VectorMultiBound b((size_t)e.size());
    for (int i = 0; i < e.size(); ++i) b[(size_t)i] = e(i);
    taskSOUT.setConstant(b);
    jacobianSOUT.setConstant(J);
  }
  void display(std::ostream &) const {}
};

// one level of the reference problem
struct Level {
  Matrix J;
  Vector e;
  bool posture;  // solved by projection on the free directions
  Level(const Matrix &j, const Vector &v, bool p = false) : J(j), e(v), posture(p) {}
};

// Hierarchical least squares with orthogonal projectors (the code under test
// works with bases of the kernels).
static Vector solve(int n, const std::vector<Level> &levels, const Vector *q0 = NULL, const Matrix *K0 = NULL,
                    double th = 1e-4, double limit = 1e300, std::vector<bool> *dropped = NULL) {
  Vector q = q0 ? *q0 : Vector(Vector::Zero(n));
  Matrix P = K0 ? Matrix(*K0 * K0->transpose()) : Matrix(Matrix::Identity(n, n));
  for (const Level &l : levels) {
    if (l.posture) {
      q += P.rightCols(n - 6) * (l.e - q.tail(n - 6));
      continue;
    }
    Matrix JP = l.J * P, A = JP * JP.transpose();
    // pseudo-inverse of JP from the eigenvectors of JP JP^T
    Eigen::SelfAdjointEigenSolver<Matrix> es(A);
    Matrix inv = Matrix::Zero(n, l.J.rows());
    for (int i = 0; i < A.rows(); ++i) {
      double s2 = es.eigenvalues()(i);
      if (s2 > 0 && std::sqrt(s2) > th)
        inv += JP.transpose() * es.eigenvectors().col(i) * es.eigenvectors().col(i).transpose() / s2;
    }
    Vector d = inv * (l.e - l.J * q);
    if (d.squaredNorm() > limit) {
      if (dropped) dropped->push_back(true);
      continue;
    }
    if (dropped) dropped->push_back(false);
    q += d;
    P -= inv * JP;
  }
  return q;
}
static void judge(mc::Ctx &c, Sot &s, int t, const Vector &want, const std::string &what) {
  c.step();
  const Vector &got = s.controlSOUT(t);
  MC_EXPECT(c, mc::near(got, want, 1e-7), "control",
            what << ": the control is " << show(got) << " instead of " << show(want));
  c.observe(mc::hmat(got));
}

static const std::vector<double> TRI = {-1, 0, 1};

static void pairs(mc::Ctx &c) {
  int n = 2;
  int r1 = 1 + c.choose(2, "rows of the first"), r2 = 1 + c.choose(2, "rows of the second");
  Matrix J1 = mc::grid(c, r1, n, TRI, "J1"), J2 = mc::grid(c, r2, n, TRI, "J2");
  Vector e1(r1), e2(r2);
  for (int i = 0; i < r1; ++i) e1(i) = 1 + 2 * i;
  for (int i = 0; i < r2; ++i) e2(i) = -2 + 0.5 * i;
  MC_OP(c, "J1 " << show(J1) << " J2 " << show(J2));
  Sot s(mc::uniq("sot"));
  T a(mc::uniq("a")), b(mc::uniq("b"));
  s.defineNbDof(2);
  a.put(J1, e1);
  b.put(J2, e2);
  s.push(a);
  judge(c, s, 1, solve(n, {{J1, e1}}), "alone");
  Vector q1 = s.controlSOUT.accessCopy();
  s.push(b);
  judge(c, s, 1, solve(n, {{J1, e1}, {J2, e2}}), "two tasks");
  // the second one does not disturb the first
  Vector q2 = s.controlSOUT.accessCopy();
  MC_EXPECT(c, mc::near(Vector(J1 * q2), Vector(J1 * q1), 1e-7), "hierarchy",
            "the second task changes the first: " << show(J1 * q2) << " instead of " << show(J1 * q1));
}

static void triples(mc::Ctx &c) {
  int n = 3;
  Matrix J[3] = {mc::grid(c, 1, n, TRI, "J1"), mc::grid(c, 1, n, TRI, "J2"), mc::grid(c, 1, n, TRI, "J3")};
  int k0 = c.choose(3, "projector"), q = c.choose(2, "q0");
  Matrix K(3, 2);
  if (k0 == 1) {
    K.resize(3, 1);
    K << 0.6, 0, -0.8;
  } else if (k0 == 2)
    K << 1, 0, 0, 0.6, 0, 0.8;
  Vector q0 = mc::vec({0.5, -1, 2});
  MC_OP(c, "J " << show(J[0]) << show(J[1]) << show(J[2]) << " projector " << k0 << " q0 " << q);
  Sot s(mc::uniq("sot"));
  std::vector<T *> ts;
  s.defineNbDof(3);
  if (k0) s.proj0SIN = K;
  if (q) s.q0SIN = q0;
  std::vector<Level> L;
  for (int i = 0; i < 3; ++i) {
    ts.push_back(new T(mc::uniq("t")));
    ts[(size_t)i]->put(J[i], mc::vec({1.0 + 2 * i}));
    s.push(*ts[(size_t)i]);
    L.push_back(Level(J[i], mc::vec({1.0 + 2 * i})));
  }
  judge(c, s, 1, solve(n, L, q ? &q0 : NULL, k0 ? &K : NULL), "three tasks");
  s.clear();
  for (T *t : ts) delete t;
}

// joints left out of some tasks
static void selection(mc::Ctx &c) {
  int n = 3;
  Matrix J[2];
  for (int i = 0; i < 2; ++i) J[i] = mc::grid(c, 1, n, TRI, "J");
  bool on[2][3];
  int form[2];
  for (int i = 0; i < 2; ++i) {
    int m = c.choose(9, "joints");  // 8: all of them, without a list
    form[i] = m;
    for (int k = 0; k < 3; ++k) on[i][k] = m == 8 || (m >> k & 1);
  }
  MC_OP(c, "J " << show(J[0]) << show(J[1]) << " selections " << form[0] << " " << form[1]);
  Sot s(mc::uniq("sot"));
  s.defineNbDof(3);
  std::vector<Level> L;
  std::vector<Task *> ts;
  std::vector<FeatureGeneric *> fs;
  for (int i = 0; i < 2; ++i) {
    Task *t = new Task(mc::uniq("t"));
    FeatureGeneric *f = new FeatureGeneric(mc::uniq("f"));
    ts.push_back(t);
    fs.push_back(f);
    f->errorSIN = mc::vec({1.0 + i});
    f->jacobianSIN = J[i];
    t->addFeature(*f);
    t->controlGainSIN = 2.;
    Matrix A = J[i];
    if (form[i] != 8) {
      Flags fl;
      for (int k = 0; k < 3; ++k) {
        fl.add(on[i][k]);
        if (!on[i][k]) A.col(k).setZero();
      }
      t->setControlSelection(fl);
    }
    L.push_back(Level(A, mc::vec({-2. * (1 + i)})));
    s.push(*t);
  }
  judge(c, s, 1, solve(n, L), "selected joints");
  s.clear();
  for (Task *t : ts) delete t;
  for (FeatureGeneric *f : fs) delete f;
}

// inversion threshold and limit of the increment
static void limits(mc::Ctx &c) {
  int n = 2;
  static const double S[] = {0, 0.004, 0.02, 0.5, 3};
  double th = c.flag("threshold") ? 0.01 : 1e-4;
  static const double LIM[] = {1e300, 0.3, 5, 300};
  double lim = LIM[c.choose(4, "limit")];
  Matrix J[3];
  for (int i = 0; i < 3; ++i) {
    double a = S[c.choose(5, "scale")];
    int d = c.choose(3, "direction");
    J[i].resize(1, 2);
    J[i] << (d == 0 ? a : d == 1 ? 0 : 0.6 * a), (d == 1 ? a : d == 0 ? 0 : 0.8 * a);
  }
  bool two = c.flag("two rows");  // the first two in one task
  MC_OP(c, "J " << show(J[0]) << show(J[1]) << show(J[2]) << " threshold " << th << " limit " << lim << " two rows " << two);
  std::vector<Level> L;
  if (two) {
    Matrix A(2, 2);
    A << J[0], J[1];
    L.push_back(Level(A, mc::vec({1, -2})));
  } else {
    L.push_back(Level(J[0], mc::vec({1})));
    L.push_back(Level(J[1], mc::vec({-2})));
  }
  L.push_back(Level(J[2], mc::vec({0.7})));
  // stay away from the thresholds themselves
  {
    Matrix P = Matrix::Identity(2, 2);
    for (auto &l : L) {
      Eigen::JacobiSVD<Matrix> svd(l.J * P, Eigen::ComputeThinU | Eigen::ComputeThinV);
      for (int i = 0; i < svd.singularValues().size(); ++i) {
        double v = svd.singularValues()(i);
        if (v > 1e-9 && v < 3e-3) c.prune();
        if (v > 0.7 * th && v < 1.4 * th) c.prune();
      }
    }
  }
  Sot s(mc::uniq("sot"));
  s.defineNbDof(2);
  s.inversionThresholdSIN = th;
  mc::run(s, "setMaxControlIncrementSquaredNorm", {mc::Value(lim)});
  MC_EXPECT(c, (double)mc::run(s, "getMaxControlIncrementSquaredNorm").value() == lim, "limit", "the limit is not kept");
  std::vector<T *> ts;
  for (auto &l : L) {
    ts.push_back(new T(mc::uniq("t")));
    ts.back()->put(l.J, l.e);
    s.push(*ts.back());
  }
  judge(c, s, 1, solve(n, L, NULL, NULL, th, lim), "limits");
  s.clear();
  for (T *t : ts) delete t;
}

// histories of commands
static void histories(mc::Ctx &c, int depth) {
  Sot s(mc::uniq("sot")), o(mc::uniq("other"));
  int n = 3;
  s.defineNbDof(3);
  o.defineNbDof(3);
  T *ts[3];
  auto put = [&](int i, int v) {
    // version v: 1 or 2 rows
    int r = (v == 1) ? 2 : (v == 2 ? 3 : 1);
    Matrix J(r, n);
    Vector e(r);
    for (int a = 0; a < r; ++a) {
      for (int b = 0; b < n; ++b) J(a, b) = ((i + 2 * a + b * (1 + v) + a * b) % 3) - 1 + (a == b ? 1 : 0);
      e(a) = 1 + i - 2 * a;
    }
    ts[i]->put(J, e);
  };
  int version[3] = {0, 0, 0};
  for (int i = 0; i < 3; ++i) {
    ts[i] = new T(mc::uniq("t"));
    put(i, 0);
  }
  std::vector<int> st, so = {1, 0};
  o.push(*ts[1]);
  o.push(*ts[0]);
  bool q0on = false;
  Vector q0 = mc::vec({0.5, -1, 2});
  int t = 1;
  static const std::vector<int> START[3] = {{}, {0, 1, 2}, {2, 0}};
  for (int i : START[c.choose(3, "initial stack")]) {
    s.push(*ts[i]);
    st.push_back(i);
    c.note("pushed before: " + ts[i]->getName());
  }
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(16, "operation"), i = op % 3;
    std::vector<mc::Value> arg = {mc::Value(ts[i]->getName())};
    auto at = std::find(st.begin(), st.end(), i);
    if (op < 3) {
      if (at != st.end()) c.prune();  // a task is pushed once
      MC_OP(c, "push " << i);
      mc::run(s, "push", arg);
      st.push_back(i);
    } else if (op < 6) {
      MC_OP(c, "remove " << i);
      mc::run(s, "remove", arg);
      if (at != st.end()) st.erase(at);
    } else if (op < 9) {
      MC_OP(c, "up " << i);
      mc::run(s, "up", arg);
      if (at != st.end() && at != st.begin()) std::iter_swap(at, at - 1);
    } else if (op < 12) {
      MC_OP(c, "down " << i);
      mc::run(s, "down", arg);
      if (at != st.end() && at + 1 != st.end()) std::iter_swap(at, at + 1);
    } else if (op == 12) {
      MC_OP(c, "clear");
      mc::run(s, "clear");
      st.clear();
    } else if (op == 13) {
      // between two time steps, a task changes its size
      int w = c.choose(2, "task"), v = c.choose(3, "version");
      if (v == version[w]) c.prune();
      MC_OP(c, "task " << w << " becomes version " << v);
      version[w] = v;
      put(w, v);
      ++t;
    } else if (op == 14) {
      if (st.empty()) c.prune();
      MC_OP(c, "pop");
      TaskAbstract &p = s.pop();
      MC_EXPECT(c, &p == ts[st.back()], "pop", "pop gives another task");
      st.pop_back();
    } else {
      // another robot, or q0
      if (c.flag("robot")) {
        n = n == 3 ? 5 : 3;
        MC_OP(c, "robot of " << n);
        q0 = n == 3 ? mc::vec({0.5, -1, 2}) : mc::vec({0.5, -1, 2, 0, 1});
        for (int w = 0; w < 3; ++w) put(w, version[w]);
        mc::run(s, "setSize", {mc::Value((unsigned)n)});
        o.defineNbDof((unsigned)n);
        MC_EXPECT(c, s.getNbDof() == (unsigned)n, "size", "the size is not kept");
        if (q0on) s.q0SIN = q0;
        ++t;
      } else {
        MC_OP(c, "q0");
        q0on = true;
        q0(0) += 1;
        s.q0SIN = q0;
        ++t;
      }
    }
    // the list
    std::vector<int> got;
    for (auto *x : s.tasks())
      for (int w = 0; w < 3; ++w)
        if (x == ts[w]) got.push_back(w);
    MC_EXPECT(c, got == st, "stack", "the stack is not the expected one");
    std::string want = "( ";
    for (int w : st) want += '"' + ts[w]->getName() + "\", ";
    want += ")";
    std::string l = mc::run(s, "list").value();
    MC_EXPECT(c, l == want, "list", "list gives " << l << " instead of " << want);
    for (int w = 0; w < 3; ++w)
      MC_EXPECT(c, s.exist(*ts[w]) == (std::find(st.begin(), st.end(), w) != st.end()), "exist", "exist is wrong");
    // and the control, now and at the next time
    auto levels = [&](const std::vector<int> &q) {
      std::vector<Level> L;
      for (int w : q) L.push_back(Level(ts[w]->J, ts[w]->e));
      return L;
    };
    if (st.empty() && !q0on) {
      bool thrown = false;
      try {
        s.controlSOUT(t);
      } catch (const std::logic_error &) {
        thrown = true;
      }
      MC_EXPECT(c, thrown, "empty", "a control is given without any task");
      s.controlSOUT.setReady();
    } else {
      if (q0on) c.note("with q0");
      judge(c, s, t, solve(n, levels(st), q0on ? &q0 : NULL), "after the command");
    }
    judge(c, o, t, solve(n, levels(so)), "other stack");
    if (c.flag("time passes")) {
      ++t;
      if (!(st.empty() && !q0on)) judge(c, s, t, solve(n, levels(st), q0on ? &q0 : NULL), "at the next time");
    }
    uint64_t h = (uint64_t)q0on * 2 + (uint64_t)n;
    for (int w : st) h = mc::mix(h, (uint64_t)w + 1);
    for (int w = 0; w < 3; ++w) h = mc::mix(h, (uint64_t)version[w]);
    c.state(h);
  }
  s.clear();
  o.clear();
  for (int i = 0; i < 3; ++i) delete ts[i];
}

// the posture at the last level, with and without its shortcut
static void posture(mc::Ctx &c) {
  int joints = 1 + c.choose(2, "joints"), n = 6 + joints;
  bool fast = c.flag("shortcut");
  bool above = c.flag("task above"), below = c.flag("task below");
  int sel = c.choose(1 << joints, "selected joints");
  if (!sel) c.prune();
  bool q0 = c.flag("q0");
  bool limited = c.flag("control selection");
  Matrix J = Matrix::Zero(1, n), B = Matrix::Zero(1, n);
  if (above) {
    J(0, 0) = TRI[(size_t)c.choose(3, "J")];
    J(0, 5) = TRI[(size_t)c.choose(3, "J")];
    J(0, 6) = TRI[(size_t)c.choose(3, "J")];
    J(0, n - 1) += 2 * TRI[(size_t)c.choose(3, "J")];
  }
  B(0, 1) = 1;
  B(0, n - 1) = 1;
  MC_OP(c, joints << " joints, shortcut " << fast << " above " << above << show(J) << " below " << below << " selection "
                  << sel << " q0 " << q0 << " control selection " << limited);
  Sot s(mc::uniq("sot"));
  s.defineNbDof((unsigned)n);
  mc::run(s, "enablePostureTaskAcceleration", {mc::Value(fast)});
  T a(mc::uniq("a")), b(mc::uniq("b"));
  a.put(J, mc::vec({1}));
  b.put(B, mc::vec({-2}));
  FeaturePosture f(mc::uniq("posture"));
  Task t(mc::uniq("task"));
  Vector state = Vector::LinSpaced(n, 1, n), want = Vector::Zero(n);
  for (int i = 0; i < joints; ++i) want(6 + i) = 3 - 4 * i;
  mc::sig<Vector>(f, "state") = state;
  mc::sig<Vector>(f, "posture") = want;
  int dim = 0;
  Matrix JP(0, n);
  Vector e(0);
  for (int i = 0; i < joints; ++i)
    if (sel >> i & 1) {
      mc::run(f, "selectDof", {mc::Value((unsigned)(6 + i)), mc::Value(true)});
      ++dim;
      JP.conservativeResize(dim, n);
      JP.row(dim - 1).setZero();
      JP(dim - 1, 6 + i) = 1;
      e.conservativeResize(dim);
      e(dim - 1) = -0.5 * (state(6 + i) - want(6 + i));
    }
  t.addFeature(f);
  t.controlGainSIN = 0.5;
  if (limited) {
    Flags fl;
    for (int i = 0; i < n; ++i) fl.add(i != 6);
    t.setControlSelection(fl);
    JP.col(6).setZero();
  }
  Vector q = Vector::LinSpaced(n, -1, 1);
  if (q0) s.q0SIN = q;
  std::vector<Level> L;
  if (above) {
    s.push(a);
    L.push_back(Level(J, mc::vec({1})));
  }
  s.push(t);
  L.push_back(Level(JP, e, fast && !below && !limited && dim == joints && above));
  if (below) {
    s.push(b);
    L.push_back(Level(B, mc::vec({-2})));
  }
  for (int time = 1; time < 3; ++time)
    judge(c, s, time, solve(n, L, q0 ? &q : NULL), "posture");
  s.clear();
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"pairs", pairs, "two tasks of 1 or 2 rows on 2 joints, every pair of Jacobians over {-1,0,1}", 5});
  S.push_back({"triples", triples,
               "three tasks of 1 row on 3 joints, every triple of Jacobians over {-1,0,1}, 3 initial projectors, with or without initial control", 4});
  S.push_back({"selection", selection, "two tasks on 3 joints, every Jacobian over {-1,0,1} and every selection of joints", 4});
  S.push_back({"limits", limits,
               "three rows in 2 or 3 tasks, 5 scales around 2 inversion thresholds, 3 directions, 4 limits of the increment", 4});
  S.push_back({"histories", [](mc::Ctx &c) { histories(c, c.thorough ? 4 : 3); },
               "every sequence of 3 (thorough: 4) operations among push, remove, up, down, clear, pop, changes of size of tasks and "
               "robot and of q0, on 3 tasks shared with another stack, from 3 initial stacks, at the same or the next time", 3});
  S.push_back({"posture", posture, "posture task with and without the shortcut, with tasks above and below, every selection", 4});
  return mc::main(argc, argv, "C12", S);
}
