// C13: tasks gather their features, whatever the history.
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/feature-abstract.hh>
#include <sot/core/pool.hh>
#include <sot/core/task-conti.hh>
#include <sot/core/task-pd.hh>
#include <sot/core/task-unilateral.hh>
#include <sot/core/task.hh>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
using mc::show;

// a feature given by its outputs
struct F : FeatureAbstract {
  SignalPtr<Vector, int> e, ed;
  SignalPtr<Matrix, int> J;
  bool broken = false;
  F(const std::string &n)
      : FeatureAbstract(n), e(NULL, "F(" + n + ")::input(vector)::e"), ed(NULL, "F(" + n + ")::input(vector)::ed"),
        J(NULL, "F(" + n + ")::input(matrix)::J") {
    errorSOUT.addDependency(e);
    errordotSOUT.addDependency(ed);
    jacobianSOUT.addDependency(J);
  }
  void put(int rows, int cols, double k) {
    Vector a(rows), b(rows);
    Matrix m(rows, cols);
    for (int i = 0; i < rows; ++i) {
      a(i) = k + i;
      b(i) = 10 * k - i;
      for (int j = 0; j < cols; ++j) m(i, j) = k + 0.25 * i + 0.0625 * j;
    }
    e = a;
    ed = b;
    J = m;
  }
  void refresh() {
    Vector a = e.accessCopy(), b = ed.accessCopy();
    Matrix m = J.accessCopy();
    e = a;
    ed = b;
    J = m;
  }
  void check() {
    if (broken)
      throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE, "the feature is broken");
  }
  unsigned int &getDimension(unsigned int &d, int t) { return d = (unsigned)e(t).size(); }
  Vector &computeError(Vector &r, int t) {
    check();
    return r = e(t);
  }
  Vector &computeErrorDot(Vector &r, int t) { return r = ed(t); }
  Matrix &computeJacobian(Matrix &r, int t) {
    check();
    return r = J(t);
  }
  void setReference(FeatureAbstract *) {}
  const FeatureAbstract *getReferenceAbstract() const { return NULL; }
  FeatureAbstract *getReferenceAbstract() { return NULL; }
  void addDependenciesFromReference() {}
  void removeDependenciesFromReference() {}
};

static Vector single(const VectorMultiBound &b) {
  Vector v((int)b.size());
  for (size_t i = 0; i < b.size(); ++i) v((int)i) = b[i].getSingleBound();
  return v;
}

struct World {
  mc::Ctx &c;
  std::vector<F *> f;
  std::vector<int> list;
  int t = 0, cols = 2, dead = -1;
  double gain = 0.5;
  bool wd = false;
  World(mc::Ctx &cc, const std::vector<int> &dims) : c(cc) {
    for (size_t i = 0; i < dims.size(); ++i) {
      f.push_back(new F(mc::uniq("f")));
      f[i]->put(dims[i], cols, 1 + (double)i);
    }
  }
  ~World() {
    for (F *x : f) delete x;
  }
  void tick() {
    ++t;
    for (F *x : f) x->refresh();
  }
  bool raised() {
    for (int i : list)
      if (f[(size_t)i]->broken) return true;
    return list.empty();
  }
  Vector error(bool dot = false) {
    Vector r(0);
    for (int i : list) {
      Vector p = dot ? f[(size_t)i]->ed.accessCopy() : f[(size_t)i]->e.accessCopy();
      int n = (int)r.size();
      r.conservativeResize(n + p.size());
      r.tail(p.size()) = p;
    }
    return r;
  }
  Matrix jac() {
    Matrix r(0, cols);
    for (int i : list) {
      const Matrix &p = f[(size_t)i]->J.accessCopy();
      int n = (int)r.rows();
      r.conservativeResize(n + p.rows(), cols);
      r.bottomRows(p.rows()) = p;
    }
    return r;
  }
  Vector law() {
    Vector v = -gain * error();
    if (wd) v -= error(true);
    return v;
  }
  // read everything, in one of several orders
  void read(Task &k, int order, const Vector *want = NULL) {
    static const int O[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}};
    if (dead == t) return;
    for (int s = 0; s < 4; ++s) {
      int what = O[order][s];
      c.step();
      bool thrown = false;
      try {
        if (what == 0) {
          const Vector &v = k.errorSOUT(t);
          if (!raised())
            MC_EXPECT(c, mc::near(v, error()), "error", "error is " << show(v) << " instead of " << show(error()));
        } else if (what == 1) {
          const Matrix &v = k.jacobianSOUT(t);
          if (!raised())
            MC_EXPECT(c, mc::near(v, jac()), "jacobian", "jacobian is " << show(v) << " instead of " << show(jac()));
        } else if (what == 2) {
          Vector v = single(k.taskSOUT(t)), w = want ? *want : law();
          if (!raised())
            MC_EXPECT(c, mc::near(v, w), "task", "task is " << show(v) << " instead of " << show(w));
        } else {
          const Vector &v = k.errorTimeDerivativeSOUT(t);
          if (!raised())
            MC_EXPECT(c, mc::near(v, error(true)), "derivative",
                      "time derivative of the error is " << show(v) << " instead of " << show(error(true)));
        }
      } catch (ExceptionFeature &e) {
        thrown = true;
        MC_EXPECT(c, raised() && !list.empty(), "exception", "unexpected error of feature: " << e.what());
      } catch (ExceptionTask &e) {
        thrown = true;
        MC_EXPECT(c, list.empty(), "exception", "unexpected error of task: " << e.what());
        MC_EXPECT(c, e.getCode() == ExceptionTask::EMPTY_LIST, "exception", "wrong code " << e.getCode());
      } catch (sot::ExceptionAbstract &e) {
        MC_FAIL(c, "exception-type", "the error raised by a feature has lost its type: " << e.what());
      }
      if (raised() && what == 3 && !thrown) continue;
      MC_EXPECT(c, thrown == raised(), "exception", "error expected: " << raised() << ", raised: " << thrown
                                                                                    << " when reading output " << what);
      // a signal that has raised an error is not computed again at this time
      if (raised()) {
        dead = t;
        break;
      }
    }
  }
};

static void shapes(mc::Ctx &c) {
  // every list of features of 0 to 4 components, read twice
  int n = 1 + c.choose(c.thorough ? 5 : 4, "features");
  std::vector<int> dims;
  for (int i = 0; i < n; ++i) dims.push_back(c.choose(5, "dimension"));
  World w(c, dims);
  Task k(mc::uniq("task"));
  std::ostringstream os;
  for (int d : dims) os << d << " ";
  MC_OP(c, "features of " << os.str());
  for (int i = 0; i < n; ++i) {
    k.addFeature(*w.f[(size_t)i]);
    w.list.push_back(i);
  }
  k.controlGainSIN = w.gain;
  for (int r = 0; r < 3; ++r) {
    w.tick();
    w.read(k, r);
  }
  k.clearFeatureList();
}

static void history(mc::Ctx &c, int depth) {
  World w(c, {1, 2, 3});
  Task k(mc::uniq("task"));
  k.controlGainSIN = w.gain;
  int order = c.choose(4, "order of the reads");
  if (c.flag("filled")) {
    k.addFeature(*w.f[1]);
    k.addFeature(*w.f[0]);
    w.list = {1, 0};
    w.tick();
    w.read(k, order);
  }
  for (int s = 0; s < depth; ++s) {
    int op = c.choose(11, "operation");
    bool pass = true;
    if (op < 3) {
      MC_OP(c, "add " << op);
      mc::run(k, "add", {mc::Value(w.f[(size_t)op]->getName())});
      w.list.push_back(op);
      pass = c.flag("time passes");
    } else if (op == 3) {
      MC_OP(c, "clear");
      mc::run(k, "clear");
      w.list.clear();
      pass = c.flag("time passes");
    } else if (op == 4) {
      MC_OP(c, "gain");
      w.gain *= 2;
      k.controlGainSIN = w.gain;
    } else if (op == 5) {
      w.wd = !w.wd;
      MC_OP(c, "with derivative " << w.wd);
      mc::run(k, "setWithDerivative", {mc::Value(w.wd)});
      MC_EXPECT(c, (bool)mc::run(k, "getWithDerivative").value() == w.wd, "flag", "withDerivative is not kept");
    } else if (op == 6) {
      MC_OP(c, "feature 0 grows");
      w.f[0]->put(5, w.cols, 7);
    } else if (op == 7) {
      MC_OP(c, "feature 1 shrinks");
      w.f[1]->put(1, w.cols, 8);
    } else if (op == 8) {
      w.cols = w.cols == 2 ? 5 : 2;
      MC_OP(c, "robot of " << w.cols);
      for (size_t i = 0; i < 3; ++i) w.f[i]->put((int)w.f[i]->e.accessCopy().size(), w.cols, 3 + (double)i);
    } else if (op == 9) {
      MC_OP(c, "feature 2 breaks or is repaired");
      w.f[2]->broken = !w.f[2]->broken;
    } else
      MC_OP(c, "nothing");
    if (pass || w.t == 0) w.tick();
    std::string l = mc::run(k, "list").value(), want = "[";
    for (int i : w.list) want += "'" + w.f[(size_t)i]->getName() + "',";
    want += "]";
    MC_EXPECT(c, l == want, "list", "list gives " << l << " instead of " << want);
    w.read(k, order);
    c.observe(mc::hmat(w.raised() ? Vector() : w.law()));
  }
  k.clearFeatureList();
}

// variants of the law
static void pd(mc::Ctx &c) {
  World w(c, {2, 1});
  TaskPD k(mc::uniq("task"));
  double beta = 1;
  k.controlGainSIN = w.gain;
  k.addFeature(*w.f[0]);
  w.list.push_back(0);
  Vector last(0);
  for (int s = 0; s < (c.thorough ? 7 : 6); ++s) {
    int op = c.choose(5, "operation");
    if (op == 0) {
      MC_OP(c, "beta");
      beta = 0.25 * (s + 1);
      mc::run(k, "setBeta", {mc::Value(beta)});
    } else if (op == 1) {
      MC_OP(c, "another error");
      w.f[0]->put((int)w.f[0]->e.accessCopy().size(), 2, 3 * s + 2);
    } else if (op == 2) {
      MC_OP(c, "another size");
      w.f[0]->put(3 - (int)w.f[0]->e.accessCopy().size(), 2, 3 * s + 2);
    } else if (op == 3) {
      if (w.list.size() > 1) c.prune();
      MC_OP(c, "another feature");
      k.addFeature(*w.f[1]);
      w.list.push_back(1);
    } else {
      MC_OP(c, "with derivative");
      w.wd = !w.wd;
      k.setWithDerivative(w.wd);
    }
    w.tick();
    Vector e = w.error(), d = Vector::Zero(e.size());
    if (last.size() == e.size()) d = e - last;
    last = e;
    Vector want = w.law() - beta * d;
    w.read(k, 2 * (s % 2), &want);
    MC_EXPECT(c, mc::near(k.errorDotSOUT(w.t), d), "difference", "difference of the errors is " << show(k.errorDotSOUT(w.t)) << " instead of " << show(d));
  }
  k.clearFeatureList();
}

static void unilateral(mc::Ctx &c) {
  TaskUnilateral k(mc::uniq("task"));
  static const double P[] = {-1, 0, 2}, I[] = {-3, -1, 0}, S[] = {0, 2, 5};
  int t = 0;
  for (int s = 0; s < 2; ++s) {
    int n = 1 + c.choose(2, "dimension");
    double dt = c.flag("period") ? 0.5 : 0.001;
    Vector p(n), a(n), b(n);
    for (int i = 0; i < n; ++i) {
      p(i) = P[c.choose(3, "position")];
      a(i) = I[s ? (i + 1) % 3 : c.choose(3, "inf")];
      b(i) = S[s ? i % 3 : c.choose(3, "sup")];
    }
    MC_OP(c, "position " << show(p) << " between " << show(a) << " and " << show(b));
    k.positionSIN = p;
    k.referenceInfSIN = a;
    k.referenceSupSIN = b;
    k.dtSIN = dt;
    c.step();
    const VectorMultiBound &r = k.taskSOUT(++t);
    MC_EXPECT(c, (int)r.size() == n, "unilateral", r.size() << " bounds");
    for (int i = 0; i < n; ++i) {
      MC_EXPECT(c, r[(size_t)i].getMode() == MultiBound::MODE_DOUBLE, "unilateral", "not a pair of bounds");
      double lo = r[(size_t)i].getDoubleBound(MultiBound::BOUND_INF), hi = r[(size_t)i].getDoubleBound(MultiBound::BOUND_SUP);
      MC_EXPECT(c, mc::near(p(i) + dt * lo, a(i)) && mc::near(p(i) + dt * hi, b(i)), "unilateral",
                "the bounds " << lo << "," << hi << " do not lead to the references");
    }
    c.observe(mc::hmat(p));
  }
}

struct Conti : TaskConti {
  Conti(const std::string &n) : TaskConti(n) {}
  void set(const Vector &q, double m) {
    q0 = q;
    mu = m;
  }
};
static void conti(mc::Ctx &c) {
  World w(c, {2});
  w.cols = 8;
  w.f[0]->put(2, 8, 1);
  Conti k(mc::uniq("task"));
  k.controlGainSIN = w.gain;
  k.addFeature(*w.f[0]);
  w.list.push_back(0);
  int size = c.choose(3, "size of the initial control");  // 0, 2 (the right one), 3
  size = size == 0 ? 0 : size + 1;
  Vector q(size);
  for (int i = 0; i < size; ++i) q(i) = 1 - 3 * i;
  double mu = c.choose(3, "mu") * 60;
  int ref = c.choose(4, "reference time") - 1;
  bool late = c.flag("reference given late");
  MC_OP(c, "initial control of " << size << " mu " << mu << " reference time " << ref << " late " << late);
  k.set(q, mu);
  if (!late && ref >= 0) k.referenceTime((unsigned)ref);
  for (int s = 0; s < 4; ++s) {
    w.tick();
    if (late && s == 2 && ref >= 0) k.referenceTime((unsigned)(ref + 2));
    int now = late ? (s >= 2 && ref >= 0 ? ref + 2 : -1) : ref;
    Vector want = w.law();
    if (size == 2 && now >= 0) {
      double g = std::exp((now - w.t) * mu / 200);
      want = (g - 1) * w.gain * w.error() + g * w.jac().rightCols(2) * q;
    }
    Vector v = single(k.taskSOUT(w.t));
    MC_EXPECT(c, mc::near(v, want), "conti", "task is " << show(v) << " instead of " << show(want));
    c.observe(mc::hmat(v));
  }
  k.clearFeatureList();
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"shapes", shapes, "every list of 1 to 4 (thorough: 5) features of 0 to 4 components, read at 3 times in 3 orders", 3});
  S.push_back({"history", [](mc::Ctx &c) { history(c, c.thorough ? 5 : 4); },
               "every sequence of 4 (thorough: 5) operations among additions, clear, gain, derivative, changes of size of features and "
               "robot, failing feature; 4 orders of reading", 4});
  S.push_back({"pd", pd, "every sequence of 6 (thorough: 7) changes of coefficient, error, size, features, derivative", 3});
  S.push_back({"unilateral", unilateral, "every position, bounds and period over grids, followed by every other size, position and period", 4});
  S.push_back({"conti", conti, "every size of initial control, coefficient and reference time, given early or late", 2});
  return mc::main(argc, argv, "C13", S);
}
