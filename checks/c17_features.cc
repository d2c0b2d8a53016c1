// C17: features: dimension, error, derivative and Jacobian agree with the
// inputs and the selection, whatever the history.
#include <sot/core/exception-feature.hh>
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-joint-limits.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/feature-task.hh>
#include <sot/core/feature-visual-point.hh>

#include <cstring>
#include <new>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;
using mc::show;

static std::string str(const mc::Value &v) {
  std::string s = v.value();
  return s;
}
static const char *FL[] = {"all", "", "1", "01", "101", "0", "!01"};
static Flags flags(int k) {
  std::string s = FL[k];
  if (s == "all") return Flags(true);
  if (s == "!01") return !Flags("01");
  return Flags(s.c_str());
}
static bool sel(int k, int i) {
  std::string s = FL[k];
  if (s == "all") return true;
  if (s == "!01") return i == 0 || i > 1;
  return i < (int)s.size() && s[(size_t)i] == '1';
}
static Vector ramp(int n, double k) {
  Vector v(n);
  for (int i = 0; i < n; ++i) v(i) = k + (i + 1) * (i + 2) * 0.25;
  return v;
}
static Matrix jmat(int r, int cc, double k) {
  Matrix m(r, cc);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < cc; ++j) m(i, j) = k + i - 0.5 * j * (i + 1);
  return m;
}
static Vector pick(const Vector &v, int fl, int n) {
  Vector r(n);
  int k = 0;
  for (int i = 0; i < n; ++i)
    if (sel(fl, i)) r(k++) = v(i);
  r.conservativeResize(k);
  return r;
}

struct Obj {
  Vector e, ed;
  Matrix J;
  FeatureGeneric *f;
};
static const int ORDER[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}};

static void generic(mc::Ctx &c, int depth) {
  bool task = c.flag("feature of a task");
  Obj m;
  m.f = task ? new FeatureTask(mc::uniq("f")) : new FeatureGeneric(mc::uniq("f"));
  Obj r[2];
  for (int i = 0; i < 2; ++i) {
    r[i].f = new FeatureGeneric(mc::uniq("ref"));
    r[i].e = ramp(3, 10 * (i + 1));
    r[i].ed = ramp(3, 100 * (i + 1));
    r[i].f->errorSIN = r[i].e;
    r[i].f->errordotSIN = r[i].ed;
  }
  int cols = 2, fl = 0, ref = -1, t = 0, dead = -1;
  m.e = ramp(3, 1);
  m.J = jmat(3, cols, 2);
  int order = c.choose(4, "order of the reads");
  for (int k = 0; k <= depth; ++k) {
    if (k) {
      int op = c.choose(9, "operation");
      if (op == 0) {
        fl = (fl + 1 + c.choose(6, "selection")) % 7;
        MC_OP(c, "selection " << FL[fl]);
        m.f->selectionSIN = flags(fl);
      } else if (op == 1) {
        int n = 1 + c.choose(4, "size");
        MC_OP(c, "size " << n);
        m.e = ramp(n, k);
        m.J = jmat(n, cols, k);
      } else if (op == 2) {
        MC_OP(c, "robot");
        cols = 5 - cols;
        m.J = jmat((int)m.e.size(), cols, k);
      } else if (op == 3 || op == 4) {
        ref = op - 3;
        MC_OP(c, "reference " << ref);
        mc::run(*m.f, "setReference", {mc::Value(r[ref].f->getName())});
        MC_EXPECT(c, str(mc::run(*m.f, "getReference")) == r[ref].f->getName(), "reference", "another reference is given");
      } else if (op == 5) {
        MC_OP(c, "no reference");
        ((FeatureAbstract &)*m.f).unsetReference();
        ref = -1;
        MC_EXPECT(c, str(mc::run(*m.f, "getReference")) == "none", "reference", "a reference is given");
      } else if (op == 6) {
        int n = 1 + c.choose(4, "size of the reference");
        MC_OP(c, "value of the references, of size " << n);
        for (int i = 0; i < 2; ++i) {
          r[i].e = ramp(n, 30 * (i + 1) + k);
          r[i].f->errorSIN = r[i].e;
        }
      } else if (op == 7) {
        int n = 1 + c.choose(4, "size of the derivative");
        MC_OP(c, "derivative of the references, of size " << n);
        for (int i = 0; i < 2; ++i) {
          r[i].ed = ramp(n, 70 * (i + 1) + k);
          r[i].f->errordotSIN = r[i].ed;
        }
      } else
        MC_OP(c, "nothing");
    }
    ++t;
    m.f->errorSIN = m.e;
    m.f->jacobianSIN = m.J;
    for (int i = 0; i < 2; ++i) {
      r[i].f->errorSIN = r[i].e;
      r[i].f->errordotSIN = r[i].ed;
    }
    int n = (int)m.e.size(), dim = 0;
    bool badE = false, badD = false;
    Matrix J(n, cols);
    for (int i = 0; i < n; ++i)
      if (sel(fl, i)) {
        J.row(dim++) = m.J.row(i);
        if (ref >= 0 && i >= r[ref].e.size()) badE = true;
        if (ref >= 0 && i >= r[ref].ed.size()) badD = true;
      }
    J.conservativeResize(dim, cols);
    Vector e = m.e, d = Vector::Zero(n);
    if (ref >= 0 && !badE)
      for (int i = 0; i < std::min(n, (int)r[ref].e.size()); ++i) e(i) -= r[ref].e(i);
    if (ref >= 0 && !badD)
      for (int i = 0; i < std::min(n, (int)r[ref].ed.size()); ++i) d(i) = -r[ref].ed(i);
    Vector we = pick(e, fl, n), wd = pick(d, fl, n);
    for (int s = 0; s < 4; ++s) {
      int what = ORDER[order][s];
      c.step();
      bool thrown = false;
      if (dead == t) break;
      try {
        if (what == 0) {
          unsigned g = m.f->dimensionSOUT(t);
          MC_EXPECT(c, (int)g == dim, "dimension", "dimension " << g << " instead of " << dim);
        } else if (what == 1) {
          const Vector &v = m.f->errorSOUT(t);
          MC_EXPECT(c, !badE, "size", "a reference too short is accepted");
          MC_EXPECT(c, mc::near(v, we), "error", "error is " << show(v) << " instead of " << show(we));
        } else if (what == 2) {
          const Vector &v = m.f->errordotSOUT(t);
          MC_EXPECT(c, !badD, "size", "a derivative too short is accepted");
          MC_EXPECT(c, mc::near(v, wd), "derivative", "derivative is " << show(v) << " instead of " << show(wd));
        } else {
          const Matrix &v = m.f->jacobianSOUT(t);
          MC_EXPECT(c, mc::near(v, J), "jacobian", "Jacobian is " << show(v) << " instead of " << show(J));
        }
      } catch (ExceptionFeature &x) {
        thrown = true;
        dead = t;
        MC_EXPECT(c, x.getCode() == ExceptionFeature::UNCOMPATIBLE_SIZE, "code", "wrong code");
        MC_EXPECT(c, (what == 1 && badE) || (what == 2 && badD), "exception", "unexpected exception " << x.what());
      }
      (void)thrown;
    }
    c.observe(mc::hmat(we) ^ mc::hmat(wd));
  }
  ((FeatureAbstract &)*m.f).unsetReference();
  delete m.f;
  for (int i = 0; i < 2; ++i) delete r[i].f;
}

// a Jacobian that is too short is refused
static void shortJacobian(mc::Ctx &c) {
  FeatureGeneric f(mc::uniq("f"));
  int n = 1 + c.choose(4, "size"), rows = c.choose(5, "rows"), fl = c.choose(7, "selection");
  MC_OP(c, "error of size " << n << " Jacobian of " << rows << " rows, selection " << FL[fl]);
  f.errorSIN = ramp(n, 1);
  f.jacobianSIN = jmat(rows, 3, 1);
  f.selectionSIN = flags(fl);
  bool bad = false, thrown = false;
  for (int i = rows; i < n; ++i) bad = bad || sel(fl, i);
  try {
    f.jacobianSOUT(1);
  } catch (ExceptionFeature &) {
    thrown = true;
  }
  MC_EXPECT(c, bad == thrown, "size", "refused: " << thrown);
  c.observe((uint64_t)thrown);
}

// the signals of a former reference do not count
static void formerReference(mc::Ctx &c) {
  int kind = c.choose(2, "kind");
  FeatureAbstract *f, *a, *b;
  if (kind == 0) {
    FeatureGeneric *x = new FeatureGeneric(mc::uniq("f")), *y = new FeatureGeneric(mc::uniq("a")), *z = new FeatureGeneric(mc::uniq("b"));
    x->errorSIN = ramp(2, 1);
    y->errorSIN = ramp(2, 2);
    z->errorSIN = ramp(2, 3);
    y->errordotSIN = ramp(2, 4);
    z->errordotSIN = ramp(2, 5);
    f = x, a = y, b = z;
  } else {
    FeatureVisualPoint *x = new FeatureVisualPoint(mc::uniq("f")), *y = new FeatureVisualPoint(mc::uniq("a")), *z = new FeatureVisualPoint(mc::uniq("b"));
    x->xySIN = ramp(2, 1);
    y->xySIN = ramp(2, 2);
    z->xySIN = ramp(2, 3);
    y->errordotSIN = ramp(2, 4);
    z->errordotSIN = ramp(2, 5);
    f = x, a = y, b = z;
  }
  f->setReference(a);
  int reads = c.choose(3, "reads before"), t = 0;
  for (int i = 0; i < reads; ++i) {
    f->errorSOUT(++t);
    f->errordotSOUT(t);
  }
  if (c.flag("given twice")) f->setReference(a);
  if (c.flag("unset between")) f->unsetReference();
  f->setReference(b);
  delete a;
  for (int i = 0; i < 2; ++i) {
    Vector e = f->errorSOUT(++t), d = f->errordotSOUT(t);
    MC_EXPECT(c, mc::near(e, Vector(ramp(2, 1) - ramp(2, 3))), "former", "error is " << show(e));
    MC_EXPECT(c, mc::near(d, Vector(-ramp(2, 5))), "former", "derivative is " << show(d));
    if (kind == 0) {
      Vector x = static_cast<FeatureGeneric *>(f)->errorSIN.accessCopy();
      static_cast<FeatureGeneric *>(f)->errorSIN = x;
    } else {
      Vector x = static_cast<FeatureVisualPoint *>(f)->xySIN.accessCopy();
      static_cast<FeatureVisualPoint *>(f)->xySIN = x;
    }
    c.step();
  }
  f->unsetReference();
  c.observe(kind);
  delete f;
  delete b;
}

// error and derivative of the others: half the square, limits, posture
static void oned(mc::Ctx &c) {
  Feature1D f(mc::uniq("f"));
  int t = 0;
  for (int k = 0; k < (c.thorough ? 3 : 2); ++k) {
    int n = 1 + c.choose(3, "size"), cols = 1 + c.choose(2, "robot"), fresh = c.choose(3, "what changes");
    static const double V[] = {-1, 0, 2};
    Vector e(n);
    if (k && fresh != 0 && (n != (int)f.errorSIN.accessCopy().size())) c.prune();
    for (int i = 0; i < n; ++i) e(i) = V[(i + c.choose(3, "error")) % 3];
    Matrix J = jmat(n, cols, k - 1);
    if (k && fresh == 1) J = f.jacobianSIN.accessCopy();
    if (k && fresh == 2) e = f.errorSIN.accessCopy();
    MC_OP(c, "error " << show(e) << " Jacobian " << show(J));
    if (!k || fresh != 2) f.errorSIN = e;
    if (!k || fresh != 1) f.jacobianSIN = J;
    c.step();
    ++t;
    Vector want(1);
    want(0) = e.squaredNorm() / 2;
    const Vector &g = f.errorSOUT(t);
    MC_EXPECT(c, mc::near(g, want), "error", "error is " << show(g) << " instead of " << show(want));
    Matrix wj = e.transpose() * J;
    f.selectionSIN.access(t);  // as a tracer does
    const Matrix &gj = f.jacobianSOUT(t);
    MC_EXPECT(c, mc::near(gj, wj), "jacobian", "Jacobian is " << show(gj) << " instead of " << show(wj));
    MC_EXPECT(c, f.dimensionSOUT(t) == 1, "dimension", "the dimension is not 1");
    c.observe(mc::hmat(wj));
  }
}

static void limits(mc::Ctx &c, int depth) {
  FeatureJointLimits f(mc::uniq("f"));
  int t = 0, fl = 0, n = 3;
  Vector q(n), lo(n), up(n);
  q << 0.5, -1, 2;
  lo << -1, -2, 0;
  up << 1, 2, 4;
  f.jointSIN = q;
  f.lowerJlSIN = lo;
  f.upperJlSIN = up;
  for (int k = 0; k <= depth; ++k) {
    if (k) {
      int op = c.choose(6, "operation");
      if (op == 0) {
        fl = (fl + 1 + c.choose(6, "selection")) % 7;
        MC_OP(c, "selection " << FL[fl]);
        f.selectionSIN = flags(fl);
      } else if (op == 1) {
        MC_OP(c, "other joints");
        for (int i = 0; i < n; ++i) q(i) = 0.75 * k - i;
        f.jointSIN = q;
      } else if (op == 2) {
        MC_OP(c, "other lower limits");
        for (int i = 0; i < n; ++i) lo(i) = -k - 0.5 * i;
        f.lowerJlSIN = lo;
      } else if (op == 3) {
        MC_OP(c, "other upper limits");
        for (int i = 0; i < n; ++i) up(i) = 3 + k + 0.5 * i;
        f.upperJlSIN = up;
      } else if (op == 4) {
        n = n == 3 ? 8 : 3;
        MC_OP(c, "robot of " << n);
        q.resize(n), lo.resize(n), up.resize(n);
        for (int i = 0; i < n; ++i) q(i) = 0.25 * i, lo(i) = -2 - i, up(i) = k + i;
        f.jointSIN = q;
        f.lowerJlSIN = lo;
        f.upperJlSIN = up;
      } else {
        MC_OP(c, "actuate");
        mc::run(f, "actuate");
        fl = -1;
      }
    }
    ++t;
    c.step();
    if (fl < 0) {
      // all joints but the free flyer
      unsigned d = f.dimensionSOUT(t);
      MC_EXPECT(c, (int)d == std::max(0, n - 6), "actuate", "dimension " << d);
      return;
    }
    int dim = 0;
    Vector e(n);
    Matrix J = Matrix::Zero(n, n);
    for (int i = 0; i < n; ++i)
      if (sel(fl, i)) {
        // -1 at the lower limit, 1 at the upper one
        e(dim) = (q(i) - (lo(i) + up(i)) / 2) / ((up(i) - lo(i)) / 2);
        J(dim++, i) = 2 / (up(i) - lo(i));
      }
    e.conservativeResize(dim);
    J.conservativeResize(dim, n);
    int first = c.choose(2, "order of the reads");
    for (int s = 0; s < 2; ++s) {
      if (s == first) {
        const Vector &g = f.errorSOUT(t);
        MC_EXPECT(c, mc::near(g, e), "error", "error is " << show(g) << " instead of " << show(e));
      } else {
        const Matrix &g = f.jacobianSOUT(t);
        MC_EXPECT(c, mc::near(g, J), "jacobian", "Jacobian is " << show(g) << " instead of " << show(J));
      }
    }
    MC_EXPECT(c, (int)f.dimensionSOUT(t) == dim, "dimension", "wrong dimension");
    c.observe(mc::hmat(e));
  }
}

static void posture(mc::Ctx &c, int depth) {
  FeaturePosture f(mc::uniq("f"));
  int n = 4, t = 0;
  Vector q = ramp(n, 1), p = ramp(n, 5), pd = ramp(n, 9);
  dynamicgraph::SignalPtr<Vector, int> &st = dynamic_cast<dynamicgraph::SignalPtr<Vector, int> &>(f.getSignal("state")),
                                       &po = dynamic_cast<dynamicgraph::SignalPtr<Vector, int> &>(f.getSignal("posture")),
                                       &pv = dynamic_cast<dynamicgraph::SignalPtr<Vector, int> &>(f.getSignal("postureDot"));
  st = q;
  po = p;
  pv = pd;
  std::vector<bool> on((size_t)n, false);
  bool traced = c.flag("selection read as a tracer does");
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(5, "operation");
    bool pass = true;
    if (op < 2) {
      int i = c.choose(n + 1, "joint");
      bool v = op == 0;
      MC_OP(c, (v ? "select " : "unselect ") << i);
      bool thrown = false;
      try {
        mc::run(f, "selectDof", {mc::Value((unsigned)i), mc::Value(v)});
      } catch (sot::ExceptionAbstract &) {
        thrown = true;
      }
      MC_EXPECT(c, thrown == (i >= n), "range", "joint " << i << " refused: " << thrown);
      if (!thrown) on[(size_t)i] = v;
      pass = k == 0 || c.flag("time passes");
    } else if (op == 2) {
      MC_OP(c, "state");
      q = ramp(n, 3 * k);
      st = q;
    } else if (op == 3) {
      MC_OP(c, "posture");
      p = ramp(n, 7 * k);
      po = p;
    } else {
      MC_OP(c, "velocity of the posture");
      pd = ramp(n, 11 * k);
      pv = pd;
    }
    if (pass) ++t;
    c.step();
    int dim = 0;
    Vector e(n), d(n);
    Matrix J = Matrix::Zero(n, n);
    for (int i = 0; i < n; ++i)
      if (on[(size_t)i]) {
        e(dim) = q(i) - p(i);
        d(dim) = -pd(i);
        J(dim++, i) = 1;
      }
    e.conservativeResize(dim);
    d.conservativeResize(dim);
    J.conservativeResize(dim, n);
    if (traced) f.selectionSIN.access(t);
    const Vector &ge = f.errorSOUT(t), &gd = f.errordotSOUT(t);
    const Matrix &gj = f.jacobianSOUT(t);
    MC_EXPECT(c, mc::near(ge, e), "error", "error is " << show(ge) << " instead of " << show(e));
    MC_EXPECT(c, mc::near(gd, d), "derivative", "derivative is " << show(gd) << " instead of " << show(d));
    if (dim || gj.size()) MC_EXPECT(c, mc::near(gj, J), "jacobian", "Jacobian is " << show(gj) << " instead of " << show(J));
    MC_EXPECT(c, (int)f.dimensionSOUT(t) == dim, "dimension", "dimension is " << f.dimensionSOUT(t));
    c.observe(mc::hmat(e) ^ mc::hmat(d));
  }
}

// a feature of a task that is not given yet, in memory used before
static void display(mc::Ctx &c) {
  alignas(FeatureTask) static unsigned char mem[sizeof(FeatureTask)];
  std::memset(mem, c.choose(2, "memory") ? 0xaa : 0, sizeof mem);
  FeatureTask *f = new (mem) FeatureTask(mc::uniq("f"));
  MC_OP(c, "display");
  std::ostringstream os;
  f->display(os);
  MC_EXPECT(c, os.str().size() < 10000, "display", "displayed " << os.str().size() << " characters");
  f->~FeatureTask();
  c.observe(os.str().size());
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"generic", [](mc::Ctx &c) { generic(c, c.thorough ? 4 : 3); },
               "every history of 3 (thorough: 4) changes of selection, sizes, references and values, 4 orders of reading", 3});
  S.push_back({"short-jacobian", shortJacobian, "every size of error, number of rows and selection", 2});
  S.push_back({"former-reference", formerReference, "every way of changing the reference, the former one being destroyed", 1});
  S.push_back({"one-d", oned, "every sequence of 2 (thorough: 3) errors and Jacobians of 1 to 3 components, one or both changing", 3});
  S.push_back({"limits", [](mc::Ctx &c) { limits(c, c.thorough ? 5 : 3); },
               "every history of 3 (thorough: 5) changes of selection, joints, limits and size", 3});
  S.push_back({"posture", [](mc::Ctx &c) { posture(c, c.thorough ? 5 : 4); },
               "every history of 4 (thorough: 5) selections and changes of state, posture and velocity", 3});
  S.push_back({"display", display, "a feature of no task in clean and used memory", 1});
  return mc::main(argc, argv, "C17", S);
}
