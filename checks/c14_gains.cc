// C14: adaptive gains.
#include <sot/core/gain-adaptive.hh>
#include <sot/core/gain-hyperbolic.hh>

#include "dgx.hh"
using namespace dynamicgraph;
using namespace dynamicgraph::sot;

static const int DIM[] = {1, 6, 2, 3};
// errors of norm r, of several dimensions
static Vector ofNorm(double r, int dim, int sign) {
  Vector v = Vector::Zero(dim);
  if (dim == 1)
    v(0) = sign ? -r : r;
  else {
    v(0) = 0.6 * r;
    v(dim - 1) = sign ? -0.8 * r : 0.8 * r;
  }
  return v;
}
static const double V0[] = {0, 0.5, 2, 30}, SLOPE[] = {0.1, 1, 45}, XREF[] = {0.01, 0.5, 3}, PCT[] = {0.05, 0.5, 0.9};

struct Ref {
  double a = 0, b = 0, c = 0.1, d = 0;
  bool hyper = false;
  double at(double r) const {
    return hyper ? a * (std::tanh(-b * (r - d)) + 1) / 2 + c : a * std::exp(-b * r) + c;
  }
};
template <class G>
static double read(G &g, int &t, const Vector &e) {
  g.errorSIN = e;
  return g.gainSOUT(++t);
}

static void adaptive(mc::Ctx &c, int depth) {
  GainAdaptive g(mc::uniq("gain"));
  int t = 0;
  double g0 = 0.1, ginf = 0.1;
  int slopeKnown = 1;  // 1: tangent at 0, 2: passing point
  double p1 = 1, p2 = 0;
  bool constant = true;
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(k ? 5 : 4, "command");
    if (op == 0) {
      double v = V0[c.choose(4, "value")];
      MC_OP(c, "setConstant " << v);
      mc::run(g, "setConstant", {mc::Value(v)});
      g0 = ginf = v;
      constant = true;
    } else if (op == 1) {
      g0 = V0[c.choose(4, "value at 0")];
      ginf = V0[c.choose(4, "value at infinity")];
      p1 = SLOPE[c.choose(3, "slope")];
      MC_OP(c, "set " << g0 << " " << ginf << " " << p1);
      mc::run(g, "set", {mc::Value(g0), mc::Value(ginf), mc::Value(p1)});
      slopeKnown = 1;
      constant = g0 == ginf;
    } else if (op == 2) {
      g0 = V0[c.choose(4, "value at 0")];
      ginf = V0[c.choose(4, "value at infinity")];
      p1 = XREF[c.choose(3, "reference point")];
      p2 = PCT[c.choose(3, "percentage")];
      MC_OP(c, "setByPoint " << g0 << " " << ginf << " " << p1 << " " << p2);
      mc::run(g, "setByPoint", {mc::Value(g0), mc::Value(ginf), mc::Value(p1), mc::Value(p2)});
      slopeKnown = 2;
      constant = g0 == ginf;
    } else if (op == 3) {
      MC_OP(c, "default");
      g.init();
      g0 = ginf = 0.1;
      constant = true;
    } else {
      MC_OP(c, "forceConstant");
      g.forceConstant();
      g0 = ginf;
      constant = true;
    }
    if (slopeKnown == 1 && !constant && g0 < ginf) {
      // a gain that grows with the error: the slope is positive
    }
    // at 0 and far away
    double at0 = read(g, t, Vector::Zero(1 + k % 3));
    MC_EXPECT(c, mc::near(at0, g0), "zero", "gain at 0 is " << at0 << " instead of " << g0);
    double a = g0 - ginf, b = constant ? 0 : slopeKnown == 1 ? p1 / a : -std::log(p2) / p1;
    double last = at0;
    for (int i = 0; i < 6; ++i) {
      static const double R[] = {1e-3, 0.02, 0.5, 1, 3, 10};
      double got = read(g, t, ofNorm(R[i], DIM[(i + k) % 4], i % 2));
      double want = constant ? ginf : a * std::exp(-b * R[i]) + ginf;
      MC_EXPECT(c, mc::near(got, want), "law", "gain at " << R[i] << " is " << got << " instead of " << want);
      if (!constant && slopeKnown == 2) {
        double lo = std::min(g0, ginf), hi = std::max(g0, ginf);
        MC_EXPECT(c, got >= lo - 1e-9 && got <= hi + 1e-9 && (g0 > ginf ? got <= last + 1e-12 : got >= last - 1e-12),
                  "monotone", "gain at " << R[i] << " is " << got);
      }
      last = got;
    }
    if (!constant && slopeKnown == 2) {
      double got = read(g, t, ofNorm(p1, 2, 0)), want = ginf + p2 * (g0 - ginf);
      MC_EXPECT(c, mc::near(got, want), "point", "gain at the passing point is " << got << " instead of " << want);
      got = read(g, t, ofNorm(p1 * 400, 1, 0));
      MC_EXPECT(c, mc::near(got, ginf, 1e-8), "infinity", "gain far away is " << got << " instead of " << ginf);
    }
    if (!constant && slopeKnown == 1 && p1 < 40) {
      // tangent at 0
      double h = 1e-6, s = (read(g, t, ofNorm(h, 1, 0)) - at0) / h;
      MC_EXPECT(c, std::fabs(s + p1) < 1e-3 * (1 + p1 * std::fabs(b)), "slope", "slope at 0 is " << s << " instead of " << -p1);
      if (g0 > ginf) {
        double got = read(g, t, ofNorm(40 * (g0 - ginf) / p1, 1, 0));
        MC_EXPECT(c, mc::near(got, ginf, 1e-8), "infinity", "gain far away is " << got << " instead of " << ginf);
      }
    }
    c.observe((uint64_t)(at0 * 1000) * 31 + (uint64_t)(last * 1000));
  }
}

static void hyperbolic(mc::Ctx &c, int depth) {
  static const double DECAL[] = {0, 0.3, 2};
  int ctor = c.choose(3, "constructor");
  double g0 = V0[c.choose(4, "value at 0")], ginf = V0[c.choose(4, "value at infinity")], tn = SLOPE[c.choose(3, "slope")],
         d = DECAL[c.choose(3, "shift")];
  GainHyperbolic *pg;
  if (ctor == 0) {
    pg = new GainHyperbolic(mc::uniq("gain"));
    pg->init(g0, ginf, tn, d);
  } else if (ctor == 1) {
    pg = new GainHyperbolic(mc::uniq("gain"), g0);
    ginf = g0;
  } else
    pg = new GainHyperbolic(mc::uniq("gain"), g0, ginf, tn, d);
  GainHyperbolic &g = *pg;
  int t = 0;
  for (int k = 0; k < depth; ++k) {
    MC_OP(c, "gains " << g0 << " " << ginf << " slope " << tn << " shift " << d);
    double a = g0 - ginf, b = a == 0 ? 0 : tn / a / 2;
    double last = 0;
    for (int i = 0; i < 7; ++i) {
      static const double R[] = {0, 1e-3, 0.02, 0.5, 1, 3, 10};
      double got = read(g, t, ofNorm(R[i], DIM[(i + k) % 4], i % 2));
      double want = a * (std::tanh(-b * (R[i] - d)) + 1) / 2 + ginf;
      MC_EXPECT(c, mc::near(got, want), "law", "gain at " << R[i] << " is " << got << " instead of " << want);
      if (i && a > 0) MC_EXPECT(c, got <= last + 1e-12, "monotone", "gain increases at " << R[i]);
      last = got;
    }
    if (a > 0) {
      double got = read(g, t, ofNorm(d + 40 * a / tn, 1, 0));
      MC_EXPECT(c, mc::near(got, ginf, 1e-8), "infinity", "gain far away is " << got << " instead of " << ginf);
    }
    c.observe((uint64_t)(last * 1000));
    if (k + 1 == depth) break;
    int op = c.choose(4, "command");
    if (op == 0) {
      g.forceConstant();
      g0 = ginf;
    } else if (op == 1) {
      g.init();
      g0 = ginf = 0.1;
      d = 0;
    } else if (op == 2) {
      g.init(3);
      g0 = ginf = 3;
      d = 0;
    } else {
      g0 = 7;
      ginf = V0[c.choose(4, "value at infinity")];
      tn = SLOPE[c.choose(3, "slope")];
      d = DECAL[c.choose(3, "shift")];
      g.init(g0, ginf, tn, d);
    }
  }
  delete pg;
}

int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"adaptive", [](mc::Ctx &c) { adaptive(c, c.thorough ? 3 : 2); },
               "every sequence of 2 (thorough: 3) commands over grids of values, slopes and passing points, errors of 9 norms and 1 to 6 components", 3});
  S.push_back({"hyperbolic", [](mc::Ctx &c) { hyperbolic(c, c.thorough ? 4 : 2); },
               "every constructor and sequence of 2 (thorough: 4) settings over grids of values, slopes and shifts", 4});
  return mc::main(argc, argv, "C14", S);
}
