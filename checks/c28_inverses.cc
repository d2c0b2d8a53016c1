// C28: pseudo-inverses and damped inverses of every matrix of a grid.
#include <sot/core/matrix-svd.hh>

#include <Eigen/Eigenvalues>

#include "inputs.hh"
typedef Eigen::MatrixXd MX;
static double norm2(const MX &m) { return m.size() ? std::sqrt(std::max(0., Eigen::SelfAdjointEigenSolver<MX>(m.transpose() * m).eigenvalues().maxCoeff())) : 0; }
static MX grid(mc::Ctx &c, const std::vector<double> &vals) {
  static const int shapes[][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}};
  int s = c.choose(9, "shape"), n = s == 8 && !c.thorough ? 3 : (int)vals.size();
  MX m(shapes[s][0], shapes[s][1]);
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) m(i, j) = vals[(size_t)c.choose(n, "entry")];
  return m;
}
static bool sym(const MX &m) { return mc::near(m, MX(m.transpose()), 1e-8); }
static void pseudo(mc::Ctx &c) {
  static const double thresholds[] = {1e-6, 0.55, 1.3, 2.3};
  int k = c.choose(4, "threshold");
  double thr = thresholds[k];
  MX A = grid(c, {0, 1, -1, 2});
  static const double scales[] = {1, 100, 0.01};
  double s = scales[c.choose(k ? 1 : 3, "scale")];
  A *= s;
  MX X, in = A, back;
  MC_OP(c, "inverse of " << mc::show(A) << " cut at " << thr);
  if (k)
    pseudoInverse(in, X, thr);
  else
    pseudoInverse(in, X);
  MC_EXPECT(c, mc::near(in, A, 0), "input", "the matrix is changed to " << mc::show(in));
  MC_EXPECT(c, X.rows() == A.cols() && X.cols() == A.rows(), "size", "the inverse is of " << X.rows() << " by " << X.cols());
  MX P = A * X, Q = X * A, B = P * A;
  double e = 1e-8;
  MC_EXPECT(c, sym(P) && sym(Q), "projections", "A X or X A is not symmetric: X is " << mc::show(X));
  MC_EXPECT(c, mc::near(MX(X * P), X, e / s), "reflexive", "X A X is not X: X is " << mc::show(X));
  MC_EXPECT(c, norm2(A - B) <= thr + e, "cut", "directions of A of gain " << norm2(A - B) << " are not inverted");
  MC_EXPECT(c, norm2(X) < 1 / thr, "bound", "the inverse amplifies by " << norm2(X));
  MX S = A * A.transpose() * P / (s * s);
  MC_EXPECT(c, sym(S), "directions", "the directions inverted are not those of A: X is " << mc::show(X));
  if (!k) MC_EXPECT(c, mc::near(B, A, e * s), "inverse", "A X A is not A: X is " << mc::show(X));
  c.observe(mc::hmat(X, (uint64_t)k));
}
static void damped(mc::Ctx &c) {
  static const double dampings[] = {1e-6, 0.1, 1, 20};
  int k = c.choose(4, "damping"), w = c.choose(k ? 2 : 3, "overload");
  double l = dampings[k];
  MX A = grid(c, {0, 1, -1, 2}), X, U, V;
  Vector S;
  MC_OP(c, "inverse of " << mc::show(A) << " damped by " << l << ", overload " << w);
  if (w == 0) dampedInverse(A, X, l);
  if (w == 1) dampedInverse(A, X, U, S, V, l);
  if (w == 2) dampedInverse(A, X);  // a small damping
  MC_EXPECT(c, X.rows() == A.cols() && X.cols() == A.rows(), "size", "the inverse is of " << X.rows() << " by " << X.cols());
  // the minimum of |A x - b|^2 + l^2 |x|^2 for every b
  MX left = (A.transpose() * A) * X + l * l * X;
  MC_EXPECT(c, mc::near(left, MX(A.transpose()), 1e-7), "law", "X is " << mc::show(X));
  MC_EXPECT(c, norm2(X) <= 1 / (2 * l) * (1 + 1e-9), "bound", "the inverse amplifies by " << norm2(X));
  if (w == 1) {
    int m = (int)std::min(A.rows(), A.cols());
    MC_EXPECT(c, S.size() == m && U.rows() == A.rows() && V.rows() == A.cols() && U.cols() >= m && V.cols() >= m, "factors", "factors of wrong sizes");
    MX I = MX::Identity(m, m), u = U.leftCols(m), v = V.leftCols(m);
    MC_EXPECT(c, mc::near(MX(u.transpose() * u), I, 1e-8) && mc::near(MX(v.transpose() * v), I, 1e-8), "factors", "the factors are not orthonormal");
    for (int i = 0; i < m; ++i) MC_EXPECT(c, S(i) >= 0 && (!i || S(i) <= S(i - 1)), "factors", "singular values are " << mc::show(S));
    MC_EXPECT(c, mc::near(MX(u * S.asDiagonal() * v.transpose()), A, 1e-8), "factors", "the factors do not give the matrix");
  }
  c.observe(mc::hmat(X, (uint64_t)k));
}
// the same object gives inverses of matrices of several shapes one after the other
static void again(mc::Ctx &c) {
  std::vector<MX> M = {MX::Zero(2, 3), MX::Identity(3, 3), MX::Constant(1, 2, 3), MX::Constant(4, 2, -1), MX::Zero(6, 6)};
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 6; ++j) M[4](i, j) = i == j ? 2 : std::sin(1. + i + 7 * j);
  M[3](0, 0) = 2;
  MX X, U, V;
  Vector S;
  int n = c.thorough ? 5 : 4;
  for (int k = 0; k < n; ++k) {
    MX A = M[(size_t)c.choose(5, "matrix")];
    int w = c.choose(3, "function");
    c.step();
    double l = 0.2;
    if (w == 0) pseudoInverse(A, X);
    if (w == 1) dampedInverse(A, X, l);
    if (w == 2) dampedInverse(A, X, U, S, V, l);
    MX left = w ? MX((A.transpose() * A) * X + l * l * X) : MX((A.transpose() * A) * X);
    MC_EXPECT(c, mc::near(left, MX(A.transpose()), 1e-7), "law", "inverse " << w << " of " << mc::show(A) << " is " << mc::show(X));
    if (w == 2) MC_EXPECT(c, mc::near(MX(U.leftCols(S.size()) * S.asDiagonal() * V.leftCols(S.size()).transpose()), A, 1e-8), "factors", "the factors do not give " << mc::show(A));
    c.observe(mc::hmat(X, (uint64_t)w));
  }
}
int main(int argc, char **argv) {
  std::vector<mc::Suite> S;
  S.push_back({"pseudo", pseudo, "all matrices up to 3x3 of entries in {0, 1, -1, 2} (quick: {0, 1, -1} in 3x3), 4 thresholds, 3 scales", 4});
  S.push_back({"damped", damped, "all matrices up to 3x3 of entries in {0, 1, -1, 2} (quick: {0, 1, -1} in 3x3), 4 dampings, 3 overloads", 4});
  S.push_back({"again", again, "sequences of 4 (thorough 5) inverses of 5 matrices in the same objects", 2});
  return mc::main(argc, argv, "C28", S);
}
