// Radial basis functions and dense linear algebra of the oracle (independent of the code under test).
#pragma once
#include "map.hpp"

namespace rbf {
typedef std::vector<std::vector<double>> Mat;

enum Kind { TPS, MQ, IMQ, VOL, GAUSS, CTPS, C0, C2, C4, C6, C8 };
struct Basis {
  Kind   k;
  double par     = 0; // shape parameter or support radius
  bool   support = false; // gaussian: par is the support radius
  std::string xml() const
  {
    static const char *names[] = {"thin-plate-splines", "multiquadrics", "inverse-multiquadrics", "volume-splines", "gaussian", "compact-tps-c2", "compact-polynomial-c0", "compact-polynomial-c2", "compact-polynomial-c4", "compact-polynomial-c6", "compact-polynomial-c8"};
    std::string        s      = std::string("<basis-function:") + names[k];
    if (k == MQ || k == IMQ || (k == GAUSS && !support))
      s += " shape-parameter=\"" + h::num(par) + "\"";
    else if (k >= GAUSS)
      s += " support-radius=\"" + h::num(par) + "\"";
    return s + "/>";
  }
  bool definite() const { return k == IMQ || k >= GAUSS; }
  double operator()(double r) const
  {
    double p = r / par;
    auto   e = [](double b, int n) {
      double x = 1;
      while (n--)
        x *= b;
      return x;
    };
    switch (k) {
    case TPS:
      return r < 1e-12 ? 0 : r * r * std::log(r);
    case MQ:
      return std::sqrt(par * par + r * r);
    case IMQ:
      return 1 / std::sqrt(par * par + r * r);
    case VOL:
      return r;
    case GAUSS: {
      // decays to 1e-9 at the cut-off; the shifted variant vanishes at the given support radius
      double s = support ? std::sqrt(-std::log(1e-9)) / par : par;
      double R = std::sqrt(-std::log(1e-9)) / s;
      if (r > R + 1e-12)
        return 0;
      return std::exp(-s * s * r * r) - (support ? 1e-9 : 0);
    }
    default:
      break;
    }
    if (p >= 1)
      return 0;
    switch (k) {
    case CTPS:
      return 1 - 30 * p * p - 10 * p * p * p + 45 * e(p, 4) - 6 * e(p, 5) - (p < 1e-12 ? 0 : 60 * p * p * p * std::log(p));
    case C0:
      return e(1 - p, 2);
    case C2:
      return e(1 - p, 4) * (4 * p + 1);
    case C4:
      return e(1 - p, 6) * (35 * p * p + 18 * p + 3);
    case C6:
      return e(1 - p, 8) * (32 * p * p * p + 25 * p * p + 8 * p + 1);
    default:
      return e(1 - p, 10) * (1287 * e(p, 4) + 1350 * e(p, 3) + 630 * p * p + 150 * p + 15);
    }
  }
};

// solves A X = B, Gaussian elimination with row pivoting; false if singular
inline bool solve(Mat A, Mat B, Mat &X)
{
  size_t n = A.size();
  for (size_t c = 0; c < n; ++c) {
    size_t p = c;
    for (size_t i = c + 1; i < n; ++i)
      if (std::fabs(A[i][c]) > std::fabs(A[p][c]))
        p = i;
    if (std::fabs(A[p][c]) < 1e-10)
      return false;
    std::swap(A[p], A[c]);
    std::swap(B[p], B[c]);
    for (size_t i = 0; i < n; ++i)
      if (i != c && A[i][c] != 0) {
        double f = A[i][c] / A[c][c];
        for (size_t j = c; j < n; ++j)
          A[i][j] -= f * A[c][j];
        for (size_t j = 0; j < B[i].size(); ++j)
          B[i][j] -= f * B[c][j];
      }
  }
  X = B;
  for (size_t i = 0; i < n; ++i)
    for (auto &x : X[i])
      x /= A[i][i];
  return true;
}
inline Mat mul(const Mat &A, const Mat &B)
{
  Mat C(A.size(), std::vector<double>(B[0].size(), 0.0));
  for (size_t i = 0; i < A.size(); ++i)
    for (size_t k = 0; k < B.size(); ++k)
      for (size_t j = 0; j < B[0].size(); ++j)
        C[i][j] += A[i][k] * B[k][j];
  return C;
}
inline Mat transpose(const Mat &A)
{
  Mat T(A[0].size(), std::vector<double>(A.size()));
  for (size_t i = 0; i < A.size(); ++i)
    for (size_t j = 0; j < A[0].size(); ++j)
      T[j][i] = A[i][j];
  return T;
}
inline Mat identity(size_t n)
{
  Mat I(n, std::vector<double>(n, 0.0));
  for (size_t i = 0; i < n; ++i)
    I[i][i] = 1;
  return I;
}

enum Poly { OFF, SEPARATE, ON };
inline const char *polyName(Poly p) { return p == OFF ? "off" : p == ON ? "on" : "separate"; }

// the matrix of the interpolation operator from values at `in` to values at `out`; dead: ignored axes (distances and polynomial)
inline bool operatorMatrix(const Basis &phi, Poly poly, const maps::Points &in, const maps::Points &out, std::vector<bool> dead, Mat &W)
{
  size_t n = in.size(), dims = in[0].size();
  auto   dist = [&](const std::vector<double> &a, const std::vector<double> &b) {
    double d = 0;
    for (size_t k = 0; k < dims; ++k)
      if (!dead[k])
        d += (a[k] - b[k]) * (a[k] - b[k]);
    return std::sqrt(d);
  };
  Mat C(n, std::vector<double>(n)), A(out.size(), std::vector<double>(n));
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      C[i][j] = phi(dist(in[i], in[j]));
  for (size_t i = 0; i < out.size(); ++i)
    for (size_t j = 0; j < n; ++j)
      A[i][j] = phi(dist(out[i], in[j]));
  auto monomials = [&](const std::vector<double> &x, const std::vector<bool> &skip) {
    std::vector<double> m{1.0};
    for (size_t k = 0; k < dims; ++k)
      if (!skip[k])
        m.push_back(x[k]);
    return m;
  };
  Mat I = identity(n), X;
  if (poly == OFF) {
    if (!solve(C, I, X))
      return false;
    W = mul(A, X);
    return true;
  }
  if (poly == ON) {
    size_t m = monomials(in[0], dead).size();
    for (size_t i = 0; i < n; ++i) {
      auto q = monomials(in[i], dead);
      C[i].insert(C[i].end(), q.begin(), q.end());
    }
    for (size_t k = 0; k < m; ++k) {
      std::vector<double> row(n + m, 0.0);
      for (size_t i = 0; i < n; ++i)
        row[i] = C[i][n + k];
      C.push_back(row);
    }
    Mat B = I;
    B.resize(n + m, std::vector<double>(n, 0.0));
    if (!solve(C, B, X))
      return false;
    for (size_t i = 0; i < out.size(); ++i) {
      auto q = monomials(out[i], dead);
      A[i].insert(A[i].end(), q.begin(), q.end());
    }
    W = mul(A, X);
    return true;
  }
  // separate: least-squares fit of a linear polynomial in the axes the input spans, basis functions interpolate the rest
  std::vector<bool> skip = dead;
  Mat               P; // monomial coefficients of the fit
  Mat               Q, V;
  for (;;) {
    Q.clear();
    for (auto &x : in)
      Q.push_back(monomials(x, skip));
    Mat QtQ = mul(transpose(Q), Q);
    if (solve(QtQ, transpose(Q), P))
      break;
    int    k = -1;
    double best = 1e300;
    for (size_t d = 0; d < dims; ++d)
      if (!skip[d]) {
        double lo = 1e300, hi = -1e300;
        for (auto &x : in) {
          lo = std::min(lo, x[d]);
          hi = std::max(hi, x[d]);
        }
        if (hi - lo < best) {
          best = hi - lo;
          k    = d;
        }
      }
    skip[k] = true;
  }
  for (auto &x : out)
    V.push_back(monomials(x, skip));
  Mat rest = mul(Q, P);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      rest[i][j] = (i == j ? 1.0 : 0.0) - rest[i][j];
  if (!solve(C, rest, X))
    return false;
  W       = mul(A, X);
  Mat fit = mul(V, P);
  for (size_t i = 0; i < W.size(); ++i)
    for (size_t j = 0; j < n; ++j)
      W[i][j] += fit[i][j];
  return true;
}
} // namespace rbf
