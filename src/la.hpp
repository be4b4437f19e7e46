// Naive dense complex linear algebra used only by oracles (independent of BLAS/LAPACK).
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <vector>

namespace la {
using cd = std::complex<double>;

struct Mat
{
  int m{0}, n{0};
  std::vector<cd> a;
  Mat() = default;
  Mat(int m, int n)
      : m(m)
      , n(n)
      , a((size_t)m * n)
  {
  }
  cd& operator()(int i, int j) { return a[(size_t)j * m + i]; }
  const cd& operator()(int i, int j) const { return a[(size_t)j * m + i]; }
};

inline Mat
eye(int n)
{
  Mat r(n, n);
  for (int i = 0; i < n; ++i) r(i, i) = 1;
  return r;
}
inline Mat
operator*(const Mat& A, const Mat& B)
{
  Mat C(A.m, B.n);
  for (int j = 0; j < B.n; ++j)
    for (int k = 0; k < A.n; ++k) {
      double br = B(k, j).real(), bi = B(k, j).imag();
      const cd* ap = &A.a[(size_t)k * A.m];
      cd* cp = &C.a[(size_t)j * A.m];
      for (int i = 0; i < A.m; ++i) {
        double ar = ap[i].real(), ai = ap[i].imag();
        cp[i] = cd(cp[i].real() + ar * br - ai * bi, cp[i].imag() + ar * bi + ai * br);
      }
    }
  return C;
}
inline Mat
adj(const Mat& A)
{
  Mat C(A.n, A.m);
  for (int i = 0; i < A.m; ++i)
    for (int j = 0; j < A.n; ++j) C(j, i) = std::conj(A(i, j));
  return C;
}
inline Mat
operator+(const Mat& A, const Mat& B)
{
  Mat C = A;
  for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += B.a[i];
  return C;
}
inline Mat
operator-(const Mat& A, const Mat& B)
{
  Mat C = A;
  for (size_t i = 0; i < C.a.size(); ++i) C.a[i] -= B.a[i];
  return C;
}
inline Mat
operator*(cd s, const Mat& A)
{
  Mat C = A;
  for (auto& x : C.a) x *= s;
  return C;
}
inline Mat
operator*(double s, const Mat& A)
{
  return cd(s) * A;
}
/// columns scaled
inline Mat
colscale(const Mat& A, const std::vector<double>& d)
{
  Mat C = A;
  for (int j = 0; j < A.n; ++j)
    for (int i = 0; i < A.m; ++i) C(i, j) *= d[j];
  return C;
}
/// Re sum conj(A) .* B
inline double
redot(const Mat& A, const Mat& B)
{
  double s = 0;
  for (size_t i = 0; i < A.a.size(); ++i)
    s += A.a[i].real() * B.a[i].real() + A.a[i].imag() * B.a[i].imag();
  return s;
}
inline double
maxabs(const Mat& A)
{
  double r = 0;
  for (auto& x : A.a) {
    double v = std::abs(x);
    if (!(v <= r)) r = v;
  }
  return r;
}
inline Mat
diagm(const std::vector<double>& d)
{
  int n = d.size();
  Mat r(n, n);
  for (int i = 0; i < n; ++i) r(i, i) = d[i];
  return r;
}

/// cyclic complex Jacobi, eigenvalues ascending
inline void
eigh(const Mat& Ain, std::vector<double>& w, Mat& V)
{
  int n = Ain.n;
  Mat A = Ain;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j) {
      cd h = 0.5 * (A(i, j) + std::conj(A(j, i)));
      A(i, j) = h;
      A(j, i) = std::conj(h);
    }
  V = eye(n);
  double nrm = 0;
  for (auto& x : A.a) nrm += std::norm(x);
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < i; ++j) off += std::norm(A(i, j));
    if (!(off > 1e-34 * nrm)) break;
    for (int p = 0; p < n; ++p)
      for (int q = p + 1; q < n; ++q) {
        cd apq = A(p, q);
        double b = std::abs(apq);
        if (!(b > 1e-20 * std::sqrt(nrm))) continue;
        double app = A(p, p).real(), aqq = A(q, q).real();
        cd ph = apq / b;
        double th = (aqq - app) / (2 * b);
        double t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1));
        double c = 1 / std::sqrt(t * t + 1), s = t * c;
        // columns: p' = c p - s conj(ph) q ; q' = s ph p + c q
        for (int k = 0; k < n; ++k) {
          cd x = A(k, p), y = A(k, q);
          A(k, p) = c * x - s * std::conj(ph) * y;
          A(k, q) = s * ph * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          cd x = A(p, k), y = A(q, k);
          A(p, k) = c * x - s * ph * y;
          A(q, k) = s * std::conj(ph) * x + c * y;
        }
        for (int k = 0; k < n; ++k) {
          cd x = V(k, p), y = V(k, q);
          V(k, p) = c * x - s * std::conj(ph) * y;
          V(k, q) = s * ph * x + c * y;
        }
      }
  }
  std::vector<int> idx(n);
  for (int i = 0; i < n; ++i) idx[i] = i;
  std::sort(idx.begin(), idx.end(), [&](int i, int j) { return A(i, i).real() < A(j, j).real(); });
  w.resize(n);
  Mat W(n, n);
  for (int j = 0; j < n; ++j) {
    w[j] = A(idx[j], idx[j]).real();
    for (int i = 0; i < n; ++i) W(i, j) = V(i, idx[j]);
  }
  V = W;
}
/// A^p for Hermitian positive A
inline Mat
powm(const Mat& A, double p)
{
  std::vector<double> w;
  Mat V;
  eigh(A, w, V);
  for (auto& x : w) x = std::pow(x, p);
  return colscale(V, w) * adj(V);
}
/// solve A x = b, A Hermitian pos. def. (via Cholesky)
inline Mat
solve_pd(const Mat& A, const Mat& B)
{
  int n = A.n;
  Mat L(n, n);
  for (int j = 0; j < n; ++j) {
    double d = A(j, j).real();
    for (int k = 0; k < j; ++k) d -= std::norm(L(j, k));
    double l = std::sqrt(d);
    L(j, j) = l;
    for (int i = j + 1; i < n; ++i) {
      cd s = A(i, j);
      for (int k = 0; k < j; ++k) s -= L(i, k) * std::conj(L(j, k));
      L(i, j) = s / l;
    }
  }
  Mat X = B;
  for (int c = 0; c < B.n; ++c) {
    for (int i = 0; i < n; ++i) {
      cd s = X(i, c);
      for (int k = 0; k < i; ++k) s -= L(i, k) * X(k, c);
      X(i, c) = s / L(i, i);
    }
    for (int i = n - 1; i >= 0; --i) {
      cd s = X(i, c);
      for (int k = i + 1; k < n; ++k) s -= std::conj(L(k, i)) * X(k, c);
      X(i, c) = s / L(i, i);
    }
  }
  return X;
}
/// generalised H v = e S v; V^H S V = 1
inline void
geigh(const Mat& H, const Mat& S, std::vector<double>& w, Mat& V)
{
  Mat Si = powm(S, -0.5);
  Mat U;
  eigh(Si * H * Si, w, U);
  V = Si * U;
}
/// Loewdin: X (X^H S X)^{-1/2}
inline Mat
loewdin(const Mat& X, const Mat& S)
{
  return X * powm(adj(X) * (S * X), -0.5);
}

template <class R>
Mat
randn(R& r, int m, int n)
{
  Mat A(m, n);
  for (auto& x : A.a) {
    double a = r.normal(), b = r.normal();
    x = cd(a, b);
  }
  return A;
}
template <class R>
Mat
rand_unitary(R& r, int n)
{
  Mat A = randn(r, n, n);
  // Gram-Schmidt twice
  for (int j = 0; j < n; ++j)
    for (int rep = 0; rep < 2; ++rep) {
      for (int k = 0; k < j; ++k) {
        cd d = 0;
        for (int i = 0; i < n; ++i) d += std::conj(A(i, k)) * A(i, j);
        for (int i = 0; i < n; ++i) A(i, j) -= d * A(i, k);
      }
      double s = 0;
      for (int i = 0; i < n; ++i) s += std::norm(A(i, j));
      s = 1 / std::sqrt(s);
      for (int i = 0; i < n; ++i) A(i, j) *= s;
    }
  return A;
}
/// Hermitian with given spectrum
template <class R>
Mat
rand_herm(R& r, const std::vector<double>& ev)
{
  Mat U = rand_unitary(r, ev.size());
  return colscale(U, ev) * adj(U);
}
}  // namespace la
