// white-box helpers: nlcglib matrices on top of padded storage with canaries
#pragma once
#include <Kokkos_Core.hpp>
#include "la/dvector.hpp"
#include "la/lapack.hpp"
#include "la/mvector.hpp"
#include "la/utils.hpp"
#include "la.hpp"
#include "pbt.hpp"

namespace wb {
using namespace nlcglib;
using la::cd;
using la::Mat;
using kc = Kokkos::complex<double>;
using zmat = KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutLeft, Kokkos::HostSpace>;
using zview = KokkosDVector<kc**, SlabLayoutV, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>;
using vec = Kokkos::View<double*, Kokkos::HostSpace>;
static const double CAN = -7.25e137;

inline kc
k(cd x)
{
  return kc(x.real(), x.imag());
}

/// m x n matrix inside a larger column-major array filled with canaries
struct Z
{
  using full_t = Kokkos::View<kc**, Kokkos::LayoutLeft, Kokkos::HostSpace>;
  full_t full;
  int m, n, r0, c0;
  std::vector<kc> shadow;

  Z(int m, int n, int r0 = 0, int rpad = 0, int c0 = 0, int cpad = 0)
      : full("backing", m + r0 + rpad, n + c0 + cpad)
      , m(m)
      , n(n)
      , r0(r0)
      , c0(c0)
  {
    for (size_t j = 0; j < full.extent(1); ++j)
      for (size_t i = 0; i < full.extent(0); ++i) full(i, j) = kc(CAN, CAN);
  }
  kc& operator()(int i, int j) const { return full(r0 + i, c0 + j); }
  void put(const Mat& A)
  {
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) (*this)(i, j) = k(A(i, j));
    remember();
  }
  Mat get() const
  {
    Mat A(m, n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) A(i, j) = cd((*this)(i, j).real(), (*this)(i, j).imag());
    return A;
  }
  void remember() { shadow.assign(full.data(), full.data() + full.span()); }
  /// nothing outside the matrix was written
  bool padding_ok() const
  {
    for (int j = 0; j < (int)full.extent(1); ++j)
      for (int i = 0; i < (int)full.extent(0); ++i) {
        if (i >= r0 && i < r0 + m && j >= c0 && j < c0 + n) continue;
        if (full(i, j).real() != CAN || full(i, j).imag() != CAN) return false;
      }
    return true;
  }
  /// nothing at all was written
  bool untouched() const { return memcmp(shadow.data(), full.data(), shadow.size() * sizeof(kc)) == 0; }

  Map<> map() const { return Map<>(Communicator(), SlabLayoutV({{0, 0, m, n}})); }
  template <class M>
  M as() const;
};
template <>
inline zmat
Z::as<zmat>() const
{
  full_t sub = Kokkos::subview(full, std::make_pair(r0, r0 + m), std::make_pair(c0, c0 + n));
  return zmat(map(), sub);
}
template <>
inline zview
Z::as<zview>() const
{
  int ld = full.stride(1);
  buffer_protocol<std::complex<double>, 2> b({1, ld}, {m, n}, (std::complex<double>*)&(*this)(0, 0), memory_type::host);
  return zview(map(), b);
}

inline Z
gen_z(pbt::Gen& g, int m, int n)
{
  bool pad = g.boolean();
  if (!pad) return Z(m, n);
  int r0 = g.integer(0, 3), rp = g.integer(0, 4), c0 = g.integer(0, 2), cp = g.integer(0, 2);
  return Z(m, n, r0, rp, c0, cp);
}

template <class M>
Mat
to_mat(const M& A)
{
  auto a = A.array();
  Mat R(a.extent(0), a.extent(1));
  for (int j = 0; j < R.n; ++j)
    for (int i = 0; i < R.m; ++i) {
      kc x = a(i, j);
      R(i, j) = cd(x.real(), x.imag());
    }
  return R;
}
inline vec
to_vec(const std::vector<double>& v)
{
  vec r("v", v.size());
  for (size_t i = 0; i < v.size(); ++i) r(i) = v[i];
  return r;
}
/// |A| elementwise
inline Mat
absm(const Mat& A)
{
  Mat R = A;
  for (auto& x : R.a) x = std::abs(x);
  return R;
}
/// elementwise |A-B| <= f * bound, NaN fails
inline void
close(pbt::Gen& g, const std::string& what, const Mat& A, const Mat& B, const Mat& bound, double f)
{
  pbt::require(A.m == B.m && A.n == B.n, what + ": shape " + std::to_string(A.m) + "x" + std::to_string(A.n) + " instead of " +
                                             std::to_string(B.m) + "x" + std::to_string(B.n));
  for (int j = 0; j < A.n; ++j)
    for (int i = 0; i < A.m; ++i) {
      double d = std::abs(A(i, j) - B(i, j)), t = f * std::abs(bound(i, j)) + 1e-300;
      g.metric(what, d / t);
      if (!(d <= t))
        throw pbt::Fail(what + ": element (" + std::to_string(i) + "," + std::to_string(j) + ") is " + pbt::fmt(A(i, j).real()) + "," +
                        pbt::fmt(A(i, j).imag()) + " instead of " + pbt::fmt(B(i, j).real()) + "," + pbt::fmt(B(i, j).imag()));
    }
}
inline void
same(const std::string& what, const Mat& A, const Mat& B)
{
  pbt::require(A.m == B.m && A.n == B.n, what + ": shape");
  for (size_t i = 0; i < A.a.size(); ++i) pbt::require(A.a[i] == B.a[i], what + ": values differ");
}
inline Mat
nanm(int m, int n)
{
  Mat A(m, n);
  double q = std::numeric_limits<double>::quiet_NaN();
  for (auto& x : A.a) x = cd(q, q);
  return A;
}
}  // namespace wb
