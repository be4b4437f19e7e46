// Reference definitions of the smearing functions, x = (mu - e)/kT, unit occupancy, long double.
#pragma once
#include <cmath>
#include <vector>
#include "interface.hpp"

namespace ref {
using nlcglib::smearing_type;
using ld = long double;
static const double KB = 3.16681156340226e-6;  // Ha / K
static const ld PI_L = 3.14159265358979323846264338327950288L;

inline const char*
name(smearing_type s)
{
  switch (s) {
    case smearing_type::FERMI_DIRAC: return "FD";
    case smearing_type::GAUSSIAN_SPLINE: return "GSPLINE";
    case smearing_type::GAUSS: return "GAUSS";
    case smearing_type::METHFESSEL_PAXTON: return "MP";
    case smearing_type::COLD: return "COLD";
  }
  return "?";
}
static const smearing_type ALL[5] = {smearing_type::FERMI_DIRAC,
                                     smearing_type::GAUSS,
                                     smearing_type::GAUSSIAN_SPLINE,
                                     smearing_type::METHFESSEL_PAXTON,
                                     smearing_type::COLD};
inline bool
monotone(smearing_type s)
{
  return s != smearing_type::METHFESSEL_PAXTON && s != smearing_type::COLD;
}

inline ld
f(smearing_type s, ld x)
{
  ld r2 = sqrtl(2.0L), rpi = sqrtl(PI_L);
  switch (s) {
    case smearing_type::FERMI_DIRAC: return x >= 0 ? 1 / (1 + expl(-x)) : expl(x) / (1 + expl(x));
    case smearing_type::GAUSS: return 0.5L * erfcl(-x);
    case smearing_type::GAUSSIAN_SPLINE:
      return x <= 0 ? 0.5L * expl(x * (r2 - x)) : 1 - 0.5L * expl(-x * (r2 + x));
    case smearing_type::METHFESSEL_PAXTON: return 0.5L * erfcl(-x) + 0.5L * x * expl(-x * x) / rpi;
    case smearing_type::COLD: {
      ld z = x - 1 / r2;
      return expl(-z * z) / (r2 * rpi) + 0.5L * erfcl(-z);
    }
  }
  return 0;
}
/// df/dx
inline ld
delta(smearing_type s, ld x)
{
  ld r2 = sqrtl(2.0L), rpi = sqrtl(PI_L), a = fabsl(x);
  switch (s) {
    case smearing_type::FERMI_DIRAC: {
      ld e = expl(-a);
      return e / ((1 + e) * (1 + e));
    }
    case smearing_type::GAUSS: return expl(-x * x) / rpi;
    case smearing_type::GAUSSIAN_SPLINE: return 0.5L * (r2 + 2 * a) * expl(-a * (r2 + a));
    case smearing_type::METHFESSEL_PAXTON: return expl(-x * x) * (1.5L - x * x) / rpi;
    case smearing_type::COLD: {
      ld z = x - 1 / r2;
      return expl(-z * z) * (2 - r2 * x) / rpi;
    }
  }
  return 0;
}
/// d2f/dx2
inline ld
ddelta(smearing_type s, ld x)
{
  ld r2 = sqrtl(2.0L), rpi = sqrtl(PI_L), a = fabsl(x);
  switch (s) {
    case smearing_type::FERMI_DIRAC: {
      ld e = expl(-a), d = e / ((1 + e) * (1 + e));
      return -d * (x >= 0 ? 1 : -1) * (1 - e) / (1 + e);
    }
    case smearing_type::GAUSS: return -2 * x * expl(-x * x) / rpi;
    case smearing_type::GAUSSIAN_SPLINE:
      return -(x >= 0 ? 1 : -1) * 2 * a * (r2 + a) * expl(-a * (r2 + a));
    case smearing_type::METHFESSEL_PAXTON: return expl(-x * x) * x * (2 * x * x - 5) / rpi;
    case smearing_type::COLD: {
      ld z = x - 1 / r2;
      return expl(-z * z) * (r2 - 6 * x + 2 * r2 * x * x) / rpi;
    }
  }
  return 0;
}
/// entropy s(x), s' = -x delta, s(+-inf)=0
inline ld
entropy(smearing_type s, ld x)
{
  ld r2 = sqrtl(2.0L), rpi = sqrtl(PI_L), a = fabsl(x);
  switch (s) {
    case smearing_type::FERMI_DIRAC: {
      ld e = expl(-a);
      return log1pl(e) + a * e / (1 + e);
    }
    case smearing_type::GAUSS: return expl(-x * x) / (2 * rpi);
    case smearing_type::GAUSSIAN_SPLINE:
      return 0.25L * (2 * a * expl(-a * (r2 + a)) + expl(0.5L) * rpi * erfcl(1 / r2 + a));
    case smearing_type::METHFESSEL_PAXTON: return expl(-x * x) * (1 - 2 * x * x) / (4 * rpi);
    case smearing_type::COLD: {
      ld z = x - 1 / r2;
      return expl(-z * z) * (1 - r2 * x) / (2 * rpi);
    }
  }
  return 0;
}

/// electrons at mu; levels e[k][i], weights w[k]
inline ld
count(smearing_type s, const std::vector<std::vector<double>>& e, const std::vector<double>& w, ld mu, ld kT, ld occ)
{
  ld N = 0;
  for (size_t k = 0; k < e.size(); ++k)
    for (double x : e[k]) N += w[k] * occ * f(s, (mu - x) / kT);
  return N;
}
/// bisection on a monotone smearing (oracle only)
inline ld
find_mu(smearing_type s, const std::vector<std::vector<double>>& e, const std::vector<double>& w, ld Ne, ld kT, ld occ)
{
  ld lo = 1e30L, hi = -1e30L;
  for (auto& v : e)
    for (double x : v) {
      if (x < lo) lo = x;
      if (x > hi) hi = x;
    }
  lo -= 100 * kT;
  hi += 100 * kT;
  for (int i = 0; i < 200; ++i) {
    ld m = 0.5L * (lo + hi);
    if (count(s, e, w, m, kT, occ) < Ne)
      lo = m;
    else
      hi = m;
  }
  return 0.5L * (lo + hi);
}
}  // namespace ref
