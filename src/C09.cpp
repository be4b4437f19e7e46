// C09: smearing functions against closed forms (long double) and against each other
#include <Kokkos_Core.hpp>
#include "smearing.hpp"
#include "bbmain.hpp"
#include "smear_ref.hpp"
using namespace pbt;
using nlcglib::smearing_type;

struct Fun
{
  double (*fn)(double, double);
  double (*delta)(double, double);
  double (*dxdelta)(double, double);
  double (*entropy)(double, double);
  std::function<double(int, const Kokkos::View<double*, Kokkos::HostSpace>&, double, double, double)> sum;
};
template <smearing_type S>
static Fun
make()
{
  using s = nlcglib::smearing<S>;
  Fun f;
  f.fn = [](double x, double mo) -> double { return s::fn(x, mo); };
  f.delta = [](double x, double mo) -> double { return s::delta(x, mo); };
  f.dxdelta = [](double x, double mo) -> double { return s::dxdelta(x, mo); };
  f.entropy = [](double x, double mo) -> double { return s::entropy(x, mo); };
  f.sum = [](int w, const Kokkos::View<double*, Kokkos::HostSpace>& e, double mu, double T, double mo) -> double {
    switch (w) {
      case 0: return s::sum_fn(e, mu, T, mo);
      case 1: return s::sum_delta(e, mu, T, mo);
      case 2: return s::sum_dxdelta(e, mu, T, mo);
    }
    return s::sum_entropy(e, mu, T, mo);
  };
  return f;
}
static Fun
get(smearing_type s)
{
  switch (s) {
    case smearing_type::FERMI_DIRAC: return make<smearing_type::FERMI_DIRAC>();
    case smearing_type::GAUSS: return make<smearing_type::GAUSS>();
    case smearing_type::GAUSSIAN_SPLINE: return make<smearing_type::GAUSSIAN_SPLINE>();
    case smearing_type::METHFESSEL_PAXTON: return make<smearing_type::METHFESSEL_PAXTON>();
    default: return make<smearing_type::COLD>();
  }
}

static double
argument(Gen& g)
{
  double x;
  switch (g.weighted({6, 6, 3, 3, 2, 2})) {
    case 0: x = g.real(0, 3); break;
    case 1: x = g.real(0, 12); break;
    case 2: x = g.real(0, 60); break;
    case 3: {  // around the places where an implementation may cut off
      x = g.integer(0, 60);
      int n = g.integer(-2, 2);
      for (int i = 0; i < std::abs(n); ++i) x = std::nextafter(x, n > 0 ? 1e9 : -1e9);
      break;
    }
    case 4: x = g.logreal(1e-300, 1e-2); break;
    default: x = g.logreal(10, 1e150); break;
  }
  return g.boolean() ? -x : x;
}

static const double GLX[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640};
static const double GLW[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891};
template <class F>
static double
integrate(F&& f, double a, double b)
{
  if (a < 0 && b > 0) return integrate(f, a, 0.0) + integrate(f, 0.0, b);
  double s = 0;
  const int N = 4;
  for (int j = 0; j < N; ++j) {
    double l = a + (b - a) * j / N, r = a + (b - a) * (j + 1) / N, c = 0.5 * (l + r), h = 0.5 * (r - l);
    for (int i = 0; i < 5; ++i) s += h * GLW[i] * f(c + h * GLX[i]);
  }
  return s;
}

static void
prop(Gen& g)
{
  auto s = ref::ALL[g.draw(5)];
  Fun f = get(s);
  std::string n = ref::name(s);
  g.label("smearing:" + n);
  double mo = g.pick({1.0, 2.0, 2.0, 0.0});
  if (mo == 0) mo = g.logreal(0.1, 10);
  double x = argument(g);
  g.note("smearing", n);
  g.note("x", x);
  g.note("max occupancy", mo);
  g.nontrivial(std::abs(x) > 1e-3 && std::abs(x) < 40);
  g.label(std::abs(x) > 60 ? "huge" : std::abs(x) > 12 ? "tail" : "core");

  // closed forms
  near_abs(g, n + " occupation", f.fn(x, mo), mo * ref::f(s, x), 1e-13 * mo);
  near_abs(g, n + " delta", f.delta(x, mo), mo * ref::delta(s, x), 1e-13 * mo);
  near_abs(g, n + " derivative of delta", f.dxdelta(x, mo), mo * ref::ddelta(s, x), 2e-13 * mo);
  near_abs(g, n + " entropy", f.entropy(x, mo), mo * ref::entropy(s, x), 2e-13 * mo);
  // range and monotonicity
  if (ref::monotone(s)) {
    double y = argument(g);
    double lo = std::min(x, y), hi = std::max(x, y);
    require(f.fn(x, mo) >= -1e-13 * mo && f.fn(x, mo) <= mo * (1 + 1e-13), n + ": occupation outside [0, max occupancy]");
    require(f.fn(lo, mo) <= f.fn(hi, mo) + 1e-13 * mo, n + ": occupation decreases");
    require(f.entropy(x, mo) >= -1e-13 * mo, n + ": negative entropy");
    require(f.delta(x, mo) >= 0, n + ": negative delta");
  }
  double L = g.logreal(60, 1e150);
  near_abs(g, n + " filled level", f.fn(L, mo), mo, 1e-13 * mo);
  near_abs(g, n + " empty level", f.fn(-L, mo), 0, 1e-13 * mo);
  // mutual consistency, independent of any closed form
  if (std::abs(x) < 60) {
    double h = g.logreal(1e-3, 0.8), b = x + h;
    double tol = 1e-9 * mo * h + 1e-13 * mo;
    near_abs(g, n + " occupation is the integral of delta", f.fn(b, mo) - f.fn(x, mo),
             integrate([&](double t) { return f.delta(t, mo); }, x, b), tol);
    near_abs(g, n + " delta is the integral of its derivative", f.delta(b, mo) - f.delta(x, mo),
             integrate([&](double t) { return f.dxdelta(t, mo); }, x, b), tol);
    near_abs(g, n + " entropy is the integral of -x delta", f.entropy(b, mo) - f.entropy(x, mo),
             integrate([&](double t) { return -t * f.delta(t, mo); }, x, b), tol);
  }
  // sums over levels
  int nl = g.integer(0, 7);
  double T = g.logreal(1, 1e5), kT = ref::KB * T, mu = g.real(-2, 2);
  Kokkos::View<double*, Kokkos::HostSpace> e("levels", nl);
  for (int i = 0; i < nl; ++i) {
    double y = argument(g);
    if (std::abs(y) > 1e6) y = std::copysign(50.0, y);
    e(i) = mu - y * kT;
  }
  int w = g.integer(0, 3);
  long double sum = 0;
  for (int i = 0; i < nl; ++i) {
    long double y = ((long double)mu - e(i)) / kT;
    sum += mo * (w == 0 ? ref::f(s, y) : w == 1 ? ref::delta(s, y) : w == 2 ? ref::ddelta(s, y) : ref::entropy(s, y));
  }
  static const char* W[] = {"sum_fn", "sum_delta", "sum_dxdelta", "sum_entropy"};
  near_abs(g, n + " " + W[w], f.sum(w, e, mu, T, mo), sum, (nl + 1) * 1e-13 * mo);
}
BB_MAIN(prop)
