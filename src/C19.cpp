// C19: Teter preconditioner
#include "bbmain.hpp"
#include "wb.hpp"
#include "preconditioner.hpp"
#include "model.hpp"
using namespace pbt;
using namespace wb;

static double
teter(long double t)
{
  long double p = 27 + 18 * t + 12 * t * t + 8 * t * t * t;
  return (double)(p / (p + 16 * t * t * t * t));
}

static void
prop(Gen& g)
{
  int nk = g.integer(1, 5);
  std::vector<std::vector<double>> ekin(nk);
  std::vector<std::pair<int, int>> keys;
  auto perm = g.permutation(nk);
  for (int i = 0; i < nk; ++i) {
    keys.push_back({perm[i] * g.pick({1, 1, 3}), g.integer(0, 1)});
    for (int j = 0; j < i; ++j)
      if (keys[j] == keys[i]) keys[i].first += 100 + i;
    int n = g.integer(1, 12);
    auto st = g.stream();
    int kind = g.integer(0, 2);
    for (int j = 0; j < n; ++j) {
      double t = kind == 0 ? 10 * st.uni() : std::exp(std::log(1e-12) + st.uni() * (std::log(1e6) - std::log(1e-12)));
      if (kind == 2 && st.uni() < 0.3) t = 0;
      ekin[i].push_back(t);
    }
  }
  auto saved = ekin;
  auto src = std::make_shared<model::VBuf>(ekin, keys, MPI_COMM_SELF);
  PreconditionerTeter<Kokkos::HostSpace> P(src);
  require(ekin == saved, "kinetic energies were modified");
  bool overwrite = g.boolean(1, 3);
  if (overwrite)  // the filter is fixed at construction
    for (auto& v : ekin)
      for (auto& x : v) x = 7;
  for (int i : g.permutation(nk)) {
    int m = saved[i].size(), n = g.integer(1, 5);
    Z z = gen_z(g, m, n);
    auto st = g.stream();
    Mat A = la::randn(st, m, n);
    z.put(A);
    Mat R = A;
    for (int c = 0; c < n; ++c)
      for (int r = 0; r < m; ++r) R(r, c) *= teter(saved[i][r]);
    auto p = g.boolean() ? P[keys[i]] : P.at(keys[i]);
    auto run = [&](auto& x) {
      auto y = p(x);
      close(g, "preconditioned", to_mat(y), R, R, 2e-14);
      require(z.untouched(), "the preconditioner modified its argument");
      p.apply_in_place(x);
      same("in place", z.get(), to_mat(y));
      require(z.padding_ok(), "in place: wrote outside the matrix");
    };
    if (g.boolean()) {
      auto x = z.as<zview>();
      run(x);
    } else {
      auto x = z.as<zmat>();
      run(x);
    }
    // range and monotonicity of the filter itself
    Z one(m, 1);
    Mat O(m, 1);
    for (auto& x : O.a) x = 1;
    one.put(O);
    auto x = one.as<zmat>();
    Mat f = to_mat(p(x));
    for (int a = 0; a < m; ++a) {
      require(f(a, 0).imag() == 0 && f(a, 0).real() > 0 && f(a, 0).real() <= 1, "factor outside (0, 1]");
      for (int b = 0; b < m; ++b)
        if (saved[i][a] < saved[i][b]) require(f(a, 0).real() >= f(b, 0).real() * (1 - 1e-14), "factor increases with the kinetic energy");
    }
  }
  g.nontrivial(nk > 1);
  g.note("k-points", nk);
}
BB_MAIN(prop)
