// C06, long runs: restart interval, conjugation and trial step hold in every iteration.
#include "bbmain.hpp"
#include "refcg.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.max_nG = 6;
  o.wide = false;
  o.Tmin = 150000;
  o.Tmax = 500000;
  o.mono_only = true;
  Problem p = gen_problem(g, o);
  p.tol = 1e-13;
  p.maxiter = g.pick({60, 30, 120});
  p.restart = g.pick({1000, 2, 5, 10, 12, 17, 20, 25, 33, 50});
  p.kappa = g.logreal(0.01, 1);
  double bad = g.real(0, 5);
  auto st = g.stream();
  for (auto& k : p.k) {
    std::vector<double> ke(k.nG);
    for (auto& x : ke) x = std::exp(-bad * st.uni());
    k.K = la::rand_herm(st, ke);
  }
  describe(g, p);
  g.note("preconditioner", bad);
  Host h(p, all_k(p));
  Run r = optimise(h, p);
  if (no_mu(h, r)) return;
  if (r.threw) throw Fail("run ended with an exception: " + r.what);
  std::vector<double> logged;
  for (auto& j : read_log()) logged.push_back(j.at("slope_x").get<double>());
  RefCG c(p, h, g);
  try {
    c.follow(logged);
    g.label("followed to the end");
  } catch (RefCG::Undecided& u) {
    g.label("stopped: " + u.what);
  } catch (RefCG::Diverged& d) {
    throw Fail("run leaves the reference algorithm: " + d.what);
  }
  g.note("iterations followed", c.followed);
  g.label(c.followed > 40 ? "followed:>40" : c.followed > 16 ? "followed:>16" : c.followed > 5 ? "followed:>5" : "followed:<=5");
  g.nontrivial(c.followed > 5 && c.n_conj > 0);
}
BB_MAIN(prop)
