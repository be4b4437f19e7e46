// C06: iterates follow the documented CG algorithm.
#include "bbmain.hpp"
#include "refcg.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.max_nG = 7;
  o.Tmin = g.boolean(1, 4) ? 500 : 8000;
  o.Tmax = 80000;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-12, 1e-4, 1e-6});
  p.maxiter = g.integer(1, 14);
  p.restart = g.pick({1000, 1, 2, 3, 4, 5, 7});
  describe(g, p);
  Host h(p, all_k(p));
  Adversary adv;
  adv.draw(g, 3, 1);
  Adversary radv = adv;
  adv.apply(h);
  g.label(std::string("energies:") + adv.name());
  g.note("energies", adv.name());
  Run r = optimise(h, p);
  if (no_mu(h, r)) {
    g.label("no-mu");
    return;
  }
  if (r.threw) throw Fail("run ended with an exception: " + r.what);
  RefCG c(p, h, g);
  c.adv = radv;
  bool whole = false;
  try {
    c.run();
    whole = true;
  } catch (RefCG::Undecided& u) {
    g.label("stopped: " + u.what);
    g.note("stopped", u.what);
  } catch (RefCG::Diverged& d) {
    throw Fail("run leaves the reference algorithm: " + d.what);
  }
  g.note("evaluations followed", c.n);
  g.note("iterations followed", c.iter);
  if (whole) {
    g.label("followed to the end");
    require(h.rec.size() == c.n, "library made " + std::to_string(h.rec.size()) + " evaluations, reference " + std::to_string(c.n));
    require(r.info.converged == c.converged, "converged flag");
    require(r.info.iter == (c.converged || c.failed ? c.iter : p.maxiter), "iterations: library " + std::to_string(r.info.iter) +
                                                                               ", reference " + std::to_string(c.iter));
  }
  auto log = read_log();
  for (size_t i = 0; i < c.slopes.size() && i < log.size(); ++i)
    near_abs(g, "slope", log[i].at("slope_x").get<double>(), c.slopes[i], 1e-5 * std::abs(c.slopes[i]) + 1e-10 + 1e3 * c.dev);
  if (c.n_bt) g.label("backtracking");
  if (c.n_grow) g.label("trial step grown");
  if (c.n_reset) g.label("reset");
  if (c.n_conj) g.label("conjugated");
  if (c.n_posslope) g.label("positive slope restart");
  if (c.failed) g.label("failed");
  g.nontrivial(c.n_conj > 0 || c.n_bt > 0);
}
BB_MAIN(prop)
