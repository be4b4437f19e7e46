// C04: nlcg_info describes the state left in the host.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-7, 1e-3, 1e-5, 1e-12, 1e-2, 1e10});
  p.maxiter = g.pick({30, 0, 1, 2, 3, 8, 200});
  describe(g, p);
  Host h(p, all_k(p));
  Adversary adv;
  adv.install(g, h, 5);
  Run r = optimise(h, p);
  if (no_mu(h, r)) {
    g.label("no-mu");
    return;
  }
  if (r.threw) throw Fail("run ended with an exception: " + r.what);
  const auto& I = r.info;
  const Record& last = h.rec.back();
  g.note("iter", I.iter);
  g.note("converged", I.converged);
  g.note("F", I.F);
  // the buffers of the host are those of the last evaluation
  for (size_t i = 0; i < h.keys.size(); ++i) {
    require(h.C.get(i).a == last.X.at(h.keys[i]).a, "orbitals in the host are not those last evaluated");
    require(h.fn[i] == last.fn.at(h.keys[i]), "occupations in the host are not those last evaluated");
  }
  require(std::isfinite(I.F) && std::isfinite(I.S) && std::isfinite(I.tolerance), "info not finite");
  near_abs(g, "F = E + S", I.F, last.Erep + I.S, 1e-12 * (1 + std::abs(I.F)));
  if (ref::monotone(p.sm)) near_abs(g, "entropy term", I.S, entropy_term(p, last.fn), 1e-9);
  require(I.iter >= 0 && I.iter <= p.maxiter, "iter out of range: " + std::to_string(I.iter));
  bool small = std::abs(I.tolerance) < p.tol;
  if (I.iter < p.maxiter)
    require(I.converged == small, "converged=" + std::to_string(I.converged) + " although slope " + fmt(I.tolerance) + ", tol " + fmt(p.tol));
  else
    require(!I.converged, "converged reported at the iteration limit");
  // iterations are announced to the host one by one
  int want = I.iter < p.maxiter ? I.iter + 1 : p.maxiter;
  require(h.n_print == want, "iter=" + std::to_string(I.iter) + " but " + std::to_string(h.n_print) + " iterations were announced");
  if (I.converged) {
    // no evaluation after the state that was found converged
    require(h.print_at.back() == h.rec.size(), "evaluation after convergence");
    g.label("converged");
  } else
    g.label(I.iter < p.maxiter ? "failed" : "limit");
  if (I.iter == 0 && (I.converged || p.maxiter == 0)) {
    g.label("zero-iterations");
    require(h.rec.size() == 2, "zero iterations but " + std::to_string(h.rec.size()) + " evaluations");
    for (auto& k : p.k) require(last.X.at(k.key).a == k.X0.a, "orbitals changed by a run of zero iterations");
  }
  // the reported slope was also logged for that state
  if (I.iter < p.maxiter) {
    auto log = read_log();
    require((int)log.size() == I.iter + 1, "log length");
    near_abs(g, "slope", I.tolerance, log.back().at("slope_x").get<double>(), 1e-12 * (1 + std::abs(I.tolerance)));
    near_abs(g, "F logged", I.F, log.back().at("F").get<double>(), 1e-9);
  }
  g.nontrivial(I.iter > 0 || p.maxiter == 0 || I.converged);
  if (g.boolean()) {
    // the slope of the state left behind decides: a tolerance just above it means nothing to do,
    // a tolerance just below it means at least one step is tried
    g.label("threshold");
    Problem q = p;
    for (auto& k : q.k) k.X0 = last.X.at(k.key);
    q.maxiter = 0;
    Host h0(q, all_k(q));
    Run r0 = optimise(h0, q);
    if (r0.threw) return;
    double s0 = std::abs(r0.info.tolerance);
    if (!(s0 > 1e-13)) return;
    q.maxiter = g.pick({1, 2, 7});
    q.tol = 1.001 * s0;
    Host h1(q, all_k(q));
    Run r1 = optimise(h1, q);
    require(!r1.threw, "threshold run threw: " + r1.what);
    require(r1.info.converged && r1.info.iter == 0 && h1.rec.size() == 2, "start with slope below the tolerance was not returned as converged");
    for (auto& k : q.k) require(h1.rec.back().X.at(k.key).a == k.X0.a, "orbitals of a converged start changed");
    q.tol = 0.999 * s0;
    Host h2(q, all_k(q));
    Run r2 = optimise(h2, q);
    if (r2.threw) return;
    require(!(r2.info.converged && r2.info.iter == 0), "start with slope above the tolerance was reported converged");
    // a positive slope (possible for non-monotone smearings only) is refused without evaluation
    if (r0.info.tolerance < 0) require(h2.rec.size() > 2, "start with slope above the tolerance was not improved");
  }
}
BB_MAIN(prop)
