// C02: the free energy never rises between accepted states, whatever the host reports.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.max_nG = 8;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-8, 1e-10, 1e-12});
  p.maxiter = g.pick({40, 1, 2, 5, 12});
  describe(g, p);
  Host h(p, all_k(p));
  Adversary adv;
  adv.install(g, h, 1);
  g.label(std::string("energies:") + adv.name());
  g.note("energies", adv.name());
  Run r = optimise(h, p);
  // a failed search for the chemical potential of MP/cold levels is an allowed refusal
  if (no_mu(h, r)) {
    g.label("no-mu");
    return;
  }
  if (r.threw) throw Fail("run ended with an exception: " + r.what);
  g.note("iterations", r.info.iter);
  auto log = read_log();
  require(!log.empty() || p.maxiter == 0, "no log");
  std::vector<double> F;
  for (auto& l : log) F.push_back(l.at("F").get<double>());
  F.push_back(r.info.F);
  bool step = false, reset = false;
  for (size_t i = 1; i < F.size(); ++i) {
    at_most(g, "free energy rises at step " + std::string(i + 1 == F.size() ? "(final)" : "(log)"), F[i] - F[i - 1] + 1e-9, 1.1e-9);
    if (F[i] < F[i - 1]) step = true;
  }
  // independent of the log: F of the states the host holds at each iteration
  if (ref::monotone(p.sm)) {
    double prev = 0;
    for (size_t i = 0; i <= h.print_at.size(); ++i) {
      const Record& s = i < h.print_at.size() ? h.rec.at(h.print_at[i] - 1) : h.rec.back();
      double f = s.Erep + entropy_term(p, s.fn);
      if (i > 0) at_most(g, "free energy of the host state rises", f - prev + 1e-9, 2e-9);
      prev = f;
    }
  }
  for (size_t i = 1; i < h.print_at.size(); ++i)
    if (h.print_at[i] - h.print_at[i - 1] > 6) reset = true;
  if (!r.info.converged && r.info.iter < p.maxiter) g.label("line-search-failed");
  if (reset) g.label("backtracked");
  g.label(r.info.converged ? "converged" : "not-converged");
  g.nontrivial(step && (adv.mode != 0 || r.info.iter >= 2));
}
BB_MAIN(prop)
