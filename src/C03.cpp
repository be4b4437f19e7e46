// C03: every state handed to the host is physical.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-9, 1e-12});
  p.maxiter = g.pick({6, 1, 2, 30});
  describe(g, p);
  Host h(p, all_k(p));
  Adversary adv;
  adv.install(g, h, 2);
  g.label(std::string("energies:") + adv.name());
  Run r = optimise(h, p);
  if (no_mu(h, r))
    g.label("no-mu");
  else if (r.threw)
    throw Fail("run ended with an exception: " + r.what);
  require(h.protocol.empty(), "protocol: " + (h.protocol.empty() ? std::string() : h.protocol[0]));
  require(h.rec.size() >= 1, "no evaluation");
  g.note("evaluations", h.rec.size());
  double kT = p.kT();
  bool loose = false;
  bool mono = ref::monotone(p.sm);
  for (size_t i = 0; i < h.rec.size(); ++i) {
    const Record& s = h.rec[i];
    if (i == 0) {
      // the start is evaluated as given
      for (auto& k : p.k) require(s.X.at(k.key).a == k.X0.a, "first evaluation is not the start");
      continue;
    }
    require(s.fn_set, "evaluation without new occupations");
    if (!r.threw || i + 1 < h.rec.size()) require(!std::isnan(s.mu), "no chemical potential announced after an evaluation");
    double N = 0;
    bool accepted = i + 1 == h.rec.size() && !r.threw;
    for (size_t a : h.print_at) accepted = accepted || a == i + 1;
    for (auto& k : p.k) {
      const Mat& X = s.X.at(k.key);
      Mat D = la::adj(X) * (k.S * X) - la::eye(k.nb);
      double dev = la::maxabs(D);
      // trial states of extreme step length (ill-conditioned by the step itself) may lose digits: they are
      // counted and bounded over the batch; accepted states and the first trials must be accurate
      if (accepted)
        at_most(g, "orthonormality of accepted state", dev, 1e-8);
      else if (i <= 2)
        at_most(g, "orthonormality of first trial", dev, 1e-11);
      else if (!(dev <= 1e-10))
        loose = true;
      for (double f : s.fn.at(k.key)) {
        require(std::isfinite(f), "occupation not finite");
        N += k.w * f;
        double lo = mono ? 0 : (p.sm == smearing_type::COLD ? -1e-6 : -0.2) * p.occ;
        double hi = mono ? p.occ : 1.3 * p.occ;
        require(f >= lo - 1e-14 && f <= hi + 1e-14, "occupation out of range: " + fmt(f));
      }
    }
    if (mono)
      near_abs(g, "electron number", N, p.Ne, 1e-10);
    else
      near_abs(g, "electron number (non-monotone)", N, p.Ne, 1.01e-2);
  }
  // occupations are the smearing function of levels that are known: those of the initial state
  if (h.rec.size() >= 2) {
    const Record& s = h.rec[1];
    for (auto& k : p.k)
      for (int n = 0; n < k.nb; ++n) {
        double e = h.rec[0].hii.at(k.key)[n];
        near_abs(g, "occupation at mu", s.fn.at(k.key)[n], (double)(p.occ * ref::f(p.sm, (s.mu - e) / kT)), 1e-12 * std::max(1.0, 1 / kT * 1e-3));
      }
  }
  g.label(loose ? "ill-conditioned-trial" : "all-trials-orthonormal");
  g.nontrivial(h.rec.size() >= 5);
  if (h.rec.size() > 30) g.label("evaluations>30");
}
BB_MAIN(prop)
