// C01: converged runs end at the ground state (duality gap of the converged density).
#include "bbmain.hpp"
#include "model.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.mono_only = true;
  o.wide = false;
  o.special = 4;  // from a symmetric start a saddle point of the same symmetry may be reached
  o.start = 1;
  o.Tmin = 2000;
  o.Tmax = 60000;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-9, 1e-10, 1e-11});
  p.maxiter = 800;
  // constant part of the host's total energy (nuclei, core electrons): it must not matter
  double E0 = 0;
  if (g.boolean(1, 4)) {
    E0 = g.pick({-100., -1000., -10000., 1000.});
    p.tol = g.pick({1e-9, 1e-8, 1e-7}) * std::abs(E0) / 100;
  }
  g.note("constant energy", E0);
  describe(g, p);
  Host h(p, all_k(p));
  h.energy_filter = [E0](const Record& q, int) { return q.E + E0; };
  h.max_evals = 6000;  // close to the rounding limit of F the line searches become long
  Run r = optimise(h, p);
  if (r.runaway) {
    g.label("not-converged");
    return;
  }
  if (no_mu(h, r)) {
    g.label("no-mu");
    return;
  }
  if (r.threw) throw Fail("run ended with an exception: " + r.what);
  const Record& last = h.rec.back();
  g.note("iterations", r.info.iter);
  g.note("F", r.info.F);
  g.label(r.info.converged ? "converged" : "not-converged");
  if (!r.info.converged) return;
  g.nontrivial(r.info.iter > 0);
  // gap = [Tr gamma H[rho] - TS](state) - min over all nb-band states of the same functional
  auto rho = density(p, last);
  double lin = 0, res = 0, fmin = 1, fmax = 0;
  std::vector<std::vector<double>> e;
  std::vector<double> w;
  for (auto& k : p.k) {
    Mat H = hamiltonian(p, k, rho);
    std::vector<double> ev;
    Mat V;
    la::geigh(H, k.S, ev, V);
    ev.resize(k.nb);
    e.push_back(ev);
    w.push_back(k.w);
    const Mat& X = last.X.at(k.key);
    Mat HX = H * X;
    Mat R = HX - (k.S * X) * (la::adj(X) * HX);
    for (int n = 0; n < k.nb; ++n) {
      double d = 0, q = 0, f = last.fn.at(k.key)[n];
      fmin = std::min(fmin, f / p.occ);
      fmax = std::max(fmax, f / p.occ);
      for (int i = 0; i < k.nG; ++i) {
        d += (std::conj(X(i, n)) * HX(i, n)).real();
        q += std::norm(R(i, n));
      }
      lin += k.w * f * d;
      res += k.w * f * q;
    }
  }
  double kT = p.kT();
  ref::ld mu = ref::find_mu(p.sm, e, w, p.Ne, kT, p.occ);
  ref::ld best = 0;
  for (size_t k = 0; k < e.size(); ++k)
    for (double x : e[k]) {
      ref::ld y = (mu - x) / kT;
      best += w[k] * p.occ * (ref::f(p.sm, y) * x - kT * ref::entropy(p.sm, y));
    }
  double gap = lin + r.info.S - (double)best;
  at_most(g, "state below the variational minimum", -gap, 1e-9);
  // the slope of a conjugated direction can cancel accidentally; such a stop is recognised by
  // restarting from the final state (steepest descent sees the true gradient) and only counted
  // no force acts on saturated levels, hardly any between interacting degenerate ones
  bool flat = fmin <= 1e-4 || (p.special == 4 && !(fmin > 0.01 && fmax < 0.99)) || (p.special == 2 && p.U != 0);
  bool bad_res = !(res <= 1e3 * p.tol), bad_gap = !flat && !(gap <= 1e4 * p.tol);
  if (bad_res || bad_gap) {
    Problem q = p;
    for (auto& k : q.k) k.X0 = last.X.at(k.key);
    Host h2(q, all_k(q));
    h2.max_evals = 6000;
    h2.energy_filter = h.energy_filter;
    Run r2 = optimise(h2, q);
    if (!r2.threw && r2.info.iter > 0) {
      g.label("slope-cancellation");
      return;
    }
  }
  at_most(g, "residual of the occupied bands", res, 1e3 * p.tol);
  if (!flat) {
    g.label("gap-checked");
    at_most(g, "duality gap above ground state", gap, 1e4 * p.tol);
  }
}
BB_MAIN(prop)
