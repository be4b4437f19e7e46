// C05: the reported slope is the derivative of F along the path that is then searched.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.Tmin = 1000;
  Problem p = gen_problem(g, o);
  bool mono = ref::monotone(p.sm);
  p.tau = 0.5;
  p.tol = 1e-10;
  int at = mono ? g.pick({0, 1, 2, 3, 4, 6, 10, 14}) : g.pick({0, 0, 10});
  p.maxiter = at + 1;
  describe(g, p);
  g.note("iteration", at);
  Host h(p, all_k(p));
  // from iteration `at` on nothing is accepted: the search backtracks along its path
  h.energy_filter = [&](const Record& r, int) { return r.iter >= at ? r.E + 50 : r.E; };
  Run r = optimise(h, p);
  if (no_mu(h, r)) {
    g.label("no-mu");
    return;
  }
  if (r.threw) throw Fail("run ended with an exception: " + r.what);
  auto log = read_log();
  require(log.size() == (size_t)h.n_print, "log length");
  for (size_t i = 0; i < log.size(); ++i) {
    size_t a = h.print_at[i], b = i + 1 < log.size() ? h.print_at[i + 1] : h.rec.size();
    if (b > a) require(log[i].at("slope_x").get<double>() <= 0, "step attempted on a positive slope");
  }
  if ((int)log.size() <= at) {
    g.label("ended-before");
    return;
  }
  double slope = log[at].at("slope_x").get<double>();
  size_t first = h.print_at.at(at);
  std::vector<Record*> ev;
  for (size_t i = first; i < h.rec.size(); ++i) ev.push_back(&h.rec[i]);
  if (ev.size() < 20) {
    // positive slope (only possible for non-monotone smearings): nothing was tried
    require(!(slope < 0) || std::abs(slope) < p.tol, "no backtracking although no step is acceptable");
    g.label("no-search");
    return;
  }
  // evaluations: trial 0.2, predicted minimum, 0.2*0.5^k ...
  const Record& z = h.rec[first - 1];
  double F0 = 0, kT = p.kT();
  // levels of the state the path starts from
  std::map<kkey, std::vector<double>> lev;
  if (!mono) {
    if (at == 0)
      lev = h.rec[0].hii;
    else {
      for (auto& e : log[at].at("eta"))
        lev[{e.at("ik").get<int>(), e.at("ispn").get<int>()}] = e.at("value").get<std::vector<double>>();
    }
  }
  auto electrons = [&](const Record& s) {
    double N = 0;
    for (auto& k : p.k)
      for (double f : s.fn.at(k.key)) N += k.w * f;
    return N;
  };
  if (!mono && std::abs(electrons(z) - p.Ne) > 1e-9) {
    g.label("loose-mu");
    return;
  }
  // change of F with the number of electrons at fixed pseudo-levels: removes the (allowed) jitter of N
  double num = 0, den = 0;
  for (auto& k : p.k)
    for (int n = 0; n < k.nb; ++n) {
      double f = z.fn.at(k.key)[n], x;
      if (mono) {
        if (!(f > 1e-14 * p.occ && f < (1 - 1e-14) * p.occ)) continue;
        x = invert(p.sm, f / p.occ);
      } else
        x = (z.mu - lev.at(k.key)[n]) / kT;
      double d = ref::delta(p.sm, x) * p.occ * k.w;
      num += d * (z.hii.at(k.key)[n] - (z.mu - kT * x));
      den += d;
    }
  double lambda = z.mu + (std::abs(den) > 1e-300 ? num / den : 0);
  // trial states list their levels in ascending order, the start may not
  auto asc = lev;
  for (auto& l : asc) std::sort(l.second.begin(), l.second.end());
  // F up to a constant and to second order in the step
  auto Fof = [&](const Record& s) {
    double F = s.E - lambda * (electrons(s) - p.Ne);
    if (mono) return F + entropy_term(p, s.fn);
    for (auto& k : p.k)
      for (int n = 0; n < k.nb; ++n) F += k.w * (z.mu - (&s == &z ? lev : asc).at(k.key)[n]) * s.fn.at(k.key)[n];
    return F;
  };
  F0 = Fof(z);
  std::vector<double> D, T;
  double t = 0.2;
  for (size_t k = 2; k < ev.size() && t > 1e-8; ++k, t *= 0.5) {
    // several chemical potentials fit: the search may end at another one than at the start
    if (!mono && t < 1e-4 && std::abs(ev[k]->mu - z.mu) > 1e-2 * kT) {
      g.label("other-mu");
      return;
    }
    if (!mono && std::abs(electrons(*ev[k]) - p.Ne) > 1e-9) {
      D.clear();
      T.clear();
      continue;
    }
    T.push_back(t);
    D.push_back((Fof(*ev[k]) - F0) / t);
  }
  // Romberg
  double best = 0, err = 1e300;
  std::vector<double> row = D;
  double scale = 1 + std::abs(F0) + std::abs(z.E);
  for (int c = 1; c < 5 && (int)D.size() > c + 2; ++c) {
    std::vector<double> nx;
    double q = std::pow(2.0, c);
    for (size_t i = 0; i + 1 < row.size(); ++i) nx.push_back((q * row[i + 1] - row[i]) / (q - 1));
    row = nx;
    for (size_t i = 0; i + 2 < row.size(); ++i) {
      double e = std::max(std::abs(row[i + 1] - row[i]), std::abs(row[i + 2] - row[i + 1]));
      e += 4e-15 * scale / T[i + 2 + c];  // rounding of the energies
      // a plateau at long steps is not the derivative
      for (size_t j = i + c + 1; j < D.size(); ++j)
        if (std::abs(D[j] - row[i + 1]) > 0.2 * (std::abs(D[j]) + std::abs(row[i + 1])) + 1e-13 * scale / T[j]) e = 1e300;
      if (e < err) {
        err = e;
        best = row[i + 1];
      }
    }
  }
  // pseudo-levels far away from the Hamiltonian (nearly free directions) cancel in the slope
  double round = 1e-14 * (1 + z.mu * z.mu) / kT;
  g.note("slope", slope);
  g.note("derivative", best);
  g.note("derivative_error", err);
  if (!(err + round < 1e-4 * std::max(std::abs(slope), std::abs(best)))) {
    g.label("unresolved");
    return;
  }
  g.label(at == 0 ? "steepest-descent" : "later");
  g.nontrivial(std::abs(slope) > 1e-8);
  near_abs(g, "slope vs derivative", slope, best, 1e-3 * std::max(std::abs(slope), std::abs(best)) + 10 * err + 1e-9 + round);
}
BB_MAIN(prop)
