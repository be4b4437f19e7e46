// C10: chemical potential, occupations and entropy of arbitrary levels.
// A zero-iteration run determines the occupations of the levels reported by the host.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  bool no_newton = getenv("NLCGLIB_DISABLE_NEWTON_EFERMI") && strcmp(getenv("NLCGLIB_DISABLE_NEWTON_EFERMI"), "0") != 0;
  Problem p;
  p.sm = ref::ALL[g.draw(5)];
  p.ns = g.integer(1, 2);
  p.occ = p.ns == 1 ? 2 : 1;
  p.T = g.logreal(1, 1e6);
  p.maxiter = 0;
  bool big = g.boolean(1, 12);
  int nk = big ? g.integer(6, 30) : g.integer(1, 5);
  std::vector<double> w(nk);
  double ws = 0;
  bool uneq = g.boolean();
  for (auto& x : w) ws += (x = uneq ? g.integer(1, 8) : 1);
  for (auto& x : w) x /= ws;
  bool vary = g.boolean(1, 3);
  int nb0 = big && g.boolean() ? g.integer(10, 60) : g.integer(1, 9);
  auto st = g.stream();
  double cap = 0;
  for (int ik = 0; ik < nk; ++ik)
    for (int s = 0; s < p.ns; ++s) {
      KP k;
      k.key = {ik, s};
      k.w = w[ik];
      k.nb = vary ? std::max(1, nb0 + (int)(st.next() % 5) - 2) : nb0;
      k.nG = k.nb + (int)(st.next() % 3);
      k.H0 = la::eye(k.nG);
      k.S = k.K = la::eye(k.nG);
      k.P = Mat(k.nG, p.nsite);
      k.X0 = Mat(k.nG, k.nb);
      for (int b = 0; b < k.nb; ++b) k.X0(b, b) = 1;
      cap += k.w * p.occ * k.nb;
      p.k.push_back(k);
    }
  // ---- levels
  double kT = p.kT();
  double off = g.weighted({3, 1, 1}) == 0 ? g.real(-1, 1) : g.real(-1, 1) * g.pick({20.0, 1000.0, 1e5});
  double spread = g.pick({0, 1}) ? g.logreal(1e-3, 10) : kT * g.logreal(1e-2, 300);
  int kind = g.integer(0, 5);
  static const char* kinds[] = {"random", "equidistant", "degenerate", "clusters", "gap", "all-equal"};
  g.label(std::string("levels:") + kinds[kind]);
  std::vector<std::vector<double>> e;
  std::vector<double> wl;
  double gap = spread * g.real(1, 20);
  int gapat = g.integer(0, nb0);
  for (auto& k : p.k) {
    std::vector<double> v(k.nb);
    for (int b = 0; b < k.nb; ++b) {
      double u = st.sym();
      switch (kind) {
        case 0: v[b] = spread * u; break;
        case 1: v[b] = spread * b / std::max(1, k.nb); break;
        case 2: v[b] = spread * (double)((int)(st.next() % 3) - 1); break;
        case 3: v[b] = spread * (double)((int)(st.next() % 3) - 1) + 1e-3 * kT * u; break;
        case 4: v[b] = (b < gapat ? 0 : gap) + 0.3 * spread * u; break;
        case 5: v[b] = 0; break;
      }
      v[b] += off;
    }
    if (g.boolean()) std::sort(v.begin(), v.end());
    e.push_back(v);
    wl.push_back(k.w);
  }
  int filling = g.weighted({8, 1, 1, 1});
  if (filling == 0)
    p.Ne = g.integer(1, std::max(1, (int)std::ceil(cap) - 1));
  else if (filling == 1)
    p.Ne = (int)std::floor(cap + 1e-9);
  else if (filling == 2)
    p.Ne = (int)std::floor(cap + 1e-9) + g.integer(1, 3);
  else
    p.Ne = 0;
  describe(g, p);
  g.note("levels", kinds[kind]);
  g.note("offset", off);
  g.note("spread", spread);
  g.note("capacity", cap);

  Host h(p, all_k(p));
  h.ek_override = [&](int k, int) { return e[k]; };
  Run r = optimise(h, p);
  bool mono = ref::monotone(p.sm);
  g.label(p.Ne == 0 ? "empty" : p.Ne > cap + 1e-9 ? "too-many" : p.Ne > cap - 1e-9 ? "full" : "partial");
  double emax = 0;
  for (auto& v : e)
    for (double x : v) emax = std::max(emax, std::abs(x));
  if (p.Ne > cap + 1e-9 && mono) {
    require(r.threw, "occupations for more electrons than the bands can hold");
    g.nontrivial();
    return;
  }
  // is the chemical potential representable to the precision of the search?
  smearing_type smref = mono ? p.sm : smearing_type::GAUSS;
  double muref = (double)ref::find_mu(smref, e, wl, std::min<double>(p.Ne, cap), kT, p.occ);
  ref::ld dos = 0;
  for (size_t k = 0; k < e.size(); ++k)
    for (double x : e[k]) dos += wl[k] * p.occ * ref::delta(smref, (muref - x) / kT) / kT;
  double res = (double)dos * 4e-16 * (std::abs(muref) + emax) + 4e-16 * (p.Ne + 1) * 10;
  bool resolvable = res < 1e-12;
  g.label(resolvable ? "resolvable" : "below-precision");
  if (r.threw) {
    require(r.what.find("chemical potential") != std::string::npos, "unexpected exception: " + r.what);
    if (mono && resolvable) throw Fail("no chemical potential found: " + r.what);
    require(h.n_setfn == 0 && h.n_setmu == 0, "occupations set although no chemical potential was found");
    g.label(mono ? "refused" : no_newton ? "refused-bisection" : "refused-newton");
    if (!mono && resolvable && p.Ne > 0 && p.Ne < cap - 1e-9) g.label("refused-though-resolvable");
    return;
  }
  if (!mono && resolvable && p.Ne > 0 && p.Ne < cap - 1e-9) g.label("found-non-monotone");
  require(h.rec.size() == 2, "evaluations: " + std::to_string(h.rec.size()));
  const Record& a = h.rec.back();
  require(a.fn_set, "occupations were not set");
  double mu = a.mu;
  require(std::isfinite(mu), "chemical potential not finite");
  ref::ld N = 0, S = 0, dN = 0;
  double xr = 0;
  for (size_t k = 0; k < p.k.size(); ++k) {
    auto& f = a.fn.at(p.k[k].key);
    for (int b = 0; b < p.k[k].nb; ++b) {
      ref::ld x = ((ref::ld)mu - (ref::ld)e[k][b]) / (ref::ld)kT;
      // (mu - e)/kT is rounded
      double slack = 1e-13 + 1e-15 * (double)fabsl(x) * p.occ;
      xr = std::max(xr, (double)fabsl(x));
      near_abs(g, "occupation", f[b], (double)(p.occ * ref::f(p.sm, x)), slack * 4);
      N += (ref::ld)f[b] * p.k[k].w;
      S += p.k[k].w * p.occ * ref::entropy(p.sm, x);
      dN += p.k[k].w * p.occ * ref::delta(p.sm, x);
      if (mono) require(f[b] >= 0 && f[b] <= p.occ, "occupation outside [0, max]: " + fmt(f[b]));
    }
  }
  double err = (double)fabsl(N - p.Ne);
  g.note("electron error", err);
  if (mono || no_newton)
    at_most(g, "electron number", err, 1e-10);
  else if (err > 1e-9 + 10 * res + 2e-11 * (cap + 1) / kT) {
    // the minimisation may stop at an extremum of N(mu) close to the requested number
    g.label("extremum");
    at_most(g, "electron number (extremum)", err, 1e-2 * 1.001);
    at_most(g, "slope of N at the extremum", (double)fabsl(dN), 1e-6 * (1 + cap));
  }
  near_abs(g, "entropy term", r.info.S, -(double)(kT * S), kT * (cap + 1) * (1e-12 + 1e-15 * std::min(xr, 50.0)));
  near_abs(g, "free energy", r.info.F, a.Erep + r.info.S, 1e-12 * (1 + std::abs(a.Erep)));
  require(r.info.iter == 0 && !r.info.converged, "zero-iteration run reports iterations");
  g.nontrivial(p.Ne > 0 && p.Ne < cap - 1e-9);
}
BB_MAIN(prop)
