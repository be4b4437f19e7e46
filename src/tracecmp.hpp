// Comparison of two recorded runs with tolerances from the measured sensitivity to rounding-size perturbations.
#pragma once
#include "trace.hpp"

namespace model {

/// same problem with the Hamiltonian perturbed at relative size eps
inline Problem
perturbed(const Problem& p, uint64_t seed, double shift = 0, double eps = 1e-9)
{
  Problem q = p;
  pbt::Stream r(seed);
  for (auto& k : q.k) {
    Mat D = la::randn(r, k.nG, k.nG);
    D = 0.5 * (D + la::adj(D));
    k.H0 = k.H0 + eps * D + shift * k.S;
  }
  return q;
}

inline double
rec_dist(const Problem& p, const Record& a, const Record& b, const std::vector<kkey>* only = nullptr)
{
  double d = std::abs(a.E - b.E) + std::abs(a.Erep - b.Erep);
  if (!(std::isnan(a.mu) && std::isnan(b.mu))) {
    // the chemical potential itself is only defined up to the electron-number tolerance
  }
  Problem q;
  q.k.clear();
  for (auto& k : p.k) {
    if (!b.X.count(k.key) || !a.X.count(k.key)) continue;
    if (only && std::find(only->begin(), only->end(), k.key) == only->end()) continue;
    KP kk;
    kk.key = k.key;
    kk.w = 1;
    q.k.push_back(kk);
    auto x = a.fn.at(k.key), y = b.fn.at(k.key);
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    for (size_t i = 0; i < x.size(); ++i) d = std::max(d, std::abs(x[i] - y[i]));
  }
  d = std::max(d, std::sqrt(dm_dist(q, a, b)));
  return std::isfinite(d) ? d : 1e300;
}

struct Sensitivity
{
  std::vector<double> tolmu;  // admissible deviation of the chemical potential of evaluation i
  std::vector<double> tol;    // admissible deviation of evaluation i; ends where the run is ill-conditioned
  bool whole{false};        // number of evaluations and the result are determined
  double result{0};         // admissible deviation of F, S

  /// base: recorded run, q*: perturbed runs (their energy zero is shifted by shifts[i])
  void learn(const Problem& p, const std::vector<Record>& base, const std::vector<const std::vector<Record>*>& qs, const Run& rb,
             const std::vector<Run>& rq, const std::vector<double>& shifts, double factor = 200)
  {
    double d = 0, dmu = 0;
    size_t n = base.size();
    for (auto* q : qs) n = std::min(n, q->size());
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < qs.size(); ++j) {
        d = std::max(d, rec_dist(p, base[i], (*qs[j])[i]));
        double m = std::abs((*qs[j])[i].mu - shifts[j] - base[i].mu);
        if (m > dmu) dmu = m;
      }
      double t = 1e-9 + factor * d;
      if (!(t < 1e-5)) break;
      tol.push_back(t);
      tolmu.push_back(1e-9 + factor * dmu);
    }
    whole = tol.size() == base.size();
    for (size_t i = 0; i < qs.size(); ++i)
      whole = whole && qs[i]->size() == base.size() && rq[i].info.iter == rb.info.iter && rq[i].info.converged == rb.info.converged &&
              rq[i].threw == rb.threw;
    result = 1e-9 + factor * d;
  }
};

/// runs base and three perturbed problems; nullptr host if it threw
struct BaseRun
{
  std::unique_ptr<Host> h;
  std::vector<std::unique_ptr<Host>> hq;
  std::vector<std::unique_ptr<Problem>> q;
  Run r;
  std::vector<Run> rq;
  Sensitivity s;
  std::vector<nlohmann::json> log;

  void go(const Problem& p, const std::function<void(Host&)>& setup = {})
  {
    h.reset(new Host(p, all_k(p)));
    if (setup) setup(*h);
    r = optimise(*h, p);
    log = read_log();
    std::vector<const std::vector<Record>*> v;
    // a tiny shift of the energy zero changes the path of the chemical potential search (electron-number tolerance)
    std::vector<double> shifts{0.0, 1e-6, -1.7e-6};
    for (double shift : shifts) {
      q.emplace_back(new Problem(perturbed(p, 77 + q.size(), shift)));
      hq.emplace_back(new Host(*q.back(), all_k(p)));
      if (setup) setup(*hq.back());
      rq.push_back(optimise(*hq.back(), *q.back()));
      for (auto& x : hq.back()->rec) {
        double N = 0;
        for (auto& k : p.k)
          if (x.fn.count(k.key))
            for (double f : x.fn.at(k.key)) N += k.w * f;
        x.E -= shift * N;
        x.Erep -= shift * N;
      }
      v.push_back(&hq.back()->rec);
    }
    s.learn(p, h->rec, v, r, rq, shifts);
  }
};

}  // namespace model
