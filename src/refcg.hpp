// Independent re-implementation of the documented CG (Freysoldt, Boeck, Neugebauer, PRB 79, 241103),
// followed in lockstep with a recorded run of the library.
#pragma once
#include "trace.hpp"

namespace model {

struct RefCG
{
  struct Diverged
  {
    std::string what;
  };
  /// comparison has to stop: decision within rounding of its threshold
  struct Undecided
  {
    std::string what;
  };
  struct End
  {
  };

  const Problem& p;
  const Host& h;  // recorded run
  pbt::Gen& g;
  Adversary adv;
  double t_trial{0.2};
  double tolfac{1};

  size_t n{0};  // next evaluation
  int iter{-1};
  std::vector<Mat> X, HX, ZX, ZE;
  std::vector<std::vector<double>> e, f;
  std::map<kkey, std::vector<double>> hii;
  double mu{0}, F{0}, slope{0}, fr{0};
  double dev{5e-16};  // largest discrepancy seen so far
  std::vector<double> slopes;
  std::unique_ptr<Record> prev;
  bool converged{false}, failed{false};
  int n_bt{0}, n_grow{0}, n_reset{0}, n_conj{0}, n_posslope{0};

  RefCG(const Problem& p, const Host& h, pbt::Gen& g)
      : p(p)
      , h(h)
      , g(g)
  {
  }

  void compare(const std::string& what, double lib, double ref, double scale)
  {
    double d = std::abs(lib - ref);
    if (!(d <= 1e-6 * scale * tolfac))
      throw Diverged{what + " of evaluation " + std::to_string(n) + " (iteration " + std::to_string(iter) + "): library " + pbt::fmt(lib) +
                     ", reference " + pbt::fmt(ref) + " (largest earlier deviation " + pbt::fmt(dev) + ")"};
    if (d / scale > dev) dev = d / scale;
    g.metric("trajectory deviation / bound", d / (1e-6 * scale * tolfac));
    if (dev > 1e-8) throw Undecided{"rounding grew"};
  }
  /// margin of a comparison of free energies
  void decided(double diff)
  {
    if (!(std::abs(diff) > 200 * dev * (1 + std::abs(F)) + 1e-13)) throw Undecided{"branch"};
  }

  /// evaluate state; occupations from levels at the chemical potential the library announced
  void evaluate(const std::vector<Mat>& Xn, const std::vector<std::vector<double>>& en, bool first = false)
  {
    if (n >= h.rec.size()) {
      std::string s = "library stopped after " + std::to_string(h.rec.size()) + " evaluations (iteration " + std::to_string(iter) +
                      "), the reference continues";
      throw Diverged{s};
    }
    const Record& L = h.rec[n];
    Record r;
    r.iter = iter;
    std::vector<std::vector<double>> fn(p.k.size());
    double kT = p.kT(), S = 0, N = 0;
    if (!first) {
      mu = L.mu;
      for (size_t i = 0; i < p.k.size(); ++i) {
        for (double x : en[i]) {
          double y = (mu - x) / kT;
          fn[i].push_back(p.occ * (double)ref::f(p.sm, y));
          S += p.k[i].w * p.occ * (double)ref::entropy(p.sm, y);
          N += p.k[i].w * fn[i].back();
        }
      }
      if (!(std::abs(N - p.Ne) <= (ref::monotone(p.sm) ? 1e-6 : 1.1e-2)))
        throw Diverged{"chemical potential of evaluation " + std::to_string(n) + " does not belong to the reference levels, N=" + pbt::fmt(N)};
    } else {
      for (size_t i = 0; i < p.k.size(); ++i) fn[i] = L.fn.at(p.k[i].key);
    }
    std::vector<double> rho(p.nsite, 0.0);
    for (size_t i = 0; i < p.k.size(); ++i) {
      auto& k = p.k[i];
      Mat q = la::adj(k.P) * Xn[i];
      for (int s = 0; s < p.nsite; ++s)
        for (int b = 0; b < k.nb; ++b) rho[s] += k.w * fn[i][b] * std::norm(q(s, b));
    }
    double E = 0;
    for (double x : rho) E += 0.5 * p.U * x * x;
    std::vector<Mat> hx(p.k.size());
    for (size_t i = 0; i < p.k.size(); ++i) {
      auto& k = p.k[i];
      hx[i] = hamiltonian(p, k, rho) * Xn[i];
      Mat h0 = k.H0 * Xn[i];
      std::vector<double> d(k.nb);
      for (int b = 0; b < k.nb; ++b) {
        double a0 = 0;
        for (int r = 0; r < k.nG; ++r) {
          d[b] += (std::conj(Xn[i](r, b)) * hx[i](r, b)).real();
          a0 += (std::conj(Xn[i](r, b)) * h0(r, b)).real();
        }
        E += k.w * fn[i][b] * a0;
      }
      r.X[k.key] = Xn[i];
      r.fn[k.key] = fn[i];
      r.hii[k.key] = d;
    }
    r.E = E;
    r.Erep = adv(p, r, prev.get());
    HX = hx;
    hii = r.hii;
    f = fn;
    F = r.Erep - kT * S;
    prev.reset(new Record(r));
    // ---- compare
    double es = 1 + std::abs(E);
    compare("energy", L.E, E, es);
    compare("reported energy", L.Erep, r.Erep, 1 + std::abs(r.Erep));
    for (auto& k : p.k) {
      auto a = L.fn.at(k.key), b = r.fn.at(k.key);
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      for (int i = 0; i < k.nb; ++i) compare("occupation", a[i], b[i], 1);
    }
    compare("density matrix", std::sqrt(dm_dist(p, L, r)), 0, 1);
    n++;
  }

  void direction(bool restart_dir, const std::vector<Mat>* U)
  {
    double kT = p.kT();
    double dF = 0, sd = 0;
    size_t K = p.k.size();
    std::vector<std::vector<double>> dl(K);
    for (size_t i = 0; i < K; ++i)
      for (int b = 0; b < p.k[i].nb; ++b) {
        double d = p.occ * (double)ref::delta(p.sm, (mu - e[i][b]) / kT);
        dl[i].push_back(d);
        dF += p.k[i].w * d * (hii.at(p.k[i].key)[b] - e[i][b]);
        sd += p.k[i].w * d;
      }
    if (std::abs(sd) < 1e-9) throw Undecided{"no level at the chemical potential"};
    std::vector<Mat> DX(K), DE(K), GX(K), GE(K);
    double fr_new = 0;
    for (size_t i = 0; i < K; ++i) {
      auto& k = p.k[i];
      Mat SX = k.S * X[i];
      Mat ll = la::solve_pd(la::adj(SX) * (k.K * SX), la::adj(SX) * (k.K * HX[i]));
      Mat R = SX * ll - HX[i];
      DX[i] = k.K * R;
      GX[i] = k.w * la::colscale(HX[i], f[i]);  // the multiplier term does not contribute along tangents
      Mat H = la::adj(X[i]) * HX[i];
      DE[i] = p.kappa * (H - la::diagm(e[i]));
      GE[i] = Mat(k.nb, k.nb);
      for (int a = 0; a < k.nb; ++a)
        for (int b = 0; b < k.nb; ++b) {
          if (a == b)
            GE[i](a, a) = k.w * dl[i][a] / kT * (dF / sd - (H(a, a).real() - e[i][a]));
          else {
            double de = e[i][b] - e[i][a];
            // (almost) degenerate: derivative of the occupation
            double q = std::abs(de) < 1e-4 * kT ? -p.occ * (double)ref::delta(p.sm, (mu - 0.5 * (e[i][a] + e[i][b])) / kT) / kT : (f[i][b] - f[i][a]) / de;
            GE[i](a, b) = k.w * q * H(a, b);
          }
        }
      fr_new += 2 * la::redot(GX[i], DX[i]) + la::redot(GE[i], DE[i]);
    }
    auto steepest = [&] {
      ZX = DX;
      ZE = DE;
      slope = fr = fr_new;
    };
    if (restart_dir) {
      steepest();
      return;
    }
    n_conj++;
    double gamma = fr_new / fr, sz = 0;
    std::vector<Mat> zx(K), ze(K);
    for (size_t i = 0; i < K; ++i) {
      auto& k = p.k[i];
      Mat SX = k.S * X[i];
      Mat z = ZX[i] * (*U)[i];
      z = z - SX * la::solve_pd(la::adj(SX) * SX, la::adj(SX) * z);
      zx[i] = z;
      ze[i] = la::adj((*U)[i]) * ZE[i] * (*U)[i];
      sz += 2 * la::redot(GX[i], z) + la::redot(GE[i], ze[i]);
    }
    slope = fr_new + gamma * sz;
    if (!(std::abs(slope) > 1e-6 * std::abs(fr_new) + 1e-13)) throw Undecided{"slope close to zero"};
    if (slope > 0) {
      n_posslope++;
      steepest();
      force = true;
      return;
    }
    fr = fr_new;
    for (size_t i = 0; i < K; ++i) {
      ZX[i] = DX[i] + gamma * zx[i];
      ZE[i] = DE[i] + gamma * ze[i];
    }
  }

  bool force{false};

  // ---- long runs: the reference restarts every iteration from the recorded state, rounding does not accumulate
  int followed{0};
  /// levels and Hamiltonian of recorded state L
  void adopt(const Record& L, std::vector<Mat>& Xn, std::vector<std::vector<double>>& en)
  {
    size_t K = p.k.size();
    Xn.assign(K, Mat());
    en.assign(K, {});
    mu = L.mu;
    std::vector<double> rho(p.nsite, 0.0);
    for (size_t i = 0; i < K; ++i) {
      auto& k = p.k[i];
      Xn[i] = L.X.at(k.key);
      f[i] = L.fn.at(k.key);
      for (double y : f[i]) {
        if (!(y / p.occ > 1e-6) || !(y / p.occ < 1 - 1e-6)) throw Undecided{"level not determined by its occupation"};
        en[i].push_back(mu - p.kT() * (double)invert(p.sm, (ref::ld)y / p.occ));
      }
      Mat q = la::adj(k.P) * Xn[i];
      for (int s = 0; s < p.nsite; ++s)
        for (int b = 0; b < k.nb; ++b) rho[s] += k.w * f[i][b] * std::norm(q(s, b));
    }
    for (size_t i = 0; i < K; ++i) {
      auto& k = p.k[i];
      HX[i] = hamiltonian(p, k, rho) * Xn[i];
      std::vector<double> d(k.nb);
      for (int b = 0; b < k.nb; ++b)
        for (int r = 0; r < k.nG; ++r) d[b] += (std::conj(Xn[i](r, b)) * HX[i](r, b)).real();
      hii[k.key] = d;
    }
  }
  /// state at t along the current direction
  Record at(double t, std::vector<Mat>& Xl, std::vector<Mat>& V)
  {
    Record r;
    size_t K = p.k.size();
    Xl.assign(K, Mat());
    V.assign(K, Mat());
    for (size_t i = 0; i < K; ++i) {
      std::vector<double> en;
      la::eigh(la::diagm(e[i]) + t * ZE[i], en, V[i]);
      Xl[i] = la::loewdin(X[i] + t * ZX[i], p.k[i].S);
      r.X[p.k[i].key] = Xl[i] * V[i];
      r.hii[p.k[i].key] = en;  // levels
    }
    return r;
  }
  void follow(const std::vector<double>& logged)
  {
    size_t K = p.k.size();
    HX.resize(K);
    f.resize(K);
    adopt(h.rec.at(1), X, e);
    direction(true, nullptr);
    for (iter = 0; iter < (int)h.print_at.size(); ++iter) {
      size_t b = h.print_at[iter], end = iter + 1 < (int)h.print_at.size() ? h.print_at[iter + 1] : h.rec.size();
      n = b;
      const Record& base = h.rec[b - 1];
      auto is = [&](const std::string& w) { return w + " of iteration " + std::to_string(iter); };
      double sl = logged.at(iter);
      if (!(std::max(std::abs(slope), std::abs(sl)) > 1e-9)) throw Undecided{"slope at rounding"};
      g.metric("slope / bound (long)", std::abs(sl - slope) / (1e-3 * std::abs(slope) + 1e-13));
      if (!(std::abs(sl - slope) <= 1e-3 * std::abs(slope) + 1e-13)) throw Diverged{is("slope") + ": library " + pbt::fmt(sl) + ", reference " + pbt::fmt(slope)};
      if (b >= end) return;  // converged
      // first trial point
      std::vector<Mat> Xl, V;
      Record r = at(t_trial, Xl, V);
      const Record& L = h.rec[b];
      double d2 = 0, moved = 0;
      std::vector<double> all;
      for (auto& k : p.k) {
        auto& fl = L.fn.at(k.key);
        Mat R1 = la::colscale(r.X.at(k.key), std::vector<double>(k.nb, 1.0)) * la::adj(r.X.at(k.key));
        Mat R2 = L.X.at(k.key) * la::adj(L.X.at(k.key)), R0 = base.X.at(k.key) * la::adj(base.X.at(k.key));
        Mat A = R1 - R2, B = R2 - R0;
        d2 += la::redot(A, A);
        moved += la::redot(B, B);
        for (int i = 0; i < k.nb; ++i) {
          double want = p.occ * (double)ref::f(p.sm, ((ref::ld)L.mu - r.hii.at(k.key)[i]) / p.kT());
          all.push_back(std::abs(want - fl[i]));
          moved += std::pow(fl[i] - base.fn.at(k.key)[i], 2);
        }
      }
      double dev1 = std::sqrt(d2), bound = 1e-2 * std::sqrt(moved) + 1e-8;
      for (double x : all) dev1 = std::max(dev1, x);
      g.metric("trial point / bound (long)", dev1 / bound);
      if (!(dev1 <= bound))
        throw Diverged{is("trial point") + " deviates by " + pbt::fmt(dev1) + " from the reference, admissible " + pbt::fmt(bound) + ", moved " +
                       pbt::fmt(std::sqrt(moved))};
      if (std::sqrt(moved) < 1e-6) throw Undecided{"steps at rounding"};
      followed = iter + 1;
      // accepted state
      const Record& A = h.rec[end - 1];
      auto Xo = X;
      auto eo = e;
      std::vector<Mat> Xn;
      std::vector<std::vector<double>> en;
      adopt(A, Xn, en);
      if (end - b > 40) throw Undecided{"long search"};
      // its step length: parabola through the recorded free energies, refined on the levels
      double t = t_trial;
      {
        double tt = t_trial * std::pow(5, (double)(end - b) - 2);
        const Record& T = h.rec[end - 2];
        if (end - b < 2) throw Undecided{"single evaluation"};
        double F0 = base.Erep + entropy_term(p, base.fn), F1 = T.Erep + entropy_term(p, T.fn);
        t = -slope / (2 * (F1 - slope * tt - F0) / (tt * tt));
        if (!(t > 0) || !(t < 1e6)) throw Undecided{"failed search"};
      }
      for (int it = 0; it < 4; ++it) {
        Record q = at(t, Xl, V);
        double num = 0, den = 0;
        for (size_t i = 0; i < K; ++i) {
          Mat D = la::adj(V[i]) * (ZE[i] * V[i]);
          for (int j = 0; j < p.k[i].nb; ++j) {
            num += D(j, j).real() * (en[i][j] - q.hii.at(p.k[i].key)[j]);
            den += D(j, j).real() * D(j, j).real();
          }
        }
        if (!(den > 1e-16)) throw Undecided{"step length not determined"};
        t += num / den;
      }
      if (!(t > 1e-6)) throw Undecided{"failed search"};
      double zmax = 0;
      for (auto& z : ZE) zmax = std::max(zmax, la::maxabs(z));
      if (zmax * std::max(t, t_trial) > 10 * p.kT()) throw Undecided{"levels move far"};
      at(t, Xl, V);
      std::vector<Mat> U(K);
      for (size_t i = 0; i < K; ++i) {
        Mat M = la::adj(Xl[i]) * (p.k[i].S * Xn[i]);
        U[i] = la::loewdin(M, la::eye(p.k[i].nb));
        Mat D = U[i] - M;
        if (!(la::maxabs(D) < 1e-7)) throw Undecided{"step length not determined"};
      }
      X = Xn;
      e = en;
      direction(iter % p.restart == 0, &U);
    }
  }

  /// full run; throws Diverged / Undecided, returns normally if the whole run was followed
  void run(bool follow_end = true)
  {
    size_t K = p.k.size();
    for (auto& k : p.k) X.push_back(k.X0);
    evaluate(X, {}, true);
    for (auto& k : p.k) e.push_back(hii.at(k.key));
    evaluate(X, e);
    direction(true, nullptr);
    for (int it = 0; it < p.maxiter; ++it) {
      iter = it;
      slopes.push_back(slope);
      double s = std::abs(slope);
      if (s > 0.999 * p.tol && s < 1.001 * p.tol) throw Undecided{"slope at tolerance"};
      if (s < p.tol) {
        converged = true;
        return;
      }
      if (slope > 0) {
        failed = true;
        return;
      }
      std::vector<Mat> U(K), Xn(K);
      std::vector<std::vector<double>> en(K);
      auto G = [&](double t) {
        for (size_t i = 0; i < K; ++i) {
          Mat eta = la::diagm(e[i]) + t * ZE[i];
          la::eigh(eta, en[i], U[i]);
          Xn[i] = la::loewdin(X[i] + t * ZX[i], p.k[i].S) * U[i];
        }
        evaluate(Xn, en);
        return F;
      };
      double F0 = F;
      bool ok = false;
      double t = t_trial, a;
      while (true) {
        double F1 = G(t);
        a = (F1 - slope * t - F0) / (t * t);
        decided(F1 - slope * t - F0);
        if (a < 0) {
          n_grow++;
          t *= 5;
          continue;
        }
        break;
      }
      double tm = -slope / (2 * a);
      // sensitivity of the predicted step to rounding, on the scale of the smearing
      double zmax = 0;
      for (auto& z : ZE) zmax = std::max(zmax, la::maxabs(z));
      double dt = tm * 20 * (dev + 1e-15) * (1 + std::abs(F0)) / (std::abs(a) * t * t);
      if (tm > 1e4 || dt * (1 + zmax / p.kT()) > 3e-7) throw Undecided{"step length ill-conditioned"};
      double Fm = G(tm);
      decided(Fm - F0);
      if (Fm > F0) {
        n_bt++;
        for (t = t_trial; t > 1e-8; t *= p.tau) {
          double Fp = G(t);
          decided(Fp - F0);
          if (Fp < F0) {
            ok = true;
            break;
          }
        }
      } else
        ok = true;
      if (ok)
        force = false;
      else {
        n_reset++;
        G(0);
        if (force) {
          failed = true;
          return;
        }
        force = true;
      }
      X = Xn;
      e = en;
      direction(it % p.restart == 0 || force, &U);
    }
  }
};

}  // namespace model
