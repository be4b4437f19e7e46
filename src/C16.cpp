// C16: nlcg.json equals the history of the run.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
check_log(Gen& g, const Problem& p, Host& h, const Run& r)
{
  auto log = read_log();
  bool done = !r.threw;
  if (done) {
    int want = r.info.iter < p.maxiter ? r.info.iter + 1 : p.maxiter;
    require((int)log.size() == want, "log has " + std::to_string(log.size()) + " records, " + std::to_string(want) + " iterations were made");
  } else
    require((int)log.size() == h.n_print || (int)log.size() == h.n_print + 1,
            "log of an aborted run has " + std::to_string(log.size()) + " records after " + std::to_string(h.n_print) + " iterations");
  for (size_t i = 0; i < log.size() && i < h.print_at.size(); ++i) {
    auto& j = log[i];
    std::string at = " of record " + std::to_string(i);
    require(j.at("step").get<int>() == (int)i, "step number" + at + " is " + j.at("step").dump());
    require(j.at("type") == "cg_iteration", "type" + at);
    const Record& s = h.rec[h.print_at[i] - 1];
    double E = j.at("EKS").get<double>(), F = j.at("F").get<double>(), S = j.at("entropy").get<double>();
    double mu = j.at("fermi_energy").get<double>();
    require(E == s.Erep, "EKS" + at + ": " + fmt(E) + " vs " + fmt(s.Erep));
    require(mu == s.mu, "fermi_energy" + at + ": " + fmt(mu) + " vs " + fmt(s.mu));
    near_abs(g, "F = EKS + entropy", F, E + S, 1e-12 * (1 + std::abs(F)));
    if (ref::monotone(p.sm)) near_abs(g, "entropy", S, entropy_term(p, s.fn), 1e-9);
    auto& comp = j.at("ks_energy_comps");
    require(comp.size() == 2 && comp.at("total").get<double>() == s.Erep && comp.at("n_eval").get<double>() == (double)h.print_at[i],
            "energy components" + at + ": " + comp.dump());
    require(j.at("slope_x").is_number() && std::isfinite(j.at("slope_x").get<double>()), "slope" + at);
    bool full = i % 10 == 0;
    require(j.count("eta") == full && j.count("fn") == full, "levels/occupations" + at);
    if (full) {
      std::map<kkey, std::vector<double>> eta, fn;
      for (auto* what : {"eta", "fn"})
        for (auto& x : j.at(what)) {
          auto& m = std::string(what) == "eta" ? eta : fn;
          kkey k{x.at("ik").get<int>(), x.at("ispn").get<int>()};
          require(m.emplace(k, x.at("value").get<std::vector<double>>()).second, std::string(what) + at + ": k-point occurs twice");
        }
      require(eta.size() == p.k.size() && fn.size() == p.k.size(), "k-points" + at);
      for (auto& k : p.k) {
        require(fn.count(k.key) && eta.count(k.key), "k-point missing" + at);
        require(fn.at(k.key) == s.fn.at(k.key), "occupations" + at);
        require(eta.at(k.key).size() == (size_t)k.nb, "number of levels" + at);
        for (int b = 0; b < k.nb; ++b) {
          double f = p.occ * (double)ref::f(p.sm, ((ref::ld)mu - eta.at(k.key)[b]) / p.kT());
          near_abs(g, "level reproduces occupation", f, fn.at(k.key)[b], 1e-11);
        }
      }
      if (i) g.label("record>=10");
    }
  }
  if (done && r.info.iter < p.maxiter) {
    require(log.back().at("slope_x").get<double>() == r.info.tolerance, "last slope differs from the result");
    require(log.back().at("F").get<double>() == r.info.F, "last F differs from the result");
    require(log.back().at("entropy").get<double>() == r.info.S, "last entropy differs from the result");
  }
  if (done && r.info.converged) {
    std::ifstream f("nlcg.out");
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    require(s.find("NLCG SUCCESS") != std::string::npos, "nlcg.out of a converged run does not say so");
    char b[64];
    snprintf(b, sizeof b, "%.13f", r.info.F);
    require(s.find(b) != std::string::npos, "nlcg.out does not contain the final free energy");
  }
}

static void
prop(Gen& g)
{
  int n = g.integer(1, 3);
  bool nt = false;
  unlink("nlcg.json");
  for (int run = 0; run < n; ++run) {
    GenOpts o;
    o.max_nG = 7;
    Problem p = gen_problem(g, o);
    p.maxiter = g.pick({4, 0, 1, 12, 25, 60});
    p.tol = g.pick({1e-9, 1e-12, 1e-3});
    if (g.boolean(1, 20)) {
      // a long run: steepest descent with a bad preconditioner
      p.maxiter = 130;
      p.restart = 1;
      p.tol = 1e-13;
      auto st = g.stream();
      for (auto& k : p.k) {
        std::vector<double> ke(k.nG);
        for (auto& x : ke) x = std::exp(-6 * st.uni());
        k.K = la::rand_herm(st, ke);
      }
    }
    describe(g, p);
    Host h(p, all_k(p));
    Adversary adv;
    adv.draw(g, 4, 1);
    adv.apply(h);
    if (g.boolean(1, 8)) {
      h.fault_at = g.integer(0, 300);
      g.label("fault");
    }
    Run r = optimise(h, p);
    if (r.threw && h.n_print == 0) continue;  // an aborted initialisation need not have removed the old log
    if (r.threw && r.fault < 0 && !no_mu(h, r)) throw Fail("exception: " + r.what);
    check_log(g, p, h, r);
    if (h.n_print > 100) g.label("more than 100 records");
    if (!r.threw && h.n_print > 0 && h.fault_at < 0) {
      // record i equals the result of the run limited to i iterations
      auto log = read_log();
      Problem q = p;
      q.maxiter = g.integer(0, (int)log.size() - 1);
      Host h2(q, all_k(q));
      Adversary adv2 = adv;
      adv2.anchor.reset();
      adv2.apply(h2);
      Run r2 = optimise(h2, q);
      auto& j = log[q.maxiter];
      std::string at = " of record " + std::to_string(q.maxiter) + " is not that of the run limited to as many iterations: ";
      require(!r2.threw, "limited run ends with an exception: " + r2.what);
      auto same = [](double a, double b) { return std::abs(a - b) <= 1e-10 * std::max(std::abs(a), std::abs(b)); };
      require(same(r2.info.F, j.at("F").get<double>()), "F" + at + j.at("F").dump() + " / " + fmt(r2.info.F));
      require(same(r2.info.S, j.at("entropy").get<double>()), "entropy" + at + j.at("entropy").dump() + " / " + fmt(r2.info.S));
      require(same(r2.info.tolerance, j.at("slope_x").get<double>()), "slope" + at + j.at("slope_x").dump() + " / " + fmt(r2.info.tolerance));
    }
    nt = nt || (h.n_print >= 2);
    g.label(r.threw ? "aborted" : r.info.converged ? "converged" : r.info.iter == p.maxiter ? "limit" : "failed");
  }
  g.nontrivial(nt);
}
BB_MAIN(prop)
