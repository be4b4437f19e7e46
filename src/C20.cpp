// C20: exceptions of the host reach the caller, the library stays usable.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.max_nG = 7;
  Problem p = gen_problem(g, o);
  p.maxiter = g.pick({3, 0, 1, 8, 40});
  p.tol = g.pick({1e-7, 1e-3});
  describe(g, p);
  Adversary a0;
  a0.draw(g, 4, 2);
  auto go = [&](Host& h) {
    Adversary a = a0;
    a.apply(h);
    return optimise(h, p);
  };
  Host h1(p, all_k(p));
  Run r1 = go(h1);
  long total = h1.ticks;
  int n = g.integer(1, 3);
  for (int i = 0; i < n; ++i) {
    Host h(p, all_k(p));
    h.fault_at = (long)g.draw((uint64_t)total);
    h.fault_kind = g.integer(0, 2);
    g.note("fault " + std::to_string(i), std::to_string(h.fault_at) + " of " + std::to_string(total));
    size_t nrec = 0;
    int nfn = 0, nmu = 0;
    h.on_tick = [&]() {
      if (h.ticks == h.fault_at) nrec = h.rec.size(), nfn = h.n_setfn, nmu = h.n_setmu;
    };
    Run r = go(h);
    std::string id = "fault at callback " + std::to_string(h.fault_at) + " of " + std::to_string(total);
    require(r.threw, id + " was swallowed");
    require(r.fault == (int)h.fault_at && r.fault_kind == h.fault_kind, id + " reached the caller as: " + r.what);
    require(h.rec.size() == nrec && h.n_setfn == nfn && h.n_setmu == nmu, "the run continued after " + id);
    // everything up to the fault is as in the healthy run
    for (size_t e = 0; e < h.rec.size(); ++e)
      for (auto& k : h.rec[e].X) require(k.second.a == h1.rec[e].X.at(k.first).a, "evaluation before the fault differs");
    g.label(h.fault_kind == 0 ? "runtime_error" : h.fault_kind == 1 ? "not a std::exception" : "bad_alloc");
    g.label(nrec == 0 ? "fault:start" : nrec <= 2 ? "fault:initialisation" : "fault:iteration");
  }
  Host h2(p, all_k(p));
  Run r2 = go(h2);
  std::string d = first_difference(h1, h2, r1, r2);
  require(d.empty(), "healthy run after a fault differs: " + d);
  g.nontrivial(h1.rec.size() > 2);
}
BB_MAIN(prop)
