// C15: only the host memory that may be written is written, operators get proper buffers.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  Problem p = gen_problem(g, o);
  p.maxiter = g.pick({3, 0, 1, 10, 30});
  p.tol = g.pick({1e-9, 1e-4});
  describe(g, p);
  Layout lay;
  bool padded = false;
  for (size_t i = 0; i < p.k.size(); ++i) {
    lay.padC.push_back(g.weighted({1, 3}) ? g.integer(1, 5) : 0);
    lay.padH.push_back(g.weighted({1, 3}) ? g.integer(1, 5) : 0);
    lay.front.push_back(g.integer(0, 2));
    padded = padded || lay.padC.back();
  }
  // vectors with a stride; matrices whose columns are not contiguous
  lay.vstride = g.weighted({3, 1}) ? g.integer(2, 4) : 1;
  bool wide = g.weighted({9, 1});
  if (wide)
    for (size_t i = 0; i < p.k.size(); ++i) {
      lay.gap.push_back(g.pick({1, 0, 2}));
      lay.row_major.push_back(g.integer(0, 1));
      if (p.k[i].nb == 1 || p.k[i].nG == 1) lay.row_major.back() = 0;
    }
  std::vector<int> order = g.permutation((int)p.k.size());
  std::vector<int> op_order = g.permutation((int)p.k.size());
  Host h(p, order, MPI_COMM_SELF, &lay);
  h.keep_shadow = true;
  h.shadow();
  h.guarded = true;
  h.guard(true);
  Adversary adv;
  adv.draw(g, 3, 1);
  adv.apply(h);
  std::string bad;
  h.on_tick = [&]() {
    if (!bad.empty()) return;
    h.guard(false);
    std::string t = h.touched();
    if (!t.empty()) bad = t + " buffer was modified by the library";
    for (size_t i = 0; i < h.keys.size() && bad.empty(); ++i) {
      if (!h.C.canaries_ok((int)i)) bad = "padding of the orbital buffer was overwritten";
      if (!h.HX.canaries_ok((int)i)) bad = "padding of the H*psi buffer was overwritten";
    }
    h.guard(true);
    if (!bad.empty()) bad += " (callback " + std::to_string(h.ticks) + ")";
  };
  Run r = optimise(h, p, 0, &op_order);
  h.on_tick();
  require(bad.empty(), bad);
  for (auto& s : h.protocol) throw Fail("protocol: " + s);
  require(!h.non_host_request, "buffers requested in device memory");
  if (r.threw && !no_mu(h, r)) throw Fail("exception: " + r.what);
  // padding was never read: its values are huge
  for (auto& x : h.rec) {
    for (auto& X : x.X)
      for (auto& z : X.second.a) require(std::isfinite(z.real()) && std::isfinite(z.imag()) && std::abs(z) < 1e6, "orbitals contain data from outside the buffers");
    require(std::isfinite(x.Erep) && std::abs(x.Erep) < 1e9, "energy contains data from outside the buffers");
  }
  if (!r.threw) require(std::isfinite(r.info.F) && std::isfinite(r.info.tolerance) && std::abs(r.info.tolerance) < 1e20, "result contains data from outside the buffers");
  g.label(lay.vstride > 1 ? "strided vectors" : "contiguous vectors");
  g.label(wide ? "columns not contiguous" : "contiguous columns");
  g.label(padded ? "padded" : "compact");
  g.nontrivial(padded && h.rec.size() >= 4);
}
BB_MAIN(prop)
