// C17: invalid requests are refused and leave the host alone.
#include "bbmain.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static void
prop(Gen& g)
{
  GenOpts o;
  o.max_nG = 7;
  Problem p = gen_problem(g, o);
  p.maxiter = g.pick({3, 1, 0, 8});
  p.tol = 1e-6;
  describe(g, p);
  Host ref_h(p, all_k(p));
  Run ref_r = optimise(ref_h, p);
  int tries = g.integer(1, 3);
  for (int t = 0; t < tries; ++t) {
    Problem q = p;
    Host h(q, all_k(q));
    int entry = 0;
    bool may_evaluate = false, only_threw = false;
    int kind = g.integer(0, 4);
    std::string what;
    switch (kind) {
      case 0:
        q.T = g.pick({0.0, -0.0, -1.0, -300.0, -1e-300, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
        what = "T=" + fmt(q.T);
        break;
      case 1:
        q.restart = g.pick({0, -1, -7, -2147483647 - 1});
        what = "restart=" + std::to_string(q.restart);
        break;
      case 2: {
        int s = g.pick({5, -1, 6, 17, 1000000});
        q.sm = (smearing_type)s;
        what = "smearing=" + std::to_string(s);
        break;
      }
      case 3:
        entry = g.integer(2, 7);
        what = "entry point " + std::to_string(entry);
        break;
      case 4: {
        char c = g.pick({'C', 'E', 'H'});
        only_threw = c == 'H';  // the buffer is not needed before the first evaluation
        h.memtype[c] = g.pick({memory_type::device, memory_type::none});
        may_evaluate = true;
        if (g.boolean()) h.memtype_at = g.integer(0, (int)h.keys.size() - 1);
        what = std::string("memory of ") + c;
        break;
      }
    }
    g.note("request " + std::to_string(t), what);
    g.label("invalid:" + std::string(kind == 0 ? "T" : kind == 1 ? "restart" : kind == 2 ? "smearing" : kind == 3 ? "entry" : "memory"));
    auto C0 = h.C.buf;
    auto fn0 = h.fn;
    Run r = optimise(h, q, entry);
    require(r.threw, "not refused: " + what);
    require(!r.runaway, "does not terminate: " + what);
    if (only_threw) continue;
    require(Host::same_bits(h.C.buf, C0), "orbitals changed by a refused request: " + what);
    require(h.fn == fn0 && h.n_setfn == 0, "occupations changed by a refused request: " + what);
    require(h.n_setmu == 0, "chemical potential changed by a refused request: " + what);
    if (!may_evaluate) require(h.rec.empty(), "energy evaluated for a refused request: " + what);
  }
  // the library stays usable
  int entry = g.integer(0, 1);
  Host h2(p, all_k(p));
  Run r2 = optimise(h2, p, entry);
  std::string d = first_difference(ref_h, h2, ref_r, r2);
  require(d.empty(), "valid run after refused requests differs: " + d);
  g.nontrivial();
}
BB_MAIN(prop)
