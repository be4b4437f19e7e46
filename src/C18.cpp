// C18: a run depends on its inputs only, not on what ran before in the process.
#include "bbmain.hpp"
#include "fresh.hpp"
using namespace model;
using namespace pbt;

static Zygote* fresh = nullptr;

struct Subject
{
  Problem p;
  Adversary a0;
  void draw(Gen& g)
  {
    GenOpts o;
    o.max_nG = 8;
    p = gen_problem(g, o);
    p.maxiter = g.pick({5, 0, 1, 20, 60});
    p.tol = g.pick({1e-7, 1e-3, 1e-12});
    a0.draw(g, 4, 1);
  }
  std::vector<std::string> run(size_t* n = nullptr)
  {
    Adversary a = a0;
    Host h(p, all_k(p));
    a.apply(h);
    Run r = optimise(h, p);
    if (n) *n = h.rec.size();
    std::vector<nlohmann::json> log;
    if (!r.threw) log = read_log();
    return fingerprint(h, r, log);
  }
};

static void
compare(const std::vector<std::string>& a, const std::vector<std::string>& b, const std::string& what)
{
  for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
    if (a[i] != b[i]) throw Fail(what + " differs: '" + a[i] + "' / '" + b[i] + "'");
  require(a.size() == b.size(), what + " differs in length");
}

static void
prop(Gen& g)
{
  Subject s;
  s.draw(g);
  describe(g, s.p);
  auto alone = fresh->run(g.tape);
  require(alone.empty() || alone[0].compare(0, 6, "failed") != 0, "run in a fresh process: " + (alone.empty() ? "" : alone[0]));
  size_t evals = 0;
  bool first = g.boolean(1, 3);
  if (first) compare(alone, s.run(), "run compared with the same run in a fresh process");
  int n = g.integer(0, 3);
  for (int i = 0; i < n; ++i) {
    GenOpts oo;
    oo.max_nG = 8;
    Problem q = g.boolean(1, 3) ? s.p : gen_problem(g, oo);
    if (g.boolean(1, 4)) q.T *= g.pick({1.5, 0.5, 4.0});
    if (g.boolean(1, 4)) q.sm = ref::ALL[g.draw(5)];
    q.maxiter = g.pick({3, 0, 30});
    q.tol = g.pick({1e-9, 1e-2});
    Host h(q, all_k(q));
    Adversary b;
    b.draw(g, 2, 1);
    b.apply(h);
    if (g.boolean(1, 4)) {
      h.fault_at = g.integer(0, 400);
      h.fault_kind = g.integer(0, 2);
    }
    optimise(h, q);
    g.label(h.fault_at >= 0 ? "history:aborted" : "history:run");
  }
  std::vector<char> ballast(g.integer(0, 5000));  // different heap layout
  compare(alone, s.run(&evals), "run after " + std::to_string(n + first) + " others compared with the same run in a fresh process");
  g.label("runs-between:" + std::to_string(n));
  g.nontrivial(n + first > 0 && evals >= 4);
}

int
main(int argc, char** argv)
{
  int c = 0;
  MPI_Init(&c, nullptr);
  nlcglib::initialize();
  fflush(stdout);
  int devnull = open("/dev/null", O_WRONLY);
  if (devnull >= 0) dup2(devnull, 1);
  int rc;
  {
    Zygote z([](const std::vector<uint64_t>& tape) {
      Gen g(tape, nullptr);
      Subject s;
      s.draw(g);
      return s.run();
    });
    fresh = &z;
    rc = pbt::run(argc, argv, prop);
  }
  nlcglib::finalize();
  MPI_Finalize();
  return rc;
}
