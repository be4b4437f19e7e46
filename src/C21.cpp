// C21: nlcg.out and the console tell the truth about the run; both logs survive the death of the process at any evaluation.
#include <sys/stat.h>
#include <regex>
#include "nlcglib.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static int wrank, wsize;

static std::string
slurp(const char* f)
{
  std::ifstream in(f);
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

struct Block
{
  int step{-1};
  double F{NAN}, slope{NAN}, S{NAN}, mu{NAN}, E{NAN};
  int have{0};
};

struct Text
{
  std::map<std::string, std::string> head;  // label -> value, before the first block
  std::vector<Block> blocks;
  std::map<std::string, double> tail;  // label -> value, not part of a block
  bool success{false}, error{false};
};

/// letters and digits only, lower case
static std::string
squeeze(const std::string& s)
{
  std::string r;
  for (char c : s)
    if (isalnum((unsigned char)c)) r += (char)tolower(c);
  return r;
}

static bool
number(const std::string& s, double& x)
{
  char* e = nullptr;
  x = strtod(s.c_str(), &e);
  if (e == s.c_str()) return false;
  while (*e && isspace((unsigned char)*e)) ++e;
  return *e == 0;
}

static Text
parse(const std::string& s)
{
  Text t;
  std::istringstream in(s);
  std::string line;
  while (std::getline(in, line)) {
    std::string l;
    for (char c : line) l += (char)tolower(c);
    if (l.find("nlcg success") != std::string::npos) t.success = true;
    if (l.find("[nlcg] error") != std::string::npos) t.error = true;
    // iteration line: integer, two or more numbers
    {
      std::istringstream w(line);
      std::vector<std::string> tok;
      std::string x;
      while (w >> x) tok.push_back(x);
      double a, b, c;
      if (tok.size() >= 3 && tok[0].find_first_not_of("0123456789") == std::string::npos && number(tok[0], a) && number(tok[1], b) && number(tok[2], c)) {
        Block k;
        k.step = (int)a;
        k.F = b;
        k.slope = c;
        t.blocks.push_back(k);
        continue;
      }
    }
    auto p = line.find(':');
    if (p == std::string::npos) p = line.find('=');
    if (p == std::string::npos) continue;
    std::string name = squeeze(line.substr(0, p)), val = line.substr(p + 1);
    if (t.blocks.empty()) {
      auto b = val.find_first_not_of(" \t");
      t.head.emplace(name, b == std::string::npos ? "" : val.substr(b));
      continue;
    }
    double x;
    if (!number(val, x)) continue;
    Block& k = t.blocks.back();
    auto put = [&](double& d, int bit) {
      if (k.have & bit)
        t.tail[name] = x;
      else {
        d = x;
        k.have |= bit;
      }
    };
    if (name == "kts")
      put(k.S, 1);
    else if (name == "fermienergy")
      put(k.mu, 2);
    else if (name == "ksenergy")
      put(k.E, 4);
    else
      t.tail[name] = x;
  }
  return t;
}

static void
near6(Gen& g, const char* metric, double a, double b, double tol, const std::string& what)
{
  double d = std::abs(a - b);
  g.metric(metric, a == b ? 0 : d / tol);
  if (!(a == b) && !(d <= tol)) throw Fail(what + ": " + fmt(a) + " is not " + fmt(b));
}

/// 13 decimals
static void
fixed13(Gen& g, const std::string& what, double printed, double v)
{
  if (!std::isfinite(v)) return;
  near6(g, "13 decimals", printed, v, 6e-14 + 1e-15 * std::abs(v), what);
}

static void
check_blocks(Gen& g, const std::string& where, const Problem& p, const Text& t, const Host& h, const Run& r, const std::vector<nlohmann::json>& log)
{
  bool limit = !r.info.converged && r.info.iter == p.maxiter;
  int want = h.n_print + (limit ? 1 : 0);
  require((int)t.blocks.size() == want, where + " lists " + std::to_string(t.blocks.size()) + " states, the run went through " + std::to_string(want));
  for (int i = 0; i < want; ++i) {
    auto& b = t.blocks[i];
    std::string at = where + ", iteration " + std::to_string(i) + ": ";
    require(b.step == i, at + "is numbered " + std::to_string(b.step));
    require(b.have == 7, at + "entropy, Fermi level or energy missing");
    const Record& s = i < (int)h.print_at.size() ? h.rec[h.print_at[i] - 1] : h.rec.back();
    fixed13(g, at + "KS energy", b.E, s.Erep);
    fixed13(g, at + "Fermi energy", b.mu, s.mu);
    if (i < (int)log.size()) {
      fixed13(g, at + "free energy", b.F, log[i].at("F").get<double>());
      fixed13(g, at + "kT * S", b.S, log[i].at("entropy").get<double>());
      double sl = log[i].at("slope_x").get<double>();
      near6(g, "slope", b.slope, sl, 1e-13 * std::abs(sl) + 1e-300, at + "slope");
    }
    if (std::isfinite(s.Erep)) near6(g, "F = E + S", b.F, b.E + b.S, 3e-13 + 1e-14 * std::abs(b.F), at + "F");
  }
  if (limit || r.info.converged || want) {
    auto& b = t.blocks.back();
    std::string at = where + ", last state against the result: ";
    require(b.step == r.info.iter, at + "iteration");
    fixed13(g, at + "free energy", b.F, r.info.F);
    fixed13(g, at + "kT * S", b.S, r.info.S);
    near6(g, "slope", b.slope, r.info.tolerance, 1e-13 * std::abs(r.info.tolerance) + 1e-300, at + "slope");
  }
  require(t.success == r.info.converged, where + (t.success ? " announces success of a run that did not converge" : " does not announce the success of a converged run"));
  if (r.info.converged) {
    auto tail = [&](const char* k, double v) {
      require(t.tail.count(k), where + ": final summary lacks " + k);
      near6(g, "summary", t.tail.at(k), v, 2e-12 * (1 + std::abs(v)), where + ": final summary, " + k);
    };
    tail("kts", r.info.S);
    tail("f", r.info.F);
    tail("ksenergy", h.rec.back().Erep);
  }
}

static void
one(Gen& g, bool& nt)
{
  GenOpts o;
  o.max_nG = 6;
  Problem p = gen_problem(g, o);
  p.maxiter = g.pick({4, 0, 1, 2, 12, 25});
  p.tol = g.pick({1e-9, 1e-12, 1e-3, 1e-5});
  if (g.boolean(1, 3)) p.tol *= g.logreal(0.3, 3);
  describe(g, p);
  int nk = p.k.size();
  std::vector<int> mine;
  for (int i = 0; i < nk; ++i)
    if ((int)(g.draw(1 << 20) % wsize) == wrank) mine.push_back(i);
  MPI_Comm comm = wsize > 1 ? MPI_COMM_WORLD : MPI_COMM_SELF;
  Host h(p, mine, comm);
  Adversary adv;
  if (wsize == 1)
    adv.draw(g, 3, 1);
  else {
    adv.mode = g.pick({0, 4, 5});
    adv.at = g.integer(0, 6);
  }
  adv.apply(h);
  // the process might die in these evaluations: what would be left?
  std::set<int> crash;
  int nc = g.integer(0, 3);
  for (int i = 0; i < nc; ++i) crash.insert(g.integer(0, 40));
  std::string msg;
  bool looked = false;
  h.on_compute = [&](const Record&, int n) {
    if (!crash.count(n) || wrank != 0 || !msg.empty()) return;
    if (h.n_print == 0) return;
    looked = true;
    std::string at = "a crash in evaluation " + std::to_string(n) + " (iteration " + std::to_string(h.n_print - 1) + ") ";
    try {
      auto log = read_log();
      if ((int)log.size() != h.n_print) msg = at + "leaves " + std::to_string(log.size()) + " records in nlcg.json";
    } catch (Fail& f) {
      msg = at + f.what();
    }
    Text t = parse(slurp("nlcg.out"));
    int nb = t.blocks.size();
    if (h.n_print > 1 && (nb < h.n_print - 1 || nb > h.n_print)) msg = at + "leaves " + std::to_string(nb) + " states in nlcg.out";
    if (t.success) msg = at + "leaves a success message in nlcg.out";
  };
  bool fault = wsize == 1 && g.boolean(1, 10);
  if (fault) h.fault_at = g.integer(0, 300);
  if (wrank != 0) unlink("nlcg.out");
  // the console of this process
  std::cout.flush();
  fflush(stdout);
  int keep = dup(1), con = open("console.txt", O_RDWR | O_CREAT | O_TRUNC, 0644);
  dup2(con, 1);
  Run r = optimise(h, p);
  std::cout.flush();
  fflush(stdout);
  dup2(keep, 1);
  close(keep);
  close(con);
  require(msg.empty(), msg);
  if (looked) g.label("looked at the files during the run");
  if (r.threw) {
    if (r.fault < 0 && !no_mu(h, r)) throw Fail("exception: " + r.what);
    g.label("aborted");
    if (wrank == 0 && h.n_print) require((int)read_log().size() >= h.n_print, "an aborted run lost records of nlcg.json");
    if (wrank == 0 && h.n_print > 1) {
      int nb = parse(slurp("nlcg.out")).blocks.size();
      require(nb >= h.n_print - 1, "nlcg.out of a run aborted in iteration " + std::to_string(h.n_print - 1) + " has only " + std::to_string(nb) + " states");
    }
    if (wrank == 0) require(!parse(slurp("console.txt")).success, "an aborted run announces success on the console");
    return;
  }
  std::string out = slurp("nlcg.out"), cons = slurp("console.txt");
  if (wrank != 0) {
    require(out.empty(), "a rank other than the first writes nlcg.out");
    require(parse(cons).blocks.empty() && !parse(cons).success, "a rank other than the first reports on the console");
    nt = true;
    return;
  }
  auto log = read_log();
  Text t = parse(out);
  // parameters
  auto num = [&](const char* k, double v) {
    require(t.head.count(k), std::string("nlcg.out lacks the parameter ") + k);
    double x;
    require(number(t.head.at(k), x), std::string("nlcg.out, parameter ") + k + ": " + t.head.at(k));
    near6(g, "parameter", x, v, 1e-5 * std::abs(v), std::string("nlcg.out, parameter ") + k);
  };
  num("t", p.T);
  num("maxiter", p.maxiter);
  num("tol", p.tol);
  num("kappa", p.kappa);
  num("tau", p.tau);
  num("restart", p.restart);
  num("numelectrons", p.Ne);
  static const std::map<smearing_type, std::string> names{{smearing_type::FERMI_DIRAC, "fermidirac"},
                                                          {smearing_type::COLD, "cold"},
                                                          {smearing_type::GAUSS, "gauss"},
                                                          {smearing_type::METHFESSEL_PAXTON, "methfesselpaxton"},
                                                          {smearing_type::GAUSSIAN_SPLINE, "gaussianspline"}};
  require(t.head.count("smearing") && squeeze(t.head.at("smearing")) == names.at(p.sm),
          "nlcg.out names the wrong smearing: " + (t.head.count("smearing") ? t.head.at("smearing") : std::string("none")));
  check_blocks(g, "nlcg.out", p, t, h, r, log);
  check_blocks(g, "console", p, parse(cons), h, r, log);
  bool failed = !r.info.converged && r.info.iter < p.maxiter;
  require(t.error == failed, failed ? "nlcg.out does not report the failed line search" : "nlcg.out reports an error of a run that had none");
  g.label(r.info.converged ? "converged" : failed ? "failed" : "limit");
  nt = nt || h.n_print >= 1;
}

static void
body(Gen& g)
{
  int n = g.integer(1, 3);
  bool nt = false;
  std::string msg;
  for (int i = 0; i < n && msg.empty(); ++i) {
    try {
      one(g, nt);
    } catch (Fail& f) {
      if (wsize == 1) throw;
      msg = f.what();
    }
    if (wsize > 1) {
      int f = msg.empty() ? 0 : 1, any;
      MPI_Allreduce(&f, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (any) {
        char buf[400];
        snprintf(buf, sizeof buf, "%s", msg.c_str());
        std::vector<char> all(400 * wsize);
        MPI_Allgather(buf, 400, MPI_CHAR, all.data(), 400, MPI_CHAR, MPI_COMM_WORLD);
        for (int k = 0; k < wsize; ++k)
          if (all[400 * k]) throw Fail(all.data() + 400 * k);
      }
    }
  }
  g.nontrivial(nt);
}

int
main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  if (wrank != 0) {
    std::string d = "rank" + std::to_string(wrank);
    mkdir(d.c_str(), 0755);
  }
  nlcglib::initialize();
  // the replay file is given relative to the start directory
  std::vector<std::string> a(argv, argv + argc);
  for (int i = 1; i + 1 < argc; ++i)
    if (a[i] == "--replay" && a[i + 1][0] != '/') {
      char cwd[4096];
      if (getcwd(cwd, sizeof cwd)) a[i + 1] = std::string(cwd) + "/" + a[i + 1];
    }
  std::vector<char*> av;
  for (auto& s : a) av.push_back(&s[0]);
  if (wrank != 0 && chdir(("rank" + std::to_string(wrank)).c_str()) != 0) return 3;
  int rc = pbt::run((int)av.size(), av.data(), body, wrank);
  nlcglib::finalize();
  MPI_Finalize();
  return rc;
}
