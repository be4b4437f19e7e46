// C07: results do not depend on the distribution of k-points over MPI ranks.
#include <sys/stat.h>
#include "nlcglib.hpp"
#include "tracecmp.hpp"
using namespace model;
using namespace pbt;

static int wrank, wsize;

// ---- schedule: this rank is late in or after its n-th collective operation -------------------------
static std::map<long, int> late_mpi;
static long n_mpi;
static bool late_on;
static int slow;  // microseconds after every collective operation
static void
lag(long n)
{
  if (late_on && slow && n < 0) usleep(slow);
  auto it = late_mpi.find(n);
  if (late_on && it != late_mpi.end()) usleep(1000 * it->second);
}
#define LATE(NAME, PAR, ARG)     \
  extern "C" int NAME PAR        \
  {                              \
    if (late_on) lag(++n_mpi);   \
    int rc = P##NAME ARG;        \
    lag(-n_mpi);                 \
    return rc;                   \
  }
LATE(MPI_Allreduce, (const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (s, r, n, t, o, c))
LATE(MPI_Allgather, (const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, MPI_Comm c), (s, n, t, r, m, u, c))
LATE(MPI_Allgatherv,
     (const void* s, int n, MPI_Datatype t, void* r, const int* m, const int* d, MPI_Datatype u, MPI_Comm c),
     (s, n, t, r, m, d, u, c))
LATE(MPI_Barrier, (MPI_Comm c), (c))

static void
body(Gen& g)
{
  GenOpts o;
  o.max_k = 4;
  o.max_nG = 6;
  o.Tmin = 2000;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-8, 1e-4});
  p.maxiter = g.pick({2, 1, 0, 3, 5, 12});
  // groups of ranks working independently on problems of their own
  bool split = wsize > 2 && g.boolean(1, 4);
  bool reverse = g.boolean(1, 3);
  int color = split ? wrank % 2 : 0;
  if (split && color == 1) {
    // the other group: different problem size, same number of draws
    p.kappa *= 0.5;
    p.maxiter += 1;
  }
  MPI_Comm comm;
  MPI_Comm_split(MPI_COMM_WORLD, color, reverse ? -wrank : wrank, &comm);
  int rank, size;
  MPI_Comm_rank(comm, &rank);
  MPI_Comm_size(comm, &size);
  bool allow_empty = g.boolean(1, 3);
  int nk = p.k.size();
  std::vector<int> owner(nk), order = g.permutation(nk);
  for (int i = 0; i < nk; ++i) owner[i] = (int)(g.draw(1 << 20) % size);
  if (!allow_empty && nk >= size)
    for (int i = 0; i < size; ++i) owner[order[i]] = i;
  std::vector<int> mine;
  std::vector<int> cnt(size, 0);
  for (int i : order) {
    cnt[owner[i]]++;
    if (owner[i] == rank) mine.push_back(i);
  }
  bool empty = false, uneven = false;
  for (int c : cnt) {
    empty = empty || c == 0;
    uneven = uneven || c != cnt[0];
  }
  describe(g, p);
  g.note("owners", owner);
  g.note("order", order);
  g.label("ranks:" + std::to_string(wsize));
  if (empty) g.label("empty-rank");
  if (uneven) g.label("uneven");
  if (split) g.label("two groups");
  // schedule: some ranks are late at some callbacks; all work in the same directory, as in a normal run
  std::map<long, int> late;
  late_mpi.clear();
  slow = 0;
  bool delays = g.boolean(1, 3), shared = !split && g.boolean(1, 2);
  if (delays)
    for (int i = g.integer(1, 3); i > 0; --i) {
      int who = (int)(g.draw(1 << 20) % size), ms = g.integer(1, 4), where = g.integer(0, 3);
      long when = g.pick({5, 40, 150});
      when = g.integer(0, (int)when);
      if (who != rank) continue;
      if (where < 2)
        late[when] = ms;
      else
        late_mpi[where == 2 ? when : -when] = ms;
    }
  if (delays && g.boolean()) {
    int who = (int)(g.draw(1 << 20) % size), us = g.pick({500, 200, 1000});
    if (who == rank) slow = us;
    g.label("slow rank");
  }
  if (delays) g.label("late ranks");
  if (shared) g.label("common directory");
  BaseRun b;
  b.go(p);
  remove("nlcg.json");
  if (shared && wrank != 0 && chdir("..") != 0) throw std::runtime_error("chdir");
  // parallel
  std::string msg;
  {
    Host h(p, mine, comm);
    h.on_tick = [&]() {
      auto it = late.find(h.ticks);
      if (it != late.end()) usleep(1000 * it->second);
    };
    MPI_Barrier(comm);
    n_mpi = 0;
    late_on = true;
    Run r = optimise(h, p);
    late_on = false;
    MPI_Barrier(comm);  // nobody writes any more
    auto bad = [&](const std::string& s) {
      if (msg.empty()) msg = "rank " + std::to_string(rank) + " of " + std::to_string(size) + ": " + s;
    };
    try {
      if (r.threw != b.r.threw && b.s.whole) bad("exception: " + r.what + b.r.what);
      if (!h.protocol.empty()) bad("protocol: " + h.protocol[0]);
      size_t n = std::min(h.rec.size(), b.s.tol.size());
      double worst = 0;
      for (size_t i = 0; i < n; ++i) {
        double d = rec_dist(p, h.rec[i], b.h->rec[i]);
        worst = std::max(worst, d / b.s.tol[i]);
        if (!(d <= b.s.tol[i])) {
          bad("evaluation " + std::to_string(i) + " deviates from the serial run by " + fmt(d) + " (admissible " + fmt(b.s.tol[i]) + ")");
          break;
        }
      }
      g.metric("deviation from serial / bound", worst);
      if (h.rec.size() < b.s.tol.size()) bad("stops after " + std::to_string(h.rec.size()) + " evaluations, serial run does not");
      if (b.s.whole && !b.r.threw && !r.threw) {
        if (h.rec.size() != b.h->rec.size()) bad("number of evaluations differs from the serial run");
        if (r.info.iter != b.r.info.iter || r.info.converged != b.r.info.converged) bad("iterations / convergence flag differ from the serial run");
        if (!(std::abs(r.info.F - b.r.info.F) <= b.s.result)) bad("F " + fmt(r.info.F) + " serial " + fmt(b.r.info.F));
        if (!(std::abs(r.info.S - b.r.info.S) <= b.s.result)) bad("S " + fmt(r.info.S) + " serial " + fmt(b.r.info.S));
        if (!(std::abs(r.info.tolerance - b.r.info.tolerance) <= b.s.result * 10 + 1e-4 * std::abs(b.r.info.tolerance)))
          bad("slope " + fmt(r.info.tolerance) + " serial " + fmt(b.r.info.tolerance));
        if (h.n_print != b.h->n_print) bad("number of announced iterations differs");
        g.label("compared to the end");
      }
      // logs: only the first rank of the communicator writes, and writes everything
      std::vector<nlohmann::json> log;
      if (rank == 0 || !shared) log = read_log();
      if (rank != 0 && !shared && !log.empty()) bad("writes a log although it is not the first rank");
      if (rank == 0 && b.s.whole && !r.threw) {
        if (log.size() != b.log.size()) bad("log length " + std::to_string(log.size()) + " serial " + std::to_string(b.log.size()));
        for (size_t i = 0; i < log.size() && i < b.log.size(); ++i)
          for (const char* what : {"eta", "fn"}) {
            bool has = log[i].contains(what);
            if (has != b.log[i].contains(what)) bad(std::string("log entry missing: ") + what);
            if (!has) continue;
            std::map<kkey, std::vector<double>> x, y;
            for (auto& e : log[i].at(what))
              if (!x.insert({{e.at("ik").get<int>(), e.at("ispn").get<int>()}, e.at("value").get<std::vector<double>>()}).second)
                bad("k-point logged twice");
            for (auto& e : b.log[i].at(what)) y[{e.at("ik").get<int>(), e.at("ispn").get<int>()}] = e.at("value").get<std::vector<double>>();
            if (x.size() != p.k.size() || y.size() != p.k.size()) bad(std::string("log incomplete: ") + what);
            for (auto& kv : y) {
              if (!x.count(kv.first) || x[kv.first].size() != kv.second.size()) {
                bad("log lacks a k-point");
                continue;
              }
              for (size_t j = 0; j < kv.second.size(); ++j)
                if (!(std::abs(kv.second[j] - x[kv.first][j]) <= 1e-9 + 1e3 * b.s.result)) bad(std::string("logged ") + what + " differ from the serial run");
            }
          }
      }
      // identical on all ranks
      std::vector<double> v{r.info.F, r.info.S, r.info.tolerance, (double)r.info.iter, (double)r.info.converged, (double)h.rec.size(), h.mu,
                            (double)r.threw};
      std::vector<double> v0 = v;
      MPI_Bcast(v0.data(), (int)v0.size(), MPI_DOUBLE, 0, comm);
      if (!r.threw && memcmp(v.data(), v0.data(), sizeof(double) * v.size()) != 0) bad("result differs from that of the first rank");
    } catch (std::exception& e) {
      bad(e.what());
    }
  }
  if (shared && wrank != 0 && chdir(("rank" + std::to_string(wrank)).c_str()) != 0) throw std::runtime_error("chdir");
  // agree on the outcome
  int f = msg.empty() ? 0 : 1, any;
  MPI_Allreduce(&f, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Comm_free(&comm);
  g.nontrivial(!(nk == 1 && size == 1) && size > 1 && p.maxiter > 0);
  if (any) {
    char buf[400];
    snprintf(buf, sizeof buf, "%s", msg.c_str());
    std::vector<char> all(400 * wsize);
    MPI_Allgather(buf, 400, MPI_CHAR, all.data(), 400, MPI_CHAR, MPI_COMM_WORLD);
    for (int i = 0; i < wsize; ++i)
      if (all[400 * i]) throw Fail(all.data() + 400 * i);
  }
}

int
main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  // log files of the ranks are kept apart
  if (wrank != 0) {
    std::string d = "rank" + std::to_string(wrank);
    mkdir(d.c_str(), 0755);
  }
  nlcglib::initialize();
  // the replay file is given relative to the start directory
  std::vector<std::string> a(argv, argv + argc);
  for (int i = 1; i + 1 < argc; ++i)
    if (a[i] == "--replay" && a[i + 1][0] != '/') {
      char cwd[4096];
      if (getcwd(cwd, sizeof cwd)) a[i + 1] = std::string(cwd) + "/" + a[i + 1];
    }
  std::vector<char*> av;
  for (auto& s : a) av.push_back(&s[0]);
  if (wrank != 0 && chdir(("rank" + std::to_string(wrank)).c_str()) != 0) return 3;
  int rc = pbt::run((int)av.size(), av.data(), body, wrank);
  nlcglib::finalize();
  MPI_Finalize();
  return rc;
}
