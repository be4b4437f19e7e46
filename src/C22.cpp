// C22: a run gives back what it takes: host buffers, memory, MPI objects, files.
#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <atomic>
#include "nlcglib.hpp"
#include "trace.hpp"
using namespace model;
using namespace pbt;

static int wrank, wsize;

// ---- MPI objects ---------------------------------------------------------------------------------
static std::atomic<long> mpi_types{0}, mpi_comms{0}, mpi_others{0};
#define PASS(NAME, PAR, ARG, COUNT)                  \
  extern "C" int NAME PAR                            \
  {                                                  \
    int rc = P##NAME ARG;                            \
    if (rc == MPI_SUCCESS) COUNT;                    \
    return rc;                                       \
  }
PASS(MPI_Type_create_struct, (int n, const int* b, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* r), (n, b, d, t, r), ++mpi_types)
PASS(MPI_Type_contiguous, (int n, MPI_Datatype t, MPI_Datatype* r), (n, t, r), ++mpi_types)
PASS(MPI_Type_vector, (int n, int b, int s, MPI_Datatype t, MPI_Datatype* r), (n, b, s, t, r), ++mpi_types)
PASS(MPI_Type_create_resized, (MPI_Datatype t, MPI_Aint l, MPI_Aint e, MPI_Datatype* r), (t, l, e, r), ++mpi_types)
PASS(MPI_Type_dup, (MPI_Datatype t, MPI_Datatype* r), (t, r), ++mpi_types)
PASS(MPI_Type_free, (MPI_Datatype * t), (t), --mpi_types)
PASS(MPI_Comm_dup, (MPI_Comm c, MPI_Comm* r), (c, r), ++mpi_comms)
PASS(MPI_Comm_split, (MPI_Comm c, int k, int o, MPI_Comm* r), (c, k, o, r), mpi_comms += *r != MPI_COMM_NULL)
PASS(MPI_Comm_create, (MPI_Comm c, MPI_Group g, MPI_Comm* r), (c, g, r), mpi_comms += *r != MPI_COMM_NULL)
PASS(MPI_Comm_free, (MPI_Comm * c), (c), --mpi_comms)
PASS(MPI_Comm_group, (MPI_Comm c, MPI_Group* r), (c, r), ++mpi_others)
PASS(MPI_Group_incl, (MPI_Group g, int n, const int* k, MPI_Group* r), (g, n, k, r), ++mpi_others)
PASS(MPI_Group_free, (MPI_Group * g), (g), --mpi_others)
PASS(MPI_Op_create, (MPI_User_function * f, int c, MPI_Op* r), (f, c, r), ++mpi_others)
PASS(MPI_Op_free, (MPI_Op * o), (o), --mpi_others)

// ---- memory --------------------------------------------------------------------------------------
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
}
static std::atomic<long> live_blocks{0}, live_bytes{0};
static inline void*
took(void* p)
{
  if (p) {
    live_blocks.fetch_add(1, std::memory_order_relaxed);
    live_bytes.fetch_add((long)malloc_usable_size(p), std::memory_order_relaxed);
  }
  return p;
}
static inline void
gave(void* p)
{
  if (p) {
    live_blocks.fetch_sub(1, std::memory_order_relaxed);
    live_bytes.fetch_sub((long)malloc_usable_size(p), std::memory_order_relaxed);
  }
}
extern "C" {
void* malloc(size_t n) { return took(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
void*
realloc(void* p, size_t n)
{
  gave(p);
  return took(__libc_realloc(p, n));
}
void* memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int
posix_memalign(void** p, size_t a, size_t n)
{
  *p = took(__libc_memalign(a, n));
  return *p ? 0 : 12;
}
void
free(void* p)
{
  gave(p);
  __libc_free(p);
}
}

static long
files()
{
  long n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) ++n;
    closedir(d);
  }
  return n;
}

struct Count
{
  long blocks, bytes, types, comms, others, files;
};
static const char* WHAT[] = {"blocks of memory", "bytes of memory", "MPI datatypes", "MPI communicators", "MPI groups or operations", "open files"};
static long
nth(const Count& c, int i)
{
  return i == 0 ? c.blocks : i == 1 ? c.bytes : i == 2 ? c.types : i == 3 ? c.comms : i == 4 ? c.others : c.files;
}
static Count
count()
{
  return {live_blocks, live_bytes, mpi_types, mpi_comms, mpi_others, ::files()};
}

static bool nontriv;

static void
one(Gen& g)
{
  GenOpts o;
  o.max_nG = 6;
  o.big = 40;
  Problem p = gen_problem(g, o);
  p.maxiter = g.pick({3, 0, 1, 6, 15});
  p.tol = g.pick({1e-9, 1e-3});
  describe(g, p);
  int nk = p.k.size();
  std::vector<int> mine;
  for (int i = 0; i < nk; ++i)
    if ((int)(g.draw(1 << 20) % wsize) == wrank) mine.push_back(i);
  MPI_Comm comm = wsize > 1 ? MPI_COMM_WORLD : MPI_COMM_SELF;
  Adversary a0;
  if (wsize == 1)
    a0.draw(g, 3, 1);
  else {
    a0.mode = g.pick({0, 4, 5});
    a0.at = g.integer(0, 6);
  }
  // 0: to the end, 1: exception of the host, 2: request that must be refused
  int way = g.integer(0, 5);
  way = wsize > 1 ? 0 : way == 4 ? 1 : way == 5 ? 2 : 0;
  long fault = way == 1 ? g.integer(0, 400) : -1;
  int kind = g.integer(0, 2), entry = 0;
  if (way == 2) switch (g.integer(0, 4)) {
      case 0: p.T = -p.T; break;
      case 1: p.restart = -g.integer(0, 2); break;
      case 2: p.sm = (smearing_type)(20 + g.integer(0, 5)); break;
      case 3: entry = g.integer(2, 7); break;
      default: kind = 9;
    }
  bool temp = g.boolean();
  g.note("ends", way == 0 ? "normally" : way == 1 ? "host exception at callback " + std::to_string(fault) : "refused");
  g.note("vectors", temp ? "temporary" : "persistent");
  const int REP = 6;
  Count c[REP];
  long held = 0, alive0 = Counted::live;
  bool threw = false, differ = false;
  size_t nev = 0;
  double F0 = 0;
  std::string what;
  for (int i = 0; i < REP; ++i) {
    {
      Host h(p, mine, comm);
      h.temp_vectors = temp && i > 0;
      Adversary a = a0;
      a.apply(h);
      h.fault_at = fault;
      h.fault_kind = kind > 2 ? 0 : kind;
      if (kind == 9) h.memtype['C'] = memory_type::device;
      Run r = optimise(h, p, entry);
      held = std::max(held, Counted::live - alive0);
      if (i == 0) {
        threw = r.threw;
        what = r.what;
        nev = h.rec.size();
        F0 = r.info.F;
        if (r.threw && r.fault < 0 && way == 0 && !no_mu(h, r)) throw Fail("exception: " + r.what);
      } else
        differ = differ || r.threw != threw || h.rec.size() != nev || memcmp(&F0, &r.info.F, sizeof F0);
      if (!threw && nev > 1) nontriv = true;
      if (threw) nontriv = true;
    }
    c[i] = count();
  }
  require(held == 0, "nlcglib still holds " + std::to_string(held) + " buffer objects of the host after the call" + (threw ? " (" + what + ")" : ""));
  g.label(way == 2 ? "refused" : threw ? "aborted" : "to the end");
  g.label(temp ? "temporary vectors" : "persistent vectors");
  if (differ) {
    if (temp) throw Fail("the result changes if the data of a vector lives only as long as the object handed out");
    throw Fail("repetitions of a run differ");
  }
  std::string all;
  for (int k = 0; k < 6; ++k) {
    long least = 1L << 60;
    for (int i = 2; i < REP; ++i) least = std::min(least, nth(c[i], k) - nth(c[i - 1], k));
    if (least > 0) {
      std::string s;
      for (int i = 0; i < REP; ++i) s += (i ? ", " : "") + std::to_string(nth(c[i], k));
      all += "; " + std::to_string(least) + " more " + WHAT[k] + " (" + s + ")";
    }
  }
  if (!all.empty()) throw Fail("every repetition of a run leaves" + all.substr(1) + (threw ? ", " + what : ""));
}

/// a very small run, repeated so often that slowly growing containers show
static void
often(Gen& g)
{
  GenOpts o;
  o.max_nG = 3;
  o.max_k = 1;
  o.big = 0;
  Problem p = gen_problem(g, o);
  p.maxiter = g.integer(0, 1);
  describe(g, p);
  const int AT[] = {20, 80, 320, 1280};
  Count c[4];
  int n = 0;
  for (int i = 0; i < 4; ++i) {
    for (; n < AT[i]; ++n) {
      Host h(p, all_k(p));
      optimise(h, p);
    }
    c[i] = count();
  }
  for (int k = 0; k < 6; ++k) {
    bool grows = true;
    std::string s;
    for (int i = 0; i < 4; ++i) {
      s += (i ? ", " : "") + std::to_string(nth(c[i], k));
      if (i) grows = grows && nth(c[i], k) > nth(c[i - 1], k);
    }
    if (grows) throw Fail(std::string("the number of ") + WHAT[k] + " grows with the number of runs: after 20, 80, 320, 1280 runs " + s);
  }
  g.label("1280 repetitions");
  nontriv = true;
}

static void
body(Gen& g)
{
  nontriv = false;
  if (wsize == 1 && g.boolean(1, 100)) return often(g), g.nontrivial(true);
  std::string msg;
  try {
    one(g);
  } catch (Fail& f) {
    if (wsize == 1) throw;
    msg = f.what();
  }
  if (wsize > 1) {
    int f = msg.empty() ? 0 : 1, any;
    MPI_Allreduce(&f, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (any) {
      char buf[400];
      snprintf(buf, sizeof buf, "%s", msg.c_str());
      std::vector<char> all(400 * wsize);
      MPI_Allgather(buf, 400, MPI_CHAR, all.data(), 400, MPI_CHAR, MPI_COMM_WORLD);
      for (int k = 0; k < wsize; ++k)
        if (all[400 * k]) throw Fail(all.data() + 400 * k);
    }
  }
  g.nontrivial(nontriv);
}

int
main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  if (wrank != 0) {
    std::string d = "rank" + std::to_string(wrank);
    mkdir(d.c_str(), 0755);
  }
  nlcglib::initialize();
  // the replay file is given relative to the start directory
  std::vector<std::string> a(argv, argv + argc);
  for (int i = 1; i + 1 < argc; ++i)
    if (a[i] == "--replay" && a[i + 1][0] != '/') {
      char cwd[4096];
      if (getcwd(cwd, sizeof cwd)) a[i + 1] = std::string(cwd) + "/" + a[i + 1];
    }
  std::vector<char*> av;
  for (auto& s : a) av.push_back(&s[0]);
  if (wrank != 0 && chdir(("rank" + std::to_string(wrank)).c_str()) != 0) return 3;
  int rc = pbt::run((int)av.size(), av.data(), body, wrank);
  nlcglib::finalize();
  MPI_Finalize();
  return rc;
}
