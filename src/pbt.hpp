// Small property-based-testing engine: every random decision of a case is drawn through Gen and
// recorded on a tape; a failing tape is shrunk in-process and becomes the replay file.
#pragma once
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

using json = nlohmann::json;

struct Fail : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
struct Discard
{
};

inline uint64_t
splitmix(uint64_t& s)
{
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

/// deterministic stream seeded by a drawn value; used for bulk data (matrix entries)
struct Stream
{
  uint64_t s;
  explicit Stream(uint64_t seed)
      : s(seed * 0x2545F4914F6CDD1Dull + 0x1234567)
  {
  }
  uint64_t next() { return splitmix(s); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double sym() { return 2 * uni() - 1; }
  double normal()
  {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
};

static const int TAPE_MAX = 1 << 14;
struct SharedTape
{
  uint64_t case_no;
  uint64_t n;
  uint64_t v[TAPE_MAX];
};

class Gen
{
public:
  // random mode
  Gen(uint64_t seed, SharedTape* sh)
      : rng(seed)
      , sh(sh)
  {
    if (sh) sh->n = 0;
  }
  // replay mode; draws past the end are 0 (the simplest choice)
  Gen(const std::vector<uint64_t>& t, SharedTape* sh)
      : replay(t)
      , is_replay(true)
      , rng(0)
      , sh(sh)
  {
    if (sh) sh->n = 0;
  }

  /// integer in [0, n)
  uint64_t draw(uint64_t n)
  {
    uint64_t v;
    if (is_replay) {
      v = pos < replay.size() ? replay[pos] % n : 0;
    } else {
      v = n == 0 ? 0 : rng.next() % n;
    }
    pos++;
    tape.push_back(v);
    if (sh && sh->n < TAPE_MAX) {
      sh->v[sh->n] = v;
      sh->n = sh->n + 1;
    }
    return v;
  }
  /// integer in [lo, hi], simplest = lo
  int integer(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
  bool boolean(int num = 1, int den = 2) { return draw(den) >= (uint64_t)(den - num); }
  /// uniform real in [lo, hi], simplest = lo
  double real(double lo, double hi) { return lo + (hi - lo) * (double(draw(1 << 24)) / (1 << 24)); }
  /// log-uniform
  double logreal(double lo, double hi)
  {
    return std::exp(real(std::log(lo), std::log(hi)));
  }
  template <class T>
  T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + draw(l.size()));
  }
  template <class T>
  const T& pick(const std::vector<T>& l)
  {
    return l[draw(l.size())];
  }
  /// weighted index
  int weighted(std::initializer_list<int> w)
  {
    int tot = 0;
    for (int x : w) tot += x;
    int r = (int)draw(tot), i = 0;
    for (int x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  Stream stream() { return Stream(draw(1u << 30)); }
  std::vector<int> permutation(int n)
  {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = 0; i < n - 1; ++i) std::swap(p[i], p[i + (int)draw(n - i)]);
    return p;
  }

  void label(const std::string& l) { labels.insert(l); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  template <class T>
  void note(const std::string& k, const T& v)
  {
    info[k] = v;
  }
  /// track maximum of an error measure (relative to its bound, by convention)
  void metric(const std::string& k, double v)
  {
    auto it = metrics.find(k);
    if (it == metrics.end() || !(v <= it->second)) metrics[k] = v;
  }
  [[noreturn]] void discard() { throw Discard(); }

  std::vector<uint64_t> tape;
  std::set<std::string> labels;
  std::map<std::string, double> metrics;
  bool nontriv{false};
  json info = json::object();

private:
  std::vector<uint64_t> replay;
  bool is_replay{false};
  Stream rng;
  size_t pos{0};
  SharedTape* sh;
};

inline std::string
fmt(double x)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}

/// |a-b| <= tol, NaN fails; records error/tol as metric
inline void
near_abs(Gen& g, const std::string& what, double a, double b, double tol)
{
  double d = std::abs(a - b);
  bool same = (a == b);
  g.metric(what, same ? 0 : d / tol);
  if (!same && !(d <= tol))
    throw Fail(what + ": " + fmt(a) + " vs " + fmt(b) + " |diff|=" + fmt(d) + " > " + fmt(tol));
}
inline void
require(bool c, const std::string& what)
{
  if (!c) throw Fail(what);
}
/// v <= bound, NaN fails
inline void
at_most(Gen& g, const std::string& what, double v, double bound)
{
  g.metric(what, v / bound);
  if (!(v <= bound)) throw Fail(what + ": " + fmt(v) + " > " + fmt(bound));
}

using prop_t = std::function<void(Gen&)>;

struct Outcome
{
  int kind;  // 0 ok, 1 fail, 2 discard
  std::string msg;
};

inline Outcome
execute(const prop_t& p, Gen& g)
{
  try {
    p(g);
    return {0, ""};
  } catch (Fail& f) {
    return {1, f.what()};
  } catch (Discard&) {
    return {2, ""};
  } catch (std::exception& e) {
    return {1, std::string("unexpected exception: ") + e.what()};
  } catch (...) {
    return {1, "unexpected exception of unknown type"};
  }
}

inline void
arm(int seconds)
{
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
inline void
on_hang(int)
{
  _exit(97);
}

/// harness main. rank/nranks: MPI harnesses run the same cases on every rank, rank 0 reports.
inline int
run(int argc, char** argv, const prop_t& prop, int rank = 0)
{
  uint64_t seed = 1, start = 0, count = 10, stride = 1;
  std::string out = "out.json", tapefile = "tape.bin", replay;
  double max_seconds = 1e9;
  int case_seconds = 60, shrink_runs = 400;
  double shrink_seconds = 20;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    const char* v = argv[i + 1];
    if (a == "--seed") seed = strtoull(v, 0, 10);
    if (a == "--start") start = strtoull(v, 0, 10);
    if (a == "--stride") stride = strtoull(v, 0, 10);
    if (a == "--count") count = strtoull(v, 0, 10);
    if (a == "--out") out = v;
    if (a == "--tape") tapefile = v;
    if (a == "--replay") replay = v;
    if (a == "--max-seconds") max_seconds = atof(v);
    if (a == "--case-seconds") case_seconds = atoi(v);
    if (a == "--shrink-runs") shrink_runs = atoi(v);
    if (a == "--shrink-seconds") shrink_seconds = atof(v);
  }
  if (rank != 0) {
    out += "." + std::to_string(rank);
    tapefile += "." + std::to_string(rank);
  }
  // library output on stdout is not ours
  fflush(stdout);
  int devnull = open("/dev/null", O_WRONLY);
  if (devnull >= 0) dup2(devnull, 1);
  signal(SIGPROF, on_hang);

  int fd = open(tapefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(SharedTape)) != 0) return 2;
  auto* sh = (SharedTape*)mmap(nullptr, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (sh == MAP_FAILED) return 2;

  json res;
  res["evaluations"] = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, double> metrics;
  std::set<uint64_t> hashes;
  uint64_t evals = 0, discards = 0;
  std::vector<json> samples;
  json failures = json::array();
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  };

  auto flush = [&](bool done) {
    res["evaluations"] = evals;
    res["discarded"] = discards;
    res["labels"] = labels;
    res["metrics"] = json::object();
    for (auto& m : metrics) res["metrics"][m.first] = std::isfinite(m.second) ? json(m.second) : json(fmt(m.second));
    std::vector<std::string> hs;
    for (auto h : hashes) hs.push_back(std::to_string(h));
    res["nontrivial_hashes"] = hs;
    res["samples"] = samples;
    res["failures"] = failures;
    res["done"] = done;
    res["seconds"] = elapsed();
    std::ofstream f(out + ".tmp");
    f << res.dump(-1, ' ', false, json::error_handler_t::replace);
    f.close();
    rename((out + ".tmp").c_str(), out.c_str());
  };

  auto record = [&](Gen& g, const Outcome& o) {
    evals++;
    if (o.kind == 2) {
      discards++;
      return;
    }
    for (auto& l : g.labels) labels[l]++;
    for (auto& m : g.metrics) {
      auto it = metrics.find(m.first);
      if (it == metrics.end() || !(m.second <= it->second)) metrics[m.first] = m.second;
    }
    if (g.nontriv) {
      uint64_t h = 1469598103934665603ull;
      for (auto v : g.tape) {
        h ^= v;
        h *= 1099511628211ull;
      }
      if (hashes.insert(h).second && samples.size() < 3) {
        json s;
        s["case"] = g.info;
        s["labels"] = g.labels;
        samples.push_back(s);
      }
    }
  };

  if (!replay.empty()) {
    std::ifstream f(replay);
    json r = json::parse(f);
    std::vector<uint64_t> tape = r.at("tape").get<std::vector<uint64_t>>();
    Gen g(tape, sh);
    arm(case_seconds);
    auto o = execute(prop, g);
    arm(0);
    record(g, o);
    if (o.kind == 1) {
      json fl;
      fl["msg"] = o.msg;
      fl["tape"] = g.tape;
      fl["info"] = g.info;
      failures.push_back(fl);
    }
    flush(true);
    return o.kind == 1 ? 1 : 0;
  }

  for (uint64_t k = 0; k < count; ++k) {
    if (elapsed() > max_seconds) {
      res["time_capped"] = true;
      break;
    }
    uint64_t c = start + k * stride;
    uint64_t s = seed * 1000003ull + c;
    uint64_t cs = splitmix(s);
    sh->case_no = c;
    Gen g(cs, sh);
    arm(case_seconds);
    auto o = execute(prop, g);
    arm(0);
    record(g, o);
    if (o.kind == 1) {
      // shrink
      std::vector<uint64_t> best = g.tape;
      std::string msg = o.msg;
      json binfo = g.info;
      int runs = 0;
      double tshrink = elapsed();
      auto attempt = [&](const std::vector<uint64_t>& t) {
        if (runs >= shrink_runs || elapsed() - tshrink > shrink_seconds) return false;
        runs++;
        Gen gg(t, sh);
        arm(case_seconds);
        auto oo = execute(prop, gg);
        arm(0);
        if (oo.kind != 1) return false;
        // accept only if not larger
        std::vector<uint64_t> nt = gg.tape;
        while (!nt.empty() && nt.back() == 0) nt.pop_back();
        if (nt.size() > best.size() || (nt.size() == best.size() && !(nt < best))) return false;
        best = nt;
        msg = oo.msg;
        binfo = gg.info;
        return true;
      };
      // results of unsynchronised clocks must not desynchronise ranks: MPI harnesses pass
      // --shrink-runs small enough and properties agree on failure, so only run count matters there
      bool progress = true;
      while (progress && runs < shrink_runs) {
        progress = false;
        for (size_t bl = 8; bl >= 1; bl /= 2)
          for (size_t i = 0; i + bl <= best.size();) {
            auto t = best;
            t.erase(t.begin() + i, t.begin() + i + bl);
            if (attempt(t))
              progress = true;
            else
              i += bl;
          }
        for (size_t i = 0; i < best.size(); ++i) {
          if (best[i] == 0) continue;
          auto t = best;
          t[i] = 0;
          if (attempt(t)) {
            progress = true;
            continue;
          }
          // binary descent
          uint64_t lo = 0, hi = best[i];
          while (hi - lo > 1 && i < best.size()) {
            uint64_t mid = lo + (hi - lo) / 2;
            t = best;
            t[i] = mid;
            if (attempt(t)) {
              progress = true;
              if (i >= best.size()) break;
              hi = best[i];
            } else
              lo = mid;
            if (runs >= shrink_runs) break;
          }
        }
      }
      json fl;
      fl["msg"] = msg;
      fl["first_msg"] = o.msg;
      fl["tape"] = best;
      fl["original_tape"] = g.tape;
      fl["case_no"] = c;
      fl["info"] = binfo;
      fl["shrink_runs"] = runs;
      failures.push_back(fl);
      flush(false);
      break;  // first failure of this shard ends it
    }
  }
  flush(true);
  return failures.empty() ? 0 : 1;
}

}  // namespace pbt
