// C14: contract of the line search on generated one-dimensional profiles
#include <mpi.h>
#include <limits>
#include <string>
#include <tuple>
#include <iostream>
#include <iomanip>
#include "nlcglib.hpp"
#include "linesearch/linesearch.hpp"
#include "bbmain.hpp"
using namespace pbt;

struct Profile
{
  int kind{0};
  double F0{0}, s{-1}, a{1}, q{0}, amp{0}, freq{1}, tc{1};
  uint64_t salt{0};
  double operator()(double t) const
  {
    if (t == 0) return F0;
    double quad = F0 + s * t + a * t * t;
    switch (kind) {
      case 0: return quad;
      case 1: return F0 + s * t - a * t * t + q * t * t * t * t;          // concave first
      case 2: return quad + amp * std::sin(freq * t);                      // ripples
      case 3: return F0 + std::abs(s) * t + a * t * t;                     // slope lies: increasing
      case 4: return t < 50 * tc ? F0 : F0 + a * (t - 50 * tc);            // flat
      case 5: return t < tc ? F0 + s * t : F0 + a * (1 + t * t);           // descending ramp, then a wall
      case 6: {                                                            // rough
        uint64_t h = (uint64_t)(int64_t)std::floor(std::log2(t) * 64 + 0.31831) + salt * 1000003;
        double u = (pbt::splitmix(h) >> 11) * (1.0 / 9007199254740992.0);
        return F0 + amp * (u - q) + a * t * t;
      }
      case 7: return t > tc ? std::numeric_limits<double>::quiet_NaN() : quad;
      case 8: return t > tc ? std::numeric_limits<double>::infinity() : quad;
      case 9: return t < tc ? F0 - amp * t : F0 + amp * (1 + t * t);       // lower only very close to the start
      case 10: return F0 + amp + a * t * t;                                // jump: never lower
      case 11: return std::numeric_limits<double>::quiet_NaN();
    }
    return quad;
  }
};
static const char* NAMES[] = {"quadratic", "concave-first", "ripples", "increasing", "flat", "ramp-wall", "rough", "nan-beyond",
                              "inf-beyond", "narrow", "jump", "all-nan"};

struct Out
{
  std::vector<double> t;
  int kind;  // 0 returned, 1 SlopeError, 2 DescentError, 3 other
  double tret{-1};
  bool restart{false};
  bool gave_up{false};
  std::string what;
};
struct Endless
{
};

static Out
search(nlcglib::line_search& ls, const Profile& f, double slope, bool restart)
{
  Out o;
  o.restart = restart;
  double F = f.F0;
  auto G = [&](double t) {
    o.t.push_back(t);
    if (o.t.size() > 5000) throw Endless();
    F = f(t);
    return std::make_tuple(t, (int)o.t.size());
  };
  struct FE
  {
    double& F;
    double get_F() { return F; }
  } fe{F};
  try {
    auto r = ls(G, fe, slope, o.restart);
    o.kind = 0;
    o.tret = std::get<0>(r);
    if (std::get<1>(r) != (int)o.t.size()) o.tret = std::numeric_limits<double>::quiet_NaN();
  } catch (nlcglib::SlopeError&) {
    o.kind = 1;
  } catch (nlcglib::DescentError&) {
    o.kind = 2;
  } catch (Endless&) {
    o.kind = 3;
    o.gave_up = true;
    o.what = "does not end";
  } catch (std::exception& e) {
    o.kind = 3;
    o.what = e.what();
  }
  return o;
}

static void
prop(Gen& g)
{
  nlcglib::line_search ls;
  ls.t_trial = g.pick({0.2, 0.2, 1.0, 0.05, 0.0});
  if (ls.t_trial == 0) ls.t_trial = g.logreal(1e-3, 10);
  ls.tau = g.pick({0.1, 0.3, 0.5, 0.9, 0.0, 0.0});
  bool bad_tau = false;
  if (ls.tau == 0) {
    ls.tau = g.real(0.02, 0.97);
    if (g.boolean(1, 12)) {
      ls.tau = g.pick({1.0, 1.5});
      bad_tau = true;
    }
  }
  const double tt = ls.t_trial, tau = ls.tau;
  int ns = g.integer(1, 5);
  bool restart = g.boolean(1, 3);
  std::string hist;
  for (int is = 0; is < ns; ++is) {
    Profile f;
    f.kind = g.weighted({4, 3, 3, 3, 1, 2, 3, 2, 2, 3, 2, 1});
    f.F0 = g.pick({0.0, -1.0, 1.0, -37.5, 0.0});
    f.s = -g.logreal(1e-4, 10);
    f.a = g.logreal(1e-2, 100);
    f.q = f.kind == 6 ? g.real(-0.1, 1) : g.logreal(1e-2, 10) * (f.a + 1);
    f.amp = g.logreal(1e-6, 1);
    f.freq = g.logreal(0.1, 300);
    f.tc = tt * g.logreal(1e-8, 3);
    f.salt = g.draw(1 << 20);
    double slope = f.s;
    int sl = g.weighted({10, 1, 1});
    if (sl == 1) slope = 0;
    if (sl == 2) slope = g.boolean() ? g.logreal(1e-6, 1) : g.logreal(1e-30, 1e-6);
    if (sl != 0 && f.kind == 0) f.kind = 3;
    g.label(std::string("profile:") + NAMES[f.kind]);
    if (g.boolean(1, 4)) restart = g.boolean();
    const bool r0 = restart;
    Out o = search(ls, f, slope, restart);
    nlcglib::line_search fresh;
    fresh.t_trial = tt;
    fresh.tau = tau;
    Out o2 = search(fresh, f, slope, r0);
    restart = o.restart;
    std::string ts;
    for (size_t i = 0; i < o.t.size() && i < 12; ++i) ts += fmt(o.t[i]) + " ";
    hist += std::string(NAMES[f.kind]) + " slope=" + fmt(slope) + " F0=" + fmt(f.F0) + " restart=" + (r0 ? "1" : "0") + " t: " + ts +
            "-> " + (o.kind == 0 ? "t=" + fmt(o.tret) : o.kind == 1 ? "SlopeError" : o.kind == 2 ? "DescentError" : o.what) + " restart=" +
            (o.restart ? "1" : "0") + "; ";
    g.note("searches", hist);
    g.note("t_trial", tt);
    g.note("tau", tau);
    require(ls.t_trial == tt && ls.tau == tau, "a search changed the parameters of the line search");
    require(o.t == o2.t && o.kind == o2.kind && o.restart == o2.restart, "the search depends on earlier searches");
    require(!o.gave_up, "the search does not end");
    if (slope > 0) {
      require(o.kind == 1, "positive slope not refused");
      require(o.t.empty(), "positive slope, yet an energy was evaluated");
      g.label("refused");
      continue;
    }
    require(o.kind != 1, "slope <= 0 refused");
    require(!o.t.empty() && o.t[0] == tt, "first evaluation is not at the trial step");
    for (double t : o.t) require(t >= 0 || std::isnan(t), "evaluated behind the starting point");
    for (double t : o.t) require(std::isfinite(t), "evaluated at a step that is not finite");
    if (bad_tau) {
      if (o.kind == 3) {
        g.label("tau>=1 refused");
        return;
      }
    }
    require(o.kind != 3, "unexpected exception: " + o.what);
    const double Fl = f(o.t.back());
    bool finite = true;
    for (double t : o.t) finite = finite && std::isfinite(f(t));
    bool failed = false;
    if (o.kind == 0) {
      require(o.tret == o.t.back(), "the returned point is not the one evaluated last");
      require(Fl <= f.F0, "accepted a point above the start");
      if (o.t.back() > 0) {
        require(!o.restart, "restart requested after a successful search");
        g.label("accepted");
      } else if (slope < 0 && finite) {
        require(o.restart, "no step was made and no restart is requested");
        require(!r0, "no step was made after a restart, failure not reported");
        failed = true;
        g.label("reset");
      } else {
        failed = finite && o.restart;
      }
    } else {
      require(r0, "failure reported although no restart was tried");
      require(o.t.back() == 0, "failed search leaves the system in a rejected state");
      failed = true;
      g.label("failed");
    }
    // completeness of backtracking
    if (failed && !bad_tau) {
      double t = tt;
      for (int i = 0; i < 5000 && t > 1.01e-8; ++i, t *= tau)
        require(!(f(t) < f.F0), "gave up although the backtracking step t=" + fmt(t) + " lowers the free energy");
    }
    // effort
    double nexp = 0;
    for (double t = tt; nexp < 100 && f(t) - slope * t - f.F0 < 0; t *= 5) nexp++;
    double nbt = tau < 1 ? std::log(1e-8 / tt) / std::log(tau) + 2 : 1;
    at_most(g, "evaluations", o.t.size(), nexp + std::max(nbt, 0.0) + 6);
    if (f.kind == 0 && slope < 0) {
      double eps = 2.3e-16;
      double noise = 8 * eps * (std::abs(f.F0) + std::abs(f.s) * tt + f.a * tt * tt) / (f.a * tt * tt);
      double tm = -f.s / (2 * f.a), dec = f.s * f.s / (4 * f.a);
      if (noise < 1e-3 && dec > 1e3 * eps * (std::abs(f.F0) + dec)) {
        require(o.kind == 0, "quadratic profile not minimised");
        at_most(g, "minimum of a parabola", std::abs(o.tret - tm), tm * (4 * noise + 1e-12));
        require(o.t.size() <= 3, "a parabola needs two evaluations");
        g.label("parabola-exact");
      }
    }
    g.nontrivial(o.t.size() > 2 || is > 0);
  }
}
BB_MAIN(prop)
