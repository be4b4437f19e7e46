// helpers on recorded runs: log file, reference entropy, adversarial energies
#pragma once
#include <fstream>
#include "model.hpp"

namespace model {

/// nlcg.json: a sequence of JSON objects, separators are not part of the contract
inline std::vector<nlohmann::json>
read_log(const std::string& f = "nlcg.json")
{
  std::vector<nlohmann::json> out;
  std::ifstream in(f);
  if (!in) return out;
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  int depth = 0;
  bool str = false, esc = false;
  size_t b = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (str) {
      if (esc)
        esc = false;
      else if (c == '\\')
        esc = true;
      else if (c == '"')
        str = false;
      continue;
    }
    if (c == '"') str = true;
    if (c == '{' && depth++ == 0) b = i;
    if (c == '}' && --depth == 0) {
      try {
        out.push_back(nlohmann::json::parse(s.substr(b, i - b + 1)));
      } catch (std::exception& e) {
        throw pbt::Fail(std::string("nlcg.json does not parse: ") + e.what());
      }
    }
  }
  if (depth != 0) throw pbt::Fail("nlcg.json is truncated");
  return out;
}

/// x with f(x) = y, monotone smearings
inline ref::ld
invert(smearing_type sm, ref::ld y)
{
  ref::ld lo = -60, hi = 60;
  for (int i = 0; i < 90; ++i) {
    ref::ld m = 0.5L * (lo + hi);
    if (ref::f(sm, m) < y)
      lo = m;
    else
      hi = m;
  }
  return 0.5L * (lo + hi);
}

/// kT * sum w s(x(f)), only defined for monotone smearings
inline double
entropy_term(const Problem& p, const std::map<kkey, std::vector<double>>& fn)
{
  ref::ld S = 0;
  for (auto& k : p.k)
    for (double f : fn.at(k.key)) {
      ref::ld y = (ref::ld)f / p.occ;
      if (!(y > 0) || !(y < 1)) continue;
      S += k.w * p.occ * ref::entropy(p.sm, invert(p.sm, y));
    }
  return -(double)(p.kT() * S);
}

/// squared distance of two one-particle density matrices
inline double
dm_dist(const Problem& p, const Record& a, const Record& b)
{
  double d = 0;
  for (auto& k : p.k) {
    if (!a.X.count(k.key)) continue;
    Mat A = la::colscale(a.X.at(k.key), a.fn.at(k.key)) * la::adj(a.X.at(k.key));
    Mat B = la::colscale(b.X.at(k.key), b.fn.at(k.key)) * la::adj(b.X.at(k.key));
    Mat D = A - B;
    d += k.w * la::redot(D, D);
  }
  return d;
}

/// reported energies that make line searches fail. Modes 0-3 are functions of the state:
/// 0 honest, 1 cusp at the state of iteration `at`, 2 corridor around it, 3 ripples;
/// functions of the history: 4 everything from iteration `at` on is 50 higher, 5 every iteration is 50 higher than the previous one
struct Adversary
{
  int mode{0};
  int at{0};
  double A{0}, r0{0}, freq{0};
  std::shared_ptr<Record> anchor;
  void install(pbt::Gen& g, Host& h, int honest = 2)
  {
    draw(g, honest);
    apply(h);
  }
  void draw(pbt::Gen& g, int honest, int history = 0)
  {
    mode = g.weighted({honest, 2, 2, 1, history, history});
    if (mode == 0) return;
    at = g.integer(0, 6);
    A = g.logreal(0.1, 30);
    r0 = g.logreal(1e-8, 1e-2);
    freq = g.logreal(3, 300);
  }
  double operator()(const Problem& p, const Record& r, const Record* prev)
  {
    if (mode == 0) return r.E;
    if (mode == 4) return r.E + (r.iter >= at ? 50 : 0);
    if (mode == 5) return r.E + 50 * std::max(0, r.iter - at + 1);
    if (mode == 3) {
      double q = 0;
      for (auto& f : r.hii)
        for (double x : f.second) q += x;
      return r.E + 0.02 * std::sin(freq * q);
    }
    if (!anchor && r.iter == at && prev) anchor = std::make_shared<Record>(*prev);
    if (!anchor) return r.E;
    double d = dm_dist(p, r, *anchor);
    return mode == 1 ? r.E + A * std::sqrt(d) : r.E + A * std::max(0.0, std::sqrt(d) - std::sqrt(r0));
  }
  void apply(Host& h)
  {
    if (mode == 0) return;
    h.energy_filter = [this, &h](const Record& r, int n) -> double { return (*this)(h.p, r, n > 0 ? &h.rec.back() : nullptr); };
  }
  const char* name() const
  {
    static const char* n[] = {"honest", "cusp", "corridor", "ripples", "jump", "jumps"};
    return n[mode];
  }
};

/// two recorded runs agree bit by bit; returns a description of the first difference
inline std::string
first_difference(const Host& a, const Host& b, const Run& ra, const Run& rb)
{
  auto bits = [](double x, double y) { return memcmp(&x, &y, sizeof x) == 0; };
  auto matbits = [](const Mat& x, const Mat& y) {
    return x.a.size() == y.a.size() && memcmp(x.a.data(), y.a.data(), x.a.size() * sizeof(cd)) == 0;
  };
  for (size_t i = 0; i < std::min(a.rec.size(), b.rec.size()); ++i) {
    const Record &x = a.rec[i], &y = b.rec[i];
    std::string at = " of evaluation " + std::to_string(i);
    for (auto& k : x.X)
      if (!y.X.count(k.first) || !matbits(k.second, y.X.at(k.first))) return "orbitals" + at;
    for (auto& k : x.fn)
      if (!y.fn.count(k.first) || k.second != y.fn.at(k.first)) return "occupations" + at;
    if (!bits(x.E, y.E) || !bits(x.Erep, y.Erep)) return "energy" + at;
    if (!bits(x.mu, y.mu)) return "chemical potential" + at;
    if (x.iter != y.iter) return "iteration" + at;
  }
  if (a.rec.size() != b.rec.size()) return "number of evaluations " + std::to_string(a.rec.size()) + " / " + std::to_string(b.rec.size());
  if (a.ticks != b.ticks) return "number of callbacks " + std::to_string(a.ticks) + " / " + std::to_string(b.ticks);
  if (ra.threw != rb.threw || ra.what != rb.what) return "exception '" + ra.what + "' / '" + rb.what + "'";
  if (!ra.threw) {
    if (!bits(ra.info.F, rb.info.F)) return "F";
    if (!bits(ra.info.S, rb.info.S)) return "S";
    if (!bits(ra.info.tolerance, rb.info.tolerance)) return "tolerance";
    if (ra.info.iter != rb.info.iter) return "iter";
    if (ra.info.converged != rb.info.converged) return "converged";
  }
  return "";
}

}  // namespace model
