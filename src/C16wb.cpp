// C16: format() and StepLogger on their own
#include "bbmain.hpp"
#include "wb.hpp"
#include "utils/format.hpp"
#include "utils/step_logger.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace pbt;
using namespace wb;

static std::string
slurp(const std::string& f)
{
  std::ifstream in(f);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

static void
t_format(Gen& g)
{
  int len = g.weighted({3, 1, 1}) == 0 ? g.integer(0, 60) : g.integer(0, 3000);
  std::string a(len, 'x');
  auto st = g.stream();
  for (auto& c : a) c = 'a' + st.next() % 26;
  double d = g.pick({0.0, 1.0, -1e300, 1e-300, 3.14159}) * g.real(0.5, 2);
  int i = g.integer(-100000, 100000);
  int w = g.integer(0, 400);
  std::string lit(g.integer(0, 400), '-');
  std::vector<char> buf(20000);
  int n = snprintf(buf.data(), buf.size(), (lit + "%s|%.10f|%d|%*d|%g%%").c_str(), a.c_str(), d, i, w, i, d);
  require(n >= 0 && n < (int)buf.size(), "harness: buffer");
  std::string r = nlcglib::format(lit + "%s|%.10f|%d|%*d|%g%%", a.c_str(), d, i, w, i, d);
  require(r == std::string(buf.data(), n), "format: \"" + r.substr(0, 60) + "...\" of length " + std::to_string(r.size()) + " instead of " + std::to_string(n));
  require(nlcglib::format("plain") == "plain" && nlcglib::format("") == "", "format without arguments");
  g.label("format");
  g.nontrivial(n > 20);
}

static void
t_logger(Gen& g)
{
  std::string name = g.pick<std::string>({"nlcg.json", "other.json", "x.log"});
  int nrec = g.integer(1, 4);
  for (auto f : {"nlcg.json", "other.json", "x.log"}) unlink(f);
  std::vector<nlohmann::json> want;
  int on = 0;
  for (int r = 0; r < nrec; ++r) {
    bool active = !g.boolean(1, 4);
    int step = g.integer(0, 1000);
    nlohmann::json w;
    w["type"] = "cg_iteration";
    w["step"] = step;
    {
      bool def = name == "nlcg.json" && active && g.boolean();
      StepLogger L = def ? StepLogger(step) : StepLogger(step, name, active);
      if (g.boolean()) {
        double v = g.real(-1e3, 1e3);
        L.log("F", v);
        w["F"] = v;
        L.log("F", v * 2);  // the last value counts
        w["F"] = v * 2;
      }
      if (g.boolean()) {
        int v = g.integer(-5, 5);
        L.log("n", v);
        w["n"] = v;
      }
      if (g.boolean()) {
        std::map<std::string, double> m;
        int c = g.boolean(1, 4) ? g.integer(4, 40) : g.integer(0, 3);
        for (int i = 0; i < c; ++i) m["c" + std::to_string(i)] = g.real(-3, 3);
        L.log("comp", m);
        w["comp"] = m;
      }
      if (g.boolean()) {
        mvector<vec> m;
        int c = g.boolean(1, 4) ? g.integer(4, 40) : g.integer(1, 3);
        std::map<std::pair<int, int>, std::vector<double>> ref;
        for (int i = 0; i < c; ++i) {
          std::vector<double> v;
          int l = g.boolean(1, 6) ? g.integer(6, 100) : g.integer(0, 5);
          for (int j = 0; j < l; ++j) v.push_back(g.real(-9, 9));
          std::pair<int, int> key{g.integer(0, c > 3 ? 99 : 9), g.integer(0, 1)};
          m[key] = to_vec(v);
          ref[key] = v;
        }
        L.log("eta", m);
        for (auto& e : ref) {
          nlohmann::json x;
          x["ik"] = e.first.first;
          x["ispn"] = e.first.second;
          x["value"] = e.second;
          w["eta"] += x;
        }
        for (auto& e : m)
          for (size_t j = 0; j < e.second.size(); ++j) require(e.second(j) == ref[e.first][j], "logging changed an array");
      }
    }
    if (active) {
      want.push_back(w);
      ++on;
    }
    // appended at once, nothing else written
    std::string text = slurp(name);
    std::vector<nlohmann::json> got;
    std::istringstream in(text);
    try {
      for (nlohmann::json j; in >> std::ws, !in.eof();) {
        in >> j;
        got.push_back(j);
      }
    } catch (std::exception& e) {
      throw Fail(std::string("log is not a sequence of JSON records: ") + e.what());
    }
    require(got.size() == want.size(), "log holds " + std::to_string(got.size()) + " records instead of " + std::to_string(want.size()));
    for (size_t i = 0; i < got.size(); ++i) require(got[i] == want[i], "record " + got[i].dump() + " instead of " + want[i].dump());
    for (std::string f : {"nlcg.json", "other.json", "x.log"})
      if (f != name) require(access(f.c_str(), F_OK) != 0, "writes to " + f + " instead of " + name);
  }
  g.label("logger");
  g.nontrivial(on > 0);
}

static void
prop(Gen& g)
{
  if (g.boolean())
    t_format(g);
  else
    t_logger(g);
}
BB_MAIN(prop)
