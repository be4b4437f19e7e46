// C08: invariance under physically irrelevant transformations.
#include "bbmain.hpp"
#include "tracecmp.hpp"
using namespace model;
using namespace pbt;

/// how one k-point of the transformed problem relates to one of the original
struct Image
{
  kkey base;
  Mat Q;  // X' = Q X
  bool conj{false};
};

static void
prop(Gen& g)
{
  GenOpts o;
  o.max_nG = 7;
  o.Tmin = 2000;
  Problem p = gen_problem(g, o);
  p.tol = g.pick({1e-9, 1e-5});
  p.maxiter = g.pick({2, 1, 3, 5, 10});
  describe(g, p);
  int jump = g.boolean(1, 4) ? g.integer(0, 2) : -1;
  double lam = 1, shift = 0, fscale = 1;
  Problem q = p;
  std::map<kkey, Image> img;
  for (auto& k : q.k) img[k.key] = {k.key, la::eye(k.nG), false};
  Layout lay;
  bool use_layout = false;
  std::vector<int> order = all_k(q);
  auto st = g.stream();
  int ntr = g.integer(1, 3);
  std::string names;
  for (int t = 0; t < ntr; ++t) {
    int kind = g.integer(0, 9);
    if ((kind == 3 || kind == 8) && !ref::monotone(p.sm)) kind = 0;  // several chemical potentials may exist
    switch (kind) {
      case 0: {  // relabel
        names += "relabel ";
        std::set<kkey> used;
        std::map<kkey, Image> n;
        bool rev = g.boolean();
        int i = 0;
        for (auto& k : q.k) {
          kkey nk;
          do {
            nk = {rev ? 50 - i * 2 : (int)(st.next() % 40), (int)(st.next() % 2)};
          } while (!used.insert(nk).second);
          ++i;
          n[nk] = img[k.key];
          k.key = nk;
        }
        img = n;
        break;
      }
      case 1: {  // storage order
        names += "order ";
        auto perm = g.permutation((int)q.k.size());
        std::vector<KP> nk;
        for (int i : perm) nk.push_back(q.k[i]);
        q.k = nk;
        break;
      }
      case 2: {  // plane-wave basis
        names += "basis ";
        for (auto& k : q.k) {
          Mat Q = la::rand_unitary(st, k.nG), Qh = la::adj(Q);
          k.H0 = Q * k.H0 * Qh;
          k.S = Q * k.S * Qh;
          k.K = Q * k.K * Qh;
          k.P = Q * k.P;
          k.X0 = Q * k.X0;
          img[k.key].Q = Q * img[k.key].Q;
        }
        break;
      }
      case 3: {  // energy zero
        double c = g.boolean(3, 4) ? g.real(-3, 3) : g.pick({20., -20., 100., -100., 400., -400.}) + g.real(-3, 3);
        names += "shift ";
        for (auto& k : q.k) k.H0 = k.H0 + c * k.S;
        shift += c;
        break;
      }
      case 4: {  // leading dimensions
        names += "padding ";
        use_layout = true;
        break;
      }
      case 5: {  // split a k-point
        names += "split ";
        int i = g.integer(0, (int)q.k.size() - 1);
        KP k = q.k[i];
        double a = g.pick({0.5, 0.25, 0.9});
        q.k[i].w *= a;
        KP d = k;
        d.w *= 1 - a;
        do {
          d.key.first += 7;
        } while (img.count(d.key));
        img[d.key] = img[k.key];
        q.k.push_back(d);
        break;
      }
      case 6: {  // phases and order of the bands
        names += "phases ";
        for (auto& k : q.k) {
          std::vector<int> pb(k.nb);
          for (int b = 0; b < k.nb; ++b) pb[b] = b;
          for (int b = k.nb - 1; b > 0; --b) std::swap(pb[b], pb[st.next() % (b + 1)]);
          Mat X = k.X0;
          for (int b = 0; b < k.nb; ++b) {
            cd ph = std::polar(1.0, 6.28 * st.uni());
            for (int r = 0; r < k.nG; ++r) X(r, b) = ph * k.X0(r, pb[b]);
          }
          k.X0 = X;
        }
        break;
      }
      case 7: {  // time reversal
        names += "conj ";
        for (auto& k : q.k) {
          for (Mat* m : {&k.H0, &k.S, &k.K, &k.P, &k.X0, &img[k.key].Q})
            for (auto& x : m->a) x = std::conj(x);
          img[k.key].conj = !img[k.key].conj;
        }
        break;
      }
      case 8: {  // energy unit
        double l = g.boolean(2, 3) ? g.real(0.4, 2.5) : g.logreal(0.1, 10);
        names += "unit ";
        lam *= l;
        shift *= l;
        q.T *= l;
        q.U *= l;
        q.tol *= l;
        for (auto& k : q.k) {
          k.H0 = l * k.H0;
          k.K = (1 / l) * k.K;
        }
        break;
      }
      case 9: {  // spin-degenerate description of a problem without spin
        if (q.occ != 2) break;
        names += "spin ";
        q.occ = 1;
        q.ns = 2;
        fscale *= 2;
        auto old = q.k;
        for (auto& k : old) {
          KP d = k;
          do {
            d.key.second += 1;
          } while (img.count(d.key));
          img[d.key] = img[k.key];
          q.k.push_back(d);
        }
        break;
      }
    }
  }
  g.note("transformation", names);
  g.label(names.empty() ? "identity" : names.substr(0, names.find(' ')));
  auto setup = [&](double l) {
    return [=](Host& h) {
      if (jump >= 0) h.energy_filter = [=](const Record& r, int) { return r.E + (r.iter >= jump ? 50 * l : 0); };
    };
  };
  BaseRun b;
  b.go(p, setup(1));
  if (use_layout)
    for (size_t i = 0; i < q.k.size(); ++i) {
      lay.padC.push_back((int)(st.next() % 6));
      lay.padH.push_back((int)(st.next() % 6));
      lay.front.push_back((int)(st.next() % 3));
    }
  if (use_layout) {
    lay.vstride = 1 + (int)(st.next() % 3);
    bool wide = st.next() % 3 == 0;
    for (size_t i = 0; i < q.k.size(); ++i) {
      lay.gap.push_back(wide ? (int)(st.next() % 3) : 0);
      lay.row_major.push_back(wide && q.k[i].nb > 1 && q.k[i].nG > 1 && st.next() % 2);
    }
    if (wide) g.label("columns not contiguous");
  }
  Host h(q, all_k(q), MPI_COMM_SELF, use_layout ? &lay : nullptr);
  setup(lam)(h);
  Run r = optimise(h, q);
  if (b.s.whole) require(r.threw == b.r.threw, "exception: " + r.what + " / " + b.r.what);
  size_t n = std::min(h.rec.size(), b.s.tol.size());
  double amp = std::max(1.0, std::max(lam, 1 / lam)) * (1 + std::abs(shift));
  for (size_t i = 0; i < n; ++i) {
    const Record& s = h.rec[i];
    double N = 0;
    for (auto& k : q.k)
      for (double f : s.fn.at(k.key)) N += k.w * f;
    // map back, one candidate record per set of images
    double d = 0;
    for (auto& k : q.k) {
      const Image& im = img.at(k.key);
      Record m;
      m.E = (s.E - shift * N) / lam;
      m.Erep = (s.Erep - shift * N) / lam;
      Mat X = la::adj(im.Q) * s.X.at(k.key);
      if (im.conj)
        for (auto& x : X.a) x = std::conj(x);
      m.X[im.base] = X;
      m.fn[im.base] = s.fn.at(k.key);
      for (auto& f : m.fn[im.base]) f *= fscale;
      d = std::max(d, rec_dist(p, b.h->rec[i], m));
    }
    at_most(g, "deviation of evaluation " + std::string(i < 4 ? std::to_string(i) : "n"), d, b.s.tol[i] * 10 * amp);
    if (i >= 1 && b.s.whole && ref::monotone(p.sm) && !std::isnan(s.mu)) {
      // the chemical potential is determined as far as electrons respond to it
      double kT = p.kT(), dos = 0;
      for (auto& k : p.k)
        for (double f : b.h->rec[i].fn.at(k.key)) {
          double y = f / p.occ;
          if (y > 1e-12 && y < 1 - 1e-12) dos += k.w * p.occ * (double)ref::delta(p.sm, invert(p.sm, y)) / kT;
        }
      if (dos > 1e-3)
        near_abs(g, "chemical potential", (s.mu - shift) / lam, b.h->rec[i].mu, (b.s.tol[i] * (1 + 1 / dos) + b.s.tolmu[i]) * 10 * amp);
    }
  }
  require(h.rec.size() >= b.s.tol.size(), "transformed run stops after " + std::to_string(h.rec.size()) + " evaluations");
  if (b.s.whole && !b.r.threw && !r.threw) {
    g.label("compared to the end");
    require(h.rec.size() == b.h->rec.size(), "number of evaluations differs: " + std::to_string(h.rec.size()) + " vs " + std::to_string(b.h->rec.size()));
    require(r.info.iter == b.r.info.iter && r.info.converged == b.r.info.converged, "iterations / converged differ");
    near_abs(g, "F", (r.info.F - shift * p.Ne) / lam, b.r.info.F, b.s.result * 3 * amp);
    near_abs(g, "S", r.info.S / lam, b.r.info.S, b.s.result * 3 * amp);
    near_abs(g, "slope", r.info.tolerance / lam, b.r.info.tolerance, (b.s.result * 10 + 1e-4 * std::abs(b.r.info.tolerance)) * amp);
  }
  g.nontrivial(n >= 4);
}
BB_MAIN(prop)
