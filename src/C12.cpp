// C12: Loewdin orthogonalisation, geodesic steps, projections onto the tangent space
#include "bbmain.hpp"
#include "wb.hpp"
#include "geodesic.hpp"
#include "mvp2/mvp2.hpp"
using namespace pbt;
using namespace wb;
static const double EPS = 2.3e-16;

/// X -> S X, as handed to the library
struct Op
{
  Mat s;
  template <class X_t>
  zmat operator()(const X_t& x) const
  {
    Mat r = s * to_mat(x);
    Z z(r.m, r.n);
    z.put(r);
    return z.as<zmat>();
  }
  template <class X_t>
  void apply_in_place(X_t& x) const
  {
    auto y = (*this)(x);
    auto a = x.array();
    auto b = y.array();
    for (size_t j = 0; j < a.extent(1); ++j)
      for (size_t i = 0; i < a.extent(0); ++i) a(i, j) = b(i, j);
  }
};

struct State
{
  int m, n;
  Mat S, K, X;
  double sc = 1, kc_ = 1;  // condition numbers
};

static Mat
spd(Gen& g, int m, double& cond, bool allow_id = true)
{
  cond = 1;
  if (allow_id && g.boolean(1, 3)) return la::eye(m);
  double c = g.pick({0.3, 1.0, 3.0});
  auto st = g.stream();
  std::vector<double> ev(m);
  for (auto& e : ev) e = std::exp(c * (2 * st.uni() - 1));
  cond = std::exp(2 * c);
  if (g.boolean(1, 4)) return la::diagm(ev);
  return la::rand_herm(st, ev);
}
static State
gen_state(Gen& g)
{
  State s;
  bool big = g.boolean(1, 200);
  s.m = big ? g.integer(10, 60) : g.integer(1, 9);
  s.n = big ? g.integer(7, std::min(s.m, 30)) : g.integer(1, std::min(s.m, 6));
  s.S = spd(g, s.m, s.sc);
  s.K = spd(g, s.m, s.kc_);
  auto st = g.stream();
  Mat A = la::randn(st, s.m, s.n);
  s.X = la::loewdin(A, s.S);
  // clean up
  s.X = la::loewdin(s.X, s.S);
  return s;
}
static Mat
filled(int m, int n, double v)
{
  Mat A(m, n);
  for (auto& x : A.a) x = v;
  return A;
}
static double
nrm(const Mat& A)
{
  return std::sqrt(la::redot(A, A)) + 1e-300;
}
static void
small(Gen& g, const std::string& what, const Mat& A, double bound)
{
  double d = la::maxabs(A);
  g.metric(what, d / bound);
  if (!(d <= bound)) throw Fail(what + ": deviates by " + fmt(d) + " (admissible " + fmt(bound) + ")");
}

static void
test_loewdin(Gen& g)
{
  bool big = g.boolean(1, 200);
  int m = big ? g.integer(11, 60) : g.integer(1, 10), n = big ? g.integer(8, std::min(m, 30)) : g.integer(1, std::min(m, 7));
  double sc;
  bool ov = g.boolean();
  Mat S = ov ? spd(g, m, sc, false) : la::eye(m);
  auto st = g.stream();
  // singular values chosen, scale far from one possible
  std::vector<double> sv(n);
  double c = g.pick({0.0, 1.0, 4.0}), scale = g.pick({1.0, 1.0, 1e-4, 1e5});
  for (auto& x : sv) x = scale * std::exp(c * (2 * st.uni() - 1));
  Mat U = la::rand_unitary(st, m), V = la::rand_unitary(st, n);
  Mat X(m, n);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < m; ++i) X(i, j) = U(i, j) * sv[j];
  X = la::powm(S, -0.5) * (X * la::adj(V));
  double cond = std::exp(2 * 2 * c);
  Z zx = gen_z(g, m, n);
  zx.put(X);
  Mat SX = S * X;
  Z zs = gen_z(g, m, n);
  zs.put(SX);
  bool strided = g.boolean();
  Mat Y;
  auto go = [&](auto x, auto sx) { Y = ov ? to_mat(loewdin(x, sx)) : to_mat(loewdin(x)); };
  if (strided)
    go(zx.as<zview>(), zs.as<zview>());
  else
    go(zx.as<zmat>(), zs.as<zmat>());
  require(zx.untouched() && zs.untouched(), "loewdin modified its argument");
  require(Y.m == m && Y.n == n, "loewdin: shape");
  double sn = la::maxabs(S) * la::maxabs(Y) * la::maxabs(Y) * m * m + 1;
  small(g, "loewdin orthonormal", la::adj(Y) * (S * Y) - la::eye(n), 400 * EPS * n * cond * sn);
  // X (X^H S X)^(-1/2), the closest orthonormal set
  Mat R = X * la::powm(la::adj(X) * SX, -0.5);
  small(g, "loewdin symmetric", Y - R, 400 * EPS * n * cond * (la::maxabs(R) + 1e-300) * sn);
  g.label(ov ? "loewdin-overlap" : "loewdin");
  g.nontrivial(n > 1);
}

static void
test_geodesic(Gen& g)
{
  int nk = g.integer(1, 3);
  mvector<zmat> Xm, Zm, E, DE;
  mvector<Op> Sop;
  std::map<std::pair<int, int>, State> st;
  std::map<std::pair<int, int>, Mat> zx, eta, ze;
  std::vector<Z> keep;
  keep.reserve(64);
  double t = g.pick({0.0, 0.2, 1.0, -0.5, 1e-8, 7.0, 100.0});
  if (g.boolean(1, 3)) t *= g.real(0.1, 2);
  bool tangent = g.boolean(2, 3);
  for (int i = 0; i < nk; ++i) {
    std::pair<int, int> key{g.integer(0, 5), g.integer(0, 1)};
    if (st.count(key)) continue;
    State s = gen_state(g);
    auto rs = g.stream();
    Mat Zx = g.pick({1.0, 1e-3, 10.0}) * la::randn(rs, s.m, s.n);
    if (tangent) Zx = Zx - s.X * (la::adj(s.X) * (s.S * Zx));
    std::vector<double> ev(s.n);
    int kind = g.integer(0, 2);
    for (auto& e : ev) e = kind == 0 ? rs.normal() : kind == 1 ? std::floor(3 * rs.uni()) : 1e-12 * rs.normal() + 1;
    Mat H = la::rand_herm(rs, ev);
    if (g.boolean(1, 2)) H = la::diagm(ev);
    std::vector<double> ev2(s.n);
    for (auto& e : ev2) e = rs.normal();
    Mat D = la::rand_herm(rs, ev2);
    auto herm = [](Mat A) { return 0.5 * (A + la::adj(A)); };
    H = herm(H);
    D = herm(D);
    st[key] = s;
    zx[key] = Zx;
    eta[key] = H;
    ze[key] = D;
    Sop[key] = Op{s.S};
    auto mk = [&](const Mat& A) -> Z& {
      keep.push_back(gen_z(g, A.m, A.n));
      keep.back().put(A);
      return keep.back();
    };
    Z& a = mk(s.X);
    Z& b = mk(Zx);
    Xm[key] = a.as<zmat>();
    Zm[key] = b.as<zmat>();
    E[key] = mk(H).as<zmat>();
    DE[key] = mk(D).as<zmat>();
  }
  auto res = geodesic(Kokkos::HostSpace(), Xm, E, Zm, DE, Sop, t);
  auto ek = std::get<0>(res);
  auto Ul = std::get<1>(res);
  auto Xn = std::get<2>(res);
  require(ek.size() == st.size() && Ul.size() == st.size() && Xn.size() == st.size(), "geodesic: number of k-points");
  for (auto& z : keep) require(z.untouched(), "geodesic modified its arguments");
  for (auto& kv : st) {
    auto key = kv.first;
    State& s = kv.second;
    Mat u = to_mat(Ul.at(key)), x = to_mat(Xn.at(key));
    std::vector<double> e(s.n);
    require((int)ek.at(key).size() == s.n, "geodesic: number of levels");
    for (int i = 0; i < s.n; ++i) e[i] = ek.at(key)(i);
    Mat en = eta[key] + t * ze[key];
    double es = nrm(en);
    std::vector<double> w;
    Mat V;
    la::eigh(en, w, V);
    for (int i = 0; i < s.n; ++i)
      if (!(std::abs(w[i] - e[i]) <= 100 * s.n * EPS * es)) throw Fail("levels are not the eigenvalues of the advanced pseudo-Hamiltonian: " + fmt(e[i]) + " / " + fmt(w[i]));
    small(g, "Ul unitary", la::adj(u) * u - la::eye(s.n), 100 * s.n * EPS);
    small(g, "Ul diagonalises", en * u - la::colscale(u, e), 100 * s.n * EPS * es);
    Mat xt = s.X + t * zx[key];
    Mat M = la::adj(xt) * (s.S * xt);
    std::vector<double> mw;
    la::eigh(M, mw, V);
    double cond = mw[0] > 0 ? mw.back() / mw[0] : 1e300;
    if (cond > 1e9) {
      g.label("singular-step");
      continue;
    }
    double sn = la::maxabs(s.S) * s.m * s.m * la::maxabs(x) * la::maxabs(x) + 1;
    double xs = la::maxabs(x) + 1e-300;
    small(g, "step orthonormal", la::adj(x) * (s.S * x) - la::eye(s.n), 1000 * s.n * EPS * cond * sn * s.sc);
    small(g, "step", x - la::loewdin(xt, s.S) * u, 1000 * s.n * EPS * cond * xs * sn * s.sc);
    if (t == 0) {
      g.label("zero-step");
      small(g, "zero step", x - s.X * u, 1000 * s.n * EPS * xs * sn * s.sc);
    }
  }
  g.label(tangent ? "geodesic-tangent" : "geodesic-general");
  g.nontrivial(t != 0);
}

static void
test_projection(Gen& g)
{
  State s = gen_state(g);
  auto rs = g.stream();
  Mat HX = la::randn(rs, s.m, s.n);
  bool parallel = g.boolean(1, 5);
  if (parallel) HX = s.S * s.X * la::randn(rs, s.n, s.n);
  Mat SX = s.S * s.X;
  Z zx = gen_z(g, s.m, s.n), zs = gen_z(g, s.m, s.n), zh = gen_z(g, s.m, s.n);
  zx.put(s.X);
  zs.put(SX);
  zh.put(HX);
  auto x = zx.as<zmat>();
  auto sx = zs.as<zmat>();
  auto hx = zh.as<zmat>();
  Op P{s.K};
  auto xll = local::lmult()(x, sx, hx, P);
  double scl = 2000 * EPS * s.n * s.m * s.m * s.kc_ * s.kc_ * s.sc * s.sc * (la::maxabs(HX) + 1) * (1 + la::maxabs(s.K)) * (1 + la::maxabs(SX));
  Mat ll = la::solve_pd(la::adj(SX) * (s.K * SX), la::adj(SX) * (s.K * HX));
  small(g, "Lagrange multipliers", to_mat(xll) - SX * ll, scl);
  auto dx = local::precondgx_us()(sx, hx, P, xll);
  small(g, "preconditioned direction", to_mat(dx) - s.K * (SX * ll - HX), scl);
  small(g, "preconditioned direction is tangent", la::adj(SX) * to_mat(dx), scl);
  auto dx2 = local::precondgx()(sx, hx, P, xll);
  small(g, "preconditioned direction (in place)", to_mat(dx2) - to_mat(dx), scl);
  // gradient within the tangent space
  std::vector<double> f(s.n);
  for (auto& v : f) v = 2 * rs.uni();
  double wk = g.real(0.05, 1);
  auto gx = local::gradx()(sx, hx, to_vec(f), xll, wk);
  Mat q = la::randn(rs, s.m, s.n);
  q = q - SX * la::solve_pd(la::adj(SX) * SX, la::adj(SX) * q);  // SX^H q = 0
  double a = la::redot(to_mat(gx), q), b = wk * la::redot(la::colscale(HX, f), q);
  near_abs(g, "gradient along a tangent direction", a, b, 10 * scl * s.m);
  // slope
  auto zq = gen_z(g, s.m, s.n);
  zq.put(q);
  auto qq = zq.as<zmat>();
  auto zy = gen_z(g, s.n, s.n), ze = gen_z(g, s.n, s.n);
  Mat Y = la::randn(rs, s.n, s.n), E = la::randn(rs, s.n, s.n);
  zy.put(Y);
  ze.put(E);
  auto yy = zy.as<zmat>();
  auto ee = ze.as<zmat>();
  auto sl = local::slope()(gx, qq, yy, ee);
  near_abs(g, "slope in X", std::get<0>(sl), 2 * la::redot(to_mat(gx), q), scl * s.m);
  near_abs(g, "slope in eta", std::get<1>(sl), la::redot(Y, E), 1e-12 * s.n * s.n * (1 + la::maxabs(Y) * la::maxabs(E)));
  // transport of the previous direction
  Mat W = la::randn(rs, s.m, s.n);
  Z zw = gen_z(g, s.m, s.n);
  zw.put(W);
  auto w = zw.as<zmat>();
  bool us = g.boolean();
  double scw = 2000 * EPS * s.n * s.m * s.m * s.sc * s.sc * (la::maxabs(W) + 1) * (1 + la::maxabs(SX)) * (1 + la::maxabs(SX));
  if (us) {
    Mat r = to_mat(local::conjugatex()(w, x, sx));
    Mat ref = W - SX * la::solve_pd(la::adj(SX) * SX, la::adj(SX) * W);
    small(g, "transported direction", r - ref, scw);
    small(g, "transported direction is tangent", la::adj(SX) * r, scw);
  } else {
    Mat Q = la::loewdin(s.X, la::eye(s.m));
    Z zz = gen_z(g, s.m, s.n);
    zz.put(Q);
    auto q1 = zz.as<zmat>();
    Mat r = to_mat(local::conjugatex()(w, q1));
    small(g, "transported direction (no overlap)", r - (W - Q * (la::adj(Q) * W)), scw);
  }
  require(zw.padding_ok(), "transport wrote outside its matrix");
  require(zx.untouched() && zs.untouched() && zh.untouched() && zq.untouched() && zy.untouched() && ze.untouched(), "a projection modified its argument");
  // rotations
  Mat U = la::rand_unitary(rs, s.n);
  Z zu = gen_z(g, s.n, s.n);
  zu.put(U);
  auto u = zu.as<zmat>();
  small(g, "rotated orbitals", to_mat(local::rotatex()(x, u)) - s.X * U, scl);
  small(g, "rotated pseudo-Hamiltonian", to_mat(local::rotateeta()(ee, u)) - la::adj(U) * E * U, scl * (1 + la::maxabs(E)));
  require(zu.untouched() && zx.untouched() && ze.untouched(), "a rotation modified its argument");
  double gamma = g.pick({0.0, 1.0, 0.37, 5.0});
  Mat before = zy.get();
  Mat c = to_mat(local::conjugateeta(gamma)(ee, yy));
  small(g, "conjugated eta", c - (E + gamma * before), 100 * EPS * (1 + la::maxabs(E) + gamma * la::maxabs(before)));
  require(ze.untouched() && zy.padding_ok(), "conjugateeta wrote elsewhere");
  g.label(us ? "projection-us" : "projection-nc");
  g.nontrivial(s.n > 1 && !parallel);
  (void)filled;
}

static void
prop(Gen& g)
{
  switch (g.integer(0, 2)) {
    case 0: test_loewdin(g); break;
    case 1: test_geodesic(g); break;
    default: test_projection(g);
  }
}
BB_MAIN(prop)
