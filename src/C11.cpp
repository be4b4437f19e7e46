// C11: dense kernels against naive loops
#include "bbmain.hpp"
#include "wb.hpp"
using namespace pbt;
using namespace wb;

static int
dim(Gen& g)
{
  switch (g.weighted({1200, 400, 198, 2})) {
    case 0: return g.integer(1, 7);
    case 1: return g.integer(1, 20);
    case 2: return g.integer(20, 70);
    default: return g.integer(70, 300);
  }
}
static cd
scalar(Gen& g, bool real_only = false)
{
  int w = g.weighted({3, 2, 2, 3});
  if (w == 0) return 1;
  if (w == 1) return 0;
  if (w == 2) return -1;
  double a = g.real(-2, 2);
  return real_only ? cd(a) : cd(a, g.real(-2, 2));
}
static Mat
randm(Gen& g, int m, int n)
{
  auto st = g.stream();
  Mat A = la::randn(st, m, n);
  double s = g.pick({1.0, 1.0, 1e-6, 1e5});
  for (auto& x : A.a) x *= s;
  return A;
}
static const double EPS = 2.3e-16;

/// destination: NaN if it must not be read
static Mat
dest(Gen& g, int m, int n, cd beta)
{
  if (beta == cd(0)) return g.boolean(2, 3) ? nanm(m, n) : randm(g, m, n);
  return randm(g, m, n);
}

template <class F>
static void
with(bool strided, Z& z, F&& f)
{
  if (strided) {
    auto x = z.as<zview>();
    f(x);
  } else {
    auto x = z.as<zmat>();
    f(x);
  }
}

static void
gemm_like(Gen& g, int op)
{
  static const char* N[] = {"inner", "outer", "transform"};
  int m = dim(g), n = dim(g), kk = dim(g);
  Mat A, B;
  Z za = op == 0 ? gen_z(g, kk, m) : gen_z(g, m, kk);
  Z zb = op == 0 ? gen_z(g, kk, n) : op == 1 ? gen_z(g, n, kk) : gen_z(g, kk, n);
  Z zc = gen_z(g, m, n);
  cd alpha = scalar(g), beta = scalar(g);
  A = randm(g, za.m, za.n);
  B = randm(g, zb.m, zb.n);
  Mat C = dest(g, m, n, beta);
  za.put(A);
  zb.put(B);
  zc.put(C);
  bool sa = g.boolean(), sb = g.boolean(), sc = g.boolean();
  with(sa, za, [&](auto& a) {
    with(sb, zb, [&](auto& b) {
      with(sc, zc, [&](auto& c) {
        if (op == 0) inner(c, a, b, k(alpha), k(beta));
        if (op == 1) outer(c, a, b, k(alpha), k(beta));
        if (op == 2) transform(c, k(beta), k(alpha), a, b);
      });
    });
  });
  Mat opA = op == 0 ? la::adj(A) : A, opB = op == 1 ? la::adj(B) : B;
  Mat R = alpha * (opA * opB), bound = std::abs(alpha) * (absm(opA) * absm(opB));
  if (beta != cd(0)) {
    R = R + beta * C;
    bound = bound + std::abs(beta) * absm(C);
  }
  close(g, N[op], zc.get(), R, bound, 4 * (kk + 4) * EPS);
  require(za.untouched() && zb.untouched(), std::string(N[op]) + " modified an input");
  require(zc.padding_ok(), std::string(N[op]) + " wrote outside the destination");
  g.nontrivial(m * n * kk > 1);
  g.note("shape", std::to_string(m) + "x" + std::to_string(n) + " k=" + std::to_string(kk));
  if (beta == cd(0)) g.label("overwrite");
}

static void
add_like(Gen& g, int op)
{
  static const char* N[] = {"add", "_add", "scale(column)", "scale(alpha,beta)", "scale(alpha)"};
  int m = dim(g), n = dim(g);
  Z za = gen_z(g, m, n), zc = gen_z(g, m, n);
  bool real_only = op >= 2;
  cd alpha = scalar(g, real_only), beta = op == 4 ? cd(0) : scalar(g, real_only);
  bool defbeta = (op == 0 || op == 1 || op == 2) && g.boolean(1, 6);
  if (defbeta) beta = op == 2 ? 0 : 1;
  Mat A = randm(g, m, n), C = dest(g, m, n, beta);
  za.put(A);
  zc.put(C);
  std::vector<double> d(n, 1.0);
  auto st = g.stream();
  if (op == 2)
    for (auto& x : d) x = st.normal();
  auto dv = to_vec(d);
  bool sa = g.boolean(), sc = g.boolean();
  with(sa, za, [&](auto& a) {
    with(sc, zc, [&](auto& c) {
      switch (op) {
        case 0: defbeta ? add(c, a, k(alpha)) : add(c, a, k(alpha), k(beta)); break;
        case 1: defbeta ? _add(c, a, k(alpha)) : _add(c, a, k(alpha), k(beta)); break;
        case 2: defbeta ? scale(c, a, dv, alpha.real()) : scale(c, a, dv, alpha.real(), beta.real()); break;
        case 3: scale(c, a, alpha.real(), beta.real()); break;
        case 4: scale(c, a, alpha.real()); break;
      }
    });
  });
  Mat Ad = la::colscale(A, d);
  Mat R = alpha * Ad, bound = std::abs(alpha) * absm(Ad);
  if (beta != cd(0)) {
    R = R + beta * C;
    bound = bound + std::abs(beta) * absm(C);
  }
  close(g, N[op], zc.get(), R, bound, 16 * EPS);
  require(za.untouched(), std::string(N[op]) + " modified its input");
  require(zc.padding_ok(), std::string(N[op]) + " wrote outside the destination");
  for (int i = 0; i < n; ++i) require(dv(i) == d[i], "scale modified the factors");
  g.nontrivial(m * n > 1);
  g.note("shape", std::to_string(m) + "x" + std::to_string(n));
  if (beta == cd(0)) g.label("overwrite");
}

static std::vector<double>
spec(Gen& g, int n, bool pd)
{
  auto st = g.stream();
  std::vector<double> e(n);
  int kind = g.integer(0, 4);
  for (int i = 0; i < n; ++i) {
    double u = st.sym();
    e[i] = kind == 0 ? u : kind == 1 ? 0.5 * (i / 2) : kind == 2 ? 1.0 : kind == 3 ? u * std::pow(10, -6 * st.uni()) : (i % 3 == 0 ? 0 : u);
    if (pd) e[i] = 0.01 + std::abs(e[i]);
  }
  double s = g.pick({1.0, 1.0, 1e-6, 1e6});
  for (auto& x : e) x *= s;
  return e;
}

static void
eig(Gen& g)
{
  int n = g.boolean(1, 400) ? g.integer(25, 80) : g.boolean(1, 8) ? g.integer(8, 24) : g.integer(1, 7);
  auto ev = spec(g, n, false);
  auto st = g.stream();
  Mat A = g.boolean(1, 6) ? la::diagm(ev) : la::rand_herm(st, ev);
  for (int j = 0; j < n; ++j) {
    A(j, j) = A(j, j).real();
    for (int i = 0; i < j; ++i) A(j, i) = std::conj(A(i, j));
  }
  Z za = gen_z(g, n, n), zu = gen_z(g, n, n);
  za.put(A);
  zu.put(nanm(n, n));
  auto a = za.as<zmat>();
  auto u = zu.as<zmat>();
  vec w("w", n);
  eigh(u, w, a);
  double nrm = la::maxabs(A) * n + 1e-300, tol = 60 * n * EPS;
  Mat U = zu.get();
  std::vector<double> wv(n);
  for (int i = 0; i < n; ++i) wv[i] = w(i);
  for (int i = 1; i < n; ++i) require(wv[i - 1] <= wv[i], "eigenvalues are not ascending");
  at_most(g, "eigh: A U = U w", la::maxabs(A * U - la::colscale(U, wv)), nrm * tol);
  at_most(g, "eigh: U unitary", la::maxabs(la::adj(U) * U - la::eye(n)), tol);
  std::vector<double> rw;
  Mat V;
  la::eigh(A, rw, V);
  for (int i = 0; i < n; ++i) near_abs(g, "eigenvalue", wv[i], rw[i], nrm * tol);
  require(za.untouched(), "eigh modified its input");
  require(zu.padding_ok(), "eigh wrote outside the eigenvectors");
  g.nontrivial(n > 1);
  g.note("n", n);
}

static void
solve(Gen& g)
{
  bool big = g.boolean(1, 200);
  int n = big ? g.integer(10, 70) : g.integer(1, 9), nr = big ? g.integer(1, 70) : g.integer(1, 7);
  bool indef = g.boolean(1, 4);
  auto ev = spec(g, n, true);
  if (indef) {
    double mx = *std::max_element(ev.begin(), ev.end());
    ev[g.draw(n)] = -mx * g.real(0.05, 1);
  }
  auto st = g.stream();
  Mat A = la::rand_herm(st, ev), B = randm(g, n, nr);
  for (int j = 0; j < n; ++j) {
    A(j, j) = A(j, j).real();
    for (int i = 0; i < j; ++i) A(j, i) = std::conj(A(i, j));
  }
  Z za = gen_z(g, n, n), zb = gen_z(g, n, nr);
  za.put(A);
  zb.put(B);
  bool s = g.boolean(), threw = false;
  try {
    if (s) {
      auto a = za.as<zview>();
      auto b = zb.as<zview>();
      solve_sym(a, b);
    } else {
      auto a = za.as<zmat>();
      auto b = zb.as<zmat>();
      solve_sym(a, b);
    }
  } catch (std::runtime_error&) {
    threw = true;
  }
  require(za.padding_ok() && zb.padding_ok(), "solve_sym wrote outside its matrices");
  if (indef) {
    require(threw, "solve_sym accepted a matrix that is not positive definite");
    g.label("not-positive-definite");
  } else {
    require(!threw, "solve_sym refused a positive definite matrix");
    Mat X = zb.get();
    double res = la::maxabs(A * X - B), sc = n * la::maxabs(A) * la::maxabs(X) + la::maxabs(B);
    at_most(g, "solve_sym residual", res, 100 * n * EPS * sc);
  }
  g.nontrivial(n > 1);
  g.note("n", n);
}

/// row-major matrices: every kernel refuses, nothing is written
static void
row_major(Gen& g)
{
  int m = g.integer(2, 6);
  Z z[3] = {Z(m, m, 0, 2), Z(m, m, 0, 2), Z(m, m, 0, 2)};
  int bad = g.integer(0, 2);
  std::vector<zview> v;
  for (int i = 0; i < 3; ++i) {
    z[i].put(randm(g, m, m) + double(5 * m) * la::eye(m));
    int ld = z[i].full.stride(1);
    std::array<int, 2> st{1, ld};
    if (i == bad) st = {ld, 1};
    buffer_protocol<std::complex<double>, 2> b(st, {m, m}, (std::complex<double>*)&z[i](0, 0), memory_type::host);
    v.push_back(zview(z[i].map(), b));
  }
  int op = g.integer(0, 4);
  static const char* N[] = {"inner", "outer", "transform", "add", "solve_sym"};
  if (op >= 3 && bad == 2) bad = 1, std::swap(v[1], v[2]);
  bool threw = false;
  try {
    switch (op) {
      case 0: inner(v[0], v[1], v[2]); break;
      case 1: outer(v[0], v[1], v[2]); break;
      case 2: transform(v[0], kc(0), kc(1), v[1], v[2]); break;
      case 3: add(v[0], v[1], kc(1)); break;
      case 4: solve_sym(v[0], v[1]); break;
    }
  } catch (std::runtime_error&) {
    threw = true;
  }
  require(threw, std::string(N[op]) + " accepted row-major storage");
  for (auto& x : z) require(x.untouched(), std::string(N[op]) + " wrote before refusing");
  g.nontrivial();
}

static void
small(Gen& g)
{
  int m = dim(g), n = dim(g);
  Z z = gen_z(g, m, n);
  Mat A = randm(g, m, n);
  z.put(A);
  bool s = g.boolean();
  int mn = std::min(m, n);
  int op = g.integer(0, 5);
  static const char* N[] = {"diag", "make_diag", "innerh_tr", "copy", "buffer", "alloc"};
  g.label(N[op]);
  switch (op) {
    case 0:
      with(s, z, [&](auto& x) {
        auto d = diag(x);
        require((int)d.extent(0) == mn, "diag: length");
        for (int i = 0; i < mn; ++i) require(d(i) == k(A(i, i)), "diag: value");
        // the result owns its memory
        if (mn) d(0) = kc(1, 2);
      });
      break;
    case 1: {
      std::vector<double> d(n);
      for (int i = 0; i < n; ++i) d[i] = A(0, i).real();
      auto dv = to_vec(d);
      auto D = make_diag()(dv);
      require((int)D.array().extent(0) == n && (int)D.array().extent(1) == n && D.map().nrows() == n && D.map().ncols() == n, "make_diag: shape");
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) require(D.array()(i, j) == (i == j ? d[i] : 0.0), "make_diag: value");
      break;
    }
    case 2: {
      Z z2 = gen_z(g, m, n);
      Mat B = randm(g, m, n);
      z2.put(B);
      kc r;
      bool s2 = g.boolean();
      with(s, z, [&](auto& x) { with(s2, z2, [&](auto& y) { r = innerh_tr()(x, y); }); });
      cd ref = 0;
      double bound = 0;
      for (size_t i = 0; i < A.a.size(); ++i) {
        ref += A.a[i] * std::conj(B.a[i]);
        bound += std::abs(A.a[i]) * std::abs(B.a[i]);
      }
      at_most(g, "innerh_tr", std::abs(cd(r.real(), r.imag()) - ref), (m * n + 4) * 4 * EPS * bound);
      require(z2.untouched(), "innerh_tr modified its input");
      break;
    }
    case 3:
      with(s, z, [&](auto& x) {
        auto y = copy(x);
        same("copy", to_mat(y), A);
        for (int j = 0; j < n; ++j)
          for (int i = 0; i < m; ++i) y.array()(i, j) = kc(3, 4);
        require(z.untouched(), "copy aliases its source");
        require(y.map().nrows() == m && y.map().ncols() == n, "copy: map");
        auto e = empty_like()(x);
        require((int)e.array().extent(0) == m && (int)e.array().extent(1) == n && e.array().stride(0) == 1, "empty_like: shape");
        auto o = zeros_like()(x);
        same("zeros_like", to_mat(o), Mat(m, n));
        deep_copy(x, y);
        Mat W(m, n);
        for (auto& q : W.a) q = cd(3, 4);
        same("deep_copy", z.get(), W);
        require(z.padding_ok(), "deep_copy wrote outside the destination");
        z.remember();
      });
      break;
    case 4:
      with(s, z, [&](auto& x) {
        auto b = as_buffer_protocol(x);
        require(b.size[0] == m && b.size[1] == n, "buffer: size");
        require((void*)b.data == (void*)&z(0, 0), "buffer: data");
        require(b.memtype == memory_type::host, "buffer: memory type");
        require((m == 1 || b.stride[0] == 1) && (n == 1 || b.stride[1] == (int)z.full.stride(1)), "buffer: stride");
      });
      break;
    case 5: {
      // allocating products
      Z zb = gen_z(g, m, n), zs = gen_z(g, n, n);
      Mat B = randm(g, m, n), S = randm(g, n, n);
      zb.put(B);
      zs.put(S);
      auto b = zb.as<zview>();
      auto q = zs.as<zmat>();
      with(s, z, [&](auto& x) {
        auto r = inner_()(x, b);
        close(g, "inner_", to_mat(r), la::adj(A) * B, absm(la::adj(A)) * absm(B), 4 * (m + 4) * EPS);
        cd alpha = scalar(g);
        auto t = transform_alloc(x, q, k(alpha));
        close(g, "transform_alloc", to_mat(t), alpha * (A * S), std::abs(alpha) * (absm(A) * absm(S)), 4 * (n + 4) * EPS);
        require((void*)t.array().data() != (void*)&z(0, 0), "transform_alloc aliases its input");
      });
      require(zb.untouched() && zs.untouched(), "allocating product modified an input");
      break;
    }
  }
  require(z.untouched(), std::string(N[op]) + " modified its input");
  g.nontrivial(m * n > 1);
  g.note("shape", std::to_string(m) + "x" + std::to_string(n));
}

static void
norms(Gen& g)
{
  int nk = g.integer(1, 5);
  mvector<zmat> x, y;
  double s = 0, d = 0, bs = 0, bd = 0;
  int tot = 0;
  for (int i = 0; i < nk; ++i) {
    int m = dim(g), n = g.integer(1, 5);
    Z a = gen_z(g, m, n), b = gen_z(g, m, n);
    Mat A = randm(g, m, n), B = randm(g, m, n);
    a.put(A);
    b.put(B);
    auto key = std::make_pair(3 * i + 1, i % 2);
    x[key] = a.as<zmat>();
    y[key] = b.as<zmat>();
    tot += m * n;
    for (size_t j = 0; j < A.a.size(); ++j) {
      s += std::norm(A.a[j]);
      d += (A.a[j] * std::conj(B.a[j])).real();
      bd += std::abs(A.a[j]) * std::abs(B.a[j]);
    }
  }
  near_abs(g, "l2norm", l2norm(x), std::sqrt(s), (tot + 8) * 8 * EPS * std::sqrt(s));
  kc r = innerh_reduce(x, y);
  near_abs(g, "innerh_reduce", r.real(), d, (tot + 8) * 8 * EPS * bd);
  g.nontrivial(tot > 1);
}

static void
prop(Gen& g)
{
  int c = g.weighted({4, 4, 4, 3, 2, 2, 2, 2, 4, 4, 1, 5, 1});
  static const char* N[] = {"inner", "outer", "transform", "add", "_add", "scale-column", "scale2", "scale1", "eigh", "solve", "row-major", "small", "norms"};
  g.label(std::string("kernel:") + N[c]);
  g.note("kernel", N[c]);
  if (c <= 2) gemm_like(g, c);
  else if (c <= 7) add_like(g, c - 3);
  else if (c == 8) eig(g);
  else if (c == 9) solve(g);
  else if (c == 10) row_major(g);
  else if (c == 11) small(g);
  else norms(g);
}
BB_MAIN(prop)
