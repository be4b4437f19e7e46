// C13: distributed containers and collectives against a std::map known to every rank
#include <mpi.h>
#include "nlcglib.hpp"
#include "wb.hpp"
#include "model.hpp"
using namespace pbt;
using namespace wb;
using key = std::pair<int, int>;

static int wrank, wsize;

/// state of one case: communicator, owner of every key
struct Ctx
{
  MPI_Comm comm;
  int rank, size;
  std::vector<key> keys;
  std::vector<int> owner;
  std::vector<int> order;
  Communicator c() const { return Communicator(comm); }
  bool mine(int i) const { return owner[i] == rank; }
};

static double
val(Gen& g)
{
  switch (g.weighted({3, 3, 1})) {
    case 0: return g.integer(-1000, 1000);
    case 1: return g.real(-5, 5);
    default: return g.pick({0.0, -0.0, 1e300, -1e300, 1e-300});
  }
}
static void
eq(const std::string& what, double a, double b)
{
  if (!(a == b)) throw Fail(what + ": " + fmt(a) + " instead of " + fmt(b));
}
static void
nearr(Gen& g, const std::string& what, double a, double b, double scale)
{
  double t = 1e-13 * scale + 1e-300;
  g.metric(what, std::abs(a - b) / t);
  if (!(std::abs(a - b) <= t)) throw Fail(what + ": " + fmt(a) + " instead of " + fmt(b));
}

template <class T>
static void
keys_equal(const std::string& what, const mvector<T>& v, const std::vector<key>& want)
{
  std::set<key> w(want.begin(), want.end()), h;
  for (auto& e : v) h.insert(e.first);
  require(h == w, what + ": " + std::to_string(h.size()) + " keys instead of " + std::to_string(w.size()) + " (or other keys)");
}

static void
t_scalar(Gen& g, Ctx& x)
{
  bool integer = g.boolean(1, 3);
  int n = x.keys.size();
  std::vector<double> v(n);
  for (auto& a : v) a = integer ? g.integer(-100000, 100000) : val(g);
  bool explicit_comm = g.boolean(1, 3);
  auto run = [&](auto zero) {
    using T = decltype(zero);
    mvector<T> m = explicit_comm ? mvector<T>() : mvector<T>(x.c());
    for (int i : x.order)
      if (x.mine(i)) m[x.keys[i]] = (T)v[i];
    auto all = explicit_comm ? m.allgather(x.c()) : m.allgather();
    keys_equal("allgather", all, x.keys);
    for (int i = 0; i < n; ++i) eq("gathered value", (double)all[x.keys[i]], (double)(T)v[i]);
    require(all.commk().size() == 1, "a gathered container is not local");
    // input unchanged
    int cnt = 0;
    for (int i = 0; i < n; ++i)
      if (x.mine(i)) {
        ++cnt;
        eq("source of allgather", (double)m.at(x.keys[i]), (double)(T)v[i]);
      }
    require((int)m.size() == cnt, "allgather changed its source");
    double s = 0, sa = 0;
    for (auto a : v) s += (double)(T)a, sa += std::abs(a);
    T r = explicit_comm ? sum(m, x.c()) : sum(m);
    if (integer)
      eq("sum", (double)r, s);
    else
      nearr(g, "sum", (double)r, s, sa);
    // summing what is gathered counts every entry once
    T r2 = sum(all);
    if (integer)
      eq("sum of gathered", (double)r2, s);
    else
      nearr(g, "sum of gathered", (double)r2, s, sa);
  };
  if (integer)
    run(int(0));
  else
    run(double(0));
  g.label(integer ? "gather-int" : "gather-double");
}

static void
t_view(Gen& g, Ctx& x)
{
  int n = x.keys.size();
  bool cplx = g.boolean(1, 3);
  std::vector<std::vector<double>> v(n);
  for (auto& a : v) {
    int len = g.weighted({1, 3, 1}) == 1 ? g.integer(1, 4) : g.integer(1, 30);
    auto st = g.stream();
    for (int i = 0; i < 2 * len; ++i) a.push_back(st.normal());
  }
  auto run = [&](auto one) {
    using T = decltype(one);
    using V = Kokkos::View<T*, Kokkos::HostSpace>;
    auto get = [&](const std::vector<double>& a, int i) {
      if constexpr (std::is_same<T, double>::value)
        return a[i];
      else
        return T(a[i], a[a.size() / 2 + i]);
    };
    mvector<V> m(x.c());
    for (int i : x.order)
      if (x.mine(i)) {
        V w("w", v[i].size() / 2);
        for (size_t j = 0; j < w.size(); ++j) w(j) = get(v[i], j);
        m[x.keys[i]] = w;
      }
    auto all = m.allgather();
    keys_equal("allgather of arrays", all, x.keys);
    for (int i = 0; i < n; ++i) {
      auto w = all[x.keys[i]];
      require(w.size() == v[i].size() / 2, "gathered array has another length");
      for (size_t j = 0; j < w.size(); ++j) require(w(j) == get(v[i], j), "gathered array differs at key " + std::to_string(x.keys[i].first));
    }
    // no aliasing with the source
    for (auto& e : all)
      for (size_t j = 0; j < e.second.size(); ++j) e.second(j) = T(-1.0);
    for (int i = 0; i < n; ++i)
      if (x.mine(i))
        for (size_t j = 0; j < m[x.keys[i]].size(); ++j) require(m[x.keys[i]](j) == get(v[i], j), "gathered array aliases its source");
    if constexpr (std::is_same<T, double>::value) {
      auto s = sum(m);
      double tot = 0, ta = 0;
      for (int i = 0; i < n; ++i) {
        double si = 0, sa = 0;
        for (size_t j = 0; j < v[i].size() / 2; ++j) si += v[i][j], sa += std::abs(v[i][j]);
        if (x.mine(i)) nearr(g, "array sum", eval(s.at(x.keys[i])), si, sa);
        tot += si;
        ta += sa;
      }
      nearr(g, "total", sum(eval_threaded(s), x.c()), tot, ta);
    }
  };
  if (cplx)
    run(kc(1.0));
  else
    run(double(1));
  g.label(cplx ? "gather-complex-arrays" : "gather-arrays");
}

static void
t_comm(Gen& g, Ctx& x)
{
  auto c = x.c();
  require(c.size() == x.size && c.rank() == x.rank, "communicator: size or rank");
  // vector gather, several types
  // every rank of the world draws the same numbers
  std::vector<int> len(wsize);
  for (auto& l : len) l = g.integer(0, 5);
  std::vector<std::vector<double>> d(wsize);
  for (int r = 0; r < wsize; ++r)
    for (int i = 0; i < 3 * len[r]; ++i) d[r].push_back(g.integer(-120, 120));
  len.resize(x.size);
  auto check = [&](auto mk, const char* name) {
    using T = decltype(mk(0, 0, 0));
    auto at = [&](int r, int i) { return mk(d[r][3 * i], d[r][3 * i + 1], d[r][3 * i + 2]); };
    std::vector<T> v;
    for (int i = 0; i < len[x.rank]; ++i) v.push_back(at(x.rank, i));
    auto all = c.allgather(v);
    require((int)all.size() == x.size, std::string("vector gather of ") + name + ": number of ranks");
    for (int r = 0; r < x.size; ++r) {
      require((int)all[r].size() == len[r], std::string("vector gather of ") + name + ": length");
      for (int i = 0; i < len[r]; ++i) require(all[r][i] == at(r, i), std::string("vector gather of ") + name + ": value");
    }
    auto all2 = _allgather(v, c);
    require(all2 == all, std::string("_allgather of ") + name);
    // explicit displacements with gaps
    std::vector<int> disp(x.size);
    int o = 1;
    for (int r = 0; r < x.size; ++r) {
      disp[r] = o;
      o += len[r] + r % 2;
    }
    std::vector<T> buf(o + 1, mk(7, 7, 7));
    for (int i = 0; i < len[x.rank]; ++i) buf[disp[x.rank] + i] = v[i];
    c.allgather(buf.data(), len, disp);
    std::vector<T> want(o + 1, mk(7, 7, 7));
    for (int r = 0; r < x.size; ++r)
      for (int i = 0; i < len[r]; ++i) want[disp[r] + i] = at(r, i);
    require(buf == want, std::string("gather with displacements of ") + name);
  };
  switch (g.integer(0, 7)) {
    case 0: check([](double a, double, double) { return (int)a; }, "int"); break;
    case 1: check([](double a, double, double) { return a / 7; }, "double"); break;
    case 2: check([](double a, double, double) { return (char)a; }, "char"); break;
    case 3: check([](double a, double b, double) { return std::complex<double>(a, b); }, "complex"); break;
    case 4: check([](double a, double b, double) { return key((int)a, (int)b); }, "pair<int,int>"); break;
    case 5: check([](double a, double b, double c) { return std::pair<key, double>(key((int)a, (int)b), c / 3); }, "pair<key,double>"); break;
    case 6: check([](double a, double b, double) { return std::pair<int, double>((int)a, b / 3); }, "pair<int,double>"); break;
    default: check([](double a, double b, double c) { return std::pair<key, int>(key((int)a, (int)b), (int)c); }, "pair<key,int>");
  }
  // reductions
  std::vector<double> v(wsize), w(wsize);
  for (auto& a : v) a = g.integer(-1000, 1000);
  for (auto& a : w) a = g.integer(-1000, 1000);
  v.resize(x.size);
  w.resize(x.size);
  double s = std::accumulate(v.begin(), v.end(), 0.0), sw = std::accumulate(w.begin(), w.end(), 0.0);
  double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
  eq("sum of doubles", c.allreduce(v[x.rank], mpi_op::sum), s);
  eq("min of doubles", c.allreduce(v[x.rank], mpi_op::min), lo);
  eq("max of doubles", c.allreduce(v[x.rank], mpi_op::max), hi);
  eq("sum of ints", c.allreduce((int)v[x.rank], mpi_op::sum), s);
  eq("min of ints", c.allreduce((int)v[x.rank], mpi_op::min), lo);
  eq("max of ints", c.allreduce((int)v[x.rank], mpi_op::max), hi);
  kc z = c.allreduce(kc(v[x.rank], w[x.rank]), mpi_op::sum);
  eq("sum of complex numbers (re)", z.real(), s);
  eq("sum of complex numbers (im)", z.imag(), sw);
  // equal-size gather
  int per = g.integer(1, 3);
  std::vector<int> b(per * x.size, -1);
  for (int i = 0; i < per; ++i) b[per * x.rank + i] = 100 * x.rank + i;
  c.allgather(b.data(), per);
  for (int i = 0; i < per * x.size; ++i) eq("gather of blocks", b[i], 100 * (i / per) + i % per);
  // copies and moves
  Communicator c2(c), c3;
  require(c2 == c && c2.size() == x.size && c3.size() == 1, "communicator: copy");
  c3 = c;
  require(c3 == c && c3.rank() == x.rank, "communicator: assignment");
  Communicator c4(std::move(c2)), c5;
  c5 = std::move(c3);
  require(c4 == c && c5 == c && c4.size() == x.size && c5.size() == x.size, "communicator: move");
  require(!(c4 == Communicator(MPI_COMM_NULL)) && Communicator(MPI_COMM_NULL) == Communicator(MPI_COMM_NULL), "communicator: comparison with the null communicator");
  if (x.size > 1) require(Communicator() < c && c > Communicator() && !(c < Communicator()), "communicator: order");
  g.label("communicator");
}

static void
t_matrix(Gen& g, Ctx& x)
{
  int n = x.keys.size();
  std::vector<Mat> A(n), B(n);
  mvector<zmat> a(x.c()), b(x.c());
  std::vector<Z> keep;
  keep.reserve(2 * n + 2);
  double nn = 0, ab = 0, nb = 0;
  for (int i = 0; i < n; ++i) {
    int m = g.integer(1, 6), k_ = g.integer(1, 5);
    auto st = g.stream();
    A[i] = la::randn(st, m, k_);
    B[i] = la::randn(st, m, k_);
    nn += la::redot(A[i], A[i]);
    nb += la::redot(B[i], B[i]);
    ab += la::redot(A[i], B[i]);
  }
  for (int i = 0; i < n; ++i) {
    Z za = gen_z(g, A[i].m, A[i].n), zb = gen_z(g, A[i].m, A[i].n);
    if (!x.mine(i)) continue;
    keep.push_back(za);
    keep.back().put(A[i]);
    a[x.keys[i]] = keep.back().as<zmat>();
    keep.push_back(zb);
    keep.back().put(B[i]);
    b[x.keys[i]] = keep.back().as<zmat>();
  }
  nearr(g, "norm over all ranks", l2norm(a), std::sqrt(nn), std::sqrt(nn));
  nearr(g, "inner product over all ranks", kc(innerh_reduce(a, b)).real(), ab, std::sqrt(nn * nb));
  // copies do not alias
  auto c = copy(a);
  std::vector<key> own;
  for (int i = 0; i < n; ++i)
    if (x.mine(i)) own.push_back(x.keys[i]);
  keys_equal("copy", c, own);
  for (int i = 0; i < n; ++i)
    if (x.mine(i)) same("copy", to_mat(c[x.keys[i]]), A[i]);
  for (auto& e : c) {
    auto w = e.second.array();
    for (size_t j = 0; j < w.extent(1); ++j)
      for (size_t i = 0; i < w.extent(0); ++i) w(i, j) = kc(1, 2);
  }
  for (auto& z : keep) require(z.untouched(), "a copy aliases its source");
  // assignment, key by key
  mvector<zmat> d(x.c());
  for (auto& e : c) d[e.first] = e.second;
  d = a;
  keys_equal("assignment", d, own);
  require(d.commk().size() == x.size, "assignment drops the communicator");
  for (int i = 0; i < n; ++i)
    if (x.mine(i)) same("assigned matrix", to_mat(d[x.keys[i]]), A[i]);
  mvector<zmat> d2(x.c());
  d2 = static_cast<const mvector<zmat>&>(a);
  keys_equal("copy assignment", d2, own);
  for (int i = 0; i < n; ++i)
    if (x.mine(i)) same("assigned matrix", to_mat(d2[x.keys[i]]), A[i]);
  for (auto& z : keep) require(z.untouched(), "assignment changed its source");
  mvector<zmat> e2(a);
  keys_equal("copy construction", e2, own);
  for (auto& z : keep) require(z.untouched(), "assignment changed a matrix");
  g.label("matrices");
}

static void
t_apply(Gen& g, Ctx& x)
{
  int n = x.keys.size();
  std::vector<double> u(n), v(n), w(n);
  for (int i = 0; i < n; ++i) u[i] = val(g), v[i] = g.real(-3, 3), w[i] = g.integer(-9, 9);
  mvector<double> a(x.c()), b(x.c()), c(x.c());
  std::vector<key> own;
  for (int i : x.order)
    if (x.mine(i)) {
      a[x.keys[i]] = u[i];
      b[x.keys[i]] = v[i];
      c[x.keys[i]] = w[i];
      own.push_back(x.keys[i]);
    }
  // further entries of the second argument do not matter
  bool more = g.boolean(1, 3);
  if (more) b[{99, 9}] = 3;
  std::map<key, int> calls;
  auto f = [&](double p, double q, double r) { return std::make_tuple(p + 2 * q, r, (int)(3 * r)); };
  auto l = tapply(f, a, b, c);
  auto as = tapply_async(f, a, b, c);
  // what is applied is fixed when it is set up
  bool clobber = g.boolean();
  if (clobber)
    for (auto& e : a) e.second = 12345;
  require(l.commk().size() == x.size && as.commk().size() == x.size, "tapply drops the communicator");
  auto r1 = eval_threaded(l);
  auto r2 = eval_threaded(as);
  auto un = unzip(r1);
  auto un2 = unzip(r2, x.c());
  keys_equal("tapply", r1, own);
  keys_equal("tapply_async", r2, own);
  keys_equal("unzip", std::get<0>(un), own);
  keys_equal("unzip", std::get<2>(un2), own);
  if (!own.empty()) require(std::get<1>(un2).commk().size() == x.size, "unzip drops the communicator");
  double s = 0, sa = 0;
  for (int i = 0; i < n; ++i) {
    double p = u[i] + 2 * v[i];
    s += w[i];
    sa += std::abs(w[i]);
    if (!x.mine(i)) continue;
    auto k_ = x.keys[i];
    eq("tapply", std::get<0>(r1[k_]), p);
    eq("tapply_async", std::get<0>(r2[k_]), p);
    eq("unzip 0", std::get<0>(un)[k_], p);
    eq("unzip 1", std::get<1>(un)[k_], w[i]);
    eq("unzip 2", std::get<2>(un)[k_], (int)(3 * w[i]));
    eq("unzip 0 (communicator)", std::get<0>(un2)[k_], p);
    eq("unzip 1 (communicator)", std::get<1>(un2)[k_], w[i]);
    eq("unzip 2 (communicator)", std::get<2>(un2)[k_], (int)(3 * w[i]));
  }
  nearr(g, "sum of unzipped", sum(std::get<1>(un2)), s, sa);
  nearr(g, "sum of unzipped, communicator given", sum(std::get<1>(un), x.c()), s, sa);
  // product
  auto pr = c * b;
  double ps = 0, pa = 0;
  for (int i = 0; i < n; ++i) ps += w[i] * v[i], pa += std::abs(w[i] * v[i]);
  for (int i = 0; i < n; ++i)
    if (x.mine(i)) eq("product", eval(pr.at(x.keys[i])), w[i] * v[i]);
  nearr(g, "sum of products", sum(pr, x.c()), ps, pa);
  nearr(g, "sum of products, own communicator", sum(pr), ps, pa);
  // a missing entry is an error, not a default value
  if (!own.empty()) {
    auto cc = c;
    cc.data().erase(own[0]);
    bool threw = false;
    try {
      auto t = eval_threaded(tapply(f, a, b, cc));
    } catch (std::out_of_range&) {
      threw = true;
    }
    require(threw, "tapply invented a missing entry");
  }
  // assignment from a map replaces the entries and keeps the communicator
  std::map<key, double> nm;
  for (int i = 0; i < n; ++i)
    if (x.mine(i)) nm[{x.keys[i].first + 50, x.keys[i].second}] = v[i];
  mvector<double> q(x.c());
  q[{777, 0}] = 1;
  mvector<double>& ref = (q = std::map<key, double>(nm));
  require(&ref == &q && q.size() == nm.size() && q.commk().size() == x.size, "assignment from a map");
  double ms = 0, ma = 0;
  for (int i = 0; i < n; ++i) ms += v[i], ma += std::abs(v[i]);
  nearr(g, "sum after assignment", sum(q), ms, ma);
  // element access
  mvector<double> q2(nm);
  for (auto& e : nm) {
    eq("at", q2.at(e.first), e.second);
    const auto& cq = q2;
    eq("const []", cq[e.first], e.second);
  }
  bool threw = false;
  try {
    const auto& cq = q2;
    (void)cq[key{-5, -5}];
  } catch (std::out_of_range&) {
    threw = true;
  }
  require(threw, "access to a missing key did not throw");
  // a communicator smaller than that of the container is refused
  if (x.size > 1) {
    int bad = 0;
    try {
      (void)sum(c, Communicator(MPI_COMM_SELF));
    } catch (std::runtime_error&) {
      bad |= 1;
    }
    try {
      (void)c.allgather(Communicator(MPI_COMM_SELF));
    } catch (std::runtime_error&) {
      bad |= 2;
    }
    require(bad == 3, "a too small communicator was accepted");
  }
  g.label("apply");
}

static void
t_buffers(Gen& g, Ctx& x)
{
  // what the host declares arrives in the containers
  int n = x.keys.size();
  model::MStore st;
  std::vector<std::vector<double>> vec;
  std::vector<double> sc;
  std::vector<key> own;
  std::vector<Mat> A;
  std::vector<std::vector<double>> allv(n);
  std::vector<double> alls(n);
  for (int i : x.order) {
    int m = g.integer(1, 6), k_ = g.integer(1, 5), pad = g.pick({0, 1, 3}), front = g.pick({0, 2}), gap = g.pick({0, 0, 1, 2});
    bool row_major = m > 1 && k_ > 1 && g.weighted({3, 1});
    auto rs = g.stream();
    Mat a = la::randn(rs, m, k_);
    for (int j = 0; j < k_; ++j) allv[i].push_back(rs.normal());
    alls[i] = rs.uni();
    if (!x.mine(i)) continue;
    st.add(m, k_, pad, front, gap, row_major);
    st.put(own.size(), a);
    A.push_back(a);
    vec.push_back(allv[i]);
    sc.push_back(alls[i]);
    own.push_back(x.keys[i]);
  }
  int stride = g.pick({1, 1, 2, 3});
  auto shadow = st.buf;
  auto vshadow = vec;
  auto mm = make_mmatrix<Kokkos::HostSpace>(std::make_shared<model::MBuf>(st, own, x.comm));
  auto mv = make_mmvector<Kokkos::HostSpace>(std::make_shared<model::VBuf>(vec, own, x.comm, memory_type::host, -1, false, stride));
  auto ms = make_mmscalar(std::make_shared<model::SBuf>(sc, own, x.comm));
  keys_equal("matrices of the host", mm, own);
  keys_equal("vectors of the host", mv, own);
  keys_equal("scalars of the host", ms, own);
  require(mm.commk().size() == x.size && mv.commk().size() == x.size && ms.commk().size() == x.size, "communicator of the host is lost");
  for (size_t i = 0; i < own.size(); ++i) {
    same("matrix of the host", to_mat(mm[own[i]]), A[i]);
    require(mv[own[i]].size() == vec[i].size(), "length of a vector of the host");
    for (size_t j = 0; j < vec[i].size(); ++j) eq("vector of the host", mv[own[i]](j), vec[i][j]);
    eq("scalar of the host", ms[own[i]], sc[i]);
    // vectors are copies
    for (size_t j = 0; j < vec[i].size(); ++j) mv[own[i]](j) = 4;
    for (auto& y : vec[i]) y = 17;
    for (size_t j = 0; j < vec[i].size(); ++j) eq("vector is a copy", mv[own[i]](j), 4);
    vec[i] = vshadow[i];
  }
  for (size_t i = 0; i < shadow.size(); ++i)
    require(memcmp(shadow[i].data(), st.buf[i].data(), shadow[i].size() * sizeof(shadow[i][0])) == 0, "creating views wrote to the host");
  // matrices are views: writing changes exactly the declared element
  if (!own.empty()) {
    int i = g.draw(1 << 20) % own.size();
    int r = g.draw(1 << 20) % A[i].m, c = g.draw(1 << 20) % A[i].n;
    mm[own[i]].array()(r, c) = kc(3, 4);
    shadow[i][st.at(i, r, c)] = {3, 4};
    for (size_t q = 0; q < shadow.size(); ++q)
      require(memcmp(shadow[q].data(), st.buf[q].data(), shadow[q].size() * sizeof(shadow[q][0])) == 0, "writing through a view hit another element");
  } else {
    g.draw(1 << 20);
    g.draw(1 << 20);
    g.draw(1 << 20);
  }
  auto allm = make_mmvector<Kokkos::HostSpace>(std::make_shared<model::VBuf>(vec, own, x.comm, memory_type::host, -1, false, stride)).allgather();
  keys_equal("gathered vectors of the host", allm, x.keys);
  double s = 0, sa = 0;
  for (int i = 0; i < n; ++i) {
    s += alls[i];
    sa += alls[i];
    require(allm[x.keys[i]].size() == allv[i].size(), "length of a gathered vector");
    for (size_t j = 0; j < allv[i].size(); ++j) eq("gathered vector of the host", allm[x.keys[i]](j), allv[i][j]);
  }
  nearr(g, "sum of the weights", sum(ms), s, sa);
  g.label("host-buffers");
}

static void
body(Gen& g)
{
  Ctx x;
  bool split = wsize > 2 && g.boolean(1, 4);
  bool reverse = g.boolean(1, 3);
  MPI_Comm_split(MPI_COMM_WORLD, split ? wrank % 2 : 0, reverse ? -wrank : wrank, &x.comm);
  MPI_Comm_rank(x.comm, &x.rank);
  MPI_Comm_size(x.comm, &x.size);
  int n = g.weighted({6, 1}) == 0 ? g.integer(0, 6) : g.integer(0, 25);
  std::set<key> used;
  bool negative = g.boolean(1, 4);
  for (int i = 0; i < n; ++i) {
    key k_{g.integer(0, 12) - (negative ? 6 : 0), g.integer(0, 2)};
    while (used.count(k_)) k_.first += 13;
    used.insert(k_);
    x.keys.push_back(k_);
  }
  int mode = g.integer(0, 2);
  for (int i = 0; i < n; ++i) x.owner.push_back(mode == 0 ? i % x.size : (int)(g.draw(1 << 20) % x.size));
  if (mode == 2 && n) {
    // everything on one rank
    int o = (int)(g.draw(1 << 20) % x.size);
    for (auto& q : x.owner) q = o;
  }
  x.order = g.permutation(n);
  g.note("keys", (int)n);
  g.note("owners", x.owner);
  std::string msg;
  try {
    switch (g.integer(0, 5)) {
      case 0: t_scalar(g, x); break;
      case 1: t_view(g, x); break;
      case 2: t_comm(g, x); break;
      case 3: t_matrix(g, x); break;
      case 4: t_apply(g, x); break;
      default: t_buffers(g, x);
    }
  } catch (Fail& e) {
    msg = "rank " + std::to_string(x.rank) + " of " + std::to_string(x.size) + ": " + e.what();
  } catch (std::exception& e) {
    msg = "rank " + std::to_string(x.rank) + " of " + std::to_string(x.size) + ": exception: " + e.what();
  }
  std::vector<int> cnt(x.size, 0);
  for (int o : x.owner) cnt[o]++;
  for (int c : cnt)
    if (c == 0) {
      g.label("empty-rank");
      break;
    }
  int f = msg.empty() ? 0 : 1, any;
  MPI_Allreduce(&f, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Comm_free(&x.comm);
  g.nontrivial(n > 0 && wsize > 1);
  if (any) {
    char buf[400];
    snprintf(buf, sizeof buf, "%s", msg.c_str());
    std::vector<char> all(400 * wsize);
    MPI_Allgather(buf, 400, MPI_CHAR, all.data(), 400, MPI_CHAR, MPI_COMM_WORLD);
    for (int i = 0; i < wsize; ++i)
      if (all[400 * i]) throw Fail(all.data() + 400 * i);
  }
}

int
main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  nlcglib::initialize();
  int rc = pbt::run(argc, argv, body, wrank);
  nlcglib::finalize();
  MPI_Finalize();
  return rc;
}
