// Synthetic Kohn-Sham host: implements nlcglib's public host interface on top of small dense
// matrices, records every state it is asked to evaluate and checks the protocol.
#pragma once
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include "la.hpp"
#include "nlcglib.hpp"
#include "pbt.hpp"
#include "smear_ref.hpp"

namespace model {
using namespace nlcglib;
using la::cd;
using la::Mat;
using kkey = std::pair<int, int>;

struct KP
{
  kkey key;
  double w;
  int nG, nb;
  Mat H0, S, K, P, X0;
};

struct Problem
{
  int ns{1};
  int occ{2};
  int Ne{1};
  double U{0};
  smearing_type sm{smearing_type::FERMI_DIRAC};
  double T{1000}, tol{1e-9}, kappa{0.3}, tau{0.1};
  int maxiter{100}, restart{10};
  int nsite{2};
  int special{0};
  std::vector<KP> k;
  double kT() const { return ref::KB * T; }
};

struct HostFault : std::runtime_error
{
  int id;
  explicit HostFault(int id)
      : std::runtime_error("host fault " + std::to_string(id))
      , id(id)
  {
  }
};
/// a host exception that is not a std::exception
struct AlienFault
{
  int id;
};
struct AllocFault : std::bad_alloc
{
  int id;
  explicit AllocFault(int id)
      : id(id)
  {
  }
};
struct TooManyEvaluations : std::runtime_error
{
  TooManyEvaluations()
      : std::runtime_error("host gave up: too many energy evaluations (run does not terminate)")
  {
  }
};

/// one evaluation of the energy
struct Record
{
  std::map<kkey, Mat> X;
  std::map<kkey, std::vector<double>> fn;
  std::map<kkey, std::vector<double>> hii;
  double E{0};        // true energy
  double Erep{0};     // energy reported to the library
  double mu{std::numeric_limits<double>::quiet_NaN()};
  bool fn_set{false};  // set_fn was called since the previous evaluation
  int iter{-1};        // number of print_info() calls seen before
};

static const double CANARY = -7.25e137;

/// strided storage of one matrix per k-point, padded with canaries
struct MStore
{
  std::vector<std::vector<cd>> buf;
  std::vector<int> ld, off, m, n, rs;
  /// gap > 0: that many foreign elements between the elements of a column; row_major: rows are contiguous
  void add(int m_, int n_, int pad, int front, int gap = 0, bool row_major = false)
  {
    int r = row_major ? n_ * (1 + gap) + pad : 1 + gap, c = row_major ? 1 + gap : m_ * (1 + gap) + pad;
    rs.push_back(r);
    ld.push_back(c);
    off.push_back(front);
    m.push_back(m_);
    n.push_back(n_);
    buf.emplace_back((size_t)front + (row_major ? (size_t)m_ * r : (size_t)n_ * c) + 3, cd(CANARY, CANARY));
  }
  size_t at(int i, int r, int c) const { return off[i] + (size_t)c * ld[i] + (size_t)r * rs[i]; }
  cd* ptr(int i) { return buf[i].data() + off[i]; }
  void put(int i, const Mat& A)
  {
    for (int c = 0; c < n[i]; ++c)
      for (int r = 0; r < m[i]; ++r) buf[i][at(i, r, c)] = A(r, c);
  }
  Mat get(int i)
  {
    Mat A(m[i], n[i]);
    for (int c = 0; c < n[i]; ++c)
      for (int r = 0; r < m[i]; ++r) A(r, c) = buf[i][at(i, r, c)];
    return A;
  }
  /// under AddressSanitizer: forbid (or allow) any access to the padding
  void guard(bool on)
  {
#if defined(__SANITIZE_ADDRESS__)
    for (size_t i = 0; i < buf.size(); ++i) {
      cd* b = buf[i].data();
      if (!on) {
        ASAN_UNPOISON_MEMORY_REGION(b, buf[i].size() * sizeof(cd));
        continue;
      }
      ASAN_POISON_MEMORY_REGION(b, buf[i].size() * sizeof(cd));
      for (int c = 0; c < n[i]; ++c)
        for (int r = 0; r < m[i]; ++r) ASAN_UNPOISON_MEMORY_REGION(b + at(i, r, c), sizeof(cd));
    }
#else
    (void)on;
#endif
  }
  bool canaries_ok(int i)
  {
    std::vector<char> used(buf[i].size(), 0);
    for (int c = 0; c < n[i]; ++c)
      for (int r = 0; r < m[i]; ++r) used[at(i, r, c)] = 1;
    for (size_t j = 0; j < buf[i].size(); ++j)
      if (!used[j] && (buf[i][j].real() != CANARY || buf[i][j].imag() != CANARY)) return false;
    return true;
  }
};

struct Layout
{
  std::vector<int> padC, padH, front;  // per local k
  std::vector<int> gap;                // foreign elements between the elements of a column (may be empty)
  std::vector<int> row_major;          // rows are contiguous (may be empty)
  int vstride{1};                      // stride of the vectors
};

class Host;

/// number of buffer objects handed out and not yet destroyed
struct Counted
{
  static inline long live = 0;
  Counted() { ++live; }
  Counted(const Counted&) { ++live; }
  ~Counted() { --live; }
};

class MBuf : public MatrixBaseZ
{
public:
  MBuf(MStore& st, const std::vector<kkey>& keys, MPI_Comm comm, memory_type mem = memory_type::host, int mem_at = -1)
      : mem(mem)
      , mem_at(mem_at)
      , st(st)
      , keys(keys)
      , comm(comm)
  {
  }
  buffer_t get(int i) override
  {
    return buffer_t({st.rs[i], st.ld[i]}, {st.m[i], st.n[i]}, st.ptr(i), mem_at < 0 || mem_at == i ? mem : memory_type::host, MPI_COMM_SELF);
  }
  const buffer_t get(int i) const override { return const_cast<MBuf*>(this)->get(i); }
  int size() const override { return keys.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  kindex_t kpoint_index(int i) const override { return keys.at(i); }

private:
  Counted counted;
  memory_type mem;
  int mem_at;
  MStore& st;
  const std::vector<kkey>& keys;
  MPI_Comm comm;
};
class VBuf : public VectorBaseZ
{
public:
  /// temp: the object owns a copy of the data, which does not outlive it
  VBuf(std::vector<std::vector<double>>& d_, const std::vector<kkey>& keys, MPI_Comm comm, memory_type mem = memory_type::host,
       int mem_at = -1, bool temp = false, int stride = 1)
      : mem(mem)
      , mem_at(mem_at)
      , stride(stride)
      , own(temp || stride > 1 ? expand(d_, stride) : std::vector<std::vector<double>>())
      , n(lengths(d_))
      , d(temp || stride > 1 ? own : d_)
      , keys(keys)
      , comm(comm)
  {
  }
  VBuf(const VBuf&) = delete;
  ~VBuf()
  {
    for (auto& v : own)
      for (auto& x : v) x = std::numeric_limits<double>::quiet_NaN();
  }
  buffer_t get(int i) override
  {
    memory_type t = mem_at < 0 || mem_at == i ? mem : memory_type::host;
    if (stride == 1) return buffer_t(n[i], d[i].data(), t, MPI_COMM_SELF);
    return buffer_t({stride}, {n[i]}, d[i].data(), t, MPI_COMM_SELF);
  }
  const buffer_t get(int i) const override { return const_cast<VBuf*>(this)->get(i); }
  int size() const override { return keys.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  kindex_t kpoint_index(int i) const override { return keys.at(i); }

private:
  static std::vector<std::vector<double>> expand(const std::vector<std::vector<double>>& d, int stride)
  {
    std::vector<std::vector<double>> r;
    for (auto& v : d) {
      r.emplace_back(v.empty() ? 0 : (v.size() - 1) * stride + 1, CANARY);
      for (size_t j = 0; j < v.size(); ++j) r.back()[j * stride] = v[j];
    }
    return r;
  }
  static std::vector<int> lengths(const std::vector<std::vector<double>>& d)
  {
    std::vector<int> r;
    for (auto& v : d) r.push_back(v.size());
    return r;
  }
  Counted counted;
  memory_type mem;
  int mem_at;
  int stride;
  std::vector<std::vector<double>> own;
  std::vector<int> n;
  std::vector<std::vector<double>>& d;
  const std::vector<kkey>& keys;
  MPI_Comm comm;
};
class SBuf : public ScalarBaseZ
{
public:
  SBuf(const std::vector<double>& d_, const std::vector<kkey>& keys, MPI_Comm comm, bool temp = false)
      : own(temp ? d_ : std::vector<double>())
      , d(temp ? own : d_)
      , keys(keys)
      , comm(comm)
  {
  }
  buffer_t get(int i) override { return d.at(i); }
  const buffer_t get(int i) const override { return d.at(i); }
  int size() const override { return keys.size(); }
  MPI_Comm mpicomm(int) const override { return MPI_COMM_SELF; }
  MPI_Comm mpicomm() const override { return comm; }
  kindex_t kpoint_index(int i) const override { return keys.at(i); }
  SBuf(const SBuf&) = delete;
  ~SBuf()
  {
    for (auto& x : own) x = std::numeric_limits<double>::quiet_NaN();
  }

private:
  Counted counted;
  std::vector<double> own;
  const std::vector<double>& d;
  const std::vector<kkey>& keys;
  MPI_Comm comm;
};

class Host : public EnergyBase
{
public:
  /// owned: indices into p.k handled by this process, in storage order
  Host(const Problem& p, std::vector<int> owned, MPI_Comm comm = MPI_COMM_SELF, const Layout* lay = nullptr)
      : p(p)
      , own(std::move(owned))
      , comm(comm)
  {
    if (lay) vstride = lay->vstride;
    for (size_t i = 0; i < own.size(); ++i) {
      auto& k = p.k[own[i]];
      keys.push_back(k.key);
      w.push_back(k.w);
      C.add(k.nG, k.nb, lay ? lay->padC[i] : 0, lay ? lay->front[i] : 0, lay && i < lay->gap.size() ? lay->gap[i] : 0, lay && i < lay->row_major.size() && lay->row_major[i]);
      HX.add(k.nG, k.nb, lay ? lay->padH[i] : 0, lay ? lay->front[i] : 0, lay && i < lay->gap.size() ? lay->gap[i] : 0, lay && i < lay->row_major.size() && lay->row_major[i]);
      SX.add(k.nG, k.nb, 0, 0);
      C.put(i, k.X0);
      HX.put(i, Mat(k.nG, k.nb));
      SX.put(i, Mat(k.nG, k.nb));
      fn.emplace_back(k.nb, 0.0);
      ek.emplace_back(k.nb, std::numeric_limits<double>::quiet_NaN());
      ekin.emplace_back(k.nG, 1.0);
    }
    double cap = 0;
    for (auto& k : p.k) cap += k.w * k.nb;
    for (auto& f : fn)
      for (auto& x : f) x = p.Ne / cap;
    shadow();
  }

  // copies of everything the library must not write
  bool keep_shadow{false};
  std::vector<std::vector<cd>> sHX, sSX;
  std::vector<std::vector<double>> sfn, sek, sekin;
  std::vector<double> sw;
  void shadow()
  {
    if (!keep_shadow) return;
    guard(false);
    sHX = HX.buf;
    sSX = SX.buf;
    guard(guarded);
    sfn = fn;
    sek = ek;
    sekin = ekin;
    sw = w;
  }
  template <class V>
  static bool same_bits(const V& a, const V& b)
  {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (a[i].size() != b[i].size() || memcmp(a[i].data(), b[i].data(), a[i].size() * sizeof(a[i][0])) != 0) return false;
    return true;
  }
  /// under AddressSanitizer: any access of the library to the padding is reported
  bool guarded{false};
  void guard(bool on)
  {
    C.guard(on);
    HX.guard(on);
    SX.guard(on);
  }
  ~Host() { guard(false); }
  std::string touched() const
  {
    if (!same_bits(HX.buf, sHX)) return "H*psi";
    if (!same_bits(SX.buf, sSX)) return "S*psi";
    if (!same_bits(fn, sfn)) return "occupation";
    if (!same_bits(ek, sek)) return "level";
    if (!same_bits(ekin, sekin)) return "kinetic energy";
    if (sw != w) return "weight";
    return "";
  }

  // ---- controls -----------------------------------------------------------------------------
  int max_evals{60000};  // 200 iterations with 160 backtracking steps (tau = 0.9) each are legitimate
  long fault_at{-1};  // callback number that throws
  int fault_kind{0};
  mutable long ticks{0};
  std::function<void()> on_tick;  // at the beginning of every callback
  std::map<char, memory_type> memtype;  // declared memory of buffers C, H (hphi), E (levels), F (occupations)
  int memtype_at{-1};                   // local k-point whose buffers are declared so (-1: all)
  std::function<double(const Record&, int)> energy_filter;  // reported energy
  std::function<void(const Record&, int)> on_compute;       // after evaluation
  std::function<std::vector<double>(int, int)> ek_override;  // (local k, eval no) -> levels
  bool keep_states{true};
  int vstride{1};
  bool temp_vectors{false};  // vectors and weights are handed out as temporaries that own their data

  // ---- observations -------------------------------------------------------------------------
  std::vector<Record> rec;
  std::vector<std::string> protocol;  // protocol violations
  mutable int n_print{0};
  std::vector<size_t> print_at;  // rec.size() at each print_info
  int n_setmu{0}, n_setfn{0};
  bool non_host_request{false};
  double mu{std::numeric_limits<double>::quiet_NaN()};

  memory_type mem(char c) const { return memtype.count(c) ? memtype.at(c) : memory_type::host; }
  void tick() const
  {
    if (on_tick) on_tick();
    if (ticks++ == fault_at) {
      if (fault_kind == 1) throw AlienFault{(int)fault_at};
      if (fault_kind == 2) throw AllocFault((int)fault_at);
      throw HostFault((int)fault_at);
    }
  }

  // ---- EnergyBase ---------------------------------------------------------------------------
  void compute() override
  {
    tick();
    if ((int)rec.size() >= max_evals) throw TooManyEvaluations();
    Record r;
    r.fn_set = fn_fresh;
    r.iter = n_print - 1;
    fn_fresh = false;
    // density on sites
    std::vector<double> rho(p.nsite, 0.0);
    std::vector<Mat> X(own.size());
    for (size_t i = 0; i < own.size(); ++i) {
      auto& k = p.k[own[i]];
      X[i] = C.get(i);
      Mat q = la::adj(k.P) * X[i];
      for (int s = 0; s < p.nsite; ++s)
        for (int n = 0; n < k.nb; ++n) rho[s] += k.w * fn[i][n] * std::norm(q(s, n));
    }
    reduce(rho);
    double e = 0;
    for (size_t i = 0; i < own.size(); ++i) {
      auto& k = p.k[own[i]];
      Mat hx = k.H0 * X[i];
      Mat h0 = hx;
      if (p.U != 0) {
        Mat q = la::adj(k.P) * X[i];
        for (int s = 0; s < p.nsite; ++s)
          for (int n = 0; n < k.nb; ++n) q(s, n) *= p.U * rho[s];
        hx = hx + k.P * q;
      }
      HX.put(i, hx);
      SX.put(i, k.S * X[i]);
      for (int n = 0; n < k.nb; ++n) {
        double d = 0, d0 = 0;
        for (int g = 0; g < k.nG; ++g) {
          d += (std::conj(X[i](g, n)) * hx(g, n)).real();
          d0 += (std::conj(X[i](g, n)) * h0(g, n)).real();
        }
        ek[i][n] = d;
        e += k.w * fn[i][n] * d0;
      }
    }
    std::vector<double> ev{e};
    reduce(ev);
    e = ev[0];
    for (double x : rho) e += 0.5 * p.U * x * x;
    etot = e;
    r.E = e;
    for (size_t i = 0; i < own.size(); ++i) {
      if (keep_states) r.X[keys[i]] = X[i];
      r.fn[keys[i]] = fn[i];
      r.hii[keys[i]] = ek[i];
      if (ek_override) ek[i] = ek_override(i, rec.size());
    }
    erep = energy_filter ? energy_filter(r, rec.size()) : e;
    r.Erep = erep;
    rec.push_back(std::move(r));
    computed = true;
    shadow();
    if (on_compute) on_compute(rec.back(), (int)rec.size() - 1);
  }
  int nelectrons() override
  {
    tick();
    return p.Ne;
  }
  int occupancy() override
  {
    tick();
    return p.occ;
  }
  double get_total_energy() override
  {
    tick();
    return erep;
  }
  std::map<std::string, double> get_energy_components() override
  {
    tick();
    return {{"total", erep}, {"n_eval", (double)rec.size()}};
  }
  std::shared_ptr<MatrixBaseZ> get_hphi(memory_type t) override
  {
    tick();
    if (t != memory_type::host) non_host_request = true;
    return std::make_shared<MBuf>(HX, keys, comm, mem('H'), memtype_at);
  }
  std::shared_ptr<MatrixBaseZ> get_sphi(memory_type t) override
  {
    tick();
    if (t != memory_type::host) non_host_request = true;
    return std::make_shared<MBuf>(SX, keys, comm);
  }
  std::shared_ptr<MatrixBaseZ> get_C(memory_type t) override
  {
    tick();
    if (t != memory_type::host) non_host_request = true;
    return std::make_shared<MBuf>(C, keys, comm, mem('C'), memtype_at);
  }
  std::shared_ptr<VectorBaseZ> get_fn() override
  {
    tick();
    return std::make_shared<VBuf>(fn, keys, comm, mem('F'), memtype_at, temp_vectors, vstride);
  }
  void set_fn(const std::vector<kkey>& kk, const std::vector<std::vector<double>>& v) override
  {
    tick();
    n_setfn++;
    fn_fresh = true;
    if (kk.size() != v.size()) protocol.push_back("set_fn: keys and values differ in length");
    if (kk.size() != keys.size())
      protocol.push_back("set_fn: got " + std::to_string(kk.size()) + " k-points, own " + std::to_string(keys.size()));
    std::set<kkey> seen;
    for (size_t i = 0; i < kk.size() && i < v.size(); ++i) {
      auto it = std::find(keys.begin(), keys.end(), kk[i]);
      if (it == keys.end()) {
        protocol.push_back("set_fn: foreign key");
        continue;
      }
      if (!seen.insert(kk[i]).second) protocol.push_back("set_fn: duplicate key");
      size_t l = it - keys.begin();
      if (v[i].size() != fn[l].size())
        protocol.push_back("set_fn: wrong number of bands");
      else
        fn[l] = v[i];
    }
    shadow();
  }
  std::shared_ptr<VectorBaseZ> get_ek() override
  {
    tick();
    if (!computed) protocol.push_back("get_ek before any evaluation");
    return std::make_shared<VBuf>(ek, keys, comm, mem('E'), memtype_at, temp_vectors, vstride);
  }
  std::shared_ptr<VectorBaseZ> get_gkvec_ekin() override
  {
    tick();
    return std::make_shared<VBuf>(ekin, keys, comm, memory_type::host, -1, temp_vectors, vstride);
  }
  std::shared_ptr<ScalarBaseZ> get_kpoint_weights() override
  {
    tick();
    return std::make_shared<SBuf>(w, keys, comm, temp_vectors);
  }
  void set_chemical_potential(double m) override
  {
    tick();
    n_setmu++;
    mu = m;
    if (!rec.empty()) rec.back().mu = m;
  }
  double get_chemical_potential() override
  {
    tick();
    return mu;
  }
  void print_info() const override
  {
    tick();
    n_print++;
    const_cast<Host*>(this)->print_at.push_back(rec.size());
  }

  void reduce(std::vector<double>& v)
  {
    if (comm == MPI_COMM_SELF) return;
    std::vector<double> o(v.size());
    MPI_Allreduce(v.data(), o.data(), (int)v.size(), MPI_DOUBLE, MPI_SUM, comm);
    v = o;
  }
  int local(const kkey& k) const
  {
    for (size_t i = 0; i < keys.size(); ++i)
      if (keys[i] == k) return (int)i;
    return -1;
  }

  const Problem& p;
  std::vector<int> own;
  MPI_Comm comm;
  std::vector<kkey> keys;
  std::vector<double> w;
  MStore C, HX, SX;
  std::vector<std::vector<double>> fn, ek, ekin;
  double etot{0}, erep{0};
  bool fn_fresh{false}, computed{false};
};

template <class BASE>
class Op : public BASE
{
public:
  using key_t = kkey;
  Op(Host& h, bool overlap)
      : h(h)
      , overlap(overlap)
      , keys(h.keys)
  {
  }
  void apply(const key_t& key, MatrixBaseZ::buffer_t& out, MatrixBaseZ::buffer_t& in) const override
  {
    h.tick();
    calls++;
    int l = h.local(key);
    auto bad = [&](const std::string& s) {
      h.protocol.push_back(std::string(overlap ? "overlap: " : "precond: ") + s);
    };
    if (l < 0) {
      bad("unknown key");
      throw std::runtime_error("unknown key");
    }
    auto& k = h.p.k[h.own[l]];
    for (auto* b : {&out, &in}) {
      if (b->size[0] != k.nG || b->size[1] != k.nb) {
        bad("buffer is " + std::to_string(b->size[0]) + "x" + std::to_string(b->size[1]));
        throw std::runtime_error("wrong shape");
      }
      if (b->stride[0] != 1 || (b->stride[1] < k.nG && k.nb > 1)) bad("bad strides");
      if (b->memtype != memory_type::host) bad("buffer not declared host memory");
      if (!b->data) bad("null data");
    }
    auto range = [](const MatrixBaseZ::buffer_t& b) {
      return std::make_pair((const char*)b.data, (const char*)(b.data + (size_t)b.stride[1] * (b.size[1] - 1) + b.size[0]));
    };
    auto ro = range(out), ri = range(in);
    if (ro.first < ri.second && ri.first < ro.second) bad("output aliases input");
    for (MStore* s : {&h.C, &h.HX, &h.SX})
      for (auto& v : s->buf)
        if (ro.first < (const char*)(v.data() + v.size()) && (const char*)v.data() < ro.second) bad("output lies in a host buffer");
    Mat X(k.nG, k.nb);
    for (int c = 0; c < k.nb; ++c)
      for (int r = 0; r < k.nG; ++r) X(r, c) = in.data[(size_t)c * in.stride[1] + (size_t)r * in.stride[0]];
    Mat Y = (overlap ? k.S : k.K) * X;
    for (int c = 0; c < k.nb; ++c)
      for (int r = 0; r < k.nG; ++r) out.data[(size_t)c * out.stride[1] + (size_t)r * out.stride[0]] = Y(r, c);
  }
  std::vector<key_t> get_keys() const override
  {
    h.tick();
    return keys;
  }
  mutable long calls{0};
  std::vector<key_t> keys;

private:
  Host& h;
  bool overlap;
};
using OverlapOp = Op<OverlapBase>;
using PrecondOp = Op<UltrasoftPrecondBase>;

struct Run
{
  nlcg_info info{};
  bool threw{false};
  std::string what;
  int fault{-1}, fault_kind{-1};
  bool runaway{false};
};

/// run the optimiser on a host; exceptions are captured
inline Run
optimise(Host& h, const Problem& p, int entry = 0, const std::vector<int>* op_order = nullptr)
{
  PrecondOp P(h, false);
  OverlapOp S(h, true);
  if (op_order)
    for (size_t i = 0; i < h.keys.size(); ++i) {
      P.keys[i] = h.keys[(*op_order)[i]];
      S.keys[h.keys.size() - 1 - i] = h.keys[(*op_order)[i]];
    }
  Run r;
  try {
    switch (entry) {
      case 1: r.info = nlcg_us_device_cpu(h, P, S, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      case 2: r.info = nlcg_us_device(h, P, S, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      case 3: r.info = nlcg_us_cpu_device(h, P, S, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      case 4: r.info = nlcg_mvp2_cpu(h, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      case 5: r.info = nlcg_mvp2_device(h, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      case 6: r.info = nlcg_mvp2_cpu_device(h, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      case 7: r.info = nlcg_mvp2_device_cpu(h, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart); break;
      default: r.info = nlcg_us_cpu(h, P, S, p.sm, p.T, p.tol, p.kappa, p.tau, p.maxiter, p.restart);
    }
  } catch (AlienFault& f) {
    r.threw = true;
    r.fault = f.id;
    r.fault_kind = 1;
    r.what = "alien";
  } catch (AllocFault& f) {
    r.threw = true;
    r.fault = f.id;
    r.fault_kind = 2;
    r.what = f.what();
  } catch (HostFault& f) {
    r.threw = true;
    r.fault = f.id;
    r.fault_kind = 0;
    r.what = f.what();
  } catch (TooManyEvaluations& f) {
    r.threw = true;
    r.runaway = true;
    r.what = f.what();
  } catch (std::exception& e) {
    r.threw = true;
    r.what = e.what();
  }
  return r;
}

/// The run ended because no chemical potential was found, and it may: non-monotone smearings, or trial levels so far
/// away (an almost straight profile makes the quadratic line search step very far) that the electron number cannot be
/// resolved in double precision.
inline bool
no_mu(const Host& h, const Run& r)
{
  if (!r.threw || r.what.find("chemical potential") == std::string::npos) return false;
  if (!ref::monotone(h.p.sm)) return true;
  double cap = 0;
  for (auto& k : h.p.k) cap += k.w * h.p.occ * k.nb;
  size_t at = r.what.rfind("mu = ");  // where the search ended, if the message tells
  double mu = at == std::string::npos ? std::numeric_limits<double>::infinity() : std::atof(r.what.c_str() + at + 5);
  return std::max(std::abs(mu), std::abs(h.mu)) / h.p.kT() * cap > 1e4;
}

inline std::vector<int>
all_k(const Problem& p)
{
  std::vector<int> v(p.k.size());
  for (size_t i = 0; i < v.size(); ++i) v[i] = i;
  return v;
}

struct GenOpts
{
  bool wide{true};  // kappa and tau far from the customary values
  int max_k{3};
  int max_nG{9};
  bool mono_only{false};
  bool allow_U{true};
  double Tmin{30}, Tmax{30000};
  int start{-1};  // -1 any, 0 random, 1 near eigenvectors
  bool vary_nb{true};
  int special{5};  // up to: 1 complete bases, 2 degenerate levels, 3 start in eigenvectors, 4 in mixed ones, 5 symmetric dimers
  int big{20};  // one problem in `big` is larger (0: never)
};

inline std::vector<double>
spectrum(pbt::Gen& g, pbt::Stream& r, int n)
{
  double spread = g.logreal(0.2, 4);
  std::vector<double> e(n);
  double off = g.real(-1, 1);
  for (int i = 0; i < n; ++i) e[i] = off + spread * (i + 0.6 * r.sym()) / n;
  return e;
}

/// H = [A B; B A], S, K, P block diagonal, orbitals localised on one of the two sites
inline void
make_dimer(KP& k, pbt::Stream& st, bool us, bool prec)
{
  int m = std::max(1, k.nb / 2), n = std::max(m, k.nG / 2);
  auto herm = [&](double lo, double hi) {
    std::vector<double> e(n);
    for (auto& x : e) x = lo + (hi - lo) * st.uni();
    return la::rand_herm(st, e);
  };
  auto pair = [](const Mat& A, const Mat& B) {
    Mat M(2 * A.m, 2 * A.n);
    for (int c = 0; c < A.n; ++c)
      for (int r = 0; r < A.m; ++r) {
        M(r, c) = M(r + A.m, c + A.n) = A(r, c);
        M(r + A.m, c) = M(r, c + A.n) = B(r, c);
      }
    return M;
  };
  Mat Z(n, n);
  k.nb = 2 * m;
  k.nG = 2 * n;
  k.H0 = pair(herm(-1, 1), herm(-0.4, 0.4));
  Mat s = us ? herm(0.6, 1.5) : la::eye(n);
  k.S = pair(s, Z);
  k.K = pair(prec ? herm(0.3, 1.5) : la::eye(n), Z);
  Mat q = la::randn(st, n, 1);
  double nn = 0;
  for (int r = 0; r < n; ++r) nn += std::norm(q(r, 0));
  for (int r = 0; r < n; ++r) q(r, 0) *= 1 / std::sqrt(nn);
  k.P = pair(q, Mat(n, 1));
  k.X0 = pair(la::loewdin(la::randn(st, n, m), s), Mat(n, m));
}

inline Problem
gen_problem(pbt::Gen& g, const GenOpts& o = {})
{
  Problem p;
  int big = o.big && g.boolean(1, o.big) ? g.integer(1, 2) : 0;  // 1: many k-points, 2: many bands
  int nk = big == 1 ? g.integer(4, 12) : g.integer(1, o.max_k);
  p.ns = g.integer(1, 2);
  p.occ = p.ns == 1 ? 2 : 1;
  p.sm = o.mono_only ? ref::ALL[g.draw(3)] : ref::ALL[g.draw(5)];
  p.T = g.logreal(o.Tmin, o.Tmax);
  p.U = o.allow_U && g.boolean() ? g.real(0.05, 0.8) : 0.0;
  p.nsite = 2;
  p.kappa = o.wide && g.boolean(1, 4) ? g.logreal(0.003, 8) : g.real(0.1, 0.6);
  p.tau = o.wide && g.boolean(1, 4) ? g.logreal(1e-3, 0.95) : g.pick({0.1, 0.3, 0.5, 0.9});
  p.restart = g.pick({1, 2, 3, 5, 10, 1000});
  bool us = g.boolean();     // non-trivial overlap
  bool prec = g.boolean(3, 4);  // non-trivial preconditioner
  int start = o.start >= 0 ? o.start : (g.boolean() ? 1 : 0);
  // k-point weights
  std::vector<double> w(nk);
  double ws = 0;
  bool uneq = g.boolean();
  for (auto& x : w) ws += (x = uneq ? 1 + g.integer(0, 5) : 1);
  for (auto& x : w) x /= ws;
  int nb0 = big == 2 ? g.integer(6, 24) : g.integer(1, 5);
  bool vary = o.vary_nb && g.boolean(1, 4);
  bool gaps = g.boolean(1, 6);  // non contiguous k labels
  auto st = g.stream();
  double cap = 0;
  // 1: as many plane waves as bands, 2: degenerate levels, 3: start in eigenvectors, 4: in equal mixtures of two eigenvectors,
  // 5: two identical coupled sites, start in site orbitals (exactly degenerate levels that are coupled)
  int special = o.special && g.boolean(1, 5) ? g.integer(1, o.special) : 0;
  p.special = special;
  for (int ik = 0; ik < nk; ++ik)
    for (int s = 0; s < p.ns; ++s) {
      KP k;
      k.key = {gaps ? 3 * ik + 1 : ik, s};
      k.w = w[ik];
      k.nb = vary ? std::max(1, nb0 + (int)(st.next() % 3) - 1) : nb0;
      k.nG = std::min(std::max(o.max_nG, k.nb + (big == 2 ? 20 : 1)), k.nb + 1 + (int)(st.next() % (big == 2 ? 20 : 6)));
      if (k.nG < 2) k.nG = 2;
      if (special == 1 && k.nb > 1) k.nG = k.nb;
      auto spec = spectrum(g, st, k.nG);
      if (special == 2)
        for (int i = 1; i < k.nG; ++i)
          if (st.next() % 2) spec[i] = spec[i - 1];
      k.H0 = la::rand_herm(st, spec);
      std::vector<double> se(k.nG, 1.0), ke(k.nG, 1.0);
      if (us)
        for (auto& x : se) x = 0.6 + 0.9 * st.uni();
      if (prec)
        for (auto& x : ke) x = 0.3 + 1.2 * st.uni();
      k.S = us ? la::rand_herm(st, se) : la::eye(k.nG);
      k.K = prec ? la::rand_herm(st, ke) : la::eye(k.nG);
      k.P = la::randn(st, k.nG, p.nsite);
      for (int c = 0; c < p.nsite; ++c) {
        double nn = 0;
        for (int r = 0; r < k.nG; ++r) nn += std::norm(k.P(r, c));
        nn = 1 / std::sqrt(nn);
        for (int r = 0; r < k.nG; ++r) k.P(r, c) *= nn;
      }
      Mat X;
      if (start == 1) {
        std::vector<double> e;
        Mat V;
        la::geigh(k.H0, k.S, e, V);
        double noise = g.logreal(1e-3, 0.3);
        if (special >= 3) noise = 0;
        if (special == 4)  // levels agree to rounding, but the states are coupled
          for (int c = 0; c + 1 < k.nb; c += 2)
            for (int r = 0; r < k.nG; ++r) {
              cd a = V(r, c), b = V(r, c + 1);
              V(r, c) = (a + b) * std::sqrt(0.5);
              V(r, c + 1) = (a - b) * std::sqrt(0.5);
            }
        X = Mat(k.nG, k.nb);
        Mat R = la::randn(st, k.nG, k.nb);
        for (int c = 0; c < k.nb; ++c)
          for (int r = 0; r < k.nG; ++r) X(r, c) = V(r, c) + noise * R(r, c);
      } else {
        X = la::randn(st, k.nG, k.nb);
      }
      k.X0 = la::loewdin(X, k.S);
      if (special == 5) make_dimer(k, st, us, prec);
      cap += k.w * p.occ * k.nb;
      p.k.push_back(k);
    }
  int maxNe = (int)std::floor(cap * 0.95);
  if (maxNe < 1) {
    // single band, fully filled otherwise: fall back to one electron of two
    maxNe = 1;
  }
  p.Ne = g.integer(1, maxNe);
  // insulator: every band of every k-point is full
  if (o.wide && std::abs(cap - std::round(cap)) < 1e-9 && g.boolean(1, 15)) p.Ne = (int)std::round(cap);
  p.maxiter = 100;
  return p;
}

inline double
capacity(const Problem& p)
{
  double c = 0;
  for (auto& k : p.k) c += k.w * p.occ * k.nb;
  return c;
}

inline void
describe(pbt::Gen& g, const Problem& p)
{
  g.note("smearing", ref::name(p.sm));
  g.note("T", p.T);
  g.note("U", p.U);
  g.note("Ne", p.Ne);
  g.note("spins", p.ns);
  g.note("kappa", p.kappa);
  g.note("tau", p.tau);
  g.note("restart", p.restart);
  g.note("maxiter", p.maxiter);
  g.note("tol", p.tol);
  std::string s;
  for (auto& k : p.k)
    s += "(" + std::to_string(k.key.first) + "," + std::to_string(k.key.second) + ") " + std::to_string(k.nG) + "x" +
         std::to_string(k.nb) + " w=" + std::to_string(k.w) + "; ";
  g.note("kpoints", s);
  g.label(std::string("smearing:") + ref::name(p.sm));
  g.label("spins:" + std::to_string(p.ns));
  g.label("nkpt:" + std::to_string(p.k.size()));
  g.label(p.U != 0 ? "interacting" : "linear");
  if (p.special) {
    static const char* what[] = {"", "complete basis", "degenerate levels", "start in eigenvectors", "start in mixed eigenvectors", "symmetric dimer"};
    g.note("special", what[p.special]);
    g.label(std::string("special:") + what[p.special]);
  }
  if (p.k.size() > 6) g.label("many k-points");
  if (!p.k.empty() && p.k[0].nb > 5) g.label("many bands");
}

// ---- reference quantities of a recorded state ------------------------------------------------

/// site density of a record
inline std::vector<double>
density(const Problem& p, const Record& r)
{
  std::vector<double> rho(p.nsite, 0.0);
  for (auto& k : p.k) {
    Mat q = la::adj(k.P) * r.X.at(k.key);
    for (int s = 0; s < p.nsite; ++s)
      for (int n = 0; n < k.nb; ++n) rho[s] += k.w * r.fn.at(k.key)[n] * std::norm(q(s, n));
  }
  return rho;
}
inline Mat
hamiltonian(const Problem& p, const KP& k, const std::vector<double>& rho)
{
  Mat H = k.H0;
  if (p.U != 0) {
    Mat q = k.P;
    for (int s = 0; s < p.nsite; ++s)
      for (int r = 0; r < k.nG; ++r) q(r, s) *= p.U * rho[s];
    H = H + q * la::adj(k.P);
  }
  return H;
}

}  // namespace model
