// Runs in a process in which the library has never been used: a helper process is forked before the first
// case; for every request it forks a child that replays a tape and sends back the fingerprint of the run.
#pragma once
#include <sys/wait.h>
#include <unistd.h>
#include "trace.hpp"

namespace model {

inline uint64_t
fp(const void* d, size_t n, uint64_t h = 1469598103934665603ull)
{
  auto* p = (const unsigned char*)d;
  for (size_t i = 0; i < n; ++i) {
    h ^= p[i];
    h *= 1099511628211ull;
  }
  return h;
}

/// one line per evaluation, then the end of the run and the log
inline std::vector<std::string>
fingerprint(const Host& h, const Run& r, const std::vector<nlohmann::json>& log)
{
  std::vector<std::string> out;
  char b[400];
  for (size_t i = 0; i < h.rec.size(); ++i) {
    auto& x = h.rec[i];
    uint64_t hx = 1469598103934665603ull, hf = hx;
    for (auto& k : x.X) hx = fp(k.second.a.data(), k.second.a.size() * sizeof(cd), fp(&k.first, sizeof k.first, hx));
    for (auto& k : x.fn) hf = fp(k.second.data(), k.second.size() * sizeof(double), hf);
    snprintf(b, sizeof b, "evaluation %zu: E %.17g reported %.17g mu %.17g iteration %d occupations %llx orbitals %llx", i, x.E, x.Erep, x.mu,
             x.iter, (unsigned long long)hf, (unsigned long long)hx);
    out.push_back(b);
  }
  snprintf(b, sizeof b, "end: callbacks %ld threw %d F %.17g S %.17g slope %.17g iterations %d converged %d", h.ticks, (int)r.threw,
           r.threw ? 0 : r.info.F, r.threw ? 0 : r.info.S, r.threw ? 0 : r.info.tolerance, r.threw ? 0 : (int)r.info.iter,
           r.threw ? 0 : (int)r.info.converged);
  out.push_back(b);
  out.push_back("exception: " + r.what);
  for (auto& l : log) out.push_back("log: " + l.dump());
  return out;
}

class Zygote
{
public:
  using job_t = std::function<std::vector<std::string>(const std::vector<uint64_t>&)>;
  /// call before the library is used; job runs in a fresh child
  explicit Zygote(job_t job)
  {
    int a[2], c[2];
    if (pipe(a) || pipe(c)) abort();
    pid = fork();
    if (pid < 0) abort();
    if (pid == 0) {
      close(a[1]);
      close(c[0]);
      uint64_t n;
      while (rd(a[0], &n, sizeof n)) {
        std::vector<uint64_t> t(n);
        if (n && !rd(a[0], t.data(), n * sizeof(uint64_t))) break;
        pid_t q = fork();
        if (q == 0) {
          alarm(120);
          std::string s;
          try {
            for (auto& l : job(t)) s += l + "\n";
          } catch (std::exception& e) {
            s = std::string("failed: ") + e.what() + "\n";
          } catch (...) {
            s = "failed\n";
          }
          uint64_t m = s.size();
          wr(c[1], &m, sizeof m);
          wr(c[1], s.data(), m);
          _exit(0);
        }
        int st = 0;
        if (q < 0 || waitpid(q, &st, 0) != q || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
          std::string s = "failed: child ended with status " + std::to_string(st) + "\n";
          uint64_t m = s.size();
          wr(c[1], &m, sizeof m);
          wr(c[1], s.data(), m);
        }
      }
      _exit(0);
    }
    close(a[0]);
    close(c[1]);
    to = a[1];
    from = c[0];
  }
  ~Zygote()
  {
    close(to);
    close(from);
    waitpid(pid, nullptr, 0);
  }
  std::vector<std::string> run(const std::vector<uint64_t>& tape)
  {
    uint64_t n = tape.size();
    wr(to, &n, sizeof n);
    wr(to, tape.data(), n * sizeof(uint64_t));
    uint64_t m = 0;
    if (!rd(from, &m, sizeof m)) throw std::runtime_error("helper process is gone");
    std::string s(m, ' ');
    if (m && !rd(from, &s[0], m)) throw std::runtime_error("helper process is gone");
    std::vector<std::string> out;
    std::istringstream is(s);
    for (std::string l; std::getline(is, l);) out.push_back(l);
    return out;
  }

private:
  static bool rd(int fd, void* d, size_t n)
  {
    auto* p = (char*)d;
    while (n) {
      ssize_t k = read(fd, p, n);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) return false;
      p += k;
      n -= k;
    }
    return true;
  }
  static void wr(int fd, const void* d, size_t n)
  {
    auto* p = (const char*)d;
    while (n) {
      ssize_t k = write(fd, p, n);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) return;
      p += k;
      n -= k;
    }
  }
  pid_t pid;
  int to, from;
};

}  // namespace model
