// Property-based testing engine: every generated case is a sequence of bounded
// integer choices; failures (exceptions, crashes, sanitizer reports, hangs) are
// shrunk by editing that sequence, which is also the replay file.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <ftw.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
extern "C" {
#ifdef PBT_ASAN
const char *__asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=65536:"
         "detect_stack_use_after_return=1:handle_abort=0:symbolize=1";
}
const char *__ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }
#endif
}

namespace pbt {
struct Discard {};
struct Failure {
  std::string msg, key;
  Failure(const std::string &m, const std::string &k = "") : msg(m), key(k) {}
};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

static const size_t MAXCH = 1 << 16;
// shared between a worker (or a shrinking child) and the parent
struct Shared {
  volatile int64_t prop, index;
  volatile uint64_t nch;
  volatile int status;  // 0 running 1 pass 2 fail 3 discard
  volatile int hang;
  char msg[4096];
  char key[128];
  char log[16384];
  uint64_t ch[MAXCH];
};

class Gen {
 public:
  Gen(uint64_t seed, Shared *sh, bool logging)
      : rng_(seed), sh_(sh), pos_(0), replay_(0), logging_(logging), nontrivial_(false), hash_(0x1234567) {
    if (sh_) sh_->nch = 0;
  }
  Gen(const std::vector<uint64_t> *rep, Shared *sh, bool logging)
      : rng_(1), sh_(sh), pos_(0), replay_(rep), logging_(logging), nontrivial_(false), hash_(0x1234567) {
    if (sh_) sh_->nch = 0;
  }
  /// a choice in [0, n)
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v >= n) v = n - 1;
    } else
      v = splitmix(rng_) % n;
    ++pos_;
    if (sh_ && sh_->nch < MAXCH) {
      sh_->ch[sh_->nch] = v;
      sh_->nch = sh_->nch + 1;
    }
    if (pos_ > MAXCH) throw Discard();
    hash_ = (hash_ ^ v) * 1099511628211ull;
    hash_ ^= hash_ >> 29;
    return v;
  }
  /// an integer in [lo, hi], simplest = the one nearest to zero
  int64_t integer(int64_t lo, int64_t hi) {
    uint64_t n = (uint64_t)(hi - lo) + 1;
    if (lo >= 0) return lo + (int64_t)draw(n);
    if (hi <= 0) return hi - (int64_t)draw(n);
    uint64_t v = draw(n);
    // zigzag while both sides remain
    int64_t a = hi, b = -lo, m = std::min(a, b);
    if (v <= (uint64_t)(2 * m)) return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
    int64_t r = (int64_t)v - 2 * m;
    return a > b ? m + r : -(m + r);
  }
  size_t size(size_t lo, size_t hi) { return (size_t)integer((int64_t)lo, (int64_t)hi); }
  /// the length of a history: now and then a long one
  size_t steps(size_t lo, size_t hi) { return chance(1, 40) ? size(hi, hi + 250) : size(lo, hi); }
  bool flip() { return draw(2) == 1; }
  /// true with probability num/den
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  template <class T>
  T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  /// index i with probability weight[i]/sum
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned s = 0;
    for (unsigned x : w) s += x;
    uint64_t v = draw(s);
    size_t i = 0;
    for (unsigned x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return w.size() - 1;
  }
  /// multiple of 1/16 in [lo, hi] (exact arithmetic on sums and small products)
  double dyadic(double lo, double hi) { return (double)integer((int64_t)std::ceil(lo * 16), (int64_t)std::floor(hi * 16)) / 16.0; }
  /// a double in [lo, hi]: integers, dyadics, generic values
  double real(double lo, double hi) {
    switch (draw(4)) {
      case 0: {
        int64_t a = (int64_t)std::ceil(lo), b = (int64_t)std::floor(hi);
        if (a <= b) return (double)integer(a, b);
        return lo;
      }
      case 1: {
        int64_t a = (int64_t)std::ceil(lo * 16), b = (int64_t)std::floor(hi * 16);
        if (a <= b) return (double)integer(a, b) / 16.0;
        return lo;
      }
      default:
        return lo + (hi - lo) * ((double)draw(1ull << 40) / (double)(1ull << 40));
    }
  }
  double uniform(double lo, double hi) { return lo + (hi - lo) * ((double)draw(1ull << 40) / (double)(1ull << 40)); }
  std::string str(const std::string &alphabet, size_t lo, size_t hi) {
    size_t n = size(lo, hi);
    std::string s;
    for (size_t i = 0; i < n; ++i) s += alphabet[draw(alphabet.size())];
    return s;
  }
  void discard() { throw Discard(); }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string &l) { labels_.push_back(l); }
  bool logging() const { return logging_; }
  std::ostream &os() { return log_; }

  bool isNontrivial() const { return nontrivial_; }
  uint64_t hash() const { return hash_; }
  std::string logText() const { return log_.str(); }
  const std::vector<std::string> &labels() const { return labels_; }

 private:
  uint64_t rng_;
  Shared *sh_;
  size_t pos_;
  const std::vector<uint64_t> *replay_;
  bool logging_, nontrivial_;
  uint64_t hash_;
  std::ostringstream log_;
  std::vector<std::string> labels_;
};

typedef void (*PropFn)(Gen &);
struct Prop {
  std::string name;
  PropFn fn;
  unsigned weight;
};
inline std::vector<Prop> &registry() {
  static std::vector<Prop> r;
  return r;
}
struct Reg {
  Reg(const char *n, PropFn f, unsigned w) { registry().push_back(Prop{n, f, w}); }
};
#define PROPW(NAME, W)                                   \
  static void prop_##NAME(pbt::Gen &g);                  \
  static pbt::Reg reg_prop_##NAME(#NAME, prop_##NAME, W); \
  static void prop_##NAME(pbt::Gen &g)
#define PROP(NAME) PROPW(NAME, 1)
#define LOG if (!g.logging()) ; else g.os()
#define FAILK(KEY, STREAM)                                        \
  do {                                                            \
    std::ostringstream pbt_o_;                                    \
    pbt_o_.precision(17);                                         \
    pbt_o_ << STREAM;                                             \
    throw pbt::Failure(pbt_o_.str(), KEY);                        \
  } while (0)
#define FAIL(STREAM) FAILK("", STREAM)
#define CHECKK(KEY, COND, STREAM) do { if (!(COND)) FAILK(KEY, #COND ": " << STREAM); } while (0)
#define CHECK(COND, STREAM) CHECKK("", COND, STREAM)

inline bool near(double a, double b, double tol = 1e-9, double scale = 1.0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol * std::max(scale, std::max(std::fabs(a), std::fabs(b)));
}
/// sup-norm comparison of anything with size()/coeff access, NaN never equal
template <class A, class B>
bool nearM(const A &a, const B &b, double tol = 1e-9, double scale = 1.0) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  double s = scale;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (std::isfinite(a(i, j)) && std::isfinite(b(i, j))) s = std::max(s, std::max(std::fabs(a(i, j)), std::fabs(b(i, j))));
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (a(i, j) != b(i, j) && !(std::fabs(a(i, j) - b(i, j)) <= tol * s)) return false;
  return true;
}
#define NEAR(A, B, TOL) CHECK(pbt::near(A, B, TOL), (A) << " vs " << (B))
#define NEARM(A, B, TOL)                                                                                     \
  do {                                                                                                       \
    const typename std::decay<decltype(A)>::type::PlainObject pbt_a_ = (A);                                  \
    const typename std::decay<decltype(B)>::type::PlainObject pbt_b_ = (B);                                  \
    if (!pbt::nearM(pbt_a_, pbt_b_, TOL))                                                                    \
      FAIL(#A " ~ " #B ": got (" << pbt_a_.rows() << "x" << pbt_a_.cols() << ")\n" << pbt_a_ << "\nexpected (" \
                                 << pbt_b_.rows() << "x" << pbt_b_.cols() << ")\n" << pbt_b_);               \
  } while (0)

/* ------------------------------------------------------------------ runner */
static volatile Shared *g_sh = 0;
static void on_timer(int) {
  if (g_sh) const_cast<Shared *>(g_sh)->hang = 1;
  _exit(97);
}
class Gen;
static Gen *g_gen = 0;
inline void copyLog();
static void on_abort(int) {
  signal(SIGABRT, SIG_DFL);
  copyLog();
  abort();
}
inline void arm(int cpu_s) {
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &it, 0);
}
inline Shared *newShared() {
  void *p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return (Shared *)p;
}
inline void setStr(char *dst, size_t n, const std::string &s) {
  size_t m = std::min(n - 1, s.size());
  memcpy(dst, s.data(), m);
  dst[m] = 0;
}
inline void copyLog() {
  if (g_sh && g_gen) setStr(const_cast<Shared *>(g_sh)->log, sizeof(g_sh->log), g_gen->logText());
}
// run one case in this process; returns status
inline int runCase(const Prop &p, Gen &g, Shared *sh) {
  int st;
  std::string msg, key;
  g_gen = &g;
  signal(SIGABRT, on_abort);
  try {
    p.fn(g);
    st = 1;
  } catch (const Discard &) {
    st = 3;
  } catch (const Failure &f) {
    st = 2;
    msg = f.msg;
    key = f.key;
  } catch (const std::exception &e) {
    st = 2;
    msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    st = 2;
    msg = "unexpected exception of unknown type";
  }
  setStr(sh->msg, sizeof(sh->msg), msg);
  setStr(sh->key, sizeof(sh->key), key);
  if (g.logging() || st == 2) setStr(sh->log, sizeof(sh->log), g.logText());
  sh->status = st;
  return st;
}
struct Options {
  std::string id, out, replayDir, replay;
  uint64_t seed;
  double budget;
  long minCases, maxCases;
  int workers, cpuLimit;
  bool verbose;
  std::set<std::string> known;
  std::string only;
  Options() : seed(1), budget(10), minCases(200), maxCases(2000000000), workers(8), cpuLimit(20), verbose(false) {}
};
inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline void silence() {
  int fd = open("/dev/null", O_RDWR);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    if (fd > 2) close(fd);
  }
}
struct Outcome {
  int status;  // 1 pass 2 fail 3 discard
  std::string msg, key, log;
  std::vector<uint64_t> ch;
};
inline std::string jsonStr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"') r += "\\\"";
    else if (c == '\\') r += "\\\\";
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}
// directory of the files a case creates; removed with whatever killed cases leave in it when the run ends
inline std::string &scratch() {
  static std::string s = "/tmp";
  return s;
}
struct Scratch {
  pid_t owner;
  explicit Scratch(const char *d) : owner(getpid()) { scratch() = d; }
  ~Scratch() {
    if (getpid() == owner && scratch().compare(0, 8, "/tmp/pbt") == 0)
      nftw(scratch().c_str(), [](const char *f, const struct stat *, int, struct FTW *) { return remove(f); }, 16, FTW_DEPTH | FTW_PHYS);
  }
};
inline uint64_t caseSeed(uint64_t seed, const std::string &prop, int64_t idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ hash_str(prop) ^ ((uint64_t)idx * 0xD1B54A32D192ED03ull);
  splitmix(s);
  return splitmix(s);
}
/// cases (property, index) run one after the other in a process
typedef std::vector<std::pair<size_t, int64_t> > Chain;
inline Outcome attempt(const Prop &p, const std::vector<uint64_t> &ch, Shared *sh, const Options &o, bool verbose,
                       const uint64_t *seed = 0, const char *errfile = 0, const Chain &before = Chain()) {
  sh->status = 0;
  sh->hang = 0;
  sh->nch = 0;
  sh->msg[0] = sh->key[0] = sh->log[0] = 0;
  std::cout.flush();
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    g_sh = sh;
    signal(SIGPROF, on_timer);
    arm(o.cpuLimit);
    alarm(300);
    if (!verbose) silence();
    if (errfile) {
      int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0666);
      if (fd >= 0) dup2(fd, 2);
    }
    if (before.size()) {  // what the process did before, which a failure may need
      Shared *old = newShared();
      sh->status = 3;  // should it end here, the case has not failed
      for (auto &c : before) {
        arm(o.cpuLimit);
        Gen g(caseSeed(o.seed, registry()[c.first].name, c.second), old, false);
        runCase(registry()[c.first], g, old);
      }
      sh->status = 0;
      arm(o.cpuLimit);
    }
    if (seed) {
      Gen g(*seed, sh, true);
      runCase(p, g, sh);
    } else {
      Gen g(&ch, sh, true);
      runCase(p, g, sh);
    }
    _exit(0);
  }
  int ws = 0;
  waitpid(pid, &ws, 0);
  Outcome r;
  r.ch.assign(sh->ch, sh->ch + std::min<uint64_t>((uint64_t)sh->nch, MAXCH));
  r.status = sh->status;
  r.msg = sh->msg;
  r.key = sh->key;
  r.log = sh->log;
  if (r.status == 0) {
    r.status = 2;
    std::ostringstream m;
    if (sh->hang) m << "did not terminate within " << o.cpuLimit << " s of CPU time";
    else if (WIFSIGNALED(ws)) m << "process killed by signal " << WTERMSIG(ws) << " (crash, assertion or sanitizer report)";
    else m << "process exited with code " << WEXITSTATUS(ws) << " in the middle of the case";
    r.msg = m.str();
  }
  return r;
}
inline bool bad(const Outcome &r, const Options &o) { return r.status == 2 && !(r.key.size() && o.known.count(r.key)); }
inline bool smaller(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
inline Outcome shrink(const Prop &p, Outcome best, Shared *sh, const Options &o) {
  double end = now() + 25;
  bool progress = true;
  auto tryIt = [&](const std::vector<uint64_t> &c) -> bool {
    if (now() > end) return false;
    Outcome r = attempt(p, c, sh, o, false);
    if (bad(r, o) && (smaller(r.ch, best.ch) || smaller(c, best.ch))) {
      if (smaller(c, r.ch)) r.ch = c;
      while (r.ch.size() && r.ch.back() == 0) r.ch.pop_back();
      if (!smaller(r.ch, best.ch)) return false;
      best = r;
      return true;
    }
    return false;
  };
  while (progress && now() < end) {
    progress = false;
    for (size_t k = 128; k >= 1 && now() < end; k /= 2)
      for (size_t i = best.ch.size(); i-- > 0 && now() < end;) {
        if (i + k > best.ch.size()) continue;
        std::vector<uint64_t> c(best.ch);
        c.erase(c.begin() + i, c.begin() + i + k);
        if (tryIt(c)) { progress = true; if (i > best.ch.size()) i = best.ch.size(); }
        else if (i > k) i -= (k - 1);
      }
    for (size_t k = 32; k >= 1 && now() < end; k /= 2)
      for (size_t i = 0; i + k <= best.ch.size() && now() < end; i += k) {
        std::vector<uint64_t> c(best.ch);
        bool any = false;
        for (size_t j = i; j < i + k; ++j) { any = any || c[j]; c[j] = 0; }
        if (any && tryIt(c)) progress = true;
      }
    for (size_t i = 0; i < best.ch.size() && now() < end; ++i) {
      uint64_t lo = 0;
      while (i < best.ch.size() && lo < best.ch[i] && now() < end) {
        uint64_t mid = lo + (best.ch[i] - lo) / 2;
        std::vector<uint64_t> c(best.ch);
        c[i] = mid;
        if (tryIt(c)) { progress = true; } else lo = mid + 1;
      }
    }
    // delete a choice while decrementing an earlier (length) choice
    for (size_t i = 0; i < best.ch.size() && now() < end; ++i) {
      if (!best.ch[i] || best.ch[i] > 64) continue;
      for (size_t k = 1; k <= 8 && now() < end; ++k)
        for (size_t j = i + 1; j + k <= best.ch.size() && j < i + 40 && now() < end; ++j) {
          if (i >= best.ch.size() || !best.ch[i]) break;
          std::vector<uint64_t> c(best.ch);
          c[i]--;
          c.erase(c.begin() + j, c.begin() + j + k);
          if (tryIt(c)) progress = true;
        }
    }
  }
  return best;
}
inline void worker(int w, const Options &o, Shared *sh, const std::string &dir, double end, volatile int *stop) {
  g_sh = sh;
  signal(SIGPROF, on_timer);
  silence();
  std::vector<Prop> &R = registry();
  size_t n = R.size();
  std::vector<int64_t> next(n, w), ev(n, 0), nt(n, 0), disc(n, 0), kn(n, 0);
  std::vector<std::unordered_set<uint64_t> > seen(n);
  std::vector<std::map<std::string, int64_t> > lab(n);
  std::map<std::string, int64_t> knownHits;
  std::vector<std::vector<std::string> > samples(n);
  bool more = true;
  while (more && !*stop) {
    more = false;
    for (size_t k = 0; k < n && !*stop; ++k) {
      if (o.only.size() && R[k].name != o.only) continue;
      for (unsigned b = 0; b < 8 * R[k].weight && !*stop; ++b) {
        int64_t i = next[k];
        bool min = i < o.minCases;
        if (i >= o.maxCases) break;
        if (!min && now() > end) break;
        more = true;
        next[k] += o.workers;
        sh->prop = k;
        sh->index = i;
        sh->status = 0;
        bool logit = samples[k].size() < 2 && (i < 64 * o.workers);
        arm(o.cpuLimit);
        Gen g(caseSeed(o.seed, R[k].name, i), sh, logit);
        int st = runCase(R[k], g, sh);
        if (st == 3) { ++disc[k]; continue; }
        ++ev[k];
        for (auto &l : g.labels()) ++lab[k][l];
        if (st == 2) {
          if (sh->key[0] && o.known.count(sh->key)) { ++kn[k]; ++knownHits[sh->key]; continue; }
          *stop = 1;
          _exit(96);
        }
        if (g.isNontrivial()) {
          ++nt[k];
          if (seen[k].size() < 4000000) seen[k].insert(g.hash());
          if (logit && g.logText().size() && samples[k].size() < 2)
            samples[k].push_back(g.logText().substr(0, 500));
        }
      }
    }
  }
  arm(0);
  std::ofstream f(dir + "/w" + std::to_string(w));
  for (size_t k = 0; k < n; ++k) {
    f << "P " << k << ' ' << ev[k] << ' ' << nt[k] << ' ' << disc[k] << ' ' << kn[k] << '\n';
    for (auto &l : lab[k]) f << "L " << k << ' ' << l.second << ' ' << l.first << '\n';
    for (auto &s : samples[k]) f << "S " << k << ' ' << jsonStr(s) << '\n';
  }
  for (auto &l : knownHits) f << "K " << l.second << ' ' << l.first << '\n';
  f.close();
  std::ofstream h(dir + "/h" + std::to_string(w), std::ios::binary);
  for (size_t k = 0; k < n; ++k) {
    uint64_t c = seen[k].size();
    h.write((char *)&c, 8);
    for (uint64_t x : seen[k]) h.write((char *)&x, 8);
  }
  h.close();
  _exit(0);
}
/// the cases a worker runs before the given one
inline Chain casesBefore(const Options &o, size_t prop, int64_t index) {
  std::vector<Prop> &R = registry();
  Chain c;
  std::vector<int64_t> next(R.size(), index % o.workers);
  bool more = true;
  while (more) {
    more = false;
    for (size_t k = 0; k < R.size(); ++k) {
      if (o.only.size() && R[k].name != o.only) continue;
      for (unsigned b = 0; b < 8 * R[k].weight; ++b) {
        int64_t i = next[k];
        if (i >= o.maxCases) break;
        more = true;
        next[k] += o.workers;
        if (k == prop && i == index) return c;
        c.push_back(std::make_pair(k, i));
      }
    }
  }
  return c;
}
/// a failure which needs what other cases left behind: the shortest chain found after which it happens twice in a row
inline bool findChain(const Prop &p, size_t prop, int64_t index, Shared *sh, const Options &o, Chain &chain, Outcome &r) {
  uint64_t seed = caseSeed(o.seed, p.name, index);
  Chain all = casesBefore(o, prop, index);
  auto fails = [&](const Chain &c, int times) {
    for (int t = 0; t < times; ++t) {
      Outcome x = attempt(p, std::vector<uint64_t>(), sh, o, false, &seed, 0, c);
      if (!bad(x, o)) return false;
      r = x;
    }
    return true;
  };
  double limit = now() + 120;
  bool found = false;
  for (size_t n = 1; !found && now() < limit; n *= 8) {
    if (n > all.size()) n = all.size();
    chain.assign(all.end() - (long)n, all.end());
    found = n && fails(chain, 2);
    if (n == all.size()) break;
  }
  if (!found) return false;
  limit = now() + 30;
  for (size_t k = (chain.size() + 1) / 2; k > 0 && now() < limit; k = k == 1 ? 0 : (k + 1) / 2)
    for (size_t i = 0; i + k <= chain.size() && now() < limit;) {
      Chain c(chain);
      c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
      if (c.size() && fails(c, 2)) chain = c;
      else i += k;
    }
  return fails(chain, 2);
}
inline int mainRun(int argc, char **argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--id") o.id = val();
    else if (a == "--out") o.out = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--budget") o.budget = atof(val().c_str());
    else if (a == "--min") o.minCases = atol(val().c_str());
    else if (a == "--max") o.maxCases = atol(val().c_str());
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--cpu") o.cpuLimit = atoi(val().c_str());
    else if (a == "--replaydir") o.replayDir = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--known") o.known.insert(val());
    else if (a == "--only") o.only = val();
    else if (a == "-v") o.verbose = true;
  }
  std::vector<Prop> &R = registry();
  Shared *sh0 = newShared();
  char tmpl[] = "/tmp/pbtXXXXXX";
  Scratch keep(mkdtemp(tmpl));
  const std::string dir = scratch();
  if (o.replay.size()) {
    std::ifstream f(o.replay.c_str());
    std::string line, prop;
    std::vector<uint64_t> ch;
    Chain before;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "prop") is >> prop;
      if (k == "choices") {
        uint64_t v;
        while (is >> v) ch.push_back(v);
      }
      if (k == "after") {
        is >> o.seed;
        std::pair<size_t, int64_t> c;
        while (is >> c.first >> c.second) before.push_back(c);
      }
    }
    for (auto &p : R)
      if (p.name == prop) {
        Outcome r;
        for (int t = 0; t < 20; ++t) {
          r = attempt(p, ch, sh0, o, true, 0, 0, before);
          if (r.status == 2) break;
        }
        std::cout << r.log << "\n" << (r.status == 2 ? "FAILS: " : "passes ") << r.msg << std::endl;
        return r.status == 2 ? 1 : 0;
      }
    std::cout << "unknown prop " << prop << std::endl;
    return 2;
  }
  double t0 = now(), end = t0 + o.budget;
  std::vector<Shared *> sh(o.workers);
  std::vector<pid_t> pid(o.workers);
  volatile int *stop = (volatile int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int w = 0; w < o.workers; ++w) sh[w] = newShared();
  fflush(0);
  for (int w = 0; w < o.workers; ++w) {
    pid[w] = fork();
    if (pid[w] == 0) worker(w, o, sh[w], dir, end, stop);
  }
  int left = o.workers;
  struct Bad { int64_t prop, index; int status; std::string msg; };
  std::vector<Bad> bads;
  while (left > 0) {
    int ws;
    pid_t p = wait(&ws);
    if (p < 0) break;
    for (int w = 0; w < o.workers; ++w)
      if (pid[w] == p) {
        --left;
        if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) {
          bads.push_back(Bad{sh[w]->prop, sh[w]->index, ws, std::string(sh[w]->msg)});
          *stop = 1;
        }
      }
  }
  // collect
  size_t n = R.size();
  std::vector<int64_t> ev(n, 0), nt(n, 0), disc(n, 0), kn(n, 0);
  std::vector<std::map<std::string, int64_t> > lab(n);
  std::vector<std::vector<std::string> > samples(n);
  std::map<std::string, int64_t> knownHits;
  std::vector<std::unordered_set<uint64_t> > seen(n);
  for (int w = 0; w < o.workers; ++w) {
    std::ifstream f(dir + "/w" + std::to_string(w));
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string t;
      size_t k;
      is >> t;
      if (t == "P") {
        int64_t a, b, c, d;
        is >> k >> a >> b >> c >> d;
        ev[k] += a; nt[k] += b; disc[k] += c; kn[k] += d;
      } else if (t == "L") {
        int64_t c;
        std::string l;
        is >> k >> c;
        std::getline(is >> std::ws, l);
        lab[k][l] += c;
      } else if (t == "S") {
        std::string l;
        is >> k;
        std::getline(is >> std::ws, l);
        if (samples[k].size() < 3) samples[k].push_back(l);
      } else if (t == "K") {
        int64_t c;
        std::string l;
        is >> c >> l;
        knownHits[l] += c;
      }
    }
    std::ifstream h(dir + "/h" + std::to_string(w), std::ios::binary);
    for (size_t k = 0; k < n; ++k) {
      uint64_t c = 0;
      if (!h.read((char *)&c, 8)) break;
      for (uint64_t x; c > 0 && h.read((char *)&x, 8); --c) seen[k].insert(x);
    }
    unlink((dir + "/w" + std::to_string(w)).c_str());
    unlink((dir + "/h" + std::to_string(w)).c_str());
  }
  int rc = 0, violations = 0;
  int64_t unrep = 0;
  std::set<int64_t> doneProps;
  for (size_t b = 0; b < bads.size(); ++b) {
    if (doneProps.count(bads[b].prop) || violations >= 2) continue;
    const Prop &p = R[bads[b].prop];
    uint64_t seed = caseSeed(o.seed, p.name, bads[b].index);
    Outcome first;
    bool rep = false;
    for (int t = 0; t < 12 && !rep; ++t) {
      first = attempt(p, std::vector<uint64_t>(), sh0, o, false, &seed);
      rep = bad(first, o);
    }
    Chain chain;
    if (!rep && findChain(p, (size_t)bads[b].prop, bads[b].index, sh0, o, chain, first)) rep = true;
    if (!rep) {
      ++unrep;
      std::cout << "WARNING: case " << bads[b].index << " of " << p.name
                << " failed once and could not be reproduced in a fresh process; not reported (status " << bads[b].status << ", message: "
                << bads[b].msg << ")" << std::endl;
      continue;
    }
    doneProps.insert(bads[b].prop);
    Outcome best = chain.size() ? first : shrink(p, first, sh0, o), last;
    bool ok = false;
    for (int t = 0; t < 12 && !ok; ++t) {
      last = attempt(p, best.ch, sh0, o, false, 0, 0, chain);
      ok = bad(last, o);
    }
    if (!ok) { best = first; last = first; }
    else { std::vector<uint64_t> ch = best.ch; best = last; best.ch = ch; }
    std::string path = o.replayDir + "/" + o.id + "-" + p.name + ".replay";
    mkdir(o.replayDir.c_str(), 0777);
    std::ofstream f(path.c_str());
    std::string errfile = path + ".stderr";
    attempt(p, best.ch, sh0, o, false, 0, errfile.c_str(), chain);
    f << "property " << o.id << "\nprop " << p.name << "\nchoices";
    for (uint64_t v : best.ch) f << ' ' << v;
    if (chain.size()) {
      f << "\nafter " << o.seed;
      for (auto &c : chain) f << ' ' << c.first << ' ' << c.second;
    }
    f << "\nfound at case " << bads[b].index << " seed " << o.seed << "\nfailure: " << best.msg << "\ncase:\n" << best.log << "\n";
    {
      std::ifstream e(errfile.c_str());
      std::string l;
      for (int k = 0; k < 40 && std::getline(e, l); ++k) {
        f << "stderr: " << l << "\n";
        if (k < 60 && (l.find("Assertion") != std::string::npos || l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos))
          std::cout << l.substr(0, 400) << "\n";
      }
      unlink(errfile.c_str());
    }
    f.close();
    std::cout << "FAILED " << p.name << ": " << best.msg << "\n" << best.log << "\n";
    std::cout << "VIOLATION property=" << o.id << " replay=" << path << std::endl;
    rc = 1;
    ++violations;
  }
  for (auto &k : knownHits) std::cout << "KNOWNHIT " << k.first << ' ' << k.second << std::endl;
  if (o.out.size()) {
    std::ofstream f(o.out.c_str());
    int64_t E = 0, D = 0;
    f << "{\"sub\": [";
    for (size_t k = 0; k < n; ++k) {
      if (o.only.size() && R[k].name != o.only) continue;
      E += ev[k];
      D += seen[k].size();
      f << (k ? "," : "") << "\n {\"prop\": " << jsonStr(R[k].name) << ", \"evaluations\": " << ev[k]
        << ", \"nontrivial\": " << nt[k] << ", \"distinct_nontrivial\": " << seen[k].size() << ", \"discarded\": " << disc[k]
        << ", \"known_finding_hits\": " << kn[k] << ", \"labels\": {";
      bool first = true;
      for (auto &l : lab[k]) {
        f << (first ? "" : ", ") << jsonStr(l.first) << ": " << l.second;
        first = false;
      }
      f << "}, \"samples\": [";
      for (size_t s = 0; s < samples[k].size(); ++s) f << (s ? ", " : "") << samples[k][s];
      f << "]}";
    }
    f << "],\n\"evaluations\": " << E << ", \"distinct_nontrivial\": " << D << ", \"violations\": " << violations
      << ", \"unreproducible\": " << unrep << ", \"run_s\": " << now() - t0 << "}\n";
  }
  std::cout << "props " << n << " time " << now() - t0 << " s";
  for (size_t k = 0; k < n; ++k)
    if (ev[k]) std::cout << "\n  " << R[k].name << ": " << ev[k] << " cases, " << seen[k].size() << " distinct non-trivial, " << disc[k] << " discarded";
  std::cout << std::endl;
  return rc;
}
}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::mainRun(argc, argv); }
#endif
#endif
