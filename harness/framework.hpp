// Case framework: deterministic cases, in-process monitors, machine-readable
// results.  Independent of the library under test.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {
using ld = long double;

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 1) {
    s[0] = mix(seed);
    s[1] = mix(seed);
  }
  uint64_t u64() {
    uint64_t a = s[0];
    const uint64_t b = s[1];
    const uint64_t r = a + b;
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return r;
  }
  // uniform in [0,n)
  size_t below(size_t n) { return n ? (size_t)(u64() % n) : 0; }
  size_t range(size_t lo, size_t hi) { return lo + below(hi - lo + 1); }
  double unit() { return (double)(u64() >> 11) * 0x1.0p-53; }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

struct CaseFail : std::exception {
  const char* what() const noexcept override { return "case failed"; }
};

struct Shared {  // lives in a file mapping: survives a crash of the process
  std::atomic<uint64_t> case_no;  // read by signal handlers in any thread
  std::atomic<uint64_t> done;
  char op[256];
  char family[128];
};

struct Global {
  Shared* sh = nullptr;
  uint64_t seed = 1;
  bool thorough = false;
  std::string variant;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> hashes;
  uint64_t cases = 0, nontrivial_cases = 0, monitors = 0, violations = 0;
  int samples_left = 3;
  bool verbose = false;
  FILE* out = stdout;
};
inline Global G;

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += (char)c;
  }
  return o;
}

struct Ctx {
  Rng rng;
  uint64_t idx;
  std::string family;
  std::ostringstream desc;   // full description of the generated input
  bool nontrivial = false;
  std::string cur_op;
  explicit Ctx(uint64_t i, uint64_t s) : rng(s), idx(i) { desc.precision(17); }

  void op(const std::string& name) {
    cur_op = name;
    if (G.sh) {
      strncpy(G.sh->op, name.c_str(), sizeof(G.sh->op) - 1);
    }
    G.counters["op:" + name]++;
  }
  // a result that must not depend on the build (compared by run.py)
  void digest(uint64_t d) {
    fprintf(G.out, "{\"t\":\"digest\",\"case\":%llu,\"d\":\"%016llx\"}\n", (unsigned long long)idx, (unsigned long long)d);
  }
  void count(const std::string& k, uint64_t n = 1) { G.counters[k] += n; }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) {
    G.violations++;
    std::string d = desc.str();
    if (d.size() > 6000) d = d.substr(0, 6000) + "...";
    fprintf(G.out,
            "{\"t\":\"viol\",\"case\":%llu,\"family\":\"%s\",\"key\":\"%s\","
            "\"msg\":\"%s\",\"desc\":\"%s\"}\n",
            (unsigned long long)idx, jesc(family).c_str(), jesc(key).c_str(),
            jesc(msg).c_str(), jesc(d).c_str());
    fflush(G.out);
    throw CaseFail();
  }
  void check(bool ok, const std::string& key, const std::string& msg = "") {
    G.monitors++;
    if (!ok) fail(key, msg);
  }
  template <class F>
  void check_f(bool ok, const std::string& key, F&& msg) {
    G.monitors++;
    if (!ok) fail(key, msg());
  }
};

using CaseFn = std::function<void(Ctx&)>;
struct Family {
  std::string name;
  CaseFn fn;
};
inline std::vector<Family>& families() {
  static std::vector<Family> f;
  return f;
}
inline void reg(const std::string& n, CaseFn f, int weight = 1) {
  for (int i = 0; i < weight; i++) families().push_back({n, f});
}

// --- watchdog: CPU time per case, so a loaded machine does not matter -------
inline std::atomic<uint64_t> wd_last{~0ull};
inline std::atomic<int> wd_ticks{0};
inline std::atomic<int> wd_limit{10};
inline void on_prof(int) {
  uint64_t c = G.sh ? G.sh->case_no.load() : 0;
  if (c == wd_last) {
    if (++wd_ticks >= wd_limit) {
      static const char m[] = "\nWATCHDOG: case exceeded its CPU budget\n";
      ssize_t r = write(2, m, sizeof m - 1);
      (void)r;
      syscall(SYS_exit_group, 97);
    }
  } else {
    wd_last = c;
    wd_ticks = 0;
  }
}

// --- watchdog: a process that waits for ever (no CPU time used at all) --------
inline std::atomic<uint64_t> idle_case{~0ull};
inline std::atomic<int> idle_ticks{0};
inline std::atomic<long long> idle_cpu{0};
inline std::atomic<int> idle_limit{12};  // of 5 seconds each
inline void on_alarm(int) {
  struct timespec t {};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  const long long now = t.tv_sec * 1000ll + t.tv_nsec / 1000000;
  const uint64_t c = G.sh ? G.sh->case_no.load() : 0;
  if (c == idle_case && now - idle_cpu < 100) {
    if (++idle_ticks >= idle_limit) {
      static const char m[] = "\nWATCHDOG: all threads wait (deadlock)\n";
      ssize_t r = write(2, m, sizeof m - 1);
      (void)r;
      syscall(SYS_exit_group, 96);
    }
  } else {
    idle_ticks = 0;
  }
  idle_case = c;
  idle_cpu = now;
}
inline void watch_idle(int ticks) {
  idle_limit = ticks;
  idle_ticks = 0;
  struct sigaction sa {};
  sa.sa_handler = on_alarm;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval tv {{5, 0}, {5, 0}};
  setitimer(ITIMER_REAL, &tv, nullptr);
}

inline int run_main(int argc, char** argv, const char* prop) {
  uint64_t from = 0, to = 100, one = ~0ull;
  std::string state, hashes, outp;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") G.seed = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--to") to = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--case") one = strtoull(nxt().c_str(), 0, 10);
    else if (a == "--state") state = nxt();
    else if (a == "--hashes") hashes = nxt();
    else if (a == "--out") outp = nxt();
    else if (a == "--thorough") G.thorough = true;
    else if (a == "--variant") G.variant = nxt();
    else if (a == "--cpu") wd_limit = atoi(nxt().c_str());
    else if (a == "-v") G.verbose = true;
  }
  if (one != ~0ull) {
    from = one;
    to = one + 1;
    G.samples_left = 1;
  }
  if (!outp.empty()) {
    G.out = fopen(outp.c_str(), "w");
    if (!G.out) return 3;
  }
  static Shared local;
  G.sh = &local;
  if (!state.empty()) {
    int fd = open(state.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 3;
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 3;
    G.sh = (Shared*)p;
    close(fd);
  }
  G.sh->done = 0;
  struct rlimit nocore {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  struct sigaction sa {};
  sa.sa_handler = on_prof;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  watch_idle(12);
  // silence whatever the library prints on the console unless verbose
  if (families().empty()) return 3;
  const uint64_t nf = families().size();
  for (uint64_t i = from; i < to; i++) {
    G.sh->case_no = i;
    uint64_t s = fnv(prop) ^ (G.seed * 0x9e3779b97f4a7c15ull) ^ (i * 0xd1342543de82ef95ull);
    Ctx c(i, s);
    const Family& f = families()[i % nf];
    c.family = f.name;
    strncpy(G.sh->family, f.name.c_str(), sizeof(G.sh->family) - 1);
    c.op("generate");
    bool threw = false;
    try {
      try {
        f.fn(c);
      } catch (const CaseFail&) {
        throw;
      } catch (const std::exception& e) {
        c.fail("unexpected-exception:" + c.cur_op, std::string("exception: ") + e.what());
      } catch (...) {
        c.fail("unexpected-exception:" + c.cur_op, "unknown exception");
      }
    } catch (const CaseFail&) {
      threw = true;
    }
    (void)threw;
    G.cases++;
    G.counters["family:" + c.family]++;
    std::string d = c.family + "|" + c.desc.str();
    if (c.nontrivial) {
      G.nontrivial_cases++;
      G.hashes.insert(fnv(d));
    }
    if (G.samples_left > 0 && (c.nontrivial || one != ~0ull)) {
      G.samples_left--;
      if (d.size() > 700 && !G.verbose) d = d.substr(0, 700) + "...";
      fprintf(G.out, "{\"t\":\"sample\",\"case\":%llu,\"text\":\"%s\"}\n",
              (unsigned long long)i, jesc(d).c_str());
    }
    if (G.violations >= 40) break;
  }
  fprintf(G.out, "{\"t\":\"done\",\"cases\":%llu,\"nontrivial\":%llu,\"monitors\":%llu,\"counters\":{",
          (unsigned long long)G.cases, (unsigned long long)G.nontrivial_cases,
          (unsigned long long)G.monitors);
  bool first = true;
  for (auto& kv : G.counters) {
    fprintf(G.out, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(),
            (unsigned long long)kv.second);
    first = false;
  }
  fprintf(G.out, "}}\n");
  fflush(G.out);
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "wb");
    if (f) {
      for (uint64_t h : G.hashes) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  G.sh->done = 1;
  return 0;  // leak checking happens after this
}
}  // namespace vf
