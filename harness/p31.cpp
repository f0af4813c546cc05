// P31: operations keep to themselves.  While an operation runs nothing but its
// result may change: monitors look at console, files, descriptors, threads,
// stream and locale state, floating-point environment, signal handlers, random
// numbers, environment variables and the heap, and the results must be the same
// under a foreign locale, with other stream settings and with trapping
// floating-point exceptions.
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <locale>
#include <iomanip>
#include <malloc.h>
#include <new>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <xmmintrin.h>

#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "bezman/src/utils/logger.hpp"
#include "ops.hpp"

namespace heap {
inline long blocks = 0;
}
void* operator new(std::size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  heap::blocks++;
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  void* p = std::malloc(n ? n : 1);
  if (p) heap::blocks++;
  return p;
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept {
  if (p) heap::blocks--;
  std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_report_fd(void*);
#endif

using namespace vf;
using bezman::utils::Base64;
using Dyn = bezman::utils::computational_differentiation::AlgoDiffType<double, 0>;
using Sta = bezman::utils::computational_differentiation::AlgoDiffType<double, 3>;

// ---- what belongs to the program and not to the library ------------------------
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
};
inline std::string listing(const char* dir) {
  std::set<std::string> e;
  if (DIR* d = opendir(dir)) {
    while (auto* x = readdir(d)) e.insert(x->d_name);
    closedir(d);
  }
  std::string r;
  for (auto& x : e) r += x + " ";
  return r;
}
inline std::string openFiles() {  // descriptors and what they are
  std::string r;
  std::set<int> fds;
  if (DIR* d = opendir("/proc/self/fd")) {
    const int own = dirfd(d);
    while (auto* x = readdir(d)) if (x->d_name[0] != '.' && atoi(x->d_name) != own) fds.insert(atoi(x->d_name));
    closedir(d);
  }
  for (int f : fds) {
    // the sanitizer's own thread reads /proc/self/statm now and then
    char link[256] = "";
    const ssize_t n = readlink(("/proc/self/fd/" + std::to_string(f)).c_str(), link, sizeof link - 1);
    if (n <= 0 || std::string(link, n).rfind("/proc/", 0) == 0) continue;
    r += std::to_string(f) + " ";
  }
  return r;
}
template <class S>
std::string stateOf(S& s) {
  std::string r;
  r += std::to_string((unsigned)s.flags()) + "," + std::to_string(s.precision()) + "," + std::to_string(s.width()) + "," + std::to_string((int)s.fill()) + "," +
       std::to_string((int)s.rdstate()) + "," + std::to_string((int)s.exceptions()) + "," + std::to_string((size_t)s.rdbuf()) + "," + std::to_string((size_t)s.tie()) + "," + s.getloc().name();
  return r;
}
struct Slow {  // looked at before and after a whole case
  std::string files = listing("."), fds = openFiles(), tasks = listing("/proc/self/task"), cwd, vars, handlers, limits, timers;
  Slow() {
    char b[4096];
    cwd = getcwd(b, sizeof b) ? b : "";
    for (char** e = environ; *e; e++) vars += std::string(*e) + "\n";
    for (int s : {SIGINT, SIGTERM, SIGSEGV, SIGFPE, SIGABRT, SIGPIPE, SIGPROF, SIGALRM, SIGUSR1, SIGCHLD, SIGILL, SIGBUS, SIGHUP}) {
      struct sigaction a {};
      sigaction(s, nullptr, &a);
      handlers += std::to_string((size_t)a.sa_handler) + "," + std::to_string(a.sa_flags) + " ";
    }
    sigset_t m;
    sigprocmask(SIG_BLOCK, nullptr, &m);
    for (int s = 1; s < 32; s++) handlers += sigismember(&m, s) ? '1' : '0';
    handlers += std::to_string((size_t)std::get_terminate()) + "," + std::to_string((size_t)std::get_new_handler());
    for (int l : {RLIMIT_STACK, RLIMIT_AS, RLIMIT_NOFILE, RLIMIT_FSIZE}) {
      struct rlimit x {};
      getrlimit((__rlimit_resource)l, &x);
      limits += std::to_string(x.rlim_cur) + " ";
    }
    const mode_t um = umask(022);
    umask(um);
    limits += std::to_string(um) + " " + std::to_string(getpriority(PRIO_PROCESS, 0));
  }
  void compare(Ctx& c) const {
    Slow n;
    for (int i = 0; i < 20 && !(fds == n.fds); i++) {
      usleep(1000);
      n.fds = openFiles();
    }
    c.check(files == n.files, "files-created-or-removed", files + " | " + n.files);
    c.check(fds == n.fds, "descriptors-left-open", fds + " | " + n.fds);
    c.check(tasks == n.tasks, "threads-left", tasks + " | " + n.tasks);
    c.check(cwd == n.cwd, "working-directory-changed");
    c.check(vars == n.vars, "environment-variables-changed");
    c.check(handlers == n.handlers, "signal-or-error-handlers-changed", handlers + " | " + n.handlers);
    c.check(limits == n.limits, "process-limits-changed");
  }
};
struct Quick {  // looked at before and after every operation
  std::string streams = stateOf(std::cout) + "/" + stateOf(std::cerr) + "/" + stateOf(std::clog) + "/" + stateOf(std::cin);
  std::string clocale = setlocale(LC_ALL, nullptr);
  std::locale global;
  int rounding = fegetround(), traps = fegetexcept();
  unsigned control = _mm_getcsr() & ~0x3fu;  // all but the flags
  size_t numpunct = (size_t)&std::use_facet<std::numpunct<char>>(std::locale());
  void compare(Ctx& c, const std::string& nm) const {
    const Quick n;
    c.check(rounding == n.rounding, nm + ":rounding-mode-changed", std::to_string(rounding) + " " + std::to_string(n.rounding));
    c.check(traps == n.traps && control == n.control, nm + ":floating-point-control-changed", std::to_string(control) + " " + std::to_string(n.control));
    c.check(streams == n.streams, nm + ":stream-state-changed", streams + " | " + n.streams);
    c.check(clocale == n.clocale && numpunct == n.numpunct, nm + ":locale-changed", clocale + " " + n.clocale);
  }
};
// the console, as a file
struct Console {
  int file = -1, out = -1, err = -1;
  off_t seen = 0;
  void open() {
    if (file >= 0) return;
    char name[] = "/tmp/bezman-console-XXXXXX";
    file = mkstemp(name);
    unlink(name);
    out = dup(1);
    err = dup(2);
    fcntl(file, F_SETFL, O_APPEND | O_RDWR);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_report_fd((void*)(long)err);
#endif
  }
  void take() {
    flush();
    dup2(file, 1);
    dup2(file, 2);
    struct stat s {};
    fstat(file, &s);
    seen = s.st_size;
  }
  static void flush() {
    std::fflush(nullptr);
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
  }
  std::string release() {  // what was written since
    flush();
    dup2(out, 1);
    dup2(err, 2);
    struct stat s {};
    fstat(file, &s);
    std::string r(s.st_size - seen, 0);
    if (!r.empty()) { const ssize_t n = pread(file, &r[0], r.size(), seen); r.resize(n < 0 ? 0 : n); if (ftruncate(file, 0)) {} }
    return r;
  }
};
inline Console con;

// runs one operation under observation; the operation gives the bytes of its result
template <class F>
std::string watch(Ctx& c, const std::string& nm, F&& f, bool refuses = false, bool prints = false) {
  c.op(nm);
  const Quick before;
  const unsigned sd = (unsigned)c.rng.below(1u << 30);
  srand(sd);
  const int first = rand();
  srand(sd);
  bool threw = false;
  std::string r;
  con.take();
  try { r = f(); } catch (const std::exception&) { threw = true; }
  const std::string text = con.release();
  const int got = rand();
  c.check(threw == refuses, nm + (refuses ? ":accepted" : ":refused"));
  if (!refuses && !prints) c.check_f(text.empty(), nm + ":output", [&] { return text.substr(0, 300); });
  c.check(got == first, nm + ":random-numbers-consumed");
  c.check(r.rfind("settings of the stream", 0) != 0, nm + ":settings-of-a-stream-changed", r);
  before.compare(c, nm);
  c.count(refuses ? "refused operations watched" : "operations watched");
  return r;
}

// ---- operations -------------------------------------------------------------------
constexpr size_t NMOD = 12, NREF = 10, NUTIL = 11, NRARE = 9;
template <std::size_t PD, class S>
std::string modify(const Pool<PD, S>& p, Rng& g, size_t op) {
  const auto& in = p.v[g.below(p.v.size())];
  const auto& other = p.v[g.below(p.v.size())];
  const auto& rin = p.rv[g.below(p.rv.size())];
  auto v = in;
  auto r = rin;
  const size_t dir = g.below(PD);
  const S f = (S)g.uni(-2, 2);
  switch (op) {
    case 0: v.OrderElevateAlongParametricDimension(dir); break;
    case 1: r.OrderElevateAlongParametricDimension(dir); break;
    case 2: v += other; break;
    case 3: v -= other; break;
    case 4: v *= f; r *= f; break;
    case 5: { auto q = v.control_points[0]; v += q; v -= q + q; r += q; r -= q + q; break; }
    case 6: { auto d = v.GetDegrees(); d[dir]++; v.UpdateDegrees(d); break; }
    case 7: v.FitIntoUnitCube(); break;
    case 8: { auto q = v.control_points[0]; v.TransposeAndScale(q, q); break; }
    case 9: r += p.rv[g.below(p.rv.size())]; break;
    case 10: r -= p.rv[g.below(p.rv.size())]; break;
    default: { auto t = std::move(v); v = t; auto q = std::move(r); r = q; }
  }
  return snap(v) + snap(r);
}
template <std::size_t PD, class S>
std::string refuse(const Pool<PD, S>& p, Rng& g, size_t op) {
  auto big = p.v[g.below(p.v.size())];
  auto rbig = p.rv[g.below(p.rv.size())];
  const auto& a = p.a[0];
  const auto& v = p.v[0];
  const auto& ra = p.ra[0];
  const auto& rv = p.rv[0];
  const size_t dir = g.below(PD);
  for (auto& q : big.control_points) q[dir] = (S)g.uni(1.5, 4);
  for (size_t k = 0; k < rbig.GetWeightedControlPoints().size(); k++) rbig.GetWeightedControlPoints()[k][dir] = (S)g.uni(1.5, 4) * rbig.GetWeights()[k];
  const std::vector<S> bad{(S)0.2, (S)0.6, (S)0.4};
  switch (op) {
    case 0: v.SplitAtPosition((S)1.25, dir); break;
    case 1: a.SplitAtPosition(bad, dir); break;
    case 2: rv.SplitAtPosition((S)-.25, dir); break;
    case 3: ra.SplitAtPosition(bad, dir); break;
    case 4: a.Compose(big); break;
    case 5: v.ComposeSensitivity(big); break;
    case 6: ra.Compose(big); break;
    case 7: v.Compose(rbig); break;
    case 8: rv.Compose(rbig); break;
    default: (void)v.RaisePower(2);
  }
  return "";
}
// accepted calls that meet the rare branches
template <std::size_t PD, class S>
std::string rare(const Pool<PD, S>& p, Rng& g, size_t op) {
  const auto& a = p.a[g.below(p.a.size())];
  const auto& v = p.v[g.below(p.v.size())];
  const auto& ra = p.ra[g.below(p.ra.size())];
  const auto& rv = p.rv[g.below(p.rv.size())];
  std::vector<ld> u(PD), e(PD);
  for (auto& x : u) x = (ld)(S)g.uni(-.4, 1.4);
  for (auto& x : e) x = (ld)g.below(2);
  const auto out = pt<PD, S>(u), end = pt<PD, S>(e);
  const size_t dir = g.below(PD);
  std::array<std::size_t, PD> o{}, one{};
  for (auto& x : o) x = g.below(6);
  one[dir] = 1;
  switch (op) {
    case 0: return bytesOf(a.Evaluate(out)) + bytesOf(v.ForwardEvaluate(out)) + bytes(v.BasisFunctions(out)) + bytesOf(a.EvaluateDerivative(out, one));
    case 1: return bytesOf(a.Evaluate(end)) + bytesOf(v.ForwardEvaluate(end)) + bytes(v.BasisFunctions(end)) + bytesOf(a.EvaluateDerivative(end, one)) + bytes(a.BasisFunctionsDerivatives(end, one));
    case 2: return bytesOf(ra.Evaluate(end)) + bytesOf(rv.ForwardEvaluate(end)) + bytes(rv.BasisFunctions(end)) + bytesOf(ra.EvaluateDerivative(end, one)) + bytes(ra.BasisFunctionsDerivatives(end, one));
    case 3: o[dir] = v.GetDegrees()[dir] + 1 + g.below(3); return snap(v.DerivativeWRTParametricDimension(o)) + bytesOf(v.EvaluateDerivative(out, o)) + bytes(v.BasisFunctionsDerivatives(out, o));
    case 4: return snap(a.RaisePower(0)) + snap(a.RaisePower(1));
    case 5: return snaps(v.SplitAtPosition(std::vector<S>{}, dir)) + snaps(rv.SplitAtPosition(std::vector<S>{}, dir));
    case 6: return snaps(v.SplitAtPosition((S)1e-6, dir)) + snaps(rv.SplitAtPosition((S)(1 - 1e-6), dir));
    case 7: { auto t = v; auto d = t.GetDegrees(); t.UpdateDegrees(d); auto z = v; z *= (S)0; return snap(t) + snap(z + v) + snap(z * a) + snap(v - v); }
    default: { auto z = a; z *= (S)0; auto r = ra; r *= (S)0; return snap(z.RaisePower(2)) + snap(z.DerivativeWRTParametricDimension(one)) + snap(r + ra) + snap(r * ra); }
  }
}
template <class A>
std::string adOp(Rng& g, A x, A y) {
  A z = x * y + sin(x) - y / (x + 3.);
  z += exp(x * .1);
  z *= x;
  z -= sqrt(y + 2.);
  z /= 2.;
  z = pow(z * z + 1., 1.5) + atan(z) + log(z * z + 1.) + cos(y) * tan(x * .5) + abs(y) + asin(x * .3) + acos(y * .3) + log10(y + 4.);
  const bool b = x < y || z >= x || z == y;
  const auto d = z.GetDerivatives();
  return bytesOf(z.GetValue()) + bytes(std::vector<double>(d.begin(), d.end())) + (b ? "1" : "0") + (g.chance(.5) ? "" : " ");
}
inline std::string utility(Rng& g, size_t op) {
  switch (op) {
    case 0: { std::vector<double> v(g.below(60)); for (auto& x : v) x = g.uni(-9, 9); const auto t = Base64::Encode(v); return t + bytes(Base64::Decode<double>(t)); }
    case 1: { std::vector<int> v(g.below(60)); for (auto& x : v) x = (int)g.below(99999); const auto t = Base64::Encode(v); return t + bytes(Base64::Decode<int>(t)); }
    case 2: { std::vector<bz::Point<3, double>> v(1 + g.below(20)); for (auto& x : v) for (auto& y : x) y = g.uni(-1, 1); const auto t = Base64::Encode(v); return t + bytes(Base64::Decode<bz::Point<3, double>>(t)); }
    case 3: return adOp(g, Dyn(g.uni(-1, 1), 3, 0), Dyn(g.uni(-1, 1), 3, 2));
    case 4: return adOp(g, Sta(g.uni(-1, 1), 0), Sta(g.uni(-1, 1), 2));
    case 5: { std::vector<double> v(1 + g.below(30)); for (auto& x : v) x = g.below(9); return bytes(bezman::utils::algorithms::IndexListSort(v)); }
    case 6: { bz::Point<3, double> p{g.unit(), g.unit(), g.unit()}, q{g.unit(), g.unit(), g.unit()}; return bytesOf(p + q * 2. - p / 3.) + bytesOf(p * q) + bytesOf(p.EuclidianNorm()); }
    case 8: {  // printing leaves the settings of the stream to its owner
      std::ostringstream s;
      s.imbue(std::locale::classic());
      if (g.chance(.5)) s << std::hex << std::showbase << std::scientific << std::uppercase;
      s.precision(1 + g.below(14));
      s.fill("*# "[g.below(3)]);
      const std::string settings = stateOf(s);
      const bz::Point<2, double> p{g.uni(-1, 1), g.uni(-1, 1)};
      const bz::Point<1, float> q{(float)g.uni(-1, 1)};
      s << p << q << Dyn(g.uni(-1, 1), 2, 0) << Sta(g.uni(-1, 1), 1);
      (void)p.toString(1 + (int)g.below(12));
      const std::string after = stateOf(s);
      s.str("");
      s << 0.1 << " " << 255 << " " << std::setw(6) << 1;
      return settings == after ? s.str() : "settings of the stream changed: " + settings + " | " + after;
    }
    case 9: { const auto w = std::cout.width(); std::cout << bz::Point<2, double>{g.unit(), g.unit()} << Sta(g.unit(), 1); std::cout.width(w); return ""; }
    case 10: { const std::vector<double> none; const auto t = Base64::Encode(none); return t + bytes(Base64::Decode<double>(t)) + bytes(bezman::utils::algorithms::IndexListSort(none)); }
    default: return "";
    case 7: return std::to_string(bezman::utils::algorithms::IntPower<long>(3, (long)g.below(30))) + std::to_string(bezman::utils::FastBinomialCoefficient::choose(20, (unsigned)g.below(21)));
  }
}
struct Call {
  size_t kind, op;
  uint64_t seed;
  bool refuses() const { return kind == 3; }
  bool prints() const { return kind == 2 && op == 9; }
  std::string name() const {
    static const char* mod[NMOD] = {"elevate", "r-elevate", "add-assign", "sub-assign", "scale-assign", "shift-assign", "UpdateDegrees", "FitIntoUnitCube", "TransposeAndScale",
                                    "r-add-assign", "r-sub-assign", "move"};
    static const char* ref[NREF] = {"refused Split", "refused Split-list", "refused r-Split", "refused r-Split-list", "refused Compose", "refused ComposeSensitivity", "refused r-Compose",
                                    "refused Compose-rational", "refused r-Compose-rational", "refused RaisePower"};
    static const char* util[NUTIL] = {"Base64 double", "Base64 int", "Base64 points", "differentiation (run-time size)", "differentiation", "IndexListSort", "Point", "integers", "printing", "printing to the console", "nothing"};
    static const char* odd[NRARE] = {"beyond the unit cube", "at the ends", "r-at the ends", "derivative above the degree", "trivial powers", "Split-list of nothing", "Split near the ends", "zero splines", "zero functions"};
    return kind == 0 ? constName(op) : kind == 1 ? mod[op] : kind == 2 ? util[op] : kind == 4 ? odd[op] : ref[op];
  }
  template <std::size_t PD, class S>
  std::string operator()(const Pool<PD, S>& p) const {
    Rng g(seed);
    return kind == 0 ? constOp(p, g, op) : kind == 1 ? modify(p, g, op) : kind == 2 ? utility(g, op) : kind == 4 ? rare(p, g, op) : refuse(p, g, op);
  }
};
inline Call draw(Ctx& c) {
  Call k;
  k.kind = std::vector<size_t>{0, 0, 0, 1, 1, 2, 2, 3, 4}[c.rng.below(9)];
  k.op = c.rng.below(k.kind == 0 ? NCONST : k.kind == 1 ? NMOD : k.kind == 2 ? NUTIL : k.kind == 4 ? NRARE : NREF);
  k.seed = c.rng.below(1u << 30);
  return k;
}
inline void describe(Ctx& c, const Call& k) { c.desc << k.name() << "#" << k.seed << " "; }
inline void quiet() {
#ifdef ENABLE_LOGGING
  bezman::utils::Logger::SetOutputLevel(0);
#endif
}

// everything that surrounds the operations stays as it is
template <std::size_t PD, class S>
void surroundings(Ctx& c) {
  quiet();
  con.open();
  const auto p = genPool<PD, S>(c, 2);
  c.nontrivial = true;
  const Slow before;
  for (size_t i = 0; i < (G.thorough ? 16 : 8); i++) {
    const Call k = draw(c);
    describe(c, k);
    // settings of the program that the operation has to leave alone
    const int mode = c.rng.chance(.4) ? std::vector<int>{FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}[c.rng.below(3)] : FE_TONEAREST;
    const auto flags = std::cout.flags();
    const auto prec = std::cout.precision();
    std::cout << std::hex << std::showpos << std::scientific;
    std::cout.precision(1 + c.rng.below(20));
    if (!k.refuses()) std::cout.width(7);
    std::cerr << std::fixed;
    const unsigned ftz = c.rng.chance(.2) ? 0x8040u : 0u;
    fesetround(mode);
    _mm_setcsr(_mm_getcsr() | ftz);
    struct Restore {
      std::ios_base::fmtflags f;
      std::streamsize p;
      ~Restore() {
        fesetround(FE_TONEAREST);
        _mm_setcsr(_mm_getcsr() & ~0x8040u);
        std::cout.flags(f);
        std::cout.precision(p);
        std::cout.width(0);
        std::cerr.flags(f | std::ios_base::unitbuf);
      }
    } restore{flags, prec};
    watch(c, k.name(), [&] { return k(p); }, k.refuses(), k.prints());
  }
  before.compare(c);
}
// results do not depend on locale, streams, traps
template <std::size_t PD, class S>
void independent(Ctx& c) {
  quiet();
  con.open();
  const auto p = genPool<PD, S>(c, 2);
  c.nontrivial = true;
  for (size_t i = 0; i < (G.thorough ? 12 : 6); i++) {
    Call k = draw(c);
    if (k.refuses() || k.prints()) k.kind = 2, k.op = c.rng.below(8);
    describe(c, k);
    const std::string plain = watch(c, k.name(), [&] { return k(p); }, false, k.prints());
    {
      struct Foreign {
        std::locale old = std::locale::global(std::locale(std::locale::classic(), new Comma));
        std::locale o = std::cout.imbue(std::locale());
        ~Foreign() { std::locale::global(old); std::cout.imbue(o); }
      } foreign;
      c.check(watch(c, k.name(), [&] { return k(p); }, false, k.prints()) == plain, k.name() + ":depends-on-locale");
    }
    {
      struct Bad {
        std::streambuf* o = std::cout.rdbuf(nullptr);  // no console at all
        std::streambuf* e = std::cerr.rdbuf(nullptr);
        ~Bad() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
      } bad;
      std::cout.setstate(std::ios::badbit);
      c.check(watch(c, k.name(), [&] { return k(p); }, false, k.prints()) == plain, k.name() + ":depends-on-console");
    }
    {
      errno = 0;
      feclearexcept(FE_ALL_EXCEPT);
      c.check(k(p) == plain, k.name() + ":not-repeatable");
      // hidden divisions by zero and invalid operations (they end a program that traps them)
#if !defined(__clang__)
      c.check_f(!fetestexcept(FE_INVALID | FE_DIVBYZERO), k.name() + ":floating-point-exception", [&] { return fetestexcept(FE_INVALID) ? "invalid operation" : "division by zero"; });
#endif
    }
    // settings of the process that have nothing to do with computing
    const std::string cwd = "/";
    setenv("LC_ALL", "de_DE.UTF-8", 1);
    setenv("BEZMAN_DEBUG", "1", 1);
    c.check(watch(c, k.name(), [&] { return k(p); }, false, k.prints()) == plain, k.name() + ":depends-on-environment");
    unsetenv("BEZMAN_DEBUG");
    setenv("LC_ALL", "C", 1);
  }
}
// memory is given back: nothing is kept once the results are gone
template <std::size_t PD, class S>
void memory(Ctx& c) {
  quiet();
  con.open();
  c.nontrivial = true;
  {
    const auto p = genPool<PD, S>(c, 2);
    for (size_t i = 0; i < 4; i++) {
      const Call k = draw(c);
      describe(c, k);
      c.op(k.name());
      auto once = [&] { con.take(); try { (void)k(p); } catch (const std::exception&) {} con.release(); };
      once();
      once();
      const long b = heap::blocks;
      for (int n = 0; n < 3; n++) once();
      const long left = heap::blocks - b;
      c.check_f(left == 0, k.name() + ":memory-kept", [&] { return std::to_string(left) + " blocks after three more runs with the same operands"; });
      c.count("repetitions measured", 3);
    }
  }
  // and with ever new operands
  const Call k = draw(c);
  describe(c, k);
  c.op(k.name());
  long kept[6];
  for (int round = 0; round < 6; round++) {
    const long b = heap::blocks;
    for (int n = 0; n < 25; n++) {
      Ctx d(c.idx, c.rng.below(1u << 30));
      const auto p = genPool<PD, S>(d, 2);
      Call m = k;
      m.seed = c.rng.below(1u << 30);
      con.take();
      try { (void)m(p); } catch (const std::exception&) {}
      con.release();
    }
    kept[round] = heap::blocks - b;
  }
  c.count("operands measured", 150);
  c.check_f(!(kept[3] >= 10 && kept[4] >= 10 && kept[5] >= 10), k.name() + ":memory-grows-for-ever",
            [&] { std::string s = "blocks kept per 25 runs:"; for (long x : kept) s += " " + std::to_string(x); return s; });
}
template <std::size_t PD, class S>
void regAll(const std::string& n) {
  reg(n + "-surroundings", surroundings<PD, S>, 3);
  reg(n + "-independent", independent<PD, S>, 3);
  reg(n + "-memory", memory<PD, S>);
}
int main(int argc, char** argv) {
#if GROUP == 0
  regAll<1, double>("1d-double");
  regAll<2, double>("2d-double");
#else
  regAll<2, float>("2d-float");
  regAll<3, double>("3d-double");
  regAll<1, long double>("1d-longdouble");
#endif
  return run_main(argc, argv, "P31");
}
