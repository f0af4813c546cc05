// P28: one program of many translation units.  This file is compiled once per
// unit:
//   UNIT 0      main, the cases and their verdicts
//   UNIT 1..4   all headers, each unit in another order; unit 4 is a shared object
//   UNIT 5..    a single header on its own (ALONE_HEADER), included twice
// run.py writes the include orders (order<k>.hpp) from the seed.
#if UNIT >= 5
#include ALONE_HEADER
#include ALONE_HEADER
#include "alone.inc"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
std::string CAT(alone, ALONE)(std::uint64_t seed) { return CAT(work, ALONE)(Mini{seed}); }
#else
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
#include STR(CAT(order, UNIT).hpp)
#define ALONE 0
#include "alone.inc"
#include "logh.hpp"
using namespace vf;

#define EACH(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define DECL(k) std::string alone##k(std::uint64_t);
EACH(DECL)
constexpr int NHEADERS = 15, NUNITS = 5;

// ---- the plan of a history: the same in the parent and in the child ------------
namespace vf {
enum Phase { BEFORE_MAIN, IN_MAIN, AT_EXIT };
const int WORK_STEP = LEVEL + 1;
struct Where { int phase; size_t unit; };
struct Plan {
  bool active = false;
  bool library = false;
  History h;
  std::vector<Where> where;
  Pool<2, double> pool;
  uint64_t dig = 1;
  int status = OK;
  size_t ran = 0;
};
inline void makePlan(Plan& p, Ctx& c, bool library) {
  p.library = library;
  p.pool = genPool<2, double>(c, 3, 2, 9);
  p.h = genHistory(c, c.rng.range(4, 24), library);
  auto& s = p.h.steps;
  // workloads over single headers among them
  for (auto& x : s)
    if (x.kind == LIBRARY && c.rng.chance(0.5)) { x.kind = WORK_STEP; x.how = c.rng.below(NHEADERS); }
  const size_t before = c.rng.chance(0.6) ? c.rng.below(s.size() / 2 + 1) : 0;
  const size_t atexit = c.rng.chance(0.6) ? c.rng.below(s.size() / 2 + 1) : 0;
  // static objects of a shared object are destroyed after those of the program
  const size_t u = c.rng.below(NUNITS), v = c.rng.below(NUNITS - 1);
  for (size_t i = 0; i < s.size(); i++)
    p.where.push_back(i < before ? Where{BEFORE_MAIN, u} : i + atexit >= s.size() ? Where{AT_EXIT, v} : Where{IN_MAIN, c.rng.below(NUNITS)});
}
inline Plan& plan() {
  static Plan* made = [] {
    static Plan p;
    if (const char* e = getenv("BEZMAN_P28")) {
      unsigned long long seed = 0, idx = 0;
      int library = 0;
      if (sscanf(e, "%llu %llu %d", &seed, &idx, &library) == 3) {
        Ctx c(idx, seed);
        makePlan(p, c, library);
        p.active = true;
      }
    }
    return &p;
  }();
  return *made;
}
inline void record() {
  FILE* f = fopen("digest", "w");
  if (f) { fprintf(f, "%016llx", (unsigned long long)plan().dig); fclose(f); }
}
}  // namespace vf

// ---- what a unit does: own code, not shared with the other units -----------------
namespace {
bool ownCritical(const Step& s) {
  try {
    if (s.how % 2) L::TerminatingError<std::out_of_range>(s.text);
    else L::TerminatingError(s.text);
  } catch (const std::out_of_range& e) {
    return s.how % 2 && s.text.c_str() == std::string(e.what());
  } catch (const std::runtime_error& e) {
    return s.how % 2 == 0 && s.text.c_str() == std::string(e.what());
  }
  return false;
}
std::string ownWork(size_t k, uint64_t seed) {
#define CASE(k) case k: return work##k(Mini{seed});
  switch (k) { EACH(CASE) }
  return "";
}
// status of the step; results go to res
int ownStep(const Step& s, std::string& res) {
  try {
    switch (s.kind) {
      case WARN: L::Warning(s.text); break;
      case INFO: L::UserInfo(s.text); break;
      case LOG: L::Logging(s.text); break;
      case EXT: L::ExtendedInformation(s.text); break;
      case ERR: L::Error(s.text); break;
      case CRIT: if (!ownCritical(s)) return BAD_EXC; break;
      case LIBRARY: res = libraryOp(plan().pool, s); break;
      case WORK_STEP: res = ownWork(s.how + 1, s.seed); break;
      default:
        if (s.how % 2) L::SetOutputLevel(s.level);
        else L::SetOutputLevel({static_cast<OL>(s.level)});
    }
  } catch (...) {
    return UNEXPECTED;
  }
  return OK;
}
void ownPhase(int phase, size_t unit);
}  // namespace
int CAT(step, UNIT)(const Step& s, std::string& res) { return ownStep(s, res); }
namespace {
void ownPhase(int phase, size_t unit) {
  Plan& p = plan();
  for (size_t i = 0; i < p.h.steps.size(); i++) {
    if (p.where[i].phase != phase || p.where[i].unit != unit) continue;
    std::string res;
    const int st = ownStep(p.h.steps[i], res);
    if (st != OK) p.status = st;
    if (p.h.steps[i].kind >= LIBRARY && p.h.steps[i].kind != LEVEL) p.dig = fnv(res, p.dig);
    p.ran++;
  }
  record();
}
// an object with static storage duration in every unit
struct Static {
  Static() {
    if (!plan().active) return;
    L::UserInfo("");  // the logger outlives the objects that have used it
    ownPhase(BEFORE_MAIN, UNIT);
  }
  ~Static() {
    if (UNIT == 4 || !plan().active) return;
    ownPhase(AT_EXIT, UNIT);
    if (plan().status != OK) _exit(plan().status);
  }
};
Static object;
}  // namespace

#if UNIT == 0
int step1(const Step&, std::string&); int step2(const Step&, std::string&); int step3(const Step&, std::string&); int step4(const Step&, std::string&);
static int (*const steps[])(const Step&, std::string&) = {step0, step1, step2, step3, step4};
static std::string alone(size_t k, uint64_t seed) {
#define ACASE(k) case k: return alone##k(seed);
  switch (k) { EACH(ACASE) }
  return "";
}
// the part of the child between static initialisation and destruction
static int childMain() {
  watch_idle(5);
  std::set_terminate([] { _exit(TERMINATED); });
  Plan& p = plan();
  for (size_t i = 0; i < p.h.steps.size(); i++) {
    const Step& s = p.h.steps[i];
    if (p.where[i].phase != IN_MAIN) continue;
    std::string res;
    const int st = steps[p.where[i].unit](s, res);
    if (st != OK) p.status = st;
    if (s.kind == WORK_STEP && alone(s.how + 1, s.seed) != res) p.status = 42;
    if (s.kind >= LIBRARY && s.kind != LEVEL) p.dig = fnv(res, p.dig);
  }
  record();
  return p.status;
}
static void units(Ctx& c, bool library) {
  const uint64_t seed = c.rng.u64();
  Plan p;
  Ctx c2(c.idx, seed);
  makePlan(p, c2, library);
  c.desc << c2.desc.str() << " ";
  describeHistory(c, p.h);
  for (auto& w : p.where) {
    c.desc << " " << w.phase << w.unit;
    c.count(w.phase == BEFORE_MAIN ? "steps-before-main" : w.phase == AT_EXIT ? "steps-at-exit" : "steps-in-main");
  }
  // the results of this very process
  uint64_t want = 1;
  for (auto& s : p.h.steps) {
    if (s.kind == LIBRARY) want = fnv(libraryOp(p.pool, s), want);
    if (s.kind == WORK_STEP) want = fnv(ownWork(s.how + 1, s.seed), want);
  }
  const std::string env = std::to_string(seed) + " " + std::to_string(c.idx) + " " + std::to_string((int)library);
  const std::string got = runHistory(c, p.h, &p.pool, [&](const std::string& dir) {
    if (chdir(dir.c_str()) != 0) _exit(30);
    const int fd = open("console", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || dup2(fd, 1) < 0) _exit(31);
    close(fd);
    setenv("BEZMAN_P28", env.c_str(), 1);
    execl("/proc/self/exe", "p28", (char*)nullptr);
    _exit(32);
  });
  c.check(strtoull(got.c_str(), 0, 16) == want, "results-depend-on-unit-or-phase", "digest " + got);
}
// every unit and every header on its own computes the same
static void results(Ctx& c) {
  Plan p;
  makePlan(p, c, true);
  c.nontrivial = true;
  for (int rep = 0; rep < 12; rep++) {
    Step s{c.rng.chance(.5) ? LIBRARY : WORK_STEP, 39, "", "", 0, c.rng.u64()};
    s.how = s.kind == LIBRARY ? c.rng.below(NCONST + 4) : c.rng.below(NHEADERS);
    c.desc << " " << s.kind << ":" << s.how << "," << s.seed;
    c.op(s.kind == LIBRARY ? "library" : "header" + std::to_string(s.how + 1));
    plan().pool = p.pool;
    std::string first;
    for (size_t u = 0; u < NUNITS; u++) {
      std::string r;
      c.check(steps[u](s, r) == OK, "unit-threw");
      if (u == 0) first = r;
      c.check_f(r == first, "results-depend-on-unit", [&] { return "unit " + std::to_string(u) + ": " + r.substr(0, 300) + " against " + first.substr(0, 300); });
      c.count("unit-results-compared");
    }
    if (s.kind == WORK_STEP) c.check_f(alone(s.how + 1, s.seed) == first, "header-on-its-own", [&] { return alone(s.how + 1, s.seed).substr(0, 300); });
  }
}
int main(int argc, char** argv) {
  if (plan().active) return childMain();
  reg("messages", [](Ctx& c) { units(c, false); });
  reg("mixed", [](Ctx& c) { units(c, true); });
  reg("mixed", [](Ctx& c) { units(c, true); });
  reg("unit-results", results);
  return run_main(argc, argv, "P28");
}
#endif
#endif
