// Histories of messages and level changes, and the offline checker of the
// recorded console and files (exactly once, complete, in order, no other sink).
// Every history runs in a child process of its own (fresh singleton, own
// directory, console redirected into a file).  Used by P25 and P28.
#pragma once
#include <sys/wait.h>

#include <atomic>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <thread>
#include <typeinfo>

#include "ops.hpp"
#include "bezman/src/utils/logger.hpp"
namespace vf {
using L = bezman::utils::Logger;
using OL = L::OutputLevel;

#ifdef ENABLE_LOGGING
constexpr bool LOGGING = true;
#else
constexpr bool LOGGING = false;
#endif
enum Sev { WARN, INFO, LOG, EXT, ERR, CRIT, NSEV };
inline const char* const sevName[] = {"Warning", "UserInfo", "Logging", "ExtendedInformation", "Error", "TerminatingError"};
inline const unsigned consoleBit[] = {4, 1, 8, 16, 2, 2};
inline const unsigned fileBit[] = {64, 256, 256, 256, 128, 128};
inline const char* const fileName[] = {"warning_file.log", "log_file.log", "error_file.log"};
inline const unsigned fileBits[] = {64, 256, 128};
inline const int LIBRARY = NSEV, LEVEL = NSEV + 1;

struct Own : std::exception {
  std::string t;
  explicit Own(const std::string& s) : t("own:" + s) {}
  const char* what() const noexcept override { return t.c_str(); }
};
struct Step {
  int kind;           // severity, LIBRARY, LEVEL
  unsigned level;     // level in force (LEVEL: the new one)
  std::string text;   // with unique token
  std::string token;
  size_t how;         // exception type / form of the level call / library operation
  uint64_t seed;
};

template <class E>
bool throwsExactly(const std::string& text, const std::string& want) {
  try {
    L::TerminatingError<E>(text);
  } catch (const std::exception& e) {
    return typeid(e) == typeid(E) && want.c_str() == std::string(e.what());
  } catch (...) {
  }
  return false;
}
inline bool critical(const Step& s) {
  switch (s.how % 6) {
    case 0: {
      try { L::TerminatingError(s.text); } catch (const std::exception& e) { return typeid(e) == typeid(std::runtime_error) && s.text.c_str() == std::string(e.what()); } catch (...) {}
      return false;
    }
    case 1: return throwsExactly<std::invalid_argument>(s.text, s.text);
    case 2: return throwsExactly<std::out_of_range>(s.text, s.text);
    case 3: return throwsExactly<std::logic_error>(s.text, s.text);
    case 4: return throwsExactly<Own>(s.text, "own:" + s.text);
    default: return throwsExactly<std::domain_error>(s.text, s.text);
  }
}
inline void setLevel(unsigned l, size_t how) {
  auto e = [](unsigned x) { return static_cast<OL>(x); };
  switch (how % 3) {
    case 0: L::SetOutputLevel(l); break;
    case 1: L::SetOutputLevel({e(l & 1), e(l & 2), e(l & 4), e(l & 8), e(l & 16), e(l & 32), e(l & 64), e(l & 128), e(l & 256)}); break;
    // overlapping entries denote the union
    default: L::SetOutputLevel({e(l), e(l & 7), e(l), e(l & 448), OL::nothing}); break;
  }
}
inline void message(const Step& s) {
  switch (s.kind) {
    case WARN: L::Warning(s.text); break;
    case INFO: L::UserInfo(s.text); break;
    case LOG: L::Logging(s.text); break;
    case EXT: L::ExtendedInformation(s.text); break;
    default: L::Error(s.text);
  }
}
inline std::string randomText(Rng& g, const std::string& token) {
  std::string b;
  switch (g.below(8)) {
    case 0: break;
    case 6: for (size_t n = g.range(1, 40); n--;) b += (g.chance(.2) ? '\0' : (char)g.range(97, 122)); break;
    case 1: for (size_t n = g.range(1, 60); n--;) b += (char)g.range(32, 126); break;
    case 2: for (size_t n = g.range(1, 20); n--;) b += (g.chance(.2) ? '\n' : (char)g.range(97, 122)); break;
    case 3: for (size_t n = g.range(2000, 40000); n--;) b += (char)g.range(48, 122); break;
    case 4: b = "\xc3\xa4\xe2\x82\xac %s %d \\n \t\x1b[0m"; break;
    case 5: for (size_t n = g.range(1, 40); n--;) b += (char)g.range(128, 255); break;
    default: b = "split plane " + std::to_string(g.below(100));
  }
  for (auto& ch : b) if (ch == '<' || ch == '>') ch = '_';
  return "<" + token + ">" + b + "</" + token + ">";
}
inline std::string slurp(const std::string& p, bool* there = nullptr) {
  std::ifstream f(p, std::ios::binary);
  if (there) *there = (bool)f;
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
inline bool hasTime(const std::string& s) {
  for (size_t i = 0; i + 8 <= s.size(); i++)
    if (isdigit(s[i]) && isdigit(s[i + 1]) && s[i + 2] == ':' && isdigit(s[i + 3]) && isdigit(s[i + 4]) && s[i + 5] == ':') return true;
  return false;
}

// the child: exit status 0 ok, otherwise the number of the failed monitor
enum { OK = 0, BAD_EXC = 40, UNEXPECTED = 41, TERMINATED = 55 };
inline std::string libraryOp(const Pool<2, double>& pool, const Step& s) {
  Rng g(s.seed);
  const size_t k = s.how % (NCONST + 4);
  if (k < NCONST) return constOp(pool, g, k);
  auto& v = pool.v[g.below(3)];
  auto& r = pool.rv[g.below(3)];
  auto big = v;
  for (auto& q : big.control_points) q = q * 50.;
  std::string before = pool.all(), res;
  auto ref = [&](auto&& f) { try { f(); res += "accepted;"; } catch (const std::runtime_error& e) { res += std::string("refused ") + (*e.what() ? "with text;" : "without text;"); } };
  switch (k - NCONST) {
    case 0: ref([&] { v.SplitAtPosition(-0.5, 0); }); ref([&] { r.SplitAtPosition(std::vector<double>{.6, .3}, 1); }); break;
    case 1: ref([&] { pool.a[0].Compose(big); }); ref([&] { r.Compose(big); }); break;
    case 2: ref([&] { (void)pool.a[0].RaisePower(0); }); res += snap(pool.a[1].RaisePower(0)); break;
    default: ref([&] { v.SplitAtPosition(std::vector<double>{.8, .2}, 0); }); ref([&] { pool.ra[0].Compose(big); });
  }
  return res + (before == pool.all() ? "same" : "CHANGED");
}

const unsigned UNKNOWN = ~0u;  // level of a message while other threads change it

struct History {
  std::vector<Step> steps;
  int end = 0;            // 0 exit, 1 _exit after last critical error, 2 uncaught
  int blocked = -1;       // sink that cannot be opened
  int full = -1;          // sink that cannot be written to (3: the console)
  bool threaded = false;  // messages of steps are issued by threads, step i by thread i % nt
  size_t nt = 1;
  size_t concurrent = 0;  // threaded: steps after these are issued by the main thread alone
  unsigned any = 0, every = 0;  // threaded: bits of some level, of every level in force meanwhile
};

inline std::string find_missing(const std::string& data, const std::vector<const Step*>& want, bool ordered) {
  size_t pos = 0;
  for (auto* s : want) {
    const size_t q = data.find(s->text, ordered ? pos : 0);
    if (q == std::string::npos) return s->token;
    pos = q + s->text.size();
  }
  return "";
}
inline size_t occurrences(const std::string& d, const std::string& w) {
  size_t n = 0;
  for (size_t p = d.find(w); p != std::string::npos; p = d.find(w, p + 1)) n++;
  return n;
}

inline unsigned genLevel(Rng& g) {
  switch (g.below(8)) {
    case 0: return 511;
    case 1: return 0;
    case 2: return 1u << g.below(9);
    case 3: return 511 ^ (1u << g.below(9));
    case 4: return 448 | (unsigned)g.below(64);
    case 5: return (unsigned)g.below(64);
    default: return (unsigned)g.below(512);
  }
}

// start: what the child process does (never returns)
inline std::string runHistory(Ctx& c, History& h, const Pool<2, double>* pool, const std::function<void(const std::string&)>& start) {
  const std::string dir = "h" + std::to_string(c.idx);
  c.check(mkdir(dir.c_str(), 0700) == 0 || errno == EEXIST, "harness:mkdir");
  auto clean = [&] {
    for (auto f : fileName) { unlink((dir + "/" + f).c_str()); rmdir((dir + "/" + f).c_str()); }
    unlink((dir + "/console").c_str());
    unlink((dir + "/digest").c_str());
    unlink((dir + "/stderr").c_str());
    rmdir(dir.c_str());
  };
  clean();
  mkdir(dir.c_str(), 0700);
  if (h.full >= 0 && h.full < 3) c.check(symlink("/dev/full", (dir + "/" + fileName[h.full]).c_str()) == 0, "harness:symlink");
  if (h.blocked >= 0) mkdir((dir + "/" + fileName[h.blocked]).c_str(), 0700);
  fflush(G.out);
  c.op("child");
  const pid_t p = fork();
  c.check(p >= 0, "harness:fork");
  if (p == 0) {
    const int fd = open((dir + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || dup2(fd, 2) < 0) _exit(34);
    ::close(fd);
    start(dir);
    _exit(33);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  const int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  const std::string con = h.full == 3 ? "" : slurp(dir + "/console");
  std::string file[3];
  bool there[3];
  for (int k = 0; k < 3; k++) {
    if (h.full == k) there[k] = true;
    else file[k] = slurp(dir + "/" + fileName[k], &there[k]);
  }
  const std::string dig = slurp(dir + "/digest"), complaint = slurp(dir + "/stderr");
  clean();
  c.op("verdict");
  if (rc == 96) {
    G.violations = 40;  // one is enough: each takes half a minute
    c.check(false, "deadlock", "a history of messages never ends");
  }
  c.check(rc != BAD_EXC, "TerminatingError:exception-type-or-text");
  c.check(rc != UNEXPECTED, "message-threw");
  c.check(rc == (h.end == 2 ? TERMINATED : OK), "child-status:" + std::to_string(rc), "status of the history " + std::to_string(rc) + ": " + complaint.substr(0, 3000));
  // what every sink has to contain
  std::vector<const Step*> wantCon, wantFile[3];
  std::vector<const Step*> all;
  std::vector<bool> enabled(3, false);
  for (auto& s : h.steps) {
    if (s.kind == LEVEL) for (int k = 0; k < 3; k++) enabled[k] = enabled[k] || (s.level & fileBits[k]);
    if (s.kind >= NSEV) continue;
    all.push_back(&s);
    const unsigned level = s.level == UNKNOWN ? h.every : s.level;
    if (level & consoleBit[s.kind]) wantCon.push_back(&s);
    if (LOGGING) for (int k = 0; k < 3; k++) if ((level & fileBit[s.kind]) && fileBits[k] == fileBit[s.kind]) wantFile[k].push_back(&s);
  }
  auto sink = [&](const std::string& name, const std::string& data, const std::vector<const Step*>& want, bool exact, int bits) {
    std::set<const Step*> w(want.begin(), want.end());
    for (auto* s : all) {
      const size_t n = occurrences(data, "<" + s->token + ">");
      const std::string key = std::string(sevName[s->kind]) + ":" + name;
      const unsigned bit = bits < 0 ? consoleBit[s->kind] : (unsigned)bits;
      if (s->level == UNKNOWN && (bits < 0 || bit == fileBit[s->kind]) && (h.any & bit) && !(h.every & bit)) {
        c.check(n <= 1, key + ":more-than-once", s->token);
        if (n) c.check(data.find(s->text) != std::string::npos, key + ":incomplete", s->token);
        c.count(n ? "level-race-delivered" : "level-race-not-delivered");
      } else if (!w.count(s)) c.check(n == 0, key + ":not-enabled", s->token + " at level " + std::to_string(s->level));
      else if (exact) {
        c.check_f(n == 1, key + (n ? ":more-than-once" : ":lost"), [&] { return s->token + " at level " + std::to_string(s->level) + ": " + std::to_string(n) + " times"; });
        const size_t q = data.find(s->text);
        c.check_f(q != std::string::npos, key + ":incomplete", [&] { return s->token; });
        const size_t b = data.rfind('\n', q);
        const std::string pre = data.substr(b == std::string::npos ? 0 : b + 1, q - (b == std::string::npos ? 0 : b + 1));
        if (s->level != UNKNOWN || !(h.any & 32) || (h.every & 32)) c.check_f(hasTime(pre) == (((s->level == UNKNOWN ? h.every : s->level) & 32) != 0), key + ":time-stamp", [&] { return pre; });
      } else c.check(n <= 1, key + ":more-than-once", s->token);
      c.count("messages-located", n);
    }
    if (!exact) return;
    if (!h.threaded) {
      const std::string m = find_missing(data, want, true);
      c.check_f(m.empty(), name + ":order", [&] { return "message " + m; });
    } else {
      std::vector<std::vector<const Step*>> per(h.nt);
      for (auto* s : want) per[s->level == UNKNOWN || !h.concurrent ? s->how % h.nt : 0].push_back(s);
      for (auto& l : per) { const std::string m = find_missing(data, l, true); c.check_f(m.empty(), name + ":order-of-a-thread", [&] { return "message " + m; }); }
    }
  };
  if (!LOGGING) {  // only critical errors may show on the console
    std::vector<const Step*> w;
    for (auto* s : wantCon) if (s->kind == CRIT) w.push_back(s);
    if (h.full != 3) sink("console", con, w, false, -1);
    for (int k = 0; k < 3; k++) c.check(!there[k] || h.blocked == k || h.full == k, std::string(fileName[k]) + ":created-without-logging");
  } else {
    if (h.full != 3) sink("console", con, wantCon, h.end == 0, -1);
    for (int k = 0; k < 3; k++) {
      if (h.blocked == k || h.full == k) continue;
      sink(fileName[k], file[k], wantFile[k], true, (int)fileBits[k]);
      c.check(there[k] || !enabled[k], std::string(fileName[k]) + ":missing");
    }
  }
  if (pool && h.end == 0) {
    c.check(dig.size() == 16, "results:missing");
    c.digest(strtoull(dig.c_str(), 0, 16));
    c.count("result-digests");
  }
  return dig;
}

inline History genHistory(Ctx& c, size_t len, bool library) {
  History h;
  unsigned level = 39;  // the documented default
  if (c.rng.chance(0.8)) {
    level = genLevel(c.rng);
    h.steps.push_back({LEVEL, level, "", "", c.rng.below(3), 0});
  }
  for (size_t i = 0; i < len; i++) {
    const double r = c.rng.unit();
    if (r < 0.15) {
      level = genLevel(c.rng);
      h.steps.push_back({LEVEL, level, "", "", c.rng.below(3), 0});
    } else if (library && r < 0.55) {
      h.steps.push_back({LIBRARY, level, "", "", c.rng.below(NCONST + 4), c.rng.u64()});
    } else {
      const int k = c.rng.chance(0.2) ? CRIT : (int)c.rng.below(NSEV);
      const std::string tok = "m" + std::to_string(i) + "x" + std::to_string(c.rng.below(100000));
      h.steps.push_back({k, level, randomText(c.rng, tok), tok, c.rng.below(6), 0});
    }
  }
  return h;
}
inline void describeHistory(Ctx& c, const History& h) {
  c.desc << "end=" << h.end << " blocked=" << h.blocked << " full=" << h.full << " threads=" << h.nt << ":";
  for (auto& s : h.steps) {
    if (s.kind == LEVEL) c.desc << " level(" << s.level << "," << s.how << ")";
    else if (s.kind == LIBRARY) c.desc << " library(" << s.how << ")";
    else if (s.kind > LEVEL) c.desc << " work(" << s.how << "," << s.seed << ")";
    else c.desc << " " << sevName[s.kind] << "(" << s.token << "," << s.text.size() << " bytes)";
    if (s.kind < NSEV) { c.count(std::string("issued:") + sevName[s.kind]); }
    else if (s.kind == LEVEL) c.count("level-changes");
  }
  c.nontrivial = true;
}
}  // namespace vf
