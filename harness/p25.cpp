// P25: the logger.  Ends of a history: normal exit, exit without destructors
// right after a critical error, uncaught critical error.
#include "logh.hpp"
using namespace vf;

[[noreturn]] inline void child(const History& h, const Pool<2, double>* pool, const std::string& dir) {
  watch_idle(5);
  if (chdir(dir.c_str()) != 0) _exit(30);
  const int fd = open(h.full == 3 ? "/dev/full" : "console", O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || dup2(fd, 1) < 0) _exit(31);
  close(fd);
  std::set_terminate([] { _exit(TERMINATED); });
  int status = OK;
  uint64_t dig = 1;
  try {
    if (h.threaded) {
      size_t i = 0;
      while (i < h.steps.size() && h.steps[i].kind == LEVEL) { setLevel(h.steps[i].level, h.steps[i].how); i++; }
      std::atomic<size_t> in{0};
      std::atomic<int> bad{0};
      const size_t end = h.concurrent ? h.concurrent : h.steps.size();
      std::vector<std::thread> th;
      for (size_t t = 0; t < h.nt; t++)
        th.emplace_back([&, t] {
          in++;
          while (in < h.nt) std::this_thread::yield();
          for (size_t k = i; k < end; k++) {
            if (h.steps[k].how % h.nt != t) continue;
            if (h.steps[k].kind == CRIT) { if (!critical(h.steps[k])) bad = 1; }
            else if (h.steps[k].kind == LEVEL) setLevel(h.steps[k].level, h.steps[k].how);
            else message(h.steps[k]);
          }
        });
      for (auto& t : th) t.join();
      for (size_t k = end; k < h.steps.size(); k++) {
        if (h.steps[k].kind == CRIT) { if (!critical(h.steps[k])) bad = 1; }
        else if (h.steps[k].kind == LEVEL) setLevel(h.steps[k].level, h.steps[k].how);
        else message(h.steps[k]);
      }
      if (bad) status = BAD_EXC;
    } else
      for (size_t i = 0; i < h.steps.size(); i++) {
        const Step& s = h.steps[i];
        if (s.kind == LEVEL) setLevel(s.level, s.how);
        else if (s.kind == LIBRARY) dig = fnv(libraryOp(*pool, s), dig);
        else if (s.kind == CRIT) {
          if (h.end == 2 && i + 1 == h.steps.size()) [&]() noexcept { L::TerminatingError(s.text); }();
          if (!critical(s)) status = BAD_EXC;
          if (h.end == 1 && i + 1 == h.steps.size()) _exit(status);
        } else message(s);
      }
  } catch (...) {
    status = UNEXPECTED;
  }
  FILE* f = fopen("digest", "w");
  if (f) { fprintf(f, "%016llx", (unsigned long long)dig); fclose(f); }
  exit(status);
}

inline void run(Ctx& c, History& h, const Pool<2, double>* pool) {
  runHistory(c, h, pool, [&](const std::string& dir) { child(h, pool, dir); });
}
void messages(Ctx& c) {
  History h = genHistory(c, c.rng.range(3, 40), false);
  describeHistory(c, h);
  run(c, h, nullptr);
}
// the process ends right after a critical error
void crash(Ctx& c) {
  History h = genHistory(c, c.rng.range(3, 30), false);
  h.end = 1 + (int)c.rng.below(2);
  unsigned level = 39;
  for (auto& s : h.steps) level = s.level;
  h.steps.push_back({CRIT, level, randomText(c.rng, "last"), "last", 0, 0});
  describeHistory(c, h);
  run(c, h, nullptr);
}
void blocked(Ctx& c) {
  History h = genHistory(c, c.rng.range(3, 30), false);
  h.blocked = (int)c.rng.below(3);
  describeHistory(c, h);
  run(c, h, nullptr);
}
void concurrent(Ctx& c) {
  History h;
  h.threaded = true;
  h.nt = c.rng.range(2, 5);
  const unsigned level = genLevel(c.rng) | (c.rng.chance(0.5) ? 448 : 0);
  h.steps.push_back({LEVEL, level, "", "", 0, 0});
  const size_t n = h.nt * c.rng.range(5, 40);
  for (size_t i = 0; i < n; i++) {
    const std::string tok = "t" + std::to_string(i % h.nt) + "m" + std::to_string(i);
    h.steps.push_back({(int)c.rng.below(NSEV), level, randomText(c.rng, tok), tok, i % h.nt, 0});
  }
  describeHistory(c, h);
  run(c, h, nullptr);
}
// threads send messages while others change the level
void levels(Ctx& c) {
  History h;
  h.threaded = true;
  h.nt = c.rng.range(2, 5);
  unsigned level = genLevel(c.rng) | (c.rng.chance(0.5) ? 448 : 0);
  const unsigned fixed = c.rng.chance(0.5) ? (unsigned)c.rng.below(512) : 0;  // bits no change touches
  auto next = [&] { return (genLevel(c.rng) & ~fixed) | (level & fixed); };
  h.steps.push_back({LEVEL, level, "", "", c.rng.below(3), 0});
  h.any = h.every = level;
  auto text = [&](size_t i, unsigned l, size_t how) {
    const std::string tok = "t" + std::to_string(how) + "m" + std::to_string(i);
    h.steps.push_back({(int)c.rng.below(NSEV), l, randomText(c.rng, tok), tok, how, 0});
  };
  const size_t n = h.nt * c.rng.range(5, 40);
  for (size_t i = 0; i < n; i++) {
    if (c.rng.chance(0.1)) {
      const unsigned l = next();
      h.any |= l;
      h.every &= l;
      // how: form of the call; the thread is how % nt
      if (h.steps.size() > 1) h.steps.push_back({LEVEL, l, "", "", c.rng.below(60), 0});
      else text(i, UNKNOWN, i % h.nt);
    } else text(i, UNKNOWN, i % h.nt);
  }
  h.concurrent = h.steps.size();
  level = next();
  h.steps.push_back({LEVEL, level, "", "", c.rng.below(3), 0});
  for (size_t i = 0, m = c.rng.range(1, 8); i < m; i++) text(n + i, level, 0);
  describeHistory(c, h);
  run(c, h, nullptr);
}
// a sink that cannot take any data loses nothing but its own messages
void full(Ctx& c) {
  History h = genHistory(c, c.rng.range(3, 40), false);
  h.full = (int)c.rng.below(4);
  describeHistory(c, h);
  run(c, h, nullptr);
}
void results(Ctx& c) {
  const Pool<2, double> pool = genPool<2, double>(c, 3, 2, 9);
  History h = genHistory(c, c.rng.range(6, 24), true);
  describeHistory(c, h);
  run(c, h, &pool);
}

int main(int argc, char** argv) {
  reg("messages", messages);
  reg("results", results);
  reg("crash", crash);
  reg("messages", messages);
  reg("results", results);
  reg("blocked-file", blocked);
  reg("threads", concurrent);
  reg("full-sink", full);
  reg("threads-and-levels", levels);
  return run_main(argc, argv, "P25");
}
