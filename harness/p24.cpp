// P24: threads use the non-modifying operations of shared splines and modify
// their own copies.  The concurrent run comes first, so that anything built on
// first use is built concurrently; its bytes are compared with a sequential run
// afterwards.  Under ThreadSanitizer (two compilers, with and without logging)
// and natively.
#include <atomic>
#include <thread>

#include "ops.hpp"
#include "ad.hpp"
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/fastbinomialcoefficient.hpp"
#include "bezman/src/utils/logger.hpp"
using namespace vf;

struct Item { size_t op; uint64_t seed; };
constexpr size_t NEXTRA = 21;

template <class X>
std::string ownPoly(const X& shared, Rng& g, size_t k) {
  using S = typename Dim<X>::Sc;
  X s = shared;
  const size_t dir = g.below(Dim<X>::pd);
  switch (k) {
    case 0: s.OrderElevateAlongParametricDimension(dir); break;
    case 1: s *= (S)g.uni(-2, 2); s += shared; break;
    case 2: s -= shared; break;
    case 3: { for (auto& p : s.control_points) p = p + p; s.control_points.back() = shared.control_points[0]; break; }
    case 4: { auto l = s.SplitAtPosition((S)g.uni(.1, .9), dir); s = l[0]; l[1] += s; s = l[1]; break; }
    case 5: { s.FitIntoUnitCube(); break; }
    case 6: { auto p = s.control_points[0]; s += p; s -= p; s.TransposeAndScale(p, p); break; }
    default: { std::array<std::size_t, Dim<X>::pd> d{}; d[dir] = 1; s = s.DerivativeWRTParametricDimension(d); s.OrderElevateAlongParametricDimension(dir); break; }
  }
  return snap(s);
}
template <class X>
std::string ownRat(const X& shared, Rng& g, size_t k) {
  using S = typename Dim<X>::Sc;
  X s = shared;
  const size_t dir = g.below(Dim<X>::pd);
  switch (k) {
    case 0: s.OrderElevateAlongParametricDimension(dir); break;
    case 1: s *= (S)g.uni(-2, 2); s += shared; break;
    case 2: { s -= shared; break; }
    default: { auto l = s.SplitAtPosition((S)g.uni(.1, .9), dir); s = l[1]; s += s; }
  }
  return snap(s);
}
template <class F>
std::string refusedText(F&& f) {
  try { f(); } catch (const std::exception& e) { return std::string("refused:") + e.what() + ";"; }
  return "accepted;";
}
template <std::size_t PD, class S>
std::string extraOp(const Pool<PD, S>& p, Rng& g, size_t k) {
  const auto& a = p.a[g.below(p.a.size())];
  const auto& v = p.v[g.below(p.v.size())];
  const auto& ra = p.ra[g.below(p.ra.size())];
  const auto& rv = p.rv[g.below(p.rv.size())];
  using B = bezman::utils::Base64;
  switch (k) {
    case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: return ownPoly(a, g, k) + ownPoly(v, g, k);
    case 8: case 9: case 10: case 11: return ownRat(ra, g, k - 8) + ownRat(rv, g, k - 8);
    case 12: { const std::string t = B::Encode(a.control_points) + B::Encode(v.control_points); return t + bytes(B::template Decode<S>(B::Encode(a.control_points))); }
    case 13: return bytes(B::template Decode<bz::Point<PD, S>>(B::Encode(v.control_points)));
    case 14: {
      using T = AD<double, 3>;
      const T x(g.uni(.2, .8), 0), y(g.uni(.2, .8), 1), z(g.uni(.2, .8), 2);
      using std::exp; using std::sqrt;
      const T r = sin(x * y) / (exp(z) + 2.) + pow(y, 2.) * log(x) - sqrt(z) * acos(x);
      std::string o = bytesOf(r.GetValue());
      for (auto d : r.GetDerivatives()) o += bytesOf(d);
      return o;
    }
    case 15: { auto q = v.control_points[0]; auto r = q * (S)2 - q / (S)3; std::ostringstream t; t << r; return t.str() + bytesOf(q * r) + bytesOf(r.EuclidianNorm()); }
    case 16: { std::string r; for (size_t n = 0; n < 20; n++) r += std::to_string((unsigned long long)bezman::utils::FastBinomialCoefficient::choose(n, n / 2)) + ","; return r + std::to_string(bezman::utils::algorithms::IntPower(3, 11)); }
    case 17: {  // refused operations report their own text to the calling thread
      const S b = (S)g.uni(1.5, 3);
      return refusedText([&] { v.SplitAtPosition(b, 0); }) + refusedText([&] { rv.SplitAtPosition(std::vector<S>{(S)0.6, (S)0.1}, 0); });
    }
    case 18: { auto big = v; for (auto& q : big.control_points) q = q * (S)50; return refusedText([&] { a.Compose(big); }) + refusedText([&] { rv.Compose(big); }); }
    case 20: {  // diagnostics are reconfigured while others send some
      using L = bezman::utils::Logger;
      if (g.chance(.5)) L::SetOutputLevel((unsigned)g.below(512));
      else L::SetOutputLevel({L::OutputLevel::errors, L::OutputLevel::log_file, g.chance(.5) ? L::OutputLevel::warnings : L::OutputLevel::time_stamp});
      L::Warning("w"); L::UserInfo("u"); L::Logging("l"); L::ExtendedInformation("x"); L::Error("e");
      try { L::TerminatingError<std::out_of_range>("own text"); } catch (const std::out_of_range& e) { return e.what(); }
      return "exception: none";
    }
    default: {
      std::vector<S> l;
      for (auto& q : a.control_points) l.push_back(q);
      std::string r;
      for (auto i : bezman::utils::algorithms::IndexListSort(l)) r += std::to_string(i) + ",";
      return r + std::to_string(a.control_points.size());
    }
  }
}

template <std::size_t PD, class S>
void threads(Ctx& c) {
#ifdef ENABLE_LOGGING
  {
    static bool once = false;
    if (!once) { once = true; bezman::utils::Logger::SetOutputLevel(511); }
  }
#endif
  const size_t nt = c.rng.range(3, 6), len = c.rng.range(4, G.thorough ? 14 : 8);
  const bool lockstep = c.rng.chance(0.5), same = c.rng.chance(0.5);
  const Pool<PD, S> pool = genPool<PD, S>(c, 3, 3, 16);
  const std::string before = pool.all();
  std::vector<std::vector<Item>> prog(nt);
  for (size_t i = 0; i < len; i++) {
    const size_t op = c.rng.below(NCONST + NEXTRA);
    for (auto& p : prog) p.push_back({same ? op : c.rng.below(NCONST + NEXTRA), c.rng.u64()});
  }
  c.desc << nt << " threads, " << len << " operations each" << (lockstep ? ", in step" : "") << (same ? ", the same ones" : "") << ":";
  for (auto& p : prog) for (auto& i : p) c.desc << " " << i.op;
  c.nontrivial = true;
  auto run = [&](const Item& i) {
    Rng g(i.seed);
    try {
      return i.op < NCONST ? constOp(pool, g, i.op) : extraOp(pool, g, i.op - NCONST);
    } catch (const std::exception& e) {
      return std::string("exception: ") + e.what();
    }
  };
  c.op("concurrent-run");
  std::vector<std::vector<std::string>> got(nt, std::vector<std::string>(len));
  std::vector<std::vector<uint32_t>> stamp(nt, std::vector<uint32_t>(len));
  std::atomic<uint32_t> clock{0};
  std::atomic<size_t> arrived{0};
  auto body = [&](size_t t) {
    for (size_t k = 0; k < len; k++) {
      if (k == 0 || lockstep) {
        arrived.fetch_add(1);
        while (arrived.load() < nt * (k + 1)) std::this_thread::yield();
      }
      stamp[t][k] = clock.fetch_add(1, std::memory_order_relaxed);
      got[t][k] = run(prog[t][k]);
    }
  };
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++) th.emplace_back(body, t);
  for (auto& t : th) t.join();
  // order in which the operations were started
  std::vector<std::pair<uint32_t, uint32_t>> ord;
  for (size_t t = 0; t < nt; t++) for (size_t k = 0; k < len; k++) ord.push_back({stamp[t][k], (uint32_t)t});
  std::sort(ord.begin(), ord.end());
  size_t sw = 0;
  for (size_t i = 1; i < ord.size(); i++) sw += ord[i].second != ord[i - 1].second;
  c.count("thread-operations", ord.size());
  c.count("thread-switches", sw);
  c.count(lockstep ? "cases-in-step" : "cases-free-running");
  c.op("compare");
  for (size_t t = 0; t < nt; t++)
    for (size_t k = 0; k < len; k++) {
      const Item& i = prog[t][k];
      const std::string nm = i.op < NCONST ? constName(i.op) : "extra-" + std::to_string(i.op - NCONST);
      G.counters["op:" + nm]++;
      const std::string seq = run(i);
      c.check_f(got[t][k] == seq, nm + ":differs-from-sequential", [&] {
        return "thread " + std::to_string(t) + " step " + std::to_string(k) + ": " + std::to_string(got[t][k].size()) + " bytes against " + std::to_string(seq.size());
      });
      c.check(seq.compare(0, 11, "exception: ") != 0, nm + ":exception", seq);
    }
  c.check(pool.all() == before, "shared-operands-changed");
}

int main(int argc, char** argv) {
#if GROUP == 0
  reg("1d-double", threads<1, double>);
  reg("2d-double", threads<2, double>);
#else
  reg("2d-float", threads<2, float>);
  reg("3d-double", threads<3, double>);
#endif
  return run_main(argc, argv, "P24");
}
