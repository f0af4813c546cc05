// P27: running out of memory.  Every allocation made during an operation fails
// once (operator new is replaced and throws at a chosen allocation); monitors
// watch what is reported, leaked, changed and whether the objects stay usable.
#include <new>

#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "bezman/src/utils/logger.hpp"
#include "ops.hpp"

namespace fault {
inline long live = 0;     // blocks obtained and not returned
inline long made = 0;     // allocations since the injection was armed
inline long fail = -1;    // the one that fails
inline bool armed = false;
inline bool hit = false;
}  // namespace fault
void* operator new(std::size_t n) {
  if (fault::armed) {
    if (fault::made++ == fault::fail) {
      fault::hit = true;
      throw std::bad_alloc();
    }
  }
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  fault::live++;
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return operator new(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept;
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
  if (p) fault::live--;
  std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

using namespace vf;
struct Outcome {
  bool threw = false, memory = false, hit = false;
  long made = 0;
};
// runs f with allocation number k failing (k < 0: none)
template <class F>
Outcome inject(long k, F&& f) {
  Outcome o;
  fault::made = 0;
  fault::fail = k;
  fault::hit = false;
  fault::armed = true;
  try {
    f();
    fault::armed = false;
  } catch (const std::bad_alloc&) {
    fault::armed = false;
    o.threw = o.memory = true;
  } catch (const std::exception&) {
    fault::armed = false;
    o.threw = true;
  }
  fault::armed = false;
  o.made = fault::made;
  o.hit = fault::hit;
  return o;
}
// the allocations to fail: all of a few, a sample of many
inline std::vector<long> points(Ctx& c, long n) {
  const long most = G.thorough ? 200 : 24;
  std::vector<long> k;
  if (n <= most) for (long i = 0; i < n; i++) k.push_back(i);
  else {
    for (long i = 0; i < most / 4; i++) { k.push_back(i); k.push_back(n - 1 - i); }
    while ((long)k.size() < most) k.push_back((long)c.rng.below(n));
  }
  return k;
}
struct Quiet {
  Quiet() { bezman::utils::Logger::SetOutputLevel(0); }
};

// op: gives the bytes of its results; refuses: the operation ends with an error anyway
template <class F, class I>
void pureOp(Ctx& c, const std::string& nm, F&& op, I&& operands, bool refuses = false) {
  c.op(nm);
  std::string ref;
  const std::string before = operands();
  const Outcome w = inject(-1, [&] { ref = op(); });
  c.check(w.threw == refuses, nm + ":reference-run");
  const long n = w.made;
  for (long k : points(c, n)) {
    const long live = fault::live;
    bool right = false;  // an operation that copes with the failure is fine
    const Outcome o = inject(k, [&] { const std::string r = op(); fault::armed = false; right = !refuses && r == ref; });
    const long left = fault::live - live;
    c.count("failures-injected");
    c.check_f(o.hit, nm + ":allocations-differ-between-runs", [&] { return "allocation " + std::to_string(k) + " of " + std::to_string(n); });
    c.check_f(right || (o.threw && (refuses || o.memory)), nm + ":failure-not-reported", [&] { return "allocation " + std::to_string(k) + " of " + std::to_string(n); });
    c.check_f(left == 0, nm + ":leak", [&] { return std::to_string(left) + " blocks after failure of allocation " + std::to_string(k) + " of " + std::to_string(n); });
    c.check(operands() == before, nm + ":operands-changed");
  }
  std::string again;
  const Outcome w2 = inject(-1, [&] { again = op(); });
  c.check(w2.threw == refuses && again == ref, nm + ":result-after-failures-differs");
  c.check(operands() == before, nm + ":operands-changed");
}
// op changes its target; a failure may leave it with another value, but it must
// be possible to give it a new one, and to destroy it
template <class T, class F, class I>
void changingOp(Ctx& c, const std::string& nm, const T& start, F&& op, I&& operands) {
  c.op(nm);
  const std::string before = operands(), s0 = snap(start);
  T ref = start;
  const Outcome w = inject(-1, [&] { op(ref); });
  c.check(!w.threw, nm + ":reference-run");
  const std::string want = snap(ref);
  for (long k : points(c, w.made)) {
    c.count("failures-injected");
    const long live = fault::live;
    {
      T t = start;
      const Outcome o = inject(k, [&] { op(t); });
      c.check_f(o.hit, nm + ":allocations-differ-between-runs", [&] { return "allocation " + std::to_string(k) + " of " + std::to_string(w.made); });
      c.check_f(o.memory || (!o.threw && snap(t) == want), nm + ":failure-not-reported", [&] { return "allocation " + std::to_string(k) + " of " + std::to_string(w.made); });
      if (c.rng.chance(0.7)) {
        if (c.rng.chance(0.5)) t = start;
        else { T f = start; t = std::move(f); }
        c.check(snap(t) == s0, nm + ":not-assignable-after-failure");
        op(t);
        c.check(snap(t) == want, nm + ":result-after-failure-differs");
      }
    }
    const long left = fault::live - live;
    c.check_f(left == 0, nm + ":leak", [&] { return std::to_string(left) + " blocks after failure of allocation " + std::to_string(k) + " of " + std::to_string(w.made); });
    c.check(operands() == before && snap(start) == s0, nm + ":operands-changed");
  }
}

template <std::size_t PD, class S>
void constFaults(Ctx& c) {
  static Quiet q;
  const Pool<PD, S> pool = genPool<PD, S>(c, 3, 2, 9);
  const size_t ops = G.thorough ? 6 : 3;
  c.nontrivial = true;
  for (size_t j = 0; j < ops; j++) {
    const size_t op = c.rng.below(NCONST - 1);
    const uint64_t seed = c.rng.u64();
    c.desc << constName(op) << " ";
    pureOp(c, constName(op), [&] { Rng g(seed); return constOp(pool, g, op); }, [&] { return pool.all(); });
  }
}
template <std::size_t PD, class S>
void refusedFaults(Ctx& c) {
  static Quiet q;
  const Pool<PD, S> pool = genPool<PD, S>(c, 2, 2, 9);
  auto big = pool.v[1];
  for (auto& p : big.control_points) p = p * (S)50;
  const size_t dir = c.rng.below(PD), op = c.rng.below(6);
  bezman::utils::Logger::SetOutputLevel(c.rng.chance(0.5) ? 39 : 0);
  c.desc << "refused " << op;
  c.nontrivial = true;
  auto run = [&]() -> std::string {
    switch (op) {
      case 0: return snaps(pool.v[1].SplitAtPosition((S)1.5, dir));
      case 1: return snaps(pool.rv[1].SplitAtPosition(std::vector<S>{(S)0.7, (S)0.3}, dir));
      case 2: return snap(pool.a[0].Compose(big));
      case 3: return snap(pool.rv[0].Compose(big));
      case 4: return snaps(pool.a[1].ComposeSensitivity(big));
      default: return snaps(pool.ra[1].SplitAtPosition((S)-0.5, dir));
    }
  };
  bool fits = big.FitsIntoUnitCube();
  if (op >= 2 && op <= 4 && fits) return;
  pureOp(c, "refused-" + std::to_string(op), run, [&] { return pool.all() + snap(big); }, true);
}
template <std::size_t PD, class S>
void changingFaults(Ctx& c) {
  static Quiet q;
  const Pool<PD, S> pool = genPool<PD, S>(c, 3, 3, 12);
  auto all = [&] { return pool.all(); };
  c.nontrivial = true;
  const size_t dir = c.rng.below(PD), op = c.rng.below(16);
  c.desc << "op " << op << " direction " << dir;
  std::array<std::size_t, PD> d{};
  for (auto& x : d) x = c.rng.below(5);
  const auto &a = pool.a[0], &b = pool.a[1];
  const auto &v = pool.v[1], &w = pool.v[2];
  const auto &r = pool.rv[1], &t = pool.rv[2];
  switch (op) {
    case 0: changingOp(c, "elevate", v, [&](auto& x) { x.OrderElevateAlongParametricDimension(dir); }, all); break;
    case 1: changingOp(c, "update-degrees", v, [&](auto& x) { x.UpdateDegrees(d); for (auto& p : x.control_points) p = w.control_points[0]; }, all); break;
    case 2: changingOp(c, "add-assign", v, [&](auto& x) { x += w; }, all); break;
    case 3: changingOp(c, "sub-assign", a, [&](auto& x) { x -= b; }, all); break;
    case 4: changingOp(c, "copy-assign", v, [&](auto& x) { x = w; }, all); break;
    case 5: changingOp(c, "assign-result", a, [&](auto& x) { x = a * b; }, all); break;
    case 6: changingOp(c, "r-elevate", r, [&](auto& x) { x.OrderElevateAlongParametricDimension(dir); }, all); break;
    case 7: changingOp(c, "r-add-assign", r, [&](auto& x) { x += t; }, all); break;
    case 8: changingOp(c, "r-sub-assign", r, [&](auto& x) { x -= t; }, all); break;
    case 9: changingOp(c, "r-copy-assign", r, [&](auto& x) { x = t; }, all); break;
    case 10: changingOp(c, "r-assign-result", r, [&](auto& x) { x = r + t; }, all); break;
    case 11: changingOp(c, "scale-assign", v, [&](auto& x) { x *= (S)1.5; x = x * (S)2; }, all); break;
    case 12: changingOp(c, "fit-to-unit-cube", v, [&](auto& x) { x.FitIntoUnitCube(); x += w; }, all); break;
    case 13: changingOp(c, "transpose-and-scale", v, [&](auto& x) { x.TransposeAndScale(w.control_points[0], v.control_points[0]); x = x + w; }, all); break;
    case 14: changingOp(c, "split-and-keep", r, [&](auto& x) { x = x.SplitAtPosition((S)0.25, dir)[1]; }, all); break;
    default: changingOp(c, "constructors", v, [&](auto& x) {
      std::decay_t<decltype(x)> e(d);
      for (auto& p : e.control_points) p = w.control_points[0];
      const std::decay_t<decltype(x)> f(e.GetDegrees(), e.control_points), g(f);
      const typename Pool<PD, S>::RV h(g), i(h.GetNumeratorSpline(), h.GetWeightFunctionSpline()), j(e.GetDegrees(), e.control_points, h.GetWeights());
      std::decay_t<decltype(x)> y(j.GetNumeratorSpline());
      x = std::move(y);
    }, all);
  }
}
void others(Ctx& c) {
  static Quiet q;
  c.nontrivial = true;
  const size_t n = c.rng.range(1, 40);
  std::vector<double> data(n);
  for (auto& x : data) x = c.rng.uni(-10, 10);
  c.desc << "list";
  for (double x : data) c.desc << " " << x;
  auto src = [&] { return bytes(data); };
  using bezman::utils::Base64;
  pureOp(c, "Base64::Encode", [&] { return Base64::Encode(data); }, src);
  const std::string text = Base64::Encode(data);
  pureOp(c, "Base64::DecodeVector", [&] { return bytes(Base64::Decode<double>(text)); }, [&] { return text; });
  auto lists = [&](const char* name, const auto& list) {
    using T = typename std::decay_t<decltype(list)>::value_type;
    auto kept = [&] { return bytes(list); };
    pureOp(c, std::string("Base64::Encode:") + name, [&] { return Base64::Encode(list); }, kept);
    const std::string coded = Base64::Encode(list);
    pureOp(c, std::string("Base64::DecodeVector:") + name, [&] { return bytes(Base64::Decode<T>(coded)); }, [&] { return coded; });
  };
  switch (c.rng.below(5)) {
    case 0: { std::vector<bezman::Point<2, double>> l(n); for (auto& p : l) for (auto& x : p) x = c.rng.uni(-10, 10); lists("points2", l); break; }
    case 1: { std::vector<bezman::Point<3, float>> l(n); for (auto& p : l) for (auto& x : p) x = (float)c.rng.uni(-10, 10); lists("points3", l); break; }
    case 2: { std::vector<bezman::Point<1, double>> l(n); for (auto& p : l) for (auto& x : p) x = c.rng.uni(-10, 10); lists("points1", l); break; }
    case 3: { std::vector<int> l(n); for (auto& x : l) x = (int)c.rng.range(-128, 127); lists("ints", l); break; }
    default: { std::vector<char> l(n); for (auto& x : l) x = (char)c.rng.range(-128, 127); lists("chars", l); }
  }
  pureOp(c, "IndexListSort", [&] { return bytes(bezman::utils::algorithms::IndexListSort(data)); }, src);
  using D = bezman::utils::computational_differentiation::AlgoDiffType<double, 0>;
  const size_t k = c.rng.range(1, 5);
  const D x(c.rng.uni(0.5, 2), k, c.rng.below(k)), y(c.rng.uni(0.5, 2), k, c.rng.below(k));
  auto show = [](const D& d) { return bytesOf(d.GetValue()) + bytes(d.GetDerivatives()); };
  auto both = [&] { return show(x) + show(y); };
  pureOp(c, "AlgoDiffType:expressions", [&] {
    D z = x * y + x / y - y;
    z *= x; z += y; z -= x; z /= y;
    return show(z) + show(exp(x)) + show(sin(x) * cos(y)) + show(sqrt(y)) + show(pow(x, y)) + show(-z) + show(log(x)) + show(2. * x) + show(1. / y) + show(x + 1.);
  }, both);
}
int main(int argc, char** argv) {
#if GROUP == 0
  reg("const<2,double>", constFaults<2, double>);
  reg("const<1,double>", constFaults<1, double>);
  reg("refused<2,double>", refusedFaults<2, double>);
  reg("const<2,double>", constFaults<2, double>);
#else
  reg("changing<2,double>", changingFaults<2, double>);
  reg("changing<3,float>", changingFaults<3, float>);
  reg("changing<1,double>", changingFaults<1, double>);
  reg("others", others);
#endif
  return run_main(argc, argv, "P27");
}
