// P22: combinatorial helpers are exact.
#include <type_traits>
#include "bezman/src/utils/algorithms/int_power.hpp"
#include "bezman/src/utils/algorithms/recursive_combine.hpp"
#include "bezman/src/utils/algorithms/sort.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "bezman/src/utils/fastbinomialcoefficient.hpp"
#include "framework.hpp"
using namespace vf;
namespace bz = bezman;
namespace al = bezman::utils::algorithms;
using u128 = unsigned __int128;
using i128 = __int128;

// exact by prime factorisation (no Pascal recursion)
u128 binomExact(unsigned n, unsigned k) {
  u128 r = 1;
  for (unsigned p = 2; p <= n; p++) {
    bool prime = true;
    for (unsigned q = 2; q * q <= p; q++) prime = prime && p % q;
    if (!prime) continue;
    auto legendre = [&](unsigned m) { unsigned e = 0; while (m) { m /= p; e += m; } return e; };
    for (unsigned e = legendre(n) - legendre(k) - legendre(n - k); e--;) r *= p;
  }
  return r;
}
std::string s128(u128 x) {
  std::string s;
  do { s += (char)('0' + (int)(x % 10)); x /= 10; } while (x);
  std::reverse(s.begin(), s.end());
  return s;
}
template <class S, unsigned MAX>
void tableCheck(Ctx& c, const char* lab) {
  using T = bz::utils::BinomialCoefficientLookupTableCreator<S, MAX>;
  const auto t = T::calculate_table();
  constexpr auto ct = T::calculate_table();
  c.check(T::n_values == t.size() && t.size() == (size_t)MAX * (MAX + 1) / 2, std::string(lab) + ":size");
  for (unsigned n = 0; n < MAX; n++)
    for (unsigned k = 0; k <= n; k++) {
      const u128 w = binomExact(n, k);
      c.check_f((S)w == t[n * (n + 1) / 2 + k] && (S)w == ct[n * (n + 1) / 2 + k], std::string(lab) + ":value", [&] {
        return "C(" + std::to_string(n) + "," + std::to_string(k) + ") want " + s128(w); });
    }
}
void binomCase(Ctx& c) {
  c.nontrivial = true;
  c.op("choose");
  // all of them, then a random visiting order with repetitions: no hidden state
  using F = bz::utils::FastBinomialCoefficient;
  c.desc << "maximum degree " << MAX_BINOMIAL_DEGREE << " ";
  for (unsigned n = 0; n < MAX_BINOMIAL_DEGREE; n++)
    for (unsigned k = 0; k <= n; k++)
      c.check_f((u128)F::choose(n, k) == binomExact(n, k), "choose:value", [&] {
        return "C(" + std::to_string(n) + "," + std::to_string(k) + ") got " + std::to_string(F::choose(n, k)) + " want " + s128(binomExact(n, k)); });
  for (int i = 0; i < 50; i++) {
    const unsigned n = (unsigned)c.rng.below(MAX_BINOMIAL_DEGREE), k = (unsigned)c.rng.below(n + 1);
    c.desc << n << "," << k << " ";
    c.check(F::choose(n, k) == F::choose(n, n - k), "choose:symmetry");
    if (k && n) c.check(F::choose(n, k) == F::choose(n - 1, k - 1) + (k <= n - 1 ? F::choose(n - 1, k) : 0), "choose:recursion");
  }
  constexpr auto one = F::choose(0, 0);
  c.check(one == 1, "choose:constexpr");
  c.op("tables");
  tableCheck<std::size_t, 1>(c, "table1");
  tableCheck<std::size_t, 2>(c, "table2");
  tableCheck<std::size_t, 3>(c, "table3");
  tableCheck<unsigned long long, 68>(c, "table68");
  tableCheck<int, 34>(c, "table-int");
  tableCheck<unsigned char, 11>(c, "table-uchar");
  tableCheck<double, 57>(c, "table-double");
  tableCheck<long double, 68>(c, "table-long-double");
}
template <class I>
void powerCase(Ctx& c) {
  constexpr i128 hi = (i128)std::numeric_limits<I>::max(), lo = (i128)std::numeric_limits<I>::min();
  const unsigned mode = (unsigned)c.rng.below(4);
  I base;
  if (mode == 0) base = (I)(c.rng.range(0, 24) - (std::is_signed_v<I> ? 12 : 0));
  else if (mode == 1) base = (I)c.rng.u64();
  else if (mode == 2) base = c.rng.chance(0.5) ? std::numeric_limits<I>::max() : std::numeric_limits<I>::min();
  else base = (I)(c.rng.u64() >> c.rng.range(64 - std::min<size_t>(63, 8 * sizeof(I) - 1), 63));
  // every power up to the last representable one
  c.nontrivial = true;
  c.desc << "base " << (long long)base << " ";
  c.op("IntPower");
  i128 w = 1;
  for (unsigned p = 0; p <= 64; p++) {
    if (p > (unsigned)std::numeric_limits<I>::max()) break;
    const I b = base, e = (I)p;
    const I got = al::IntPower(b, e);
    c.check_f((i128)got == w, "IntPower:value", [&] { return std::to_string((long long)base) + "^" + std::to_string(p) + " got " + std::to_string((long long)got) + " want " + (w < 0 ? "-" : "") + s128((u128)(w < 0 ? -w : w)); });
    c.check(b == base && e == (I)p, "IntPower:operand-changed");
    c.count("powers");
    if (__builtin_mul_overflow(w, (i128)base, &w) || w > hi || w < lo) break;
  }
  // powers far above the exponent range of interest
  for (I b : {(I)0, (I)1}) {
    const I e = (I)(std::numeric_limits<I>::max() - (I)c.rng.below(100));
    c.check(al::IntPower(b, e) == b, "IntPower:large-power");
  }
  if (std::is_signed_v<I>) {
    const I e = (I)(std::numeric_limits<I>::max() - (I)c.rng.below(100));
    c.check(al::IntPower((I)-1, e) == (e % 2 ? (I)-1 : (I)1), "IntPower:large-power-of-minus-one");
  }
  static_assert(al::IntPower((I)3, (I)4) == (I)81, "constant expression");
}
template <class T, class MK>
void sortCase(Ctx& c, MK mk) {
  const size_t n = c.rng.chance(0.2) ? c.rng.below(3) : c.rng.range(2, c.rng.chance(0.03) ? 6000 : c.rng.chance(0.1) ? 500 : 40);
  const size_t keys = c.rng.range(1, 12);
  std::vector<T> v;
  const int shape = (int)c.rng.below(4);
  for (size_t i = 0; i < n; i++) v.push_back(mk(shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? c.rng.below(keys) : c.rng.below(1000)));
  const std::vector<T> v0 = v;
  c.nontrivial = n > 1;
  std::ostringstream o;
  for (auto&& x : v) o << x << " ";
  c.desc << o.str();
  c.op("IndexListSort");
  const std::vector<std::size_t> p = al::IndexListSort(v);
  c.check(v == v0, "sort:operand-changed");
  c.check(p.size() == n, "sort:size");
  std::vector<bool> seen(n);
  for (size_t i = 0; i < n; i++) {
    c.check(p[i] < n && !seen[p[i]], "sort:not-a-permutation");
    seen[p[i]] = true;
    if (i) {
      c.check(!(v[p[i]] < v[p[i - 1]]), "sort:order");
      if (!(v[p[i - 1]] < v[p[i]])) c.check(p[i - 1] < p[i], "sort:not-stable");
    }
  }
}
template <std::size_t D, class V, class MK>
void combineCase(Ctx& c, MK mk) {
  std::array<std::vector<V>, D> f;
  size_t n = 1;
  std::ostringstream o;
  for (auto& x : f) {
    const size_t k = c.rng.chance(0.03) ? 0 : c.rng.range(1, D > 6 ? 3 : D > 3 ? 4 : 9);
    n *= k;
    for (size_t i = 0; i < k; i++) x.push_back(mk());
    o << k << ":";
    for (auto& y : x) o << y << " ";
  }
  c.desc << o.str();
  c.nontrivial = n > 1;
  const auto f0 = f;
  c.op("RecursiveCombine");
  const std::vector<V> r = al::RecursiveCombine(f);
  c.check_f(r.size() == n, "combine:size", [&] { return "got " + std::to_string(r.size()) + " want " + std::to_string(n); });
  for (size_t i = 0; i < n; i++) {
    size_t q = i;
    ld w = 1;
    for (size_t d = 0; d < D; d++) { w *= (ld)f[d][q % f[d].size()]; q /= f[d].size(); }
    const ld tol = std::is_integral_v<V> ? 0 : 4.L * D * (ld)std::numeric_limits<V>::epsilon() * fabsl(w);
    c.check_f(fabsl((ld)r[i] - w) <= tol, "combine:product", [&] { std::ostringstream m; m.precision(17); m << "entry " << i << " got " << r[i] << " want " << w; return m.str(); });
  }
  c.check(f == f0, "combine:operand-changed");
}
// weights as sequence of factors that carry derivatives
void combineAd(Ctx& c) {
  using A = bz::utils::computational_differentiation::AlgoDiffType<double, 2>;
  std::array<std::vector<A>, 2> f;
  std::array<std::vector<std::array<double, 2>>, 2> m;
  for (size_t d = 0; d < 2; d++) {
    const size_t k = c.rng.range(1, 6);
    for (size_t i = 0; i < k; i++) {
      const double x = c.rng.uni(-2, 2), g = c.rng.uni(-2, 2);
      f[d].push_back(A(0., d) * g + x);
      m[d].push_back({x, g});
      c.desc << x << "," << g << " ";
    }
  }
  c.nontrivial = true;
  c.op("RecursiveCombine-ad");
  const auto r = al::RecursiveCombine(f);
  c.check(r.size() == m[0].size() * m[1].size(), "combine-ad:size");
  for (size_t i = 0; i < r.size(); i++) {
    const auto a = m[0][i % m[0].size()], b = m[1][i / m[0].size()];
    c.check(fabs(r[i].GetValue() - a[0] * b[0]) <= 1e-14 * 4, "combine-ad:value");
    c.check(fabs(r[i].GetDerivatives()[0] - a[1] * b[0]) <= 1e-14 * 4 && fabs(r[i].GetDerivatives()[1] - a[0] * b[1]) <= 1e-14 * 4, "combine-ad:derivative");
  }
}
int main(int argc, char** argv) {
  reg("binomials", binomCase);
  reg("IntPower<int>", powerCase<int>, 2);
  reg("IntPower<unsigned>", powerCase<unsigned>, 2);
  reg("IntPower<long>", powerCase<long>, 3);
  reg("IntPower<unsigned long>", powerCase<unsigned long>, 3);
  reg("IntPower<short>", powerCase<short>);
  reg("IntPower<unsigned short>", powerCase<unsigned short>);
  reg("IntPower<signed char>", powerCase<signed char>);
  reg("sort<int>", [](Ctx& c) { sortCase<int>(c, [](size_t k) { return (int)k - 5; }); }, 2);
  reg("sort<double>", [](Ctx& c) { sortCase<double>(c, [](size_t k) { return k == 0 ? -0. : k == 1 ? 0. : k * 0.37 - 2; }); }, 2);
  reg("sort<string>", [](Ctx& c) { sortCase<std::string>(c, [](size_t k) { return std::string(k % 7, (char)('a' + k % 20)); }); });
  reg("sort<bool>", [](Ctx& c) { sortCase<bool>(c, [](size_t k) { return k % 3 == 0; }); });
  reg("combine<1>", [](Ctx& c) { combineCase<1, double>(c, [&] { return c.rng.uni(-2, 2); }); });
  reg("combine<2>", [](Ctx& c) { combineCase<2, double>(c, [&] { return c.rng.uni(-2, 2); }); });
  reg("combine<3>", [](Ctx& c) { combineCase<3, double>(c, [&] { return c.rng.uni(-2, 2); }); });
  reg("combine<5>", [](Ctx& c) { combineCase<5, double>(c, [&] { return c.rng.uni(-2, 2); }); });
  reg("combine<6>", [](Ctx& c) { combineCase<6, double>(c, [&] { return c.rng.uni(-2, 2); }); });
  reg("combine<8>", [](Ctx& c) { combineCase<8, double>(c, [&] { return c.rng.uni(-2, 2); }); });
  reg("combine<3,float>", [](Ctx& c) { combineCase<3, float>(c, [&] { return (float)c.rng.uni(-2, 2); }); });
  reg("combine<2,long double>", [](Ctx& c) { combineCase<2, long double>(c, [&] { return (ld)c.rng.uni(-2, 2) + 1e-18L; }); });
  reg("combine<4,long>", [](Ctx& c) { combineCase<4, long>(c, [&] { return (long)c.rng.range(0, 20) - 10; }); });
  reg("combine<2,AD>", combineAd);
  return run_main(argc, argv, "P22");
}
