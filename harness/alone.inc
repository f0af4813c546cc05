// Small workloads over a single header.  ALONE == k: only header k is included
// (by the unit before this file); ALONE == 0: all of them.
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace {
struct Mini {  // independent of the other headers of the harness
  std::uint64_t s;
  std::uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
  double real() { return (double)next() / 2147483648.0; }
};
template <class T>
void put(std::string& o, const T& x) {
  o += std::to_string((double)x);
  o += ';';
}
#define WORK(k) [[maybe_unused]] std::string work##k([[maybe_unused]] Mini g)
#if ALONE == 1 || ALONE == 0
WORK(1) {
  bezman::Point<3> a{g.real(), g.real(), g.real()}, b{g.real(), g.real(), g.real()};
  auto c = a * 2. + b / 3. - (-a);
  c += b;
  std::string o;
  for (auto x : c) put(o, x);
  put(o, a * b);
  put(o, c.EuclidianNorm());
  std::ostringstream s;
  s << a;
  return o + s.str();
}
#endif
#if ALONE == 2 || ALONE == 0
WORK(2) {
  bezman::BezierSpline<2, bezman::Point<2>, double> s({2, 1}), t({1, 2});
  for (auto& p : s.control_points) for (auto& x : p) x = g.real();
  for (auto& p : t.control_points) for (auto& x : p) x = g.real();
  s.OrderElevateAlongParametricDimension(1);
  std::string o;
  for (auto& r : {s + t, s.DerivativeWRTParametricDimension({1, 0}), s.Compose(t), s.SplitAtPosition(.5, 0)[1]}) for (auto& p : r.control_points) for (auto x : p) put(o, x);
  for (auto& x : (s * t).control_points) put(o, x);
  for (auto x : s.BasisFunctions(.25, .5)) put(o, x);
  try { s.SplitAtPosition(2., 0); } catch (const std::exception&) { o += "refused"; }
  return o;
}
#endif
#if ALONE == 3 || ALONE == 0
WORK(3) {
  bezman::BezierSpline<1, bezman::Point<2>, double> p({2});
  for (auto& q : p.control_points) for (auto& x : q) x = g.real();
  const bezman::RationalBezierSpline<1, bezman::Point<2>, double> r({2}, p.control_points, {1., 2., .5}), s(p);
  std::string o;
  for (auto& t : {r + s, r.DerivativeWRTParametricDimension({1}), r.SplitAtPosition(.5, 0)[0]}) for (auto& q : t.GetWeightedControlPoints()) for (auto x : q) put(o, x);
  for (auto x : r.Evaluate(.3)) put(o, x);
  return o;
}
#endif
#if ALONE == 4 || ALONE == 0
WORK(4) {
  std::vector<double> v{g.real(), g.real()};
  const std::string t = bezman::utils::Base64::Encode(v);
  std::string o = t;
  for (double x : bezman::utils::Base64::Decode<double>(t)) put(o, x);
  return o;
}
#endif
#if ALONE == 5 || ALONE == 0
WORK(5) {
  std::string o;
  using T = bezman::utils::BinomialCoefficientLookupTableCreator<std::size_t, 12>;
  constexpr auto t = T::calculate_table();
  for (auto x : t) put(o, x);
  return o;
}
#endif
#if ALONE == 6 || ALONE == 0
WORK(6) {
  std::string o;
  for (unsigned i = 0; i < 30; i++) put(o, bezman::utils::FastBinomialCoefficient::choose(i, (unsigned)(g.next() % (i + 1))));
  return o;
}
#endif
#if ALONE == 7 || ALONE == 0
WORK(7) {
  std::string o;
  try { bezman::utils::Logger::TerminatingError<std::out_of_range>("unit of translation"); } catch (const std::out_of_range& e) { o += e.what(); }
  return o;
}
#endif
#if ALONE == 8 || ALONE == 0
WORK(8) {
  std::string o;
  const double u = g.real();
  for (auto x : bezman::utils::algorithms::BernsteinPolynomial<double>::Evaluate(7, u)) put(o, x);
  for (auto x : bezman::utils::algorithms::BernsteinPolynomial<double>::EvaluateDerivative(7, u, 2)) put(o, x);
  return o;
}
#endif
#if ALONE == 9 || ALONE == 0
WORK(9) {
  std::string o;
  put(o, bezman::utils::algorithms::IntPower((int)(g.next() % 7), 5));
  return o;
}
#endif
#if ALONE == 10 || ALONE == 0
WORK(10) {
  std::string o;
  std::array<std::vector<double>, 2> f{std::vector<double>{g.real(), g.real()}, std::vector<double>{g.real(), 2., 3.}};
  for (auto x : bezman::utils::algorithms::RecursiveCombine(f)) put(o, x);
  return o;
}
#endif
#if ALONE == 11 || ALONE == 0
WORK(11) {
  std::string o;
  std::vector<double> v;
  for (int i = 0; i < 9; i++) v.push_back((double)(g.next() % 5));
  for (auto x : bezman::utils::algorithms::IndexListSort(v)) put(o, x);
  return o;
}
#endif
#if ALONE == 12 || ALONE == 0
WORK(12) {
  std::string o;
  using A = bezman::utils::computational_differentiation::AlgoDiffType<double, 2>;
  const A x(g.real() + .5, 0), y(g.real() + .5, 1);
  const A z = exp(x) * y - pow(x, y) / sqrt(y) + sin(x) + 2. * x;
  put(o, z.GetValue());
  for (auto d : z.GetDerivatives()) put(o, d);
  return o;
}
#endif
#if ALONE == 13 || ALONE == 0
WORK(13) {
  std::string o;
  put(o, bezman::utils::type_traits::isBezierSpline_v<int> ? 1 : 0);
  return o;
}
#endif
#if ALONE == 14 || ALONE == 0
WORK(14) {
  std::string o;
  put(o, bezman::utils::type_traits::isRationalBezierSpline_v<double> ? 1 : 0);
  return o;
}
#endif
#if ALONE == 15 || ALONE == 0
WORK(15) {
  std::string o;
  put(o, bezman::utils::type_traits::isPoint_v<bezman::Point<2>> ? 1 : 0);
  put(o, bezman::utils::type_traits::isPoint_v<double> ? 1 : 0);
  return o;
}
#endif
}  // namespace
