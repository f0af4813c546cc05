// P10: sensitivities of compositions with respect to the outer control points.
#include "compose.hpp"
#include "large.hpp"
using namespace vf;

template <class X> struct isRat : std::false_type {};
template <std::size_t PD, class P, class S> struct isRat<bz::RationalBezierSpline<PD, P, S>> : std::true_type {};

template <class X>
X genOuter(Ctx& c, const Deg& d) {
  int mode = genMode(c);
  if constexpr (isRat<X>::value) return genRational<X>(c, d, mode, "outer");
  else return genSpline<X>(c, d, mode, "outer");
}
template <class X>
X genInner(Ctx& c, const Deg& d) {
  constexpr size_t PD = Dim<X>::pd;
  using P = typename Dim<X>::Phys;
  using S = typename Dim<X>::Sc;
  Bz<PD, P, S> s(arr<PD>(d));
  fillInner(c, s);
  if constexpr (isRat<X>::value) {
    const auto w = genWeights<S>(c, s.control_points.size());
    c.desc << "w{";
    for (auto x : w) c.desc << x << ",";
    c.desc << "}; ";
    return X(arr<PD>(d), s.control_points, w);
  } else
    return s;
}
template <class X>
RM asRM(const X& x) {
  if constexpr (isRat<X>::value) return toRM(x);
  else {
    RM r;
    r.num = toM(x);
    r.w = M(r.num.deg, 1);
    for (auto& v : r.w.c) v = 1;
    for (auto& v : r.w.a) v = 1;
    return r;
  }
}
// unweighted outer control point i
template <class X>
auto& weightedPoint(X& x, size_t i) {
  if constexpr (isRat<X>::value) return x.GetWeightedControlPoints()[i];
  else return x.control_points[i];
}

template <class O, class I>
void sensCase(Ctx& c) {
  constexpr size_t PO = Dim<O>::pd, PI = Dim<I>::pd;
  using S = typename Dim<O>::Sc;
  using PO_ = typename Dim<O>::Phys;
  using PP = typename Dim<I>::Phys;
  Deg dO, dI;
  genComposeDegrees(c, PO, PI, dO, dI, G.thorough ? 5000 : 1200);
  const O o = genOuter<O>(c, dO);
  const I in = genInner<I>(c, dI);
  const RM ro = asRM(o), ri = asRM(in);
  c.nontrivial = isNontrivial(ro.num) && isNontrivial(ri.num);
  const std::string so = snap(o), si = snap(in);
  c.op("ComposeSensitivity");
  const auto sens = o.ComposeSensitivity(in);
  const size_t n = ro.num.n();
  c.check_f(sens.size() == n, "Sensitivity:count", [&] { return std::to_string(sens.size()) + " want " + std::to_string(n); });
  for (size_t i = 0; i < n; i++) structure(c, sens[i], "Sensitivity");
  c.op("Compose");
  const auto comp = o.Compose(in);
  // a perturbed outer spline
  const size_t pi = c.rng.below(n);
  O o2 = o;
  const S delta = (S)c.rng.uni(0.5, 2);
  {
    S w = (S)1;
    if constexpr (isRat<O>::value) w = o.GetWeights()[pi];
    for (size_t q = 0; q < PT<PO_>::n; q++) PT<PO_>::get(weightedPoint(o2, pi), q) += delta * w;
  }
  const auto comp2 = o2.Compose(in);
  std::vector<ld> cm(ro.num.nc, 0);
  for (size_t i = 0; i < n; i++)
    for (size_t q = 0; q < ro.num.nc; q++) cm[q] = std::max(cm[q], fabsl(ro.num.c[i * ro.num.nc + q] / ro.w.c[i]));
  for (int k = 0; k < (G.thorough ? 8 : 4); k++) {
    auto u = genParam<S>(c, PI);
    if (k == 0) for (auto& x : u) x = (ld)c.rng.below(2);
    c.desc << "u=" << str(u) << "; ";
    const auto p = pt<PI, S>(u);
    const std::vector<ld> x = ri.eval(u).v;
    const Val wv = ro.w.eval(x);
    c.op("Evaluate");
    std::vector<ld> sum(ro.num.nc, 0);
    for (size_t i = 0; i < n; i++) {
      const Idx id = unravel(i, dO);
      ld b = ro.w.c[i] / wv.v[0];
      for (size_t d = 0; d < PO; d++) b *= bern(dO[d], id[d], x[d]);
      const ld g = (ld)sens[i].Evaluate(p);
      c.check_f(close(g, b, 100 * R<S>() * (fabsl(b) + 1e-2L * std::max(1.L, ro.w.c[i] / wv.v[0]))), "Sensitivity:value", [&] {
        return "control point " + std::to_string(i) + " got " + std::to_string((double)g) + " want " + std::to_string((double)b); });
      for (size_t q = 0; q < ro.num.nc; q++) sum[q] += g * ro.num.c[i * ro.num.nc + q] / ro.w.c[i];
    }
    const auto v = comp.Evaluate(p);
    const auto v2 = comp2.Evaluate(p);
    const ld gp = (ld)sens[pi].Evaluate(p);
    for (size_t q = 0; q < ro.num.nc; q++) {
      const ld a = (ld)PT<PO_>::get(v, q), b = (ld)PT<PO_>::get(v2, q);
      c.check_f(close(sum[q], a, 200 * R<S>() * (cm[q] + TINY<S>())), "Sensitivity:sum-is-not-composition", [&] {
        return "component " + std::to_string(q) + " sum " + std::to_string((double)sum[q]) + " composition " + std::to_string((double)a); });
      c.check_f(close(b - a, delta * gp, 200 * R<S>() * (cm[q] + delta)), "Sensitivity:perturbation", [&] {
        return "component " + std::to_string(q) + " change " + std::to_string((double)(b - a)) + " predicted " + std::to_string((double)(delta * gp)); });
    }
  }
  const I bad = makeBad(c, in);
  c.op("ComposeSensitivity-refusal");
  c.check_f(refused([&] { auto r = o.ComposeSensitivity(bad); }), "Sensitivity:leaving-unit-cube-accepted", [&] { return str(asRM(bad).num); });
  c.check(snap(o) == so && snap(in) == si, "Sensitivity:modifies-operand");
}
#if GROUP == 0
void largeCase(Ctx& c) {
  const Deg d = largeDeg(c), one1(1, 1);
  const auto o = genSpline<Bz<1, bz::Point<3>>>(c, one1, UNI, "outer");
  describe(c, d);
  LD in(arr<LPD>(d));
  for (auto& x : in.control_points) x = c.rng.unit();
  c.op("ComposeSensitivity");
  const auto s = o.ComposeSensitivity(in);
  c.check(s.size() == 2, "large:Sensitivity:count");
  for (auto& x : s) { structure(c, x, "large:Sensitivity"); c.check(vec<LPD>(x.GetDegrees()) == d, "large:Sensitivity:degrees"); }
  for (size_t i = 0; i < in.control_points.size(); i++) {
    const ld x = (ld)in.control_points[i];
    c.check(close((ld)s[0].control_points[i], 1 - x, 1e-10L) && close((ld)s[1].control_points[i], x, 1e-10L), "large:Sensitivity:value");
  }
}
#endif
#define F(O, I) reg("sensitivity<" #O "," #I ">", sensCase<O, I>)
int main(int argc, char** argv) {
  using bz::Point;
  using B1d = Bz<1, double>; using B12 = Bz<1, Point<2>>; using B13 = Bz<1, Point<3>>; using B2d = Bz<2, double>; using B22 = Bz<2, Point<2>>;
  using B23 = Bz<2, Point<3>>; using B33 = Bz<3, Point<3>>; using B3d = Bz<3, double>; using B22l = Bz<2, Point<2, long double>>;
  using R1d = Rz<1, double>; using R12 = Rz<1, Point<2>>; using R13 = Rz<1, Point<3>>; using R2d = Rz<2, double>; using R22 = Rz<2, Point<2>>;
  using R23 = Rz<2, Point<3>>; using R33 = Rz<3, Point<3>>; using R3d = Rz<3, double>; using R22l = Rz<2, Point<2, long double>>;
#if GROUP == 0
  F(B1d, B1d); F(B22, B22); F(B23, B12); F(B1d, R1d); F(B22, R12); F(R1d, B1d); F(R22, B22); F(R1d, R1d); F(R22, R12);
#else
  F(B33, B23); F(B12, B2d); F(B3d, R13); F(B22l, R22l); F(R33, B13); F(R22l, B22l); F(R22, R22); F(R3d, R23); F(R13, R2d);
#endif
#if GROUP == 0
  regLarge("sensitivity", largeCase, sensCase<B1d, B1d>);
#endif
  return run_main(argc, argv, "P10");
}
