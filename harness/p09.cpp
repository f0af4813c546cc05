// P09: compositions with rational splines on either side.
#include "compose.hpp"
#include "large.hpp"
using namespace vf;

template <class X> struct isRat : std::false_type {};
template <std::size_t PD, class P, class S> struct isRat<bz::RationalBezierSpline<PD, P, S>> : std::true_type {};

template <class X>
X genOuter(Ctx& c, const Deg& d) {
  if constexpr (isRat<X>::value) return genRational<X>(c, d, genMode(c), "outer");
  else return genSpline<X>(c, d, genMode(c), "outer");
}
template <class X>
X genInner(Ctx& c, const Deg& d) {
  constexpr size_t PD = Dim<X>::pd;
  using P = typename Dim<X>::Phys;
  using S = typename Dim<X>::Sc;
  Bz<PD, P, S> s(arr<PD>(d));
  fillInner(c, s);
  if constexpr (isRat<X>::value) {
    auto w = genWeights<S>(c, s.control_points.size());
    // powers of float weights stay within the range of the type
    if (std::is_same_v<S, float>) { const S w0 = w[0]; for (auto& x : w) x /= w0; }
    c.desc << "w{";
    for (auto x : w) c.desc << x << ",";
    c.desc << "}; ";
    return X(arr<PD>(d), s.control_points, w);
  } else
    return s;
}
template <class X>
RM asRM(const X& x) {
  if constexpr (isRat<X>::value) return toRM(x);
  else {
    RM r;
    r.num = toM(x);
    r.w = M(r.num.deg, 1);
    for (auto& v : r.w.c) v = 1;
    for (auto& v : r.w.a) v = 1;
    return r;
  }
}
template <class X>
bool nontriv(const X& x) { return isNontrivial(asRM(x).num); }

template <class O, class I>
void composeCase(Ctx& c) {
  constexpr size_t PO = Dim<O>::pd, PI = Dim<I>::pd;
  using S = decltype(typename Dim<O>::Sc{} * typename Dim<I>::Sc{});
  using SI = typename Dim<I>::Sc;
  constexpr ld K = mixed<S, typename Dim<O>::Sc, SI>();
  using PP = typename Dim<I>::Phys;
  Deg dO, dI;
  genComposeDegrees(c, PO, PI, dO, dI, G.thorough ? 6000 : 1500);
  const O o = genOuter<O>(c, dO);
  const I in = genInner<I>(c, dI);
  c.nontrivial = nontriv(o) && nontriv(in);
  const std::string so = snap(o), si = snap(in);
  const RM ro = asRM(o);
  auto verify = [&](const auto& r, const I& inner, const std::string& lab) {
    structure(c, r, lab);
    const RM ri = asRM(inner);
    // scale of the unweighted control points of the outer function
    std::vector<ld> fl(ro.num.nc, 0);
    for (size_t i = 0; i < ro.num.n(); i++)
      for (size_t q = 0; q < ro.num.nc; q++) fl[q] = std::max(fl[q], fabsl(ro.num.c[i * ro.num.nc + q] / ro.w.c[i]));
    for (auto& f : fl) f *= 10;
    for (int k = 0; k < (G.thorough ? 10 : 5); k++) {
      auto u = genParam<S>(c, PI);
      if (k == 0) for (auto& x : u) x = (ld)c.rng.below(2);
      const Val x = ri.eval(u);
      const Val w = ro.eval(x.v);
      c.desc << "u=" << str(u) << "; ";
      expectVal<S>(c, r.Evaluate(pt<PI, S>(u)), w, lab + ":pointwise", 100 * K, fl);
      expectVal<S>(c, r.ForwardEvaluate(pt<PI, S>(u)), w, lab + ":pointwise-forward", 100 * K, fl);
    }
  };
  std::vector<I> lst;
  c.op("Compose");
  verify(o.Compose(in), in, "Compose");
  if constexpr (!isRat<O>::value) {
    c.op("Compose-list");
    const bool longer = c.rng.chance(.1);
    const size_t len = longer ? c.rng.range(4, 8) : c.rng.below(3);
    for (size_t k = 0; k < len; k++) {
      Deg d = dI;
      if (longer) for (auto& x : d) x = std::min<size_t>(x, c.rng.below(3));
      lst.push_back(k ? genInner<I>(c, d) : in);
    }
    if (longer) c.count("list:long");
    if (len) std::swap(lst[0], lst[c.rng.below(len)]);
    const auto res = o.Compose(lst);
    c.check(res.size() == len, "Compose-list:count");
    for (size_t k = 0; k < len; k++) verify(res[k], lst[k], "Compose-list");
  }
  // constant weights: same function as the polynomial composition
  if constexpr (isRat<I>::value && !isRat<O>::value) {
    if (c.rng.chance(0.3)) {
      Bz<PI, PP, SI> pin(arr<PI>(dI));
      fillInner(c, pin);
      const std::vector<SI> w(pin.control_points.size(), (SI)c.rng.uni(0.4, 2.5));
      const I rin(arr<PI>(dI), pin.control_points, w);
      c.op("Compose-constant-weights");
      const auto a = o.Compose(pin);
      const auto b = o.Compose(rin);
      const auto u = genParam<S>(c, PI);
      Val want = toM(a).eval(u);
      auto fl = maxas(ro.num);
      for (auto& f : fl) f *= 10;
      expectVal<S>(c, b.Evaluate(pt<PI, S>(u)), want, "Compose:constant-weights", 100 * K, fl);
    }
  }
  // refusal
  const I bad = makeBad(c, in);
  c.op("Compose-refusal");
  c.check_f(refused([&] { auto r = o.Compose(bad); }), "Compose:leaving-unit-cube-accepted", [&] { return str(asRM(bad).num); });
  if constexpr (!isRat<O>::value)
  {
    lst.insert(lst.begin() + c.rng.below(lst.size() + 1), bad);
    c.check(refused([&] { auto r = o.Compose(lst); }), "Compose-list:leaving-unit-cube-accepted");
    c.check(refused([&] { auto r = o.Compose(std::vector<I>{in, bad}); }), "Compose-list:leaving-unit-cube-accepted");
  }
  c.check(snap(o) == so && snap(in) == si, "Compose:modifies-operand");
}
#if GROUP == 0
void largeCase(Ctx& c) {
  using O = Bz<1, double>;
  const Deg d = largeDeg(c), one1(1, 1);
  const O o = genSpline<O>(c, one1, UNI, "outer");
  describe(c, d);
  LD in(arr<LPD>(d));
  for (auto& x : in.control_points) x = c.rng.unit();
  std::vector<double> w(in.control_points.size());
  for (auto& x : w) x = c.rng.uni(0.5, 2);
  const Rz<LPD, double> rin(arr<LPD>(d), in.control_points, w);
  const RM ri = toRM(rin);
  const M mo = toM(o);
  c.op("Compose");
  const auto r = o.Compose(rin);
  structure(c, r, "large:Compose");
  c.check(vec<LPD>(r.GetDegrees()) == d, "large:Compose:degrees");
  const ld fl = fabsl(mo.c[0]) + fabsl(mo.c[1]);
  for (int k = 0; k < 3; k++) {
    const auto u = k == 0 ? std::vector<ld>(LPD, 1) : k == 1 ? cornerish(c) : largeParam(c);
    const ld x = ri.eval(u).v[0];
    const ld want = mo.c[0] * (1 - x) + mo.c[1] * x;
    c.check(close((ld)r.Evaluate(pt<LPD, double>(u)), want, 1e-9L * fl + 1e-12L), "large:Compose:pointwise");
  }
}
#endif
#define F(O, I) reg("compose<" #O "," #I ">", composeCase<O, I>)
int main(int argc, char** argv) {
  using bz::Point;
  using B1d = Bz<1, double>; using B12 = Bz<1, Point<2>>; using B13 = Bz<1, Point<3>>; using B2d = Bz<2, double>; using B22 = Bz<2, Point<2>>;
  using B23 = Bz<2, Point<3>>; using B33 = Bz<3, Point<3>>; using B3d = Bz<3, double>; using B22l = Bz<2, Point<2, long double>>;
  using R1d = Rz<1, double>; using R12 = Rz<1, Point<2>>; using R13 = Rz<1, Point<3>>; using R2d = Rz<2, double>; using R22 = Rz<2, Point<2>>;
  using R23 = Rz<2, Point<3>>; using R33 = Rz<3, Point<3>>; using R3d = Rz<3, double>; using R22l = Rz<2, Point<2, long double>>;
  using B22f = Bz<2, Point<2, float>>; using B2f = Bz<2, float>; using R2f = Rz<2, float>;
#if GROUP == 0
  F(B1d, R1d); F(B13, R1d); F(B22, R12); F(R1d, B1d); F(R22, B22); F(R13, B2d); F(R1d, R1d); F(R22, R12); F(R2d, R22);
#else
  F(B22, R22); F(B3d, R23); F(B22l, R22l); F(R33, B13); F(R2d, B12); F(R22l, B22l); F(R22, R22); F(R3d, R13); F(R33, R33); F(R12, R3d);
  F(R22, B22f); F(R12, R2f); F(R1d, B2f);
#endif
#if GROUP == 0
  regLarge("compose", largeCase, composeCase<B13, R1d>);
#endif
  return run_main(argc, argv, "P09");
}
