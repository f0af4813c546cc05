// P08: composition of polynomial splines.
#include "compose.hpp"
#include "large.hpp"
using namespace vf;

template <class O, class I>
void composeCase(Ctx& c) {
  constexpr size_t PO = Dim<O>::pd, PI = Dim<I>::pd;
  using S = decltype(typename Dim<O>::Sc{} * typename Dim<I>::Sc{});
  using SI = typename Dim<I>::Sc;
  constexpr ld K = mixed<S, typename Dim<O>::Sc, SI>();
  using PP = typename Dim<I>::Phys;
  Deg dO, dI;
  genComposeDegrees(c, PO, PI, dO, dI, G.thorough ? 6000 : 1500);
  const O o = genSpline<O>(c, dO, genMode(c), "outer");
  I in(arr<PI>(dI));
  fillInner(c, in);
  const M mo = toM(o), mi = toM(in);
  c.nontrivial = isNontrivial(mo) && isNontrivial(mi);
  const std::string so = snap(o), si = snap(in);
  size_t sum = 0;
  for (size_t x : dO) sum += x;
  auto verify = [&](const auto& r, const M& m, const std::string& lab) {
    structure(c, r, lab);
    Deg want = m.deg;
    for (auto& x : want) x *= sum;
    c.check_f(vec<PI>(r.GetDegrees()) == want, lab + ":degrees", [&] { return str(vec<PI>(r.GetDegrees())) + " want " + str(want); });
    if (r.GetNumberOfControlPoints() <= 150) {
      c.count("whole-polynomial-compared");
      M ref = composeM(mo, m, one(PI));
      const ld mx = ref.maxa_all();
      for (auto& x : ref.a) x += 1e-3L * mx;
      expectSpline(c, r, ref, lab, 50 * K);
    }
    for (int k = 0; k < (G.thorough ? 8 : 4); k++) {
      const auto u = genParam<S>(c, PI);
      const Val x = m.eval(u);
      Val w = mo.eval(x.v);
      auto fl = maxas(mo);
      for (auto& f : fl) f *= 10;
      c.desc << "u=" << str(u) << "; ";
      expectVal<S>(c, r.Evaluate(pt<PI, S>(u)), w, lab + ":pointwise", 50 * K, fl);
    }
  };
  c.op("Compose");
  verify(o.Compose(in), mi, "Compose");
#ifndef NO_LIST
  // a list of inner functions
  c.op("Compose-list");
  const bool longer = c.rng.chance(.15);
  const size_t len = longer ? c.rng.range(4, 9) : c.rng.below(4);
  std::vector<I> lst;
  for (size_t k = 0; k < len; k++) {
    if (k == 0) { lst.push_back(in); continue; }
    Deg d = dI;
    if (longer) for (auto& x : d) x = std::min<size_t>(x, c.rng.below(3));
    else if (c.rng.chance(0.5) && d[0] > 1) d[0]--;
    I t(arr<PI>(d));
    fillInner(c, t);
    lst.push_back(t);
  }
  {
    if (len) std::swap(lst[0], lst[c.rng.below(len)]);
    const auto res = o.Compose(lst);
    if (longer) c.count("list:long");
    c.check(res.size() == len, "Compose-list:count");
    for (size_t k = 0; k < len; k++) verify(res[k], toM(lst[k]), "Compose-list");
  }
#endif
  // inner function leaving the unit cube
  const I bad = makeBad(c, in);
  c.op("Compose-refusal");
  c.check_f(refused([&] { auto r = o.Compose(bad); }), "Compose:leaving-unit-cube-accepted", [&] { return str(toM(bad)); });
#ifndef NO_LIST
  lst.insert(lst.begin() + c.rng.below(lst.size() + 1), bad);
  c.check_f(refused([&] { auto r = o.Compose(lst); }), "Compose-list:leaving-unit-cube-accepted", [&] { return str(toM(bad)); });
#endif
  c.check(snap(o) == so && snap(in) == si, "Compose:modifies-operand");
}
void largeCase(Ctx& c) {
  using O = Bz<1, bz::Point<3>>;
  const Deg d = largeDeg(c), one1(1, 1);
  const O o = genSpline<O>(c, one1, UNI, "outer");
  describe(c, d);
  LD in(arr<LPD>(d));
  for (auto& x : in.control_points) x = c.rng.unit();
  in.control_points.back() = 1;
  const M mo = toM(o), mi = toM(in);
  c.op("Compose");
  const auto r = o.Compose(in);
  structure(c, r, "large:Compose");
  c.check(vec<LPD>(r.GetDegrees()) == d, "large:Compose:degrees");
  for (size_t i = 0; i < mi.n(); i++)
    for (size_t q = 0; q < 3; q++)
      c.check(close((ld)r.control_points[i][q], mo.c[q] * (1 - mi.c[i]) + mo.c[3 + q] * mi.c[i], 1e-10L), "large:Compose:control-points");
  in.control_points[c.rng.below(mi.n())] = c.rng.chance(.5) ? 1.5 : -0.5;
  c.op("Compose-refusal");
  c.check(refused([&] { auto x = o.Compose(in); }), "large:Compose:leaving-unit-cube-accepted");
}
#define F(O, I) reg("compose<" #O "," #I ">", composeCase<O, I>)
int main(int argc, char** argv) {
  using bz::Point;
  using B1d = Bz<1, double>; using B11 = Bz<1, Point<1>>; using B12 = Bz<1, Point<2>>; using B13 = Bz<1, Point<3>>; using B2d = Bz<2, double>; using B22 = Bz<2, Point<2>>;
  using B23 = Bz<2, Point<3>>; using B33 = Bz<3, Point<3>>; using B3d = Bz<3, double>; using B32 = Bz<3, Point<2>>;
  using B22l = Bz<2, Point<2, long double>>; using B22f = Bz<2, Point<2, float>>; using B2f = Bz<2, float>;
#if GROUP == 0
  F(B1d, B1d); F(B13, B1d); F(B12, B2d); F(B22, B22); F(B2d, B12); F(B11, B11); F(B1d, B3d);
#else
  F(B23, B22); F(B33, B33); F(B33, B23); F(B32, B13); F(B3d, B33); F(B23, B32); F(B22l, B22l); F(B22f, B22f);
  F(B23, B22f); F(B22f, B22); F(B12, B2f); F(B22f, B22l);
#endif
#if GROUP == 0
  regLarge("compose", largeCase, composeCase<B13, B2d>);
#endif
  return run_main(argc, argv, "P08");
}
