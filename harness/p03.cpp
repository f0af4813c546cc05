// P03: polynomial derivatives of every order.
#include "large.hpp"
using namespace vf;

template <class Spl>
void derivCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using S = typename Dim<Spl>::Sc;
  const Spl s = genSpline<Spl>(c, c.rng.chance(0.15) ? LIMIT : 9, G.thorough ? 500 : 200);
  const M m = toM(s);
  c.nontrivial = isNontrivial(m);
  const std::string before = snap(s);
  for (int rep = 0; rep < (G.thorough ? 5 : 3); rep++) {
    Idx ord(PD, 0);
    const size_t style = c.rng.below(7);
    for (size_t d = 0; d < PD; d++) {
      const size_t g = m.deg[d];
      ord[d] = style == 0 ? (d == (c.idx + rep) % PD) : style == 1 ? c.rng.below(3)
               : style == 2 ? (c.rng.chance(.5) ? g + 1 + c.rng.below(3) : c.rng.below(2))   // above the degree
               : style == 3 ? g : style == 4 ? c.rng.below(g + 1)
               : style == 5 ? (d == (c.idx + rep) % PD ? g + c.rng.below(2) : 0) : c.rng.below(5);
      // the binomial table bounds the order that can be asked for
      if (ord[d] > LIMIT) ord[d] = LIMIT;
      const size_t cap = RR<S, typename Dim<Spl>::Phys>() > 1e-5L ? 6 : LIMIT;
      if (ord[d] <= g && ord[d] > cap) ord[d] = cap;
    }
    bool above = false;
    for (size_t d = 0; d < PD; d++) above |= ord[d] > m.deg[d];
    if (above) c.count("orders-above-degree");
    c.desc << "orders=" << str(ord) << "; ";
    M want;
    if (above) {
      Deg nd = m.deg;
      for (size_t d = 0; d < PD; d++) nd[d] = ord[d] > nd[d] ? 0 : nd[d] - ord[d];
      want = M(nd, m.nc);
    } else
      want = m.deriv(ord);
    c.op("DerivativeWRTParametricDimension");
    const Spl ds = s.DerivativeWRTParametricDimension(arr<PD>(ord));
    if (above) {
      // the zero function, whatever legal degrees are used to say so
      structure(c, ds, "Derivative:above");
      for (size_t d = 0; d < PD; d++)
        c.check_f(ds.GetDegrees()[d] <= m.deg[d], "Derivative:above-degree:degrees", [&] { return str(vec<PD>(ds.GetDegrees())); });
      const M dm = toM(ds);
      for (ld x : dm.c) c.check(x == 0, "Derivative:above-degree:not-zero");
    } else
      expectSpline(c, ds, want, "Derivative", 10);
    const auto fl = maxas(want);
    c.op("EvaluateDerivative");
    for (int k = 0; k < 3; k++) {
      const auto u = genParam<S>(c, PD, true, RR<S, typename Dim<Spl>::Phys>() < 1e-5L);
      const auto p = pt<PD, S>(u);
      const Val w = m.evald(u, ord);
      c.desc << "u=" << str(u) << "; ";
      std::vector<ld> f2(m.nc);
      const M mm = above ? want : m.deriv(ord);
      for (size_t q = 0; q < m.nc; q++) f2[q] = mm.maxa(q);
      expectVal<S>(c, s.EvaluateDerivative(p, arr<PD>(ord)), w, "EvaluateDerivative:value", 10, f2);
      expectVal<S>(c, ds.Evaluate(p), w, "Derivative:pointwise", 10, f2);
    }
    // in steps
    size_t steps = 0;
    for (size_t o : ord) steps += o;
    if (steps >= 2 && steps <= 12 && !above) {
      c.op("Derivative-in-steps");
      Spl t = s;
      Idx left = ord;
      while (true) {
        std::vector<size_t> av;
        for (size_t d = 0; d < PD; d++) if (left[d]) av.push_back(d);
        if (av.empty()) break;
        Idx one(PD, 0);
        const size_t d = c.rng.pick(av);
        one[d] = 1 + c.rng.below(std::min<size_t>(left[d], 2));
        left[d] -= one[d];
        t = t.DerivativeWRTParametricDimension(arr<PD>(one));
      }
      expectSpline(c, t, want, "Derivative-in-steps", 10);
    }
    // order zero is the spline itself
    if (rep == 0) {
      c.op("Derivative-order-zero");
      expectSpline(c, s.DerivativeWRTParametricDimension(arr<PD>(Idx(PD, 0))), m, "Derivative:order-zero");
    }
  }
  c.check(snap(s) == before, "Derivative:modifies-operand");
}
void largeCase(Ctx& c) {
  const LS s = largeSpline<LS>(c, largeDeg(c));
  const M m = toM(s);
  Idx ord(LPD, 0);
  const size_t k = c.rng.below(LPD);
  ord[k] = std::min<size_t>(1 + c.rng.below(2), m.deg[k]);
  c.op("DerivativeWRTParametricDimension");
  const LS ds = s.DerivativeWRTParametricDimension(arr<LPD>(ord));
  const M want = m.deriv(ord);
  expectSpline(c, ds, want, "large:Derivative", 10);
  const auto u = c.rng.chance(.5) ? cornerish(c) : largeParam(c);
  c.op("EvaluateDerivative");
  expectVal<double>(c, s.EvaluateDerivative(pt<LPD, double>(u), arr<LPD>(ord)), m.evald(u, ord), "large:EvaluateDerivative", 10, maxas(want));
}
#define F(PD, ...) reg("deriv<" #PD "," #__VA_ARGS__ ">", derivCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>); F(3, double); F(4, Point<2>); F(6, double); F(5, Point<2>);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float); F(1, float, double); F(1, double, float);
  regLarge("derivative", largeCase, derivCase<Bz<4, Point<2>>>);
  return run_main(argc, argv, "P03");
}
