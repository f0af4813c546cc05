// P04: order elevation.
#include "large.hpp"
using namespace vf;

template <class Spl>
void elevCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using S = typename Dim<Spl>::Sc;
  const Spl s = genSpline<Spl>(c, 10, 120);
  const M m = toM(s);
  c.nontrivial = isNontrivial(m);
  const size_t cap = G.thorough ? 3000 : 900;
  // history of directions
  std::vector<size_t> h;
  Deg d = m.deg;
  const size_t len = c.rng.chance(0.1) ? 14 : c.rng.below(6) + 1;
  const size_t bias = c.rng.below(3);
  for (size_t k = 0; k < len; k++) {
    const size_t q = bias == 0 ? 0 : bias == 1 ? PD - 1 : c.rng.below(PD);
    Deg e = d;
    e[q]++;
    if (prod1(e) > cap || e[q] > LIMIT) break;
    d = e;
    h.push_back(q);
  }
  if (h.empty()) { h.push_back(0); d[0]++; }
  c.desc << "directions=" << str(Idx(h.begin(), h.end())) << "; ";
  Spl t = s;
  M w = m;
  for (size_t q : h) {
    c.op("OrderElevateAlongParametricDimension");
    Spl& r = t.OrderElevateAlongParametricDimension(q);
    c.check(&r == &t, "Elevate:returns-other-object");
    w = w.elevated(q);
    expectSpline(c, t, w, "Elevate", 4);
  }
  const auto fl = maxas(m);
  for (int k = 0; k < 3; k++) {
    const auto u = genParam<S>(c, PD, true);
    c.desc << "u=" << str(u) << "; ";
    Val v = m.eval(u);
    v.a = w.eval(u).a;  // outside the domain, rounding errors grow with the degree
    c.op("Evaluate");
    expectVal<S>(c, t.Evaluate(pt<PD, S>(u)), v, "Elevate:function", 8, fl);
    expectVal<S>(c, t.ForwardEvaluate(pt<PD, S>(u)), v, "Elevate:function", 8, fl);
  }
  // another order of the same calls
  std::vector<size_t> g = h;
  for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[c.rng.below(i)]);
  Spl t2 = s;
  c.op("Elevate-reordered");
  for (size_t q : g) t2.OrderElevateAlongParametricDimension(q);
  expectSpline(c, t2, w, "Elevate-reordered", 8);
  // chained in one expression
  if (h.size() >= 2) {
    Spl t3 = s;
    t3.OrderElevateAlongParametricDimension(h[0]).OrderElevateAlongParametricDimension(h[1]);
    expectSpline(c, t3, m.elevated(h[0]).elevated(h[1]), "Elevate-chained", 4);
  }
}
void largeCase(Ctx& c) {
  Deg d = largeDeg(c);
  const size_t k = c.rng.below(LPD);
  if (d[k] + 1 > LIMIT) d[k]--;
  LS s = largeSpline<LS>(c, d);
  const M m = toM(s), w = m.elevated(k);
  c.op("OrderElevateAlongParametricDimension");
  s.OrderElevateAlongParametricDimension(k);
  expectSpline(c, s, w, "large:Elevate", 4);
  const auto u = c.rng.chance(.5) ? cornerish(c) : largeParam(c);
  expectVal<double>(c, s.Evaluate(pt<LPD, double>(u)), m.eval(u), "large:Elevate:function", 8, maxas(m));
}
#define F(PD, ...) reg("elevate<" #PD "," #__VA_ARGS__ ">", elevCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>); F(3, double); F(4, Point<2>); F(6, double); F(5, Point<2>);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float); F(1, float, double); F(1, double, float);
  regLarge("elevate", largeCase, elevCase<Bz<4, Point<2>>>);
  return run_main(argc, argv, "P04");
}
