// P01: Evaluate / ForwardEvaluate against the Bernstein form.
#include "large.hpp"
using namespace vf;

template <class Spl>
void evalCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  const size_t cap = G.thorough ? 600 : 220;
  Spl s = genSpline<Spl>(c, LIMIT, cap);
  const M m = toM(s);
  c.nontrivial = isNontrivial(m);
  structure(c, s, "construct");
  const std::string before = snap(s);
  const Spl& cs = s;
  const auto fl = maxas(m);
  const int np = G.thorough ? 8 : 4;
  for (int k = 0; k < np; k++) {
    const auto u = genParam<S>(c, PD, true, RR<S, P>() < 1e-5L);
    c.desc << "u=" << str(u) << "; ";
    const Val want = m.eval(u);
    const auto p = pt<PD, S>(u);
    c.op("Evaluate");
    const P e = cs.Evaluate(p);
    expectVal<S>(c, e, want, "Evaluate:value", 1, fl);
    c.op("ForwardEvaluate");
    const P f = cs.ForwardEvaluate(p);
    expectVal<S>(c, f, want, "ForwardEvaluate:value", 1, fl);
    c.op("Evaluate-variadic");
    if constexpr (PD == 1) {
      expectVal<S>(c, cs.Evaluate(p[0]), want, "Evaluate:variadic", 1, fl);
      expectVal<S>(c, cs.ForwardEvaluate(p[0]), want, "ForwardEvaluate:variadic", 1, fl);
    } else if constexpr (PD == 2) {
      expectVal<S>(c, cs.Evaluate(p[0], p[1]), want, "Evaluate:variadic", 1, fl);
      expectVal<S>(c, cs.ForwardEvaluate(p[0], p[1]), want, "ForwardEvaluate:variadic", 1, fl);
    } else if constexpr (PD == 3) {
      expectVal<S>(c, cs.Evaluate(p[0], p[1], p[2]), want, "Evaluate:variadic", 1, fl);
      expectVal<S>(c, cs.ForwardEvaluate(p[0], p[1], p[2]), want, "ForwardEvaluate:variadic", 1, fl);
    }
    // a second evaluation gives the same bits: no hidden state
    const P e2 = cs.Evaluate(p);
    c.check(bytes(std::vector<P>{e}) == bytes(std::vector<P>{e2}), "Evaluate:repeatable");
  }
  // all corners of the domain
  c.op("corners");
  for (size_t k = 0; k < (1u << PD); k++) {
    std::vector<ld> u(PD);
    Idx id(PD);
    for (size_t d = 0; d < PD; d++) {
      u[d] = (k >> d) & 1;
      id[d] = u[d] == 1 ? m.deg[d] : 0;
    }
    Val w;
    for (size_t q = 0; q < m.nc; q++) {
      w.v.push_back(m.c[ravel(id, m.deg) * m.nc + q]);
      w.a.push_back(fabsl(w.v.back()));
    }
    expectVal<S>(c, cs.Evaluate(pt<PD, S>(u)), w, "Evaluate:corner", 1, fl);
    expectVal<S>(c, cs.ForwardEvaluate(pt<PD, S>(u)), w, "ForwardEvaluate:corner", 1, fl);
  }
  c.check(snap(s) == before, "Evaluate:modifies-spline");
}
void largeCase(Ctx& c) {
  const LS s = largeSpline<LS>(c, largeDeg(c));
  const M m = toM(s);
  structure(c, s, "construct");
  const auto fl = maxas(m);
  for (int k = 0; k < 3; k++) {
    const auto u = k == 0 ? std::vector<ld>(LPD, 1) : k == 1 ? cornerish(c) : largeParam(c);
    const Val want = m.eval(u);
    c.op("Evaluate");
    expectVal<double>(c, s.Evaluate(pt<LPD, double>(u)), want, "large:Evaluate", 4, fl);
    c.op("ForwardEvaluate");
    expectVal<double>(c, s.ForwardEvaluate(pt<LPD, double>(u)), want, "large:ForwardEvaluate", 4, fl);
  }
}
#define F(PD, ...) reg("eval<" #PD "," #__VA_ARGS__ ">", evalCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
#if GROUP == 0
  F(1, double); F(1, Point<2>); F(1, Point<3>); F(2, double); F(2, Point<2>); F(2, Point<3>);
  F(1, Point<1>);
  F(2, Point<2, float>, double); F(2, Point<3>, float); F(1, float, double); F(1, double, float);
#else
  F(3, double); F(3, Point<3>); F(4, Point<2>); F(6, double); F(5, Point<3>); F(8, double); F(3, Point<2>);
  F(2, float); F(2, Point<2, float>); F(2, Point<2, long double>); F(1, long double);
#endif
#if GROUP == 1
  regLarge("eval", largeCase, evalCase<Bz<4, Point<2>>>);
#endif
  return run_main(argc, argv, "P01");
}
