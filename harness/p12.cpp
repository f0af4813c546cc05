// P12: rational derivatives of every order.
#include "large.hpp"
using namespace vf;

// quotient rule on models: only used for the magnitude of the rounding error
RM quotRule(const RM& r, size_t d) {
  RM o;
  o.num = addM(mulM(r.num.deriv1(d), r.w), mulM(r.w.deriv1(d), r.num), -1);
  o.w = mulM(r.w, r.w);
  return o;
}
template <class Spl>
void ratDeriv(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using S = typename Dim<Spl>::Sc;
  Deg d = genDeg(c, PD, 6, 70);
  // high orders, half of them with a degree of the same size
  const bool high = !std::is_same_v<S, float> && RR<S, typename Dim<Spl>::Phys>() < 1e-5L && c.rng.chance(.1);
  const size_t hd = c.rng.below(PD);
  if (high && c.rng.chance(.5))
    for (size_t k = 0; k < PD; k++) d[k] = k == hd ? c.rng.range(7, 14) : std::min<size_t>(d[k], 1);
  const Spl r = genRational<Spl>(c, d, genMode(c), "r", 90);
  const RM m = toRM(r);
  c.nontrivial = isNontrivial(m.num);
  const std::string before = snap(r);
  const size_t n = m.num.n(), nc = m.num.nc;
  // pointwise derivatives
  for (int rep = 0; rep < (G.thorough ? 4 : 2); rep++) {
    Idx ord(PD, 0);
    const size_t style = c.rng.below(5);
    for (size_t k = 0; k < PD; k++)
      ord[k] = style == 0 ? (k == (c.idx + rep) % PD) : style == 1 ? c.rng.below(3) : style == 2 ? (k == (c.idx + rep) % PD ? c.rng.below(6) : c.rng.below(2))
               : style == 3 ? (k == (c.idx + rep) % PD ? d[k] + 1 + c.rng.below(2) : 0) : c.rng.below(2);
    if (std::is_same_v<S, float>) {  // single precision: keep the error amplification bounded
      size_t tot = 0;
      for (auto& x : ord) { x = std::min<size_t>(x, tot < 4 ? 4 - tot : 0); tot += x; }
    }
    else if (rep == 0 && high) {
      std::fill(ord.begin(), ord.end(), 0);
      ord[hd] = c.rng.range(6, std::min<size_t>(LIMIT, 24));
      c.count("orders:high");
    }
    while (prod1(ord) > 60) for (auto& x : ord) if (x) { x--; break; }
    bool above = false;
    for (size_t k = 0; k < PD; k++) above |= ord[k] > d[k];
    if (above) c.count("orders-above-degree");
    const auto u = genParam<S>(c, PD);
    c.desc << "orders=" << str(ord) << " u=" << str(u) << "; ";
    const Ser sw = serOf(m.w, 0, u, ord);
    const ld fac = facprod(ord);
    Val want;
    for (size_t q = 0; q < nc; q++) {
      const Ser s = serDiv(serOf(m.num, q, u, ord), sw);
      want.v.push_back(s.c.back() * fac);
      want.a.push_back(s.a.back() * fac);
    }
    std::vector<ld> fl(nc);
    for (size_t q = 0; q < nc; q++) fl[q] = want.a[q];
    c.op("EvaluateDerivative");
    expectVal<S>(c, r.EvaluateDerivative(pt<PD, S>(u), arr<PD>(ord)), want, "EvaluateDerivative:value", 100);
    c.op("BasisFunctionsDerivatives");
    const auto b = r.BasisFunctionsDerivatives(pt<PD, S>(u), arr<PD>(ord));
    c.check(b.size() == n, "BasisFunctionsDerivatives:count");
    ld sum = 0, mag = 0;
    std::vector<ld> rp(nc, 0), rm(nc, 0), bv, ba;
    for (size_t i = 0; i < n; i++) {
      // derivative of the i-th rational basis function
      M e(d, 1);
      e.c[i] = e.a[i] = m.w.c[i];
      const Ser s = serDiv(serOf(e, 0, u, ord), sw);
      const ld v = s.c.back() * fac, a = s.a.back() * fac;
      bv.push_back(v);
      ba.push_back(a);
      sum += (ld)b[i];
      mag += a;
      for (size_t q = 0; q < nc; q++) {
        const ld cp = m.num.c[i * nc + q] / m.w.c[i];
        rp[q] += (ld)b[i] * cp;
        rm[q] += a * fabsl(cp);
      }
    }
    const ld bmax = *std::max_element(ba.begin(), ba.end());
    for (size_t i = 0; i < n; i++)
      c.check_f(close((ld)b[i], bv[i], 100 * R<S>() * (ba[i] + 1e-4L * bmax) + TINY<S>()), "BasisFunctionsDerivatives:value", [&] {
        std::ostringstream o;
        o.precision(12);
        o << "entry " << i << " got " << b[i] << " want " << bv[i] << " magnitude " << ba[i] << " of " << bmax;
        return o.str(); });
    bool zero = true;
    for (size_t o : ord) zero &= o == 0;
    c.check(close(sum, zero ? 1 : 0, 100 * R<S>() * (mag + 1)), "BasisFunctionsDerivatives:sum");
    for (size_t q = 0; q < nc; q++)
      c.check(close(rp[q], want.v[q], 100 * R<S>() * (rm[q] + want.a[q]) + TINY<S>()), "BasisFunctionsDerivatives:do-not-reproduce");
  }
  // derivative splines
  {
    Idx ord(PD, 0);
    size_t tot = c.rng.chance(0.6) ? 1 : 1 + c.rng.below(3);
    if (std::is_same_v<S, float>) tot = 1;
    // degrees double with every order: stay within the binomial table
    while (tot) {
      bool ok = true;
      Deg e = d;
      for (auto& x : e) { x <<= tot; ok &= x <= LIMIT; }
      // and so does the order of magnitude of the weights
      ok = ok && fabsl(log10l((ld)r.GetWeights()[0])) * (1 << tot) < 200;
      if (ok && prod1(e) <= (tot == 1 ? 700 : 400)) break;
      tot--;
    }
    for (size_t k = 0; k < tot; k++) ord[c.rng.below(PD)]++;
    if (tot) {
      c.desc << "spline-orders=" << str(ord) << "; ";
      c.count("derivative-spline:order-" + std::to_string(tot));
      bool d0 = false, above = false;
      for (size_t k = 0; k < PD; k++) { d0 |= ord[k] && d[k] == 0; above |= ord[k] > d[k]; }
      if (d0) c.count("derivative-spline:degree-zero-direction");
      if (above) c.count("derivative-spline:order-above-degree");
      c.op("DerivativeWRTParametricDimension");
      const Spl ds = r.DerivativeWRTParametricDimension(arr<PD>(ord));
      structure(c, ds, "Derivative");
      RM mg = m;
      for (size_t k = 0; k < PD; k++) for (size_t j = 0; j < ord[k]; j++) mg = quotRule(mg, k);
      for (int k = 0; k < 3; k++) {
        const auto u = genParam<S>(c, PD);
        c.desc << "u=" << str(u) << "; ";
        const Ser sw = serOf(m.w, 0, u, ord);
        const ld fac = facprod(ord);
        const Val g = mg.eval(u);
        Val want;
        for (size_t q = 0; q < nc; q++) {
          const Ser s = serDiv(serOf(m.num, q, u, ord), sw);
          want.v.push_back(s.c.back() * fac);
          want.a.push_back(s.a.back() * fac + g.a[q]);
        }
        c.op("Evaluate");
        expectVal<S>(c, ds.Evaluate(pt<PD, S>(u)), want, "Derivative:pointwise", 100);
      }
    } else {
      const auto u = genParam<S>(c, PD);
      expectVal<S>(c, r.DerivativeWRTParametricDimension(arr<PD>(ord)).Evaluate(pt<PD, S>(u)), m.eval(u), "Derivative:order-zero", 100);
    }
  }
  c.check(snap(r) == before, "Derivative:modifies-operand");
}
void largeCase(Ctx& c) {  // the derivative is the large one
  Deg d;
  const size_t cls = c.rng.below(G.variant.substr(0, 3) == "rel" ? 3 : 2);  // minutes in the instrumented builds
  for (int guard = 0;; guard++) {
    d = largeDegIn(c, 30, 6000, 12);
    Deg e = d;
    for (auto& x : e) x *= 2;
    const size_t n = prod1(e);
    if (cls == 0 ? n > 256 && n < 2000 : cls == 1 ? n > 8000 && n < 20000 : n > 65536 && n < 75000) break;
    if (guard > 20000) return;
  }
  using R1 = Rz<LPD, double>;
  const R1 r = largeRational<R1>(c, d);
  const RM m = toRM(r);
  Idx ord(LPD, 0);
  ord[c.rng.below(LPD)] = 1;
  c.op("DerivativeWRTParametricDimension");
  const R1 ds = r.DerivativeWRTParametricDimension(arr<LPD>(ord));
  structure(c, ds, "large:Derivative");
  for (int k = 0; k < 2; k++) {
    const auto u = k ? cornerish(c) : largeParam(c);
    const Ser s = serDiv(serOf(m.num, 0, u, ord), serOf(m.w, 0, u, ord));
    c.op("Evaluate");
    expectVal<double>(c, ds.Evaluate(pt<LPD, double>(u)), Val{{s.c.back()}, {s.a.back()}}, "large:Derivative:pointwise", 100, {1000});
    c.op("EvaluateDerivative");
    expectVal<double>(c, r.EvaluateDerivative(pt<LPD, double>(u), arr<LPD>(ord)), Val{{s.c.back()}, {s.a.back()}}, "large:EvaluateDerivative", 100, {1000});
  }
}
#define F(PD, ...) reg("rational-derivative<" #PD "," #__VA_ARGS__ ">", ratDeriv<Rz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>); F(3, double); F(1, Point<2>); F(5, double);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float);
  regLarge("derivative", largeCase, ratDeriv<Rz<2, double>>, 40);
  return run_main(argc, argv, "P12");
}
