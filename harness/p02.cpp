// P02: basis functions and their derivatives.
#include "large.hpp"
using namespace vf;

template <class Spl>
void basisCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using S = typename Dim<Spl>::Sc;
  const Spl s = genSpline<Spl>(c, LIMIT, G.thorough ? 900 : 300);
  const M m = toM(s);
  c.nontrivial = isNontrivial(m);
  const std::string before = snap(s);
  for (int k = 0; k < (G.thorough ? 6 : 3); k++) {
    const bool out = c.rng.chance(0.2);
    const auto u = genParam<S>(c, PD, out);
    const auto p = pt<PD, S>(u);
    bool inside = true;
    for (ld x : u) inside = inside && x >= 0 && x <= 1;
    // orders: mostly small, sometimes at / above the degree
    Idx ord(PD, 0);
    const size_t style = c.rng.below(5);
    for (size_t d = 0; d < PD; d++)
      ord[d] = style == 0 ? 0 : style == 1 ? c.rng.below(3) : style == 2 ? (d == c.idx % PD ? m.deg[d] + c.rng.below(4) : 0)
               : style == 3 ? c.rng.below(std::min<size_t>(m.deg[d] + 3, 9)) : std::min<size_t>(m.deg[d], 8);
    // factorials of large orders do not fit single precision
    if (std::is_same_v<S, float>)
      for (size_t d = 0; d < PD; d++) if (ord[d] > 8 && ord[d] <= m.deg[d]) ord[d] = 8;
    c.desc << "u=" << str(u) << " orders=" << str(ord) << "; ";
    c.op("BasisFunctions");
    const std::vector<S> b = s.BasisFunctions(p);
    c.op("BasisFunctionContributions");
    const auto bc = s.BasisFunctionContributions(p);
    c.op("BasisFunctionsDerivatives");
    const std::vector<S> db = s.BasisFunctionsDerivatives(p, arr<PD>(ord));
    c.op("BasisFunctionsDerivativeContributions");
    const auto dbc = s.BasisFunctionsDerivativeContributions(p, arr<PD>(ord));
    c.op("BasisFunctions-variadic");
    std::vector<S> bv;
    std::array<std::vector<S>, PD> bcv;
    if constexpr (PD == 1) { bv = s.BasisFunctions(p[0]); bcv = s.BasisFunctionContributions(p[0]); }
    if constexpr (PD == 2) { bv = s.BasisFunctions(p[0], p[1]); bcv = s.BasisFunctionContributions(p[0], p[1]); }
    if constexpr (PD == 3) { bv = s.BasisFunctions(p[0], p[1], p[2]); bcv = s.BasisFunctionContributions(p[0], p[1], p[2]); }
    if constexpr (PD == 4) { bv = s.BasisFunctions(p[0], p[1], p[2], p[3]); bcv = s.BasisFunctionContributions(p[0], p[1], p[2], p[3]); }
    if (PD > 4) { bv = b; bcv = bc; }
    c.check(bytes(bv) == bytes(b), "BasisFunctions:variadic-differs");
    for (size_t d = 0; d < PD; d++) c.check(bytes(bcv[d]) == bytes(bc[d]), "BasisFunctionContributions:variadic-differs");
    // reference
    std::vector<std::vector<ld>> e(PD), em(PD), de(PD), dm(PD);
    for (size_t d = 0; d < PD; d++) {
      e[d].resize(m.deg[d] + 1); em[d] = e[d]; de[d] = e[d]; dm[d] = e[d];
      for (size_t i = 0; i <= m.deg[d]; i++) {
        e[d][i] = bern_der(m.deg[d], i, 0, u[d], &em[d][i]);
        de[d][i] = bern_der(m.deg[d], i, ord[d], u[d], &dm[d][i]);
      }
      c.check_f(bc[d].size() == m.deg[d] + 1, "BasisFunctionContributions:count", [&] { return "size " + std::to_string(bc[d].size()); });
      c.check_f(dbc[d].size() == m.deg[d] + 1, "BasisFunctionsDerivativeContributions:count", [&] { return "size " + std::to_string(dbc[d].size()); });
      ld dmx = 0;
      for (ld x : dm[d]) dmx = std::max(dmx, x);
      for (size_t i = 0; i <= m.deg[d]; i++) {
        c.check_f(close((ld)bc[d][i], e[d][i], R<S>() * (em[d][i] + 1e-3L)), "BasisFunctionContributions:value",
                  [&] { return "direction " + std::to_string(d) + " entry " + std::to_string(i) + " got " + std::to_string(bc[d][i]) + " want " + std::to_string((double)e[d][i]); });
        c.check_f(close((ld)dbc[d][i], de[d][i], R<S>() * (dm[d][i] + 1e-3L * dmx)), "BasisFunctionsDerivativeContributions:value",
                  [&] { return "direction " + std::to_string(d) + " entry " + std::to_string(i) + " got " + std::to_string(dbc[d][i]) + " want " + std::to_string((double)de[d][i]); });
        if (ord[d] > m.deg[d]) c.check(dbc[d][i] == 0, "BasisFunctionsDerivativeContributions:not-zero-above-degree");
      }
    }
    c.check(b.size() == m.n(), "BasisFunctions:count");
    c.check(db.size() == m.n(), "BasisFunctionsDerivatives:count");
    ld sum = 0, dsum = 0, dmag = 0, mag = 0, dmx = 1;
    for (size_t d = 0; d < PD; d++) { ld x = 0; for (ld y : dm[d]) x = std::max(x, y); dmx *= x; }
    for (size_t i = 0; i < m.n(); i++) {
      const Idx id = unravel(i, m.deg);
      ld w = 1, wm = 1, dw = 1, dwm = 1;
      for (size_t d = 0; d < PD; d++) {
        w *= e[d][id[d]]; wm *= em[d][id[d]]; dw *= de[d][id[d]]; dwm *= dm[d][id[d]];
      }
      c.check_f(close((ld)b[i], w, R<S>() * (wm + 1e-3L)), "BasisFunctions:value",
                [&] { return "entry " + std::to_string(i) + " got " + std::to_string(b[i]) + " want " + std::to_string((double)w); });
      c.check_f(close((ld)db[i], dw, R<S>() * (dwm + 1e-3L * dmx)), "BasisFunctionsDerivatives:value",
                [&] { return "entry " + std::to_string(i) + " got " + std::to_string(db[i]) + " want " + std::to_string((double)dw); });
      if (inside) c.check(b[i] >= 0, "BasisFunctions:negative");
      sum += (ld)b[i]; mag += wm; dsum += (ld)db[i]; dmag += dwm;
    }
    c.check(close(sum, 1, R<S>() * (mag + 1)), "BasisFunctions:partition-of-unity");
    size_t tot = 0;
    bool above = false;
    for (size_t d = 0; d < PD; d++) { tot += ord[d]; above |= ord[d] > m.deg[d]; }
    if (tot) c.check(close(dsum, 0, R<S>() * (dmag + dmx)), "BasisFunctionsDerivatives:sum-not-zero");
    if (above) {
      c.count("orders-above-degree");
      for (auto& x : db) c.check(x == 0, "BasisFunctionsDerivatives:not-zero-above-degree");
    }
  }
  c.check(snap(s) == before, "BasisFunctions:modifies-spline");
}

// the underlying Bernstein polynomials, all degrees up to the limit
template <class S>
void bernsteinCase(Ctx& c) {
  using B = bz::utils::algorithms::BernsteinPolynomial<S>;
  const size_t n = c.rng.below(LIMIT + 1);
  const ld u = genParam<S>(c, 1, true)[0];
  size_t k = c.rng.chance(0.2) ? n + c.rng.below(4) : c.rng.below(std::min<size_t>(n, 8) + 1);
  if (std::is_same_v<S, float> && k <= n && k > 8) k = 8;
  c.desc << "degree " << n << " order " << k << " u " << (double)u << "; ";
  c.nontrivial = n > 0;
  c.op("Bernstein::Evaluate");
  const auto v = B::Evaluate(n, (S)u);
  c.op("Bernstein::EvaluateDerivative");
  const auto w = B::EvaluateDerivative(n, (S)u, k);
  c.check(v.size() == n + 1 && w.size() == n + 1, "Bernstein:count");
  ld dmx = 0;
  std::vector<ld> dm(n + 1), de(n + 1);
  for (size_t i = 0; i <= n; i++) { de[i] = bern_der(n, i, k, u, &dm[i]); dmx = std::max(dmx, dm[i]); }
  for (size_t i = 0; i <= n; i++) {
    ld mg = bern_abs(n, i, u);
    c.check_f(close((ld)v[i], bern(n, i, u), R<S>() * (mg + 1e-3L)), "Bernstein:value", [&] {
      return "entry " + std::to_string(i) + " got " + std::to_string(v[i]) + " want " + std::to_string((double)bern(n, i, u)); });
    c.check_f(close((ld)w[i], de[i], R<S>() * (dm[i] + 1e-3L * dmx)), "Bernstein:derivative", [&] {
      return "entry " + std::to_string(i) + " got " + std::to_string(w[i]) + " want " + std::to_string((double)de[i]); });
  }
}
void largeCase(Ctx& c) {
  const Deg d = largeDeg(c);
  const LS s = largeSpline<LS>(c, d);
  const auto u = c.rng.chance(.5) ? cornerish(c) : largeParam(c);
  Idx ord(LPD, 0);
  ord[c.rng.below(LPD)] = 1;
  c.op("BasisFunctions");
  const auto b = s.BasisFunctions(pt<LPD, double>(u));
  c.op("BasisFunctionsDerivatives");
  const auto db = s.BasisFunctionsDerivatives(pt<LPD, double>(u), arr<LPD>(ord));
  c.check(b.size() == prod1(d) && db.size() == prod1(d), "large:BasisFunctions:count");
  std::vector<std::vector<ld>> e(LPD), de(LPD), dm(LPD);
  ld mx = 1;
  for (size_t k = 0; k < LPD; k++) {
    ld x = 0;
    for (size_t i = 0; i <= d[k]; i++) {
      ld m;
      e[k].push_back(bern(d[k], i, u[k]));
      de[k].push_back(bern_der(d[k], i, ord[k], u[k], &m));
      dm[k].push_back(m);
      x = std::max(x, m);
    }
    mx *= x;
  }
  for (size_t i = 0; i < b.size(); i++) {
    const Idx id = unravel(i, d);
    ld w = 1, dw = 1, dwm = 1;
    for (size_t k = 0; k < LPD; k++) { w *= e[k][id[k]]; dw *= de[k][id[k]]; dwm *= dm[k][id[k]]; }
    c.check(close((ld)b[i], w, 1e-10L * (w + 1e-3L)), "large:BasisFunctions:value");
    c.check(close((ld)db[i], dw, 1e-10L * (dwm + 1e-3L * mx)), "large:BasisFunctionsDerivatives:value");
  }
}
#define F(PD, ...) reg("basis<" #PD "," #__VA_ARGS__ ">", basisCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(3, double); F(1, Point<3>); F(4, Point<2>); F(6, double); F(5, Point<2>);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float); F(1, float, double); F(1, double, float);
  reg("bernstein<double>", bernsteinCase<double>);
  reg("bernstein<float>", bernsteinCase<float>);
  reg("bernstein<long double>", bernsteinCase<long double>);
  regLarge("basis", largeCase, basisCase<Bz<4, Point<2>>>);
  return run_main(argc, argv, "P02");
}
