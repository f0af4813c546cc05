// P11: rational evaluation, basis functions and accessors.
#include "large.hpp"
using namespace vf;

template <class F, std::size_t PD, std::size_t... I>
decltype(auto) spread(F&& f, const std::array<std::size_t, PD>& a, std::index_sequence<I...>) { return f(a[I]...); }
template <class F, std::size_t PD, std::size_t... I>
decltype(auto) spreadInt(F&& f, const std::array<std::size_t, PD>& a, std::index_sequence<I...>) { return f((int)a[I]...); }

template <class Spl>
void ratCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  constexpr auto seq = std::make_index_sequence<PD>{};
  const Deg d = genDeg(c, PD, c.rng.chance(.2) ? LIMIT : 10, G.thorough ? 400 : 160);
  Bz<PD, P, S> poly(arr<PD>(d));
  fillSpline(c, poly, genMode(c));
  const std::vector<S> w = genWeights<S, typename PT<typename Dim<Spl>::Phys>::S>(c, poly.control_points.size(), 120);
  const M mp = toM(poly);
  c.desc << "ctps " << str(mp) << " weights{";
  for (auto x : w) c.desc << x << ",";
  c.desc << "}; ";
  c.nontrivial = isNontrivial(mp);
  Spl r(arr<PD>(d), poly.control_points, w);
  structure(c, r, "construct");
  const size_t n = mp.n();
  // reference from the inputs
  RM ref;
  ref.num = mp;
  ref.w = M(d, 1);
  for (size_t i = 0; i < n; i++) {
    ref.w.c[i] = ref.w.a[i] = (ld)w[i];
    for (size_t q = 0; q < mp.nc; q++) { ref.num.c[i * mp.nc + q] *= (ld)w[i]; ref.num.a[i * mp.nc + q] *= (ld)w[i]; }
  }
  const Spl& cr = r;
  const std::string before = snap(r);
  std::vector<ld> fl = maxas(mp);
  for (int k = 0; k < (G.thorough ? 6 : 3); k++) {
    const auto u = genParam<S>(c, PD);
    const auto p = pt<PD, S>(u);
    c.desc << "u=" << str(u) << "; ";
    const Val want = ref.eval(u);
    c.op("Evaluate");
    expectVal<S>(c, cr.Evaluate(p), want, "Evaluate:value", 10, fl);
    c.op("ForwardEvaluate");
    expectVal<S>(c, cr.ForwardEvaluate(p), want, "ForwardEvaluate:value", 10, fl);
    c.op("BasisFunctions");
    const auto b = cr.BasisFunctions(p);
    const auto ub = cr.UnweightedBasisFunctions(p);
    const auto bc = cr.BasisFunctionContributions(p);
    std::vector<S> bv, ubv;
    auto bcv = bc;
    for (auto& x : bcv) x.clear();
    if constexpr (PD == 1) { bv = cr.BasisFunctions(p[0]); ubv = cr.UnweightedBasisFunctions(p[0]); bcv = cr.BasisFunctionContributions(p[0]); expectVal<S>(c, cr.Evaluate(p[0]), want, "Evaluate:variadic", 10, fl); expectVal<S>(c, cr.ForwardEvaluate(p[0]), want, "ForwardEvaluate:variadic", 10, fl); }
    if constexpr (PD == 2) { bv = cr.BasisFunctions(p[0], p[1]); ubv = cr.UnweightedBasisFunctions(p[0], p[1]); bcv = cr.BasisFunctionContributions(p[0], p[1]); expectVal<S>(c, cr.Evaluate(p[0], p[1]), want, "Evaluate:variadic", 10, fl); expectVal<S>(c, cr.ForwardEvaluate(p[0], p[1]), want, "ForwardEvaluate:variadic", 10, fl); }
    if constexpr (PD == 3) { bv = cr.BasisFunctions(p[0], p[1], p[2]); ubv = cr.UnweightedBasisFunctions(p[0], p[1], p[2]); bcv = cr.BasisFunctionContributions(p[0], p[1], p[2]); expectVal<S>(c, cr.Evaluate(p[0], p[1], p[2]), want, "Evaluate:variadic", 10, fl); expectVal<S>(c, cr.ForwardEvaluate(p[0], p[1], p[2]), want, "ForwardEvaluate:variadic", 10, fl); }
    if constexpr (PD == 4) { bv = cr.BasisFunctions(p[0], p[1], p[2], p[3]); ubv = cr.UnweightedBasisFunctions(p[0], p[1], p[2], p[3]); bcv = cr.BasisFunctionContributions(p[0], p[1], p[2], p[3]); expectVal<S>(c, cr.Evaluate(p[0], p[1], p[2], p[3]), want, "Evaluate:variadic", 10, fl); expectVal<S>(c, cr.ForwardEvaluate(p[0], p[1], p[2], p[3]), want, "ForwardEvaluate:variadic", 10, fl); }
    c.check(b.size() == n && ub.size() == n, "BasisFunctions:count");
    if (PD > 4) { bv = b; ubv = ub; bcv = bc; }
    c.check(bytes(bv) == bytes(b) && bytes(ubv) == bytes(ub), "BasisFunctions:variadic-differs");
    c.check(bcv == bc, "BasisFunctionContributions:variadic-differs");
    const ld wv = ref.w.eval(u).v[0];
    ld sum = 0;
    std::vector<ld> rep(mp.nc, 0);
    for (size_t i = 0; i < n; i++) {
      const Idx id = unravel(i, d);
      ld e = 1 / wv;
      for (size_t q = 0; q < PD; q++) e *= bern(d[q], id[q], u[q]);
      c.check_f(close((ld)ub[i], e, 10 * R<S>() * (e + 1e-3L / (ld)w[i])), "UnweightedBasisFunctions:value", [&] { return "entry " + std::to_string(i) + " got " + std::to_string(ub[i]) + " want " + std::to_string((double)e); });
      e *= (ld)w[i];
      c.check_f(close((ld)b[i], e, 10 * R<S>() * (e + 1e-3L)), "BasisFunctions:value", [&] { return "entry " + std::to_string(i) + " got " + std::to_string(b[i]) + " want " + std::to_string((double)e); });
      c.check(b[i] >= 0, "BasisFunctions:negative");
      sum += (ld)b[i];
      for (size_t q = 0; q < mp.nc; q++) rep[q] += (ld)b[i] * mp.c[i * mp.nc + q];
    }
    c.check(close(sum, 1, 20 * R<S>()), "BasisFunctions:partition-of-unity");
    for (size_t q = 0; q < mp.nc; q++) c.check(close(rep[q], want.v[q], 20 * R<S>() * (fl[q] + TINY<S>())), "BasisFunctions:do-not-reproduce-value");
    for (size_t q = 0; q < PD; q++) {
      c.check(bc[q].size() == d[q] + 1, "BasisFunctionContributions:count");
      for (size_t i = 0; i <= d[q]; i++)
        c.check(close((ld)bc[q][i], bern(d[q], i, u[q]), R<S>() * (bern(d[q], i, u[q]) + 1e-3L)), "BasisFunctionContributions:value");
    }
  }
  c.check(snap(r) == before, "Evaluate:modifies-spline");
  // accessors
  c.op("accessors");
  c.check(r.GetNumberOfControlPoints() == n && vec<PD>(cr.GetDegrees()) == d, "accessor:size");
  for (size_t k = 0; k < std::min<size_t>(n, 12); k++) {
    const size_t i = n <= 12 ? k : c.rng.below(n);
    const Idx id = unravel(i, d);
    const auto a = arr<PD>(id);
    c.check(vec<PD>(cr.LocalToGlobalIndex(i)) == id, "accessor:index-map");
    c.check(cr.GlobalToLocalIndex(a) == i, "accessor:index-map-inverse");
    Val e, ew;
    for (size_t q = 0; q < mp.nc; q++) {
      e.v.push_back(mp.c[i * mp.nc + q]); e.a.push_back(fabsl(e.v.back()));
      ew.v.push_back(ref.num.c[i * mp.nc + q]); ew.a.push_back(fabsl(ew.v.back()));
    }
    expectVal<S>(c, cr.ControlPoint(a), e, "ControlPoint:array");
    expectVal<S>(c, spread([&](auto... ix) { return cr.ControlPoint(ix...); }, a, seq), e, "ControlPoint:variadic");
    expectVal<S>(c, spreadInt([&](auto... ix) { return cr.ControlPoint(ix...); }, a, seq), e, "ControlPoint:variadic-int");
    expectVal<S>(c, cr.WeightedControlPoint(a), ew, "WeightedControlPoint:array");
    const P* ps[] = {&cr.GetWeightedControlPoints()[i], &cr.WeightedControlPoint(a), &r.WeightedControlPoint(a), &r.GetWeightedControlPoints()[i],
                     &spread([&](auto... ix) -> const P& { return cr.WeightedControlPoint(ix...); }, a, seq),
                     &spread([&](auto... ix) -> P& { return r.WeightedControlPoint(ix...); }, a, seq),
                     &cr.GetNumeratorSpline().control_points[i]};
    for (auto* q : ps) c.check(q == ps[0], "WeightedControlPoint:accessors-disagree");
    const S* ws[] = {&cr.GetWeights()[i], &cr.Weight(a), &r.Weight(a), &r.GetWeights()[i],
                     &spread([&](auto... ix) -> const S& { return cr.Weight(ix...); }, a, seq),
                     &spread([&](auto... ix) -> S& { return r.Weight(ix...); }, a, seq),
                     &cr.GetWeightFunctionSpline().control_points[i]};
    for (auto* q : ws) c.check(q == ws[0], "Weight:accessors-disagree");
    c.check(*ws[0] == w[i], "Weight:value");
  }
  // writing through accessors changes that entry only
  {
    c.op("write-through");
    const size_t i = c.rng.below(n);
    const auto a = arr<PD>(unravel(i, d));
    Spl t = r;
    auto wp = t.GetWeightedControlPoints();
    auto ww = t.GetWeights();
    P np{};
    for (size_t q = 0; q < mp.nc; q++) PT<P>::get(np, q) = (S)(3.5 + (double)q);
    t.WeightedControlPoint(a) = np;
    wp[i] = np;
    const S nw = w[i] + (S)1;
    t.Weight(a) = nw;
    ww[i] = nw;
    c.check(bytes(t.GetWeightedControlPoints()) == bytes(wp) && bytes(t.GetWeights()) == bytes(ww), "write-through:other-entries-changed");
    c.check(snap(r) == before, "write-through:copy-not-independent");
  }
  // scaling all weights changes nothing; equal weights: polynomial
  {
    c.op("weight-scaling");
    const S k = (S)c.rng.uni(0.2, 5);
    std::vector<S> w2 = w;
    for (auto& x : w2) x *= k;
    const Spl r2(arr<PD>(d), poly.control_points, w2);
    const Spl r3(arr<PD>(d), poly.control_points, std::vector<S>(n, k));
    const Spl r4(poly);
    const auto u = genParam<S>(c, PD);
    const auto p = pt<PD, S>(u);
    expectVal<S>(c, r2.Evaluate(p), ref.eval(u), "weights:common-factor", 10, fl);
    expectVal<S>(c, r3.Evaluate(p), mp.eval(u), "weights:equal-weights", 10, fl);
    expectVal<S>(c, r4.Evaluate(p), mp.eval(u), "weights:from-polynomial", 10, fl);
    structure(c, r4, "from-polynomial");
    for (S x : r4.GetWeights()) c.check(x == (S)1, "from-polynomial:weights");
    expectVal<S>(c, r4.ForwardEvaluate(p), mp.eval(u), "weights:from-polynomial-forward", 10, fl);
    const Spl r5(cr.GetNumeratorSpline(), cr.GetWeightFunctionSpline());
    c.check(snap(r5) == before, "construct:from-numerator-and-weight-function");
  }
}
void largeCase(Ctx& c) {
  const Deg d = largeDeg(c);
  const LR r = largeRational<LR>(c, d);
  structure(c, r, "large:construct");
  const RM m = toRM(r);
  for (int k = 0; k < 2; k++) {
    const auto u = k ? cornerish(c) : largeParam(c);
    const auto p = pt<LPD, double>(u);
    const Val want = m.eval(u);
    c.op("Evaluate");
    expectVal<double>(c, r.Evaluate(p), want, "large:Evaluate", 10, {100, 100});
    c.op("ForwardEvaluate");
    expectVal<double>(c, r.ForwardEvaluate(p), want, "large:ForwardEvaluate", 10, {100, 100});
    if (k) continue;
    c.op("BasisFunctions");
    const auto b = r.BasisFunctions(p);
    c.check(b.size() == m.num.n(), "large:BasisFunctions:count");
    const ld wv = m.w.eval(u).v[0];
    std::vector<std::vector<ld>> e(LPD);
    for (size_t q = 0; q < LPD; q++) for (size_t i = 0; i <= d[q]; i++) e[q].push_back(bern(d[q], i, u[q]));
    for (size_t i = 0; i < b.size(); i++) {
      const Idx id = unravel(i, d);
      ld x = m.w.c[i] / wv;
      for (size_t q = 0; q < LPD; q++) x *= e[q][id[q]];
      c.check(close((ld)b[i], x, 1e-9L * (x + 1e-3L)), "large:BasisFunctions:value");
    }
  }
}
#define F(PD, ...) reg("rational<" #PD "," #__VA_ARGS__ ">", ratCase<Rz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>); F(3, double); F(4, Point<2>); F(6, double); F(5, Point<2>);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float);
  regLarge("rational", largeCase, ratCase<Rz<4, Point<2>>>, 24);
  return run_main(argc, argv, "P11");
}
