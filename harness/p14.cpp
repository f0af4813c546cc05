// P14: rational elevation and splitting.
#include "large.hpp"
using namespace vf;

template <class S>
S genPos(Ctx& c) {
  switch (c.rng.below(6)) {
    case 0: return (S)0.5;
    case 1: return (S)c.rng.uni(0.01, 0.05);
    case 2: return (S)c.rng.uni(0.95, 0.99);
    case 3: return (S)((1 + c.rng.below(7)) / 8.);
    default: return (S)c.rng.uni(0.02, 0.98);
  }
}
template <class Spl>
void refineCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using S = typename Dim<Spl>::Sc;
  const Deg d = genDeg(c, PD, c.rng.chance(.15) ? LIMIT : 8, 120);
  const Spl r = genRational<Spl>(c, d, genMode(c), "r", 120);
  const RM m = toRM(r);
  c.nontrivial = isNontrivial(m.num);
  const std::string before = snap(r);
  std::vector<ld> fl(m.num.nc, 0);
  for (size_t i = 0; i < m.num.n(); i++)
    for (size_t q = 0; q < m.num.nc; q++) fl[q] = std::max(fl[q], fabsl(m.num.c[i * m.num.nc + q] / m.w.c[i]));
  // the ends of the pieces are rounded: an error of the parameter shows in the
  // value multiplied with the slope, which grows with the ratio of the weights
  const ld mult = std::is_same_v<S, long double> ? 2 : 50;
  const auto wr = std::minmax_element(m.w.c.begin(), m.w.c.end());
  ld slope = 0;
  for (size_t x : d) slope += 2 * (ld)x;
  slope *= *wr.second / *wr.first;
  const ld rounding = 8 * (ld)std::numeric_limits<S>::epsilon() * slope;
  for (auto& x : fl) x *= std::max<ld>(100, rounding / (mult * 1e-3L * RR<S, typename Dim<Spl>::Phys>()));
  auto verify = [&](const Spl& s, const std::string& lab, auto&& map) {
    structure(c, s, lab);
    for (auto& w : s.GetWeights()) c.check(w > 0, lab + ":weight-not-positive");
    for (int k = 0; k < 3; k++) {
      auto t = genParam<S>(c, PD);
      if (k == 0) for (auto& x : t) x = (ld)c.rng.below(2);
      auto u = map(t);
      c.desc << "t=" << str(t) << "; ";
      const Val w = m.eval(u);
      expectVal<S>(c, s.Evaluate(pt<PD, S>(t)), w, lab + ":function", mult, fl);
      expectVal<S>(c, s.ForwardEvaluate(pt<PD, S>(t)), w, lab + ":function-forward", mult, fl);
    }
  };
  // elevation
  Spl t = r;
  Deg e = d;
  const size_t len = 1 + c.rng.below(5);
  for (size_t k = 0; k < len; k++) {
    const size_t q = c.rng.below(PD);
    if (e[q] + 1 > LIMIT || prod1(e) > 600) continue;
    e[q]++;
    c.desc << "elevate " << q << "; ";
    c.op("OrderElevateAlongParametricDimension");
    Spl& x = t.OrderElevateAlongParametricDimension(q);
    c.check(&x == &t, "Elevate:returns-other-object");
    c.check_f(vec<PD>(t.GetDegrees()) == e, "Elevate:degrees", [&] { return str(vec<PD>(t.GetDegrees())) + " want " + str(e); });
    verify(t, "Elevate", [](auto x) { return x; });
  }
  // splitting
  const size_t dir = c.rng.below(PD);
  auto pieces = [&](const std::vector<Spl>& v, const std::vector<ld>& kn, const std::string& lab) {
    c.check_f(v.size() + 1 == kn.size(), lab + ":piece-count", [&] { return std::to_string(v.size()); });
    for (size_t i = 0; i < v.size(); i++) {
      c.check_f(vec<PD>(v[i].GetDegrees()) == d, lab + ":degrees", [&] { return str(vec<PD>(v[i].GetDegrees())); });
      verify(v[i], lab, [&](auto x) { x[dir] = kn[i] + x[dir] * (kn[i + 1] - kn[i]); return x; });
    }
  };
  const S x = genPos<S>(c);
  c.desc << "dir=" << dir << " pos=" << (double)x << "; ";
  c.op("SplitAtPosition");
  pieces(r.SplitAtPosition(x, dir), {0, (ld)x, 1}, "Split");
  if (dir == 0) pieces(r.SplitAtPosition(x), {0, (ld)x, 1}, "Split-default");
  const std::vector<S> q = genPositions<S>(c, 5, prod1(d) > 40 ? 8 : 30);
  std::vector<ld> kn{0};
  for (S y : q) kn.push_back((ld)y);
  kn.push_back(1);
  c.desc << "list=" << str(kn) << "; ";
  c.op("SplitAtPosition-list");
  c.count("list-length:" + (q.size() < 8 ? std::to_string(q.size()) : std::string("8+")));
  const auto lst = r.SplitAtPosition(q, dir);
  pieces(lst, kn, "Split-list");
  if (q.empty()) c.check(snap(lst[0]) == before, "Split-list:empty-list-not-itself");
  const std::vector<S> bad{(S)0, (S)1, (S)-0.25, (S)1.5, (S)-0.};
  const S b = bad[c.idx / 7 % bad.size()];
  c.op("Split-refusal");
  c.check(refused([&] { r.SplitAtPosition(b, dir); }), "Split:bad-position-accepted", std::to_string((double)b));
  c.check(refused([&] { r.SplitAtPosition(std::vector<S>{b}, dir); }), "Split-list:bad-position-accepted", std::to_string((double)b));
  if (b >= 1) c.check(refused([&] { r.SplitAtPosition(std::vector<S>{(S)0.5, b}, dir); }), "Split-list:bad-last-position-accepted");
  if (q.size() >= 2) {
    std::vector<S> w = q;
    const size_t i = c.rng.below(w.size() - 1);
    std::swap(w[i], w[i + 1]);
    c.check(refused([&] { r.SplitAtPosition(w, dir); }), "Split-list:unsorted-accepted");
  }
  c.check(snap(r) == before, "Refine:modifies-operand");
}
void largeCase(Ctx& c) {
  Deg d = largeDeg(c);
  const size_t dir = c.rng.below(LPD);
  if (d[dir] + 1 > LIMIT) d[dir]--;
  const LR r = largeRational<LR>(c, d);
  const RM m = toRM(r);
  auto same = [&](const LR& x, auto&& map, const char* lab) {
    structure(c, x, lab);
    for (int k = 0; k < 2; k++) {
      const auto t = k ? cornerish(c) : largeParam(c);
      expectVal<double>(c, x.Evaluate(pt<LPD, double>(t)), m.eval(map(t)), lab, 50, {1000, 1000});
    }
  };
  c.op("OrderElevateAlongParametricDimension");
  LR t = r;
  t.OrderElevateAlongParametricDimension(dir);
  Deg e = d;
  e[dir]++;
  c.check(vec<LPD>(t.GetDegrees()) == e, "large:Elevate:degrees");
  same(t, [](auto u) { return u; }, "large:Elevate");
  const double x = c.rng.uni(0.2, 0.8);
  c.op("SplitAtPosition");
  const auto v = r.SplitAtPosition(x, dir);
  c.check(v.size() == 2, "large:Split:piece-count");
  same(v[0], [&](auto u) { u[dir] *= (ld)x; return u; }, "large:Split-first");
  same(v[1], [&](auto u) { u[dir] = (ld)x + u[dir] * (1 - (ld)x); return u; }, "large:Split-second");
}
#define F(PD, ...) reg("rational-refine<" #PD "," #__VA_ARGS__ ">", refineCase<Rz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>); F(3, double); F(4, Point<2>); F(6, double);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float);
  regLarge("rational-refine", largeCase, refineCase<Rz<4, Point<2>>>, 24);
  return run_main(argc, argv, "P14");
}
