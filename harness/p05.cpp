// P05: splitting.
#include "large.hpp"
using namespace vf;

template <class S>
S genPos(Ctx& c) {
  switch (c.rng.below(6)) {
    case 0: return (S)0.5;
    case 1: return (S)c.rng.uni(0.001, 0.05);
    case 2: return (S)c.rng.uni(0.95, 0.999);
    case 3: return (S)((1 + c.rng.below(7)) / 8.);
    default: return (S)c.rng.uni(0.02, 0.98);
  }
}
template <class Spl>
void splitCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using S = typename Dim<Spl>::Sc;
  const Spl s = genSpline<Spl>(c, c.rng.chance(0.2) ? LIMIT : 9, G.thorough ? 400 : 160);
  const M m = toM(s);
  c.nontrivial = isNontrivial(m);
  const std::string before = snap(s);
  const size_t dir = c.rng.below(PD);
  const auto fl = maxas(m);
  auto pieces = [&](const std::vector<Spl>& v, const std::vector<ld>& knots, const std::string& lab, ld mult) {
    c.check_f(v.size() + 1 == knots.size(), lab + ":piece-count", [&] { return std::to_string(v.size()); });
    for (size_t i = 0; i < v.size(); i++) {
      M w = m.restricted(knots[i], knots[i + 1], dir);
      const ld mx = w.maxa_all();
      // the positions are numbers of type S: rounded by a part of epsilon
      const ld ends = 8 * (ld)(m.deg[dir] + 1) * (ld)std::numeric_limits<S>::epsilon() / RR<S, typename Dim<Spl>::Phys>() * m.maxa_all();
      for (auto& x : w.a) x += 1e-2L * mx + ends;
      expectSpline(c, v[i], w, lab, mult);
      for (int k = 0; k < 2; k++) {
        auto t = genParam<S>(c, PD);
        auto u = t;
        u[dir] = knots[i] + t[dir] * (knots[i + 1] - knots[i]);
        Val val = m.eval(u);
        expectVal<S>(c, v[i].Evaluate(pt<PD, S>(t)), val, lab + ":pointwise", 30 * mult, fl);
      }
    }
    // neighbouring pieces meet
    c.check(snap(s) == before, lab + ":modifies-operand");
  };
  const S x = genPos<S>(c);
  c.desc << "dir=" << dir << " pos=" << (double)x << "; ";
  c.op("SplitAtPosition");
  pieces(s.SplitAtPosition(x, dir), {0, (ld)x, 1}, "Split", 2);
  if (dir == 0) {
    c.op("SplitAtPosition-default-direction");
    pieces(s.SplitAtPosition(x), {0, (ld)x, 1}, "Split-default", 2);
  }
  // list of positions
  const std::vector<S> q = genPositions<S>(c, 5, prod1(m.deg) > 60 ? 8 : 30);
  std::vector<ld> kn{0};
  for (S y : q) kn.push_back((ld)y);
  kn.push_back(1);
  c.desc << "list=" << str(kn) << "; ";
  c.op("SplitAtPosition-list");
  c.count("list-length:" + (q.size() < 8 ? std::to_string(q.size()) : std::string("8+")));
  const auto lst = s.SplitAtPosition(q, dir);
  pieces(lst, kn, "Split-list", std::is_same_v<typename Dim<Spl>::Sc, long double> ? 20 : 200);
  if (q.empty()) c.check(lst[0] == s, "Split-list:empty-list-not-itself");
  // refusals
  const std::vector<S> bad{(S)0, (S)1, (S)-0.25, (S)1.5, (S)-0., std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::infinity()};
  const S b = bad[c.idx / 7 % bad.size()];
  c.op("Split-refusal");
  c.desc << "bad=" << (double)b << "; ";
  c.check(refused([&] { s.SplitAtPosition(b, dir); }), "Split:bad-position-accepted", std::to_string((double)b));
  c.check(refused([&] { s.SplitAtPosition(std::vector<S>{b}, dir); }), "Split-list:bad-position-accepted", std::to_string((double)b));
  if (b >= 1) c.check(refused([&] { s.SplitAtPosition(std::vector<S>{(S)0.5, b}, dir); }), "Split-list:bad-last-position-accepted");
  if (b <= 0) c.check(refused([&] { s.SplitAtPosition(std::vector<S>{b, (S)0.5}, dir); }), "Split-list:bad-first-position-accepted");
  if (q.size() >= 2) {
    std::vector<S> w = q;
    const size_t i = c.rng.below(w.size() - 1);
    std::swap(w[i], w[i + 1]);
    c.check(refused([&] { s.SplitAtPosition(w, dir); }), "Split-list:unsorted-accepted");
    std::reverse(w.begin(), w.end());
    if (!std::is_sorted(w.begin(), w.end()))
      c.check(refused([&] { s.SplitAtPosition(w, dir); }), "Split-list:unsorted-accepted");
  }
  c.check(snap(s) == before, "Split-refusal:modifies-operand");
}
void largeCase(Ctx& c) {
  const LS s = largeSpline<LS>(c, largeDeg(c));
  const M m = toM(s);
  const size_t dir = c.rng.below(LPD);
  const bool list = c.rng.chance(.5);
  const double x = c.rng.uni(0.2, 0.5), y = c.rng.uni(0.6, 0.9);
  c.op("SplitAtPosition");
  const std::vector<ld> kn = list ? std::vector<ld>{0, (ld)x, (ld)y, 1} : std::vector<ld>{0, (ld)x, 1};
  const auto v = list ? s.SplitAtPosition(std::vector<double>{x, y}, dir) : s.SplitAtPosition(x, dir);
  c.check(v.size() + 1 == kn.size(), "large:Split:piece-count");
  const auto fl = maxas(m);
  for (size_t i = 0; i < v.size(); i++) {
    if (i == 0 || prod1(m.deg) < 20000) {
      M w = m.restricted(kn[i], kn[i + 1], dir);
      const ld mx = w.maxa_all();
      for (auto& z : w.a) z += 1e-2L * mx;
      expectSpline(c, v[i], w, "large:Split", 200);
    }
    structure(c, v[i], "large:Split");
    for (int k = 0; k < 2; k++) {
      const auto t = k ? cornerish(c) : largeParam(c);
      auto u = t;
      u[dir] = kn[i] + t[dir] * (kn[i + 1] - kn[i]);
      expectVal<double>(c, v[i].Evaluate(pt<LPD, double>(t)), m.eval(u), "large:Split:pointwise", 200, fl);
    }
  }
}
#define F(PD, ...) reg("split<" #PD "," #__VA_ARGS__ ">", splitCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>); F(3, double); F(4, Point<2>); F(6, double); F(5, Point<2>);
  F(2, Point<2, float>); F(2, Point<3, long double>);
  F(2, Point<2, float>, double); F(2, Point<3>, float); F(1, float, double); F(1, double, float);
  regLarge("split", largeCase, splitCase<Bz<4, Point<2>>>, 24);
  return run_main(argc, argv, "P05");
}
