// P15: bounding corners, hull, unit-cube fitting, component extraction.
#include "large.hpp"
using namespace vf;

template <class T>
constexpr bool isRat = false;
template <std::size_t PD, class P, class S>
constexpr bool isRat<bz::RationalBezierSpline<PD, P, S>> = true;

template <class S>
S ulpUp(S x) { return std::nextafter(x, std::numeric_limits<S>::infinity()); }
template <class S>
S ulpDown(S x) { return std::nextafter(x, -std::numeric_limits<S>::infinity()); }

template <class Spl>
void cornersCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  constexpr size_t nc = PT<P>::n;
  const Deg d = genDeg(c, PD, 8, 120);
  Bz<PD, P, S> base(arr<PD>(d));
  fillSpline(c, base, genMode(c));
  const size_t n = base.control_points.size();
  // make some components flat (exactly), or extreme in one control point only
  for (size_t q = 0; q < nc; q++) {
    const size_t k = c.rng.below(6);
    if (k == 0) {
      const S v = c.rng.chance(.5) ? (S)c.rng.uni(-3, 3) : (S)((int)c.rng.below(3) - 1);
      for (auto& p : base.control_points) PT<P>::get(p, q) = v;
      c.count("flat-component");
    } else if (k == 1) {
      PT<P>::get(base.control_points[c.rng.below(n)], q) += (S)(c.rng.chance(.5) ? 4 : -4);
    } else if (k == 2) {
      const S sh = (S)(c.rng.chance(.5) ? 5 : -5);  // everything of one sign
      for (auto& p : base.control_points) PT<P>::get(p, q) += sh;
    } else if (k == 3 && c.rng.chance(.5)) {  // sizes of any order of magnitude
      const S f = (S)powl(10, (ld)c.rng.uni(-1, 1) * (std::is_same_v<S, float> ? 10 : 120));
      for (auto& p : base.control_points) PT<P>::get(p, q) *= f;
      c.count("other-magnitude");
    } else if (k == 3) {  // an extent of some neighbouring numbers only
      const S v = (S)c.rng.uni(0.5, 30) * (S)(c.rng.chance(.5) ? 1 : -1);
      const size_t far = 1 + c.rng.below(4);
      for (auto& p : base.control_points) {
        S x = v;
        for (size_t z = c.rng.below(far + 1); z; z--) x = ulpUp(x);
        PT<P>::get(p, q) = x;
      }
      c.count("neighbouring-numbers");
    }
  }
  std::vector<S> w = genWeights<S>(c, n, 60);
  Spl s;
  if constexpr (isRat<Spl>) s = Spl(arr<PD>(d), base.control_points, w);
  else s = base;
  const M m = toM(base);
  c.desc << str(m) << "; ";
  c.nontrivial = isNontrivial(m);
  const std::string before = snap(s);
  std::vector<ld> lo(nc, INFINITY), hi(nc, -INFINITY);
  for (size_t i = 0; i < n; i++)
    for (size_t q = 0; q < nc; q++) { lo[q] = std::min(lo[q], m.c[i * nc + q]); hi[q] = std::max(hi[q], m.c[i * nc + q]); }
  c.op("corners");
  const Spl& cs = s;
  const P mn = cs.MinimumCorner(), mx = cs.MaximumCorner();
  for (size_t q = 0; q < nc; q++) {
    const ld tl = isRat<Spl> ? R<S>() * fabsl(lo[q]) : 0, th = isRat<Spl> ? R<S>() * fabsl(hi[q]) : 0;
    c.check_f(close((ld)PT<P>::get(mn, q), lo[q], tl), "MinimumCorner:value", [&] { return "component " + std::to_string(q) + " got " + std::to_string((double)PT<P>::get(mn, q)) + " want " + std::to_string((double)lo[q]); });
    c.check_f(close((ld)PT<P>::get(mx, q), hi[q], th), "MaximumCorner:value", [&] { return "component " + std::to_string(q) + " got " + std::to_string((double)PT<P>::get(mx, q)) + " want " + std::to_string((double)hi[q]); });
  }
  // enclosure of the values actually taken
  c.op("Evaluate");
  for (int k = 0; k < (G.thorough ? 10 : 5); k++) {
    const auto u = genParam<S>(c, PD);
    const P v = cs.Evaluate(pt<PD, S>(u));
    for (size_t q = 0; q < nc; q++) {
      const ld tol = 10 * R<S>() * (fabsl(lo[q]) + fabsl(hi[q])) + TINY<S>(), x = (ld)PT<P>::get(v, q);
      c.check(x >= (ld)PT<P>::get(mn, q) - tol && x <= (ld)PT<P>::get(mx, q) + tol, "enclosure:value-outside-corners");
    }
  }
  // unit-cube test: exact at the boundaries
  {
    c.op("FitsIntoUnitCube");
    Bz<PD, P, S> t(arr<PD>(d));
    // 0 inside, 1 touching, 2 above, 3 below, 4 far outside
    const size_t kind = c.rng.below(5);
    for (auto& p : t.control_points)
      for (size_t q = 0; q < nc; q++) PT<P>::get(p, q) = kind == 0 ? (S)c.rng.unit() : kind == 1 && c.rng.chance(.3) ? (S)c.rng.below(2) : (S)c.rng.uni(0.1, 0.9);
    const size_t i = c.rng.below(n), q = c.rng.below(nc);
    S& x = PT<P>::get(t.control_points[i], q);
    if (kind == 0) for (auto& p : t.control_points) for (size_t k = 0; k < nc; k++) if (PT<P>::get(p, k) > (S)1) PT<P>::get(p, k) = (S)1;
    if (kind == 2) x = ulpUp((S)1);
    if (kind == 3) x = c.rng.chance(.5) ? -std::numeric_limits<S>::min() : (S)-1e-6;
    if (kind == 4) x = c.rng.chance(.5) ? (S)7 : (S)-7;
    const bool want = kind <= 1;
    c.desc << "cube: kind " << kind << " at " << i << "," << q << " " << str(toM(t)) << "; ";
    c.count(want ? "cube:inside" : "cube:outside");
    bool got;
    if constexpr (isRat<Spl>) {  // weights that divide out exactly
      std::vector<S> pw(n);
      for (auto& y : pw) y = (S)std::ldexp(1., (int)c.rng.below(5) - 1);
      got = Spl(arr<PD>(d), t.control_points, pw).FitsIntoUnitCube();
    } else got = t.FitsIntoUnitCube();
    c.check(got == want, want ? "FitsIntoUnitCube:false-inside" : "FitsIntoUnitCube:true-outside");
    bool in = true;
    for (size_t k = 0; k < nc; k++) in &= (ld)PT<P>::get(mn, k) >= 0 && (ld)PT<P>::get(mx, k) <= 1;
    c.check(cs.FitsIntoUnitCube() == in, "FitsIntoUnitCube:contradicts-corners");
  }
  // extraction
  c.op("ExtractDimension");
  for (size_t q = 0; q < nc; q++) {
    const auto e = cs.ExtractDimension(q);
    structure(c, e, "ExtractDimension");
    c.check(vec<PD>(e.GetDegrees()) == d, "ExtractDimension:degrees");
    for (size_t i = 0; i < n; i++) {
      const S want = isRat<Spl> ? (S)((ld)PT<P>::get(base.control_points[i], q) * (ld)w[i]) : PT<P>::get(base.control_points[i], q);
      c.check(close((ld)e.control_points[i], (ld)want, isRat<Spl> ? R<S>() * fabsl((ld)want) : 0), "ExtractDimension:value");
    }
  }
  for (size_t bad : {nc, nc + 1, nc + 100, (size_t)-1})
    c.check(refused([&] { (void)cs.ExtractDimension(bad); }), "ExtractDimension:accepts-out-of-range");
  c.check(snap(s) == before, "const-operation:modifies-spline");
  if constexpr (!isRat<Spl>) {
    // affine rescaling
    {
      c.op("TransposeAndScale");
      P tr{}, sc{};
      for (size_t q = 0; q < nc; q++) {
        PT<P>::get(tr, q) = (S)c.rng.uni(-3, 3);
        PT<P>::get(sc, q) = c.rng.chance(.15) ? (S)0 : (S)c.rng.uni(-2, 2);
      }
      auto run = [&](auto&& call, const P& t0, const P& s0, const char* lab) {
        M want = m;
        for (size_t i = 0; i < n; i++)
          for (size_t q = 0; q < nc; q++) {
            want.c[i * nc + q] = (want.c[i * nc + q] + (ld)PT<P>::get(t0, q)) * (ld)PT<P>::get(s0, q);
            want.a[i * nc + q] = (want.a[i * nc + q] + fabsl((ld)PT<P>::get(t0, q))) * fabsl((ld)PT<P>::get(s0, q));
          }
        Spl t = s;
        Spl* r = call(t);
        c.check(r == &t, std::string(lab) + ":returns-other-object");
        expectSpline(c, t, want, lab);
      };
      run([&](Spl& t) { return &t.TransposeAndScale(tr, sc); }, tr, sc, "TransposeAndScale");
      const size_t i = c.rng.below(n), j = c.rng.below(n);
      const P ti = s.control_points[i], tj = s.control_points[j];
      run([&](Spl& t) { return &t.TransposeAndScale(t.control_points[i], sc); }, ti, sc, "TransposeAndScale-alias-first");
      run([&](Spl& t) { return &t.TransposeAndScale(tr, t.control_points[j]); }, tr, tj, "TransposeAndScale-alias-second");
      run([&](Spl& t) { return &t.TransposeAndScale(t.control_points[i], t.control_points[j]); }, ti, tj, "TransposeAndScale-alias-both");
    }
    {
      c.op("FitIntoUnitCube");
      Spl t = s;
      Spl& r = t.FitIntoUnitCube();
      c.check(&r == &t, "FitIntoUnitCube:returns-other-object");
      structure(c, t, "FitIntoUnitCube");
      c.check(vec<PD>(t.GetDegrees()) == d, "FitIntoUnitCube:degrees");
      for (size_t q = 0; q < nc; q++) {
        const bool flat = hi[q] == lo[q];
        for (size_t i = 0; i < n; i++) {
          const ld x = (ld)PT<P>::get(t.control_points[i], q);
          c.check_f(x >= 0 && x <= 1, flat ? "FitIntoUnitCube:flat-component-outside" : "FitIntoUnitCube:outside", [&] { return "component " + std::to_string(q) + " is " + std::to_string((double)x); });
          if (!flat) {
            const ld want = (m.c[i * nc + q] - lo[q]) / (hi[q] - lo[q]);
            const ld eps = (ld)std::numeric_limits<S>::epsilon() * 16 * (1 + (fabsl(hi[q]) + fabsl(lo[q])) / (hi[q] - lo[q]));
            c.check_f(close(x, want, eps), "FitIntoUnitCube:not-the-affine-map", [&] { return "component " + std::to_string(q) + " control point " + std::to_string(i) + " got " + std::to_string((double)x) + " want " + std::to_string((double)want); });
          }
        }
      }
      c.check(t.FitsIntoUnitCube(), "FitIntoUnitCube:result-does-not-fit");
      const P a = t.MinimumCorner(), b = t.MaximumCorner();
      for (size_t q = 0; q < nc; q++)
        if (hi[q] != lo[q]) c.check((ld)PT<P>::get(a, q) == 0 && close((ld)PT<P>::get(b, q), 1, 4 * (ld)std::numeric_limits<S>::epsilon()), "FitIntoUnitCube:does-not-span");
    }
  }
}
template <class Spl>
void emptySpline(Ctx& c) {  // a default constructed spline has no corners
  c.nontrivial = false;
  Spl s;
  c.op("empty-corners");
  c.check(refused([&] { (void)s.MinimumCorner(); }) && refused([&] { (void)s.MaximumCorner(); }), "empty:corner-not-refused");
}
template <class Spl>
void largeCase(Ctx& c) {
  const Deg d = largeDeg(c);
  Bz<LPD, bz::Point<2>> base = largeSpline<LS>(c, d);
  const size_t n = prod1(d);
  // extremes in single entries anywhere
  const size_t lo = c.rng.below(n), hi = c.rng.chance(.3) ? n - 1 : c.rng.below(n);
  base.control_points[lo][1] = -7;
  if (hi != lo) base.control_points[hi][1] = 9;
  c.desc << "extremes at " << lo << "," << hi << "; ";
  Spl s;
  if constexpr (isRat<Spl>) s = Spl(arr<LPD>(d), base.control_points, std::vector<double>(n, 2.));
  else s = base;
  c.op("corners");
  c.check(s.MinimumCorner()[1] == -7 && (hi == lo || s.MaximumCorner()[1] == 9), "large:corner");
  c.check(!s.FitsIntoUnitCube(), "large:FitsIntoUnitCube");
  c.op("ExtractDimension");
  const auto x = s.ExtractDimension(1);
  bool same = true;
  for (size_t i = 0; i < n; i++) same &= x.control_points[i] == base.control_points[i][1] * (isRat<Spl> ? 2 : 1);
  c.check(same, "large:ExtractDimension:value");
  if constexpr (!isRat<Spl>) {
    c.op("FitIntoUnitCube");
    LS t = s;
    t.FitIntoUnitCube();
    c.check(t.FitsIntoUnitCube(), "large:FitIntoUnitCube:does-not-fit");
    const ld a = hi == lo ? 0 : 1;
    bool aff = true;
    if (a) for (size_t i = 0; i < n; i++) aff &= close((ld)t.control_points[i][1], ((ld)base.control_points[i][1] + 7) / 16, 1e-12L);
    c.check(aff, "large:FitIntoUnitCube:not-the-affine-map");
  }
}
#define F(PD, ...) \
  reg("corners<" #PD "," #__VA_ARGS__ ">", cornersCase<Bz<PD, __VA_ARGS__>>); \
  reg("rational-corners<" #PD "," #__VA_ARGS__ ">", cornersCase<Rz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  F(1, double); F(2, Point<2>); F(3, Point<3>); F(1, Point<3>); F(2, double); F(1, float); F(2, Point<3, long double>); F(1, Point<2, float>); F(2, Point<4>); F(5, Point<2>);
  reg("empty", emptySpline<Bz<2, Point<2>>>);
  reg("empty", emptySpline<Rz<2, Point<2>>>);
  regLarge("corners", largeCase<LS>, cornersCase<Bz<2, Point<2>>>);
  regLarge("rational-corners", largeCase<LR>, cornersCase<Rz<2, Point<2>>>);
  return run_main(argc, argv, "P15");
}
