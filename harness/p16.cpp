// P16: control-point storage and index maps stay coherent along histories.
#include "large.hpp"
using namespace vf;

template <class T>
constexpr bool isRat = false;
template <std::size_t PD, class P, class S>
constexpr bool isRat<bz::RationalBezierSpline<PD, P, S>> = true;

template <class F, std::size_t PD, std::size_t... I>
decltype(auto) spread(F&& f, const std::array<std::size_t, PD>& a, std::index_sequence<I...>) { return f(a[I]...); }
template <class T, class F, std::size_t PD, std::size_t... I>
decltype(auto) spreadAs(F&& f, const std::array<std::size_t, PD>& a, std::index_sequence<I...>) { return f(static_cast<T>(a[I])...); }

// every index form of a polynomial spline
template <std::size_t PD, class P, class S>
void coherent(Ctx& c, bz::BezierSpline<PD, P, S>& s, const Deg& want, const std::string& lab) {
  constexpr auto seq = std::make_index_sequence<PD>{};
  const auto& cs = s;
  const Deg d = vec<PD>(s.GetDegrees());
  c.check_f(d == want, lab + ":degrees", [&] { return "degrees " + str(d) + " want " + str(want); });
  c.check(vec<PD>(cs.GetDegrees()) == d, lab + ":degree-getters-differ");
  const size_t n = prod1(d);
  c.check_f(s.GetNumberOfControlPoints() == n, lab + ":count", [&] { return std::to_string(s.GetNumberOfControlPoints()) + " for " + str(d); });
  c.check_f(s.control_points.size() == n && s.GetControlPoints().size() == n && cs.GetControlPoints().size() == n, lab + ":storage-size", [&] { return std::to_string(s.control_points.size()) + " for " + str(d); });
  c.check(&s.GetControlPoints() == &s.control_points && &cs.GetControlPoints() == &s.control_points, lab + ":list-getter");
  std::vector<bool> seen(n, false);
  const size_t step = n <= 150 ? 1 : n / 100;
  for (size_t i = 0; i < n; i += step) {
    const Idx id = unravel(i, d);
    const auto a = arr<PD>(id);
    c.check_f(vec<PD>(cs.LocalToGlobalIndex(i)) == id, lab + ":index-map", [&] { return std::to_string(i) + " -> " + str(vec<PD>(cs.LocalToGlobalIndex(i))) + " want " + str(id); });
    const size_t back = cs.GlobalToLocalIndex(a);
    c.check_f(back == i, lab + ":index-map-inverse", [&] { return str(id) + " -> " + std::to_string(back) + " want " + std::to_string(i); });
    if (back < n) { c.check(!seen[back], lab + ":index-map-not-injective"); seen[back] = true; }
    const P* p = &s.control_points[i];
    c.check(&s.ControlPoint(a) == p, lab + ":accessor-array");
    c.check(&cs.ControlPoint(a) == p, lab + ":accessor-array-const");
    c.check(&spread([&](auto... ix) -> P& { return s.ControlPoint(ix...); }, a, seq) == p, lab + ":accessor-variadic");
    c.check(&spread([&](auto... ix) -> const P& { return cs.ControlPoint(ix...); }, a, seq) == p, lab + ":accessor-variadic-const");
    if (i % 7 == 0) {
      c.check(&spreadAs<int>([&](auto... ix) -> P& { return s.ControlPoint(ix...); }, a, seq) == p, lab + ":accessor-variadic-int");
      c.check(&spreadAs<unsigned>([&](auto... ix) -> const P& { return cs.ControlPoint(ix...); }, a, seq) == p, lab + ":accessor-variadic-unsigned");
    }
  }
}
template <std::size_t PD, class P, class S>
void coherent(Ctx& c, bz::RationalBezierSpline<PD, P, S>& s, const Deg& want, const std::string& lab) {
  constexpr auto seq = std::make_index_sequence<PD>{};
  const auto& cs = s;
  auto num = s.GetNumeratorSpline();
  auto den = s.GetWeightFunctionSpline();
  coherent(c, num, want, lab + ":numerator");
  coherent(c, den, want, lab + ":weightfn");
  const size_t n = prod1(want);
  c.check(vec<PD>(s.GetDegrees()) == want, lab + ":degrees");
  c.check(s.GetNumberOfControlPoints() == n && s.GetWeightedControlPoints().size() == n && s.GetWeights().size() == n && cs.GetWeights().size() == n && cs.GetWeightedControlPoints().size() == n, lab + ":sizes");
  for (size_t k = 0; k < std::min<size_t>(n, 30); k++) {
    const size_t i = n <= 30 ? k : c.rng.below(n);
    const auto a = arr<PD>(unravel(i, want));
    c.check(vec<PD>(cs.LocalToGlobalIndex(i)) == vec<PD>(a), lab + ":index-map");
    c.check(cs.GlobalToLocalIndex(a) == i, lab + ":index-map-inverse");
    const P* p = &s.GetWeightedControlPoints()[i];
    const S* w = &s.GetWeights()[i];
    c.check(&s.WeightedControlPoint(a) == p && &cs.WeightedControlPoint(a) == p && &cs.GetWeightedControlPoints()[i] == p, lab + ":accessor-array");
    c.check(&spread([&](auto... ix) -> P& { return s.WeightedControlPoint(ix...); }, a, seq) == p &&
                &spread([&](auto... ix) -> const P& { return cs.WeightedControlPoint(ix...); }, a, seq) == p &&
                &spreadAs<int>([&](auto... ix) -> P& { return s.WeightedControlPoint(ix...); }, a, seq) == p, lab + ":accessor-variadic");
    c.check(&s.Weight(a) == w && &cs.Weight(a) == w && &cs.GetWeights()[i] == w, lab + ":weight-accessor-array");
    c.check(&spread([&](auto... ix) -> S& { return s.Weight(ix...); }, a, seq) == w &&
                &spread([&](auto... ix) -> const S& { return cs.Weight(ix...); }, a, seq) == w &&
                &spreadAs<int>([&](auto... ix) -> S& { return s.Weight(ix...); }, a, seq) == w, lab + ":weight-accessor-variadic");
    const P u1 = cs.ControlPoint(a), u2 = spread([&](auto... ix) { return cs.ControlPoint(ix...); }, a, seq);
    for (size_t q = 0; q < PT<P>::n; q++) {
      const ld want_v = (ld)PT<P>::get(*p, q) / (ld)*w, g1 = (ld)PT<P>::get(u1, q), g2 = (ld)PT<P>::get(u2, q);
      // too large for the coordinate type
      if (fabsl(want_v) > 0.99L * (ld)std::numeric_limits<typename PT<P>::S>::max()) continue;
      c.check((std::isnan(want_v) && std::isnan(g1) && std::isnan(g2)) || (close(g1, want_v, RR<S, P>() * fabsl(want_v) + TT<S, P>()) && g1 == g2) , lab + ":unweighted-control-point");
    }
  }
}
// writing through every mutable accessor changes exactly that entry
template <std::size_t PD, class P, class S>
void writes(Ctx& c, const bz::BezierSpline<PD, P, S>& s0, const std::string& lab) {
  constexpr auto seq = std::make_index_sequence<PD>{};
  const size_t n = s0.control_points.size(), i = c.rng.below(n);
  const auto a = arr<PD>(unravel(i, vec<PD>(s0.GetDegrees())));
  for (int form = 0; form < 3; form++) {
    auto t = s0;
    P& r = form == 0 ? t.ControlPoint(a) : form == 1 ? spread([&](auto... ix) -> P& { return t.ControlPoint(ix...); }, a, seq) : t.GetControlPoints()[i];
    const size_t q0 = c.rng.below(PT<P>::n);
    PT<P>::get(r, q0) = (S)12345;
    for (size_t k = 0; k < n; k++)
      for (size_t q = 0; q < PT<P>::n; q++) {
        const S want = k == i && q == q0 ? (S)12345 : PT<P>::get(s0.control_points[k], q), got = PT<P>::get(t.control_points[k], q);
        c.check(memcmp(&want, &got, std::is_same_v<S, long double> ? 10 : sizeof(S)) == 0, lab + ":write-changes-other-entry");
      }
    c.check(t.GetDegrees() == s0.GetDegrees() && t.control_points.size() == n, lab + ":write-changes-shape");
  }
}
template <std::size_t PD, class P, class S>
void writes(Ctx& c, const bz::RationalBezierSpline<PD, P, S>& s0, const std::string& lab) {
  const size_t n = s0.GetWeights().size(), i = c.rng.below(n);
  const auto a = arr<PD>(unravel(i, vec<PD>(s0.GetDegrees())));
  {
    auto t = s0;
    t.Weight(a) = (S)777;
    auto w = s0.GetWeights();
    w[i] = (S)777;
    c.check(bytes(t.GetWeights()) == bytes(w) && bytes(t.GetWeightedControlPoints()) == bytes(s0.GetWeightedControlPoints()), lab + ":weight-write");
  }
  {
    auto t = s0;
    PT<P>::get(t.WeightedControlPoint(a), 0) = (S)777;
    auto p = s0.GetWeightedControlPoints();
    PT<P>::get(p[i], 0) = (S)777;
    c.check(bytes(t.GetWeightedControlPoints()) == bytes(p) && bytes(t.GetWeights()) == bytes(s0.GetWeights()), lab + ":weighted-control-point-write");
  }
}

template <class Spl>
void history(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  constexpr bool rat = isRat<Spl>;
  auto make = [&](const Deg& d) {
    Bz<PD, P, S> b(arr<PD>(d));
    fillSpline(c, b, UNI);
    if constexpr (rat) return Spl(arr<PD>(d), b.control_points, genWeights<S, typename PT<P>::S>(c, prod1(d)));
    else return b;
  };
  Deg d = genDeg(c, PD, 8, 100);
  Spl s = make(d);
  c.desc << "start " << str(d) << ": ";
  coherent(c, s, d, "construct");
  c.nontrivial = true;
  const size_t steps = G.thorough ? 24 : 12;
  for (size_t k = 0; k < steps; k++) {
    const size_t dir = c.rng.below(PD);
    const size_t what = c.rng.below(13);
    const size_t cap = 400;
    auto fits = [&](const Deg& e) { for (size_t x : e) if (x > 14) return false; return prod1(e) <= cap; };
    auto log = [&](const char* n) { c.op(n); c.desc << n << "[" << dir << "] "; };
    switch (what) {
      case 0: { Deg e = d; e[dir]++; if (!fits(e)) break; log("elevate"); s.OrderElevateAlongParametricDimension(dir); d = e; break; }
      case 1: {
        if (rat) { Deg e = d; for (auto& x : e) x *= 2; if (!fits(e) || prod1(e) > 150) break; log("derive"); std::array<size_t, PD> o{}; o[dir] = 1; s = s.DerivativeWRTParametricDimension(o); d = e; break; }
        log("derive");
        std::array<size_t, PD> o{};
        o[dir] = c.rng.below(d[dir] + 1);
        s = s.DerivativeWRTParametricDimension(o);
        d[dir] -= o[dir];
        break;
      }
      case 2: { log("split"); auto v = s.SplitAtPosition((S)c.rng.uni(0.1, 0.9), dir); c.check(v.size() == 2, "split:pieces"); coherent(c, v[0], d, "split"); coherent(c, v[1], d, "split"); s = v[c.rng.below(2)]; break; }
      case 3: { log("split-list"); auto v = s.SplitAtPosition(std::vector<S>{(S)0.25, (S)0.5, (S)0.75}, dir); c.check(v.size() == 4, "split-list:pieces"); for (auto& x : v) coherent(c, x, d, "split-list"); s = v[c.rng.below(4)]; break; }
      case 4: { log("update-degrees"); Deg e = genDeg(c, PD, 8, 100); s.UpdateDegrees(arr<PD>(e)); d = e; coherent(c, s, d, "update-degrees"); s = make(d); break; }
      case 5: case 6: {
        Deg e = genDeg(c, PD, 6, 40);
        Spl o = make(e);
        Deg r = maxdeg(d, e);
        if (rat) for (size_t q = 0; q < PD; q++) r[q] = d[q] + e[q];
        if (!fits(r)) break;
        const size_t f = c.rng.below(4);
        if (f == 0) { log("add"); s = s + o; }
        else if (f == 1) { log("add-assign"); s += o; }
        else if (f == 2) { log("sub"); s = s - o; }
        else { log("sub-assign"); s -= o; }
        coherent(c, o, e, "operand");
        d = rat ? vec<PD>(s.GetDegrees()) : r;  // depends on whether the weight functions agree
        break;
      }
      case 7: {
        Deg e = genDeg(c, PD, 3, 12);
        Deg r = d;
        for (size_t q = 0; q < PD; q++) r[q] = d[q] + e[q];
        if (!fits(r)) break;
        log("multiply");
        Bz<PD, S, S> o(arr<PD>(e));
        fillSpline(c, o, UNI);
        if constexpr (rat) s = s * Rz<PD, S, S>(o); else s = s * o;
        d = r;
        break;
      }
      case 8: { log("scale"); const S f = (S)c.rng.uni(0.5, 2); if (c.rng.chance(.5)) s *= f; else s = s * f; break; }
      case 9: { log("negate"); s = -s; break; }
      case 10: { log("shift"); P p{}; if (c.rng.chance(.5)) s += p; else s = s - p; break; }
      case 11: {
        // composition with a polynomial inner function of the same shape
        if constexpr (!rat) {
          size_t sum = 0;
          for (size_t x : d) sum += x;
          Deg e(PD), r(PD);
          for (size_t q = 0; q < PD; q++) { e[q] = c.rng.below(2); r[q] = sum * e[q]; }
          if (!fits(r) || prod1(r) > 200 || prod1(d) > 40) break;
          log("compose");
          Bz<PD, bz::Point<PD, S>, S> in(arr<PD>(e));
          for (auto& p : in.control_points) for (size_t q = 0; q < PD; q++) p[q] = (S)c.rng.unit();
          s = s.Compose(in);
          d = r;
          coherent(c, in, e, "compose-inner");
        }
        break;
      }
      default: {
        log("copy-write");
        writes(c, s, "write");
        Spl t = s;
        t.UpdateDegrees(arr<PD>(genDeg(c, PD, 5, 30)));
        coherent(c, s, d, "after-copy");
        t = s;
        coherent(c, t, d, "copy-assign");
        if constexpr (!rat) {  // the extracted components share the shape
          auto e = s.ExtractDimension(c.rng.below(PT<P>::n));
          coherent(c, e, d, "extract");
        }
      }
    }
    coherent(c, s, d, "after-" + c.cur_op);
    c.count("history-steps");
  }
  writes(c, s, "write");
}
void largeHistory(Ctx& c) {
  Deg d = largeDeg(c);
  LD s = largeSpline<LD>(c, d);
  coherent(c, s, d, "large:construct");
  for (int k = 0; k < 4; k++) {
    const size_t dir = c.rng.below(LPD);
    switch (c.rng.below(4)) {
      case 0: if (d[dir] + 1 > LIMIT) break; c.op("elevate"); s.OrderElevateAlongParametricDimension(dir); d[dir]++; break;
      case 1: { if (!d[dir]) break; c.op("derive"); std::array<size_t, LPD> o{}; o[dir] = 1; s = s.DerivativeWRTParametricDimension(o); d[dir]--; break; }
      case 2: { c.op("split"); const auto v = s.SplitAtPosition(0.5, dir); s = v[c.rng.below(2)]; break; }
      default: { c.op("update-degrees"); d = largeDeg(c); s.UpdateDegrees(arr<LPD>(d)); coherent(c, s, d, "large:update-degrees"); for (auto& x : s.control_points) x = c.rng.unit(); }
    }
    c.desc << c.cur_op << "[" << dir << "] ";
    coherent(c, s, d, "large:after-" + c.cur_op);
  }
  // all indices, both ways
  bool ok = true;
  for (size_t i = 0; i < prod1(d); i++) ok &= s.GlobalToLocalIndex(s.LocalToGlobalIndex(i)) == i && &s.ControlPoint(s.LocalToGlobalIndex(i)) == &s.control_points[i];
  c.check(ok, "large:index-map-round-trip");
  const LR r = largeRational<LR>(c, d);
  LR t = r;
  coherent(c, t, d, "large:rational");
}
#define F(PD, ...) \
  reg("history<" #PD "," #__VA_ARGS__ ">", history<Bz<PD, __VA_ARGS__>>); \
  reg("rational-history<" #PD "," #__VA_ARGS__ ">", history<Rz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
#if GROUP == 0
  F(1, double); F(2, Point<2>); F(3, Point<3>); F(2, double);
  F(2, Point<2, float>, double); F(2, Point<3>, float);
#else
  F(1, Point<3>); F(4, double); F(6, double); F(2, Point<3, long double>); F(3, float);
#endif
#if GROUP == 1
  regLarge("history", largeHistory, history<Bz<4, double>>, 30);
#endif
  return run_main(argc, argv, "P16");
}
