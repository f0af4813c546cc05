// P29: microstructures, the purpose of the library end to end: a deformation
// function is split into a group of elements, a tile of several patches is
// composed with every element.  Monitors look at the whole structure: it is
// where the two functions put it, it is connected, it stays inside its element,
// derivatives follow the chain rule, sensitivities predict changes, and it
// survives the exchange as text.
#include "compose.hpp"
#include "bezman/src/utils/base64.hpp"
#include "bezman/src/utils/logger.hpp"
using namespace vf;

template <class X> struct isRat : std::false_type {};
template <std::size_t PD, class P, class S> struct isRat<bz::RationalBezierSpline<PD, P, S>> : std::true_type {};
template <class X>
RM asRM(const X& x) {
  if constexpr (isRat<X>::value) return toRM(x);
  else {
    RM r;
    r.num = toM(x);
    r.w = M(r.num.deg, 1);
    for (auto& v : r.w.c) v = 1;
    for (auto& v : r.w.a) v = 1;
    return r;
  }
}
template <class X>
Deg degOf(const X& x) { return vec<Dim<X>::pd>(x.GetDegrees()); }

// a piece of a spline and the box it covers
template <class X>
struct Part {
  X s;
  std::vector<ld> lo, hi;
  Idx pos;
};
// split along all directions at the given positions, by lists or one by one
template <class X>
std::vector<Part<X>> grid(Ctx& c, const X& s, const std::vector<std::vector<typename Dim<X>::Sc>>& cuts) {
  using S = typename Dim<X>::Sc;
  constexpr size_t PD = Dim<X>::pd;
  std::vector<Part<X>> parts{{s, std::vector<ld>(PD, 0), std::vector<ld>(PD, 1), Idx(PD, 0)}};
  std::vector<size_t> order(PD);
  for (size_t k = 0; k < PD; k++) order[k] = k;
  for (size_t k = PD; k-- > 1;) std::swap(order[k], order[c.rng.below(k + 1)]);
  for (size_t k : order) {
    const bool list = c.rng.chance(0.5);
    std::vector<Part<X>> next;
    for (auto& p : parts) {
      std::vector<X> l;
      if (list) l = p.s.SplitAtPosition(cuts[k], k);
      else {  // peel off from the front
        X rest = p.s;
        S at = 0;
        for (S x : cuts[k]) {
          auto two = rest.SplitAtPosition((x - at) / ((S)1 - at), k);
          c.check(two.size() == 2, "grid:two-pieces");
          l.push_back(two[0]);
          rest = two[1];
          at = x;
        }
        l.push_back(rest);
      }
      c.check(l.size() == cuts[k].size() + 1, "grid:pieces");
      for (size_t i = 0; i < l.size(); i++) {
        Part<X> q{l[i], p.lo, p.hi, p.pos};
        q.pos[k] = i;
        q.lo[k] = i ? (ld)cuts[k][i - 1] : 0;
        q.hi[k] = i < cuts[k].size() ? (ld)cuts[k][i] : 1;
        next.push_back(q);
      }
    }
    parts = next;
  }
  return parts;
}
template <class S>
std::vector<std::vector<S>> genCuts(Ctx& c, size_t pd, size_t maxn) {
  std::vector<std::vector<S>> r(pd);
  for (auto& l : r) {
    const size_t n = c.rng.below(maxn + 1);
    for (size_t i = 0; i < n; i++) l.push_back((S)(((double)i + c.rng.uni(0.2, 0.8)) / (double)n));
    std::sort(l.begin(), l.end());
  }
  c.desc << "cuts";
  for (auto& l : r) { c.desc << " {"; for (auto x : l) c.desc << x << ","; c.desc << "}"; }
  c.desc << "; ";
  return r;
}
// a tile whose opposite faces fit to each other
template <class T>
T genTile(Ctx& c, size_t most) {
  constexpr size_t PD = Dim<T>::pd;
  using P = typename Dim<T>::Phys;
  using S = typename Dim<T>::Sc;
  Deg d(PD);
  for (auto& x : d) x = c.rng.range(1, PD == 3 ? 2 : most);
  T t(arr<PD>(d));
  const size_t n = t.control_points.size();
  for (size_t i = 0; i < n; i++)
    for (size_t q = 0; q < PT<P>::n; q++) PT<P>::get(t.control_points[i], q) = (S)c.rng.unit();
  for (size_t k = 0; k < PD; k++)
    for (size_t i = 0; i < n; i++) {
      Idx id = unravel(i, d);
      if (id[k] == d[k]) {
        id[k] = 0;
        const P p = t.ControlPoint(arr<PD>(id));
        for (size_t q = 0; q < PT<P>::n; q++) if (q != k) PT<P>::get(t.control_points[i], q) = PT<P>::get(p, q);
        PT<P>::get(t.control_points[i], k) = 1;
      } else if (id[k] == 0) PT<P>::get(t.control_points[i], k) = 0;
    }
  c.desc << "tile: " << str(toM(t)) << "; ";
  return t;
}
template <class X>
X genDeformation(Ctx& c) {
  constexpr size_t PD = Dim<X>::pd;
  using P = typename Dim<X>::Phys;
  using S = typename Dim<X>::Sc;
  Deg d(PD);
  for (auto& x : d) x = c.rng.range(PD == 3 ? 0 : 1, PD == 1 ? 4 : PD == 2 ? (isRat<X>::value ? 2 : 3) : 1);
  Bz<PD, P, S> s(arr<PD>(d));
  static const int modes[] = {UNI, UNI, INT, GREV, NEAR, BIG};
  const int mode = modes[c.rng.below(6)];
  fillSpline(c, s, mode);
  c.desc << "deformation: " << modeName(mode) << " " << str(toM(s)) << "; ";
  if constexpr (isRat<X>::value) {
    std::vector<S> w;
    for (size_t i = 0; i < s.control_points.size(); i++) w.push_back((S)c.rng.uni(0.3, 3));
    c.desc << "w{";
    for (auto x : w) c.desc << x << ",";
    c.desc << "}; ";
    return X(arr<PD>(d), s.control_points, w);
  } else return s;
}
// component-wise range of the actual control points
template <class X>
void range(const X& x, std::vector<ld>& lo, std::vector<ld>& hi) {
  const RM r = asRM(x);
  lo.assign(r.num.nc, INFINITY);
  hi.assign(r.num.nc, -INFINITY);
  for (size_t i = 0; i < r.num.n(); i++)
    for (size_t q = 0; q < r.num.nc; q++) {
      const ld v = r.num.c[i * r.num.nc + q] / r.w.c[i];
      lo[q] = std::min(lo[q], v);
      hi[q] = std::max(hi[q], v);
    }
}

template <class O, class T>
void structureCase(Ctx& c) {
  constexpr size_t PO = Dim<O>::pd, PI = Dim<T>::pd;
  using S = typename Dim<O>::Sc;
  using Phys = typename Dim<O>::Phys;
  constexpr size_t NQ = PT<Phys>::n;
  const O def = genDeformation<O>(c);
  const T tile = genTile<T>(c, isRat<O>::value && PO > 1 ? 2 : 3);
  const RM rd = asRM(def);
  const M mt = toM(tile);
  c.nontrivial = true;
  c.check(tile.FitsIntoUnitCube(), "tile:unit-cube");
  c.op("Split");
  const auto elems = grid(c, def, genCuts<S>(c, PO, PO == 3 ? 1 : 2));
  const auto patches = grid(c, tile, genCuts<S>(c, PI, PI == 3 ? 1 : 2));
  std::vector<T> inner;
  for (auto& p : patches) inner.push_back(p.s);
  std::vector<std::string> before;
  for (auto& e : elems) before.push_back(snap(e.s));
  for (auto& p : inner) before.push_back(snap(p));
  ld mag = 0;
  for (size_t i = 0; i < rd.num.n(); i++) for (size_t q = 0; q < NQ; q++) mag = std::max(mag, fabsl(rd.num.c[i * NQ + q] / rd.w.c[i]));
  const ld tol = 300 * RR<S, Phys>() * mag + TT<S, Phys>();

  // all compositions
  using R = decltype(elems[0].s.Compose(inner[0]));
  std::vector<std::vector<R>> micro;
  c.op("Compose");
  for (auto& e : elems) {
    std::vector<R> l;
    if constexpr (!isRat<O>::value) {
      if (c.rng.chance(0.5)) { for (auto& x : e.s.Compose(inner)) l.push_back(x); c.count("composed-as-list"); }
    }
    if (l.empty()) for (auto& p : inner) l.push_back(e.s.Compose(p));
    c.check(l.size() == inner.size(), "Compose:count");
    micro.push_back(l);
  }
  c.count("patches", elems.size() * inner.size());
  auto value = [&](const R& r, const std::vector<ld>& u) {
    const auto v = r.Evaluate(pt<PI, S>(u));
    std::vector<ld> o;
    for (size_t q = 0; q < NQ; q++) o.push_back((ld)PT<Phys>::get(v, q));
    return o;
  };
  auto same = [&](const std::vector<ld>& a, const std::vector<ld>& b, ld t, const std::string& key) {
    for (size_t q = 0; q < a.size(); q++) c.check_f(close(a[q], b[q], t), key, [&] { return str(a) + " against " + str(b); });
  };
  // where it is, and that it stays in its element
  for (size_t e = 0; e < elems.size(); e++) {
    std::vector<ld> elo, ehi, mlo, mhi;
    range(elems[e].s, elo, ehi);
    for (size_t p = 0; p < inner.size(); p++) {
      const R& m = micro[e][p];
      structure(c, m, "Compose");
      const auto u = genParam<S>(c, PI);
      std::vector<ld> ut(PI), ud(PO);
      for (size_t k = 0; k < PI; k++) ut[k] = patches[p].lo[k] + u[k] * (patches[p].hi[k] - patches[p].lo[k]);
      const auto x = mt.eval(ut).v;
      for (size_t k = 0; k < PO; k++) ud[k] = elems[e].lo[k] + x[k] * (elems[e].hi[k] - elems[e].lo[k]);
      const auto want = rd.eval(ud).v;
      c.op("Evaluate");
      same(value(m, u), want, tol, "misplaced");
      range(m, mlo, mhi);
      for (size_t q = 0; q < NQ; q++) c.check_f(mlo[q] >= elo[q] - tol && mhi[q] <= ehi[q] + tol, "control-points-outside-of-element", [&] { return str(mlo) + str(mhi) + " element " + str(elo) + str(ehi); });
      if constexpr (!isRat<R>::value) {
        const auto a = m.MinimumCorner(), b = m.MaximumCorner();
        for (size_t q = 0; q < NQ; q++) c.check((ld)PT<Phys>::get(a, q) == mlo[q] && (ld)PT<Phys>::get(b, q) == mhi[q], "corners");
      }
    }
  }
  // neighbours: inside of an element, and across elements
  auto find = [](const auto& parts, const Idx& pos) {
    for (size_t i = 0; i < parts.size(); i++) if (parts[i].pos == pos) return i;
    return parts.size();
  };
  c.op("neighbours");
  for (size_t p = 0; p < patches.size(); p++)
    for (size_t k = 0; k < PI; k++) {
      Idx pos = patches[p].pos;
      pos[k]++;
      size_t np = find(patches, pos);
      const bool inside = np < patches.size();
      if (!inside) { pos[k] = 0; np = find(patches, pos); }  // opposite face of the tile
      for (size_t e = 0; e < elems.size(); e++) {
        size_t ne = e;
        if (!inside) {
          Idx ep = elems[e].pos;
          ep[k]++;
          ne = find(elems, ep);
          if (ne == elems.size()) continue;
        }
        for (int rep = 0; rep < 3; rep++) {
          auto u = genParam<S>(c, PI), v = u;
          u[k] = 1;
          v[k] = 0;
          same(value(micro[e][p], u), value(micro[ne][np], v), tol, inside ? "gap-between-patches" : "gap-between-elements");
        }
        c.count(inside ? "faces-inside" : "faces-across-elements");
      }
    }
  // sensitivities of one patch
  {
    const size_t e = c.rng.below(elems.size()), p = c.rng.below(inner.size());
    c.op("ComposeSensitivity");
    const auto sens = elems[e].s.ComposeSensitivity(inner[p]);
    const RM re = asRM(elems[e].s);
    c.check(sens.size() == re.num.n(), "sensitivity:count");
    O moved = elems[e].s;
    std::vector<std::vector<ld>> dx(re.num.n(), std::vector<ld>(NQ, 0));
    for (size_t i = 0; i < re.num.n(); i++)
      for (size_t q = 0; q < NQ; q++) {
        const S d = (S)(c.rng.uni(-0.1, 0.1) * (double)mag);
        dx[i][q] = (ld)d;
        if constexpr (isRat<O>::value) PT<Phys>::get(moved.GetWeightedControlPoints()[i], q) += d * moved.GetWeights()[i];
        else PT<Phys>::get(moved.control_points[i], q) += d;
      }
    c.op("Compose-moved");
    const R m2 = moved.Compose(inner[p]);
    for (int rep = 0; rep < 3; rep++) {
      const auto u = genParam<S>(c, PI);
      auto want = value(micro[e][p], u);
      for (size_t i = 0; i < sens.size(); i++) {
        const ld b = (ld)sens[i].Evaluate(pt<PI, S>(u));
        for (size_t q = 0; q < NQ; q++) want[q] += b * dx[i][q];
      }
      same(value(m2, u), want, 3 * tol, "sensitivity:change");
    }
    // sensitivities of neighbouring patches agree on the common face
    const size_t k = c.rng.below(PI);
    Idx pos = patches[p].pos;
    pos[k]++;
    const size_t np = find(patches, pos);
    if (np < patches.size()) {
      const auto s2 = elems[e].s.ComposeSensitivity(inner[np]);
      auto u = genParam<S>(c, PI), v = u;
      u[k] = 1;
      v[k] = 0;
      for (size_t i = 0; i < sens.size(); i++)
        c.check(close((ld)sens[i].Evaluate(pt<PI, S>(u)), (ld)s2[i].Evaluate(pt<PI, S>(v)), 300 * RR<S, Phys>()), "sensitivity:gap");
      c.count("sensitivity-faces");
    }
  }
  // chain rule for one patch
  {
    const size_t e = c.rng.below(elems.size()), p = c.rng.below(inner.size()), k = c.rng.below(PI);
    std::array<std::size_t, PI> dk{};
    dk[k] = 1;
    c.op("derivative-of-composition");
    const auto left = micro[e][p].DerivativeWRTParametricDimension(dk);
    const auto dpatch = inner[p].DerivativeWRTParametricDimension(dk);
    ld dm = 0;  // magnitude of derivatives
    for (size_t j = 0; j < PO; j++) dm += (ld)(degOf(elems[e].s)[j] + 1);
    dm *= 40 * (ld)(degOf(inner[p])[k] + 1);
    const auto u = genParam<S>(c, PI);
    const auto up = pt<PI, S>(u);
    const auto lv = left.Evaluate(up);
    std::vector<ld> l, r(NQ, 0);
    for (size_t q = 0; q < NQ; q++) l.push_back((ld)PT<Phys>::get(lv, q));
    const auto x = inner[p].Evaluate(up);
    const auto dxv = dpatch.Evaluate(up);
    for (size_t j = 0; j < PO; j++) {
      std::array<std::size_t, PO> dj{};
      dj[j] = 1;
      c.op("chain-rule");
      bz::Point<PO, S> xp;
      for (size_t i = 0; i < PO; i++) xp[i] = PT<typename Dim<T>::Phys>::get(x, i);
      const auto g = elems[e].s.EvaluateDerivative(xp, dj);
      // and as a composition of its own
      const auto gs = elems[e].s.DerivativeWRTParametricDimension(dj).Compose(inner[p]).Evaluate(up);
      const ld f = (ld)PT<typename Dim<T>::Phys>::get(dxv, j);
      for (size_t q = 0; q < NQ; q++) {
        r[q] += (ld)PT<Phys>::get(g, q) * f;
        c.check(close((ld)PT<Phys>::get(gs, q), (ld)PT<Phys>::get(g, q), 20 * dm * tol), "derivative-composed");
      }
    }
    same(l, r, 20 * dm * tol, "chain-rule");
  }
  // exchange as text, of the homogeneous form
  {
    using B = bezman::utils::Base64;
    const R& m = micro[c.rng.below(elems.size())][c.rng.below(inner.size())];
    c.op("exchange");
    auto coded = [&](const auto& list) {
      using E = std::decay_t<decltype(list[0])>;
      std::vector<E> back;
      for (auto& x : B::template Decode<E>(B::Encode(list))) {
        E y{};
        if constexpr (PT<E>::scalar) y = x;
        else for (size_t q = 0; q < PT<E>::n; q++) y[q] = x[q];
        back.push_back(y);
      }
      return back;
    };
    if constexpr (isRat<R>::value) {
      const R t(m.GetDegrees(), [&] { auto l = coded(m.GetWeightedControlPoints()); auto w = coded(m.GetWeights()); for (size_t i = 0; i < l.size(); i++) l[i] = l[i] / w[i]; return l; }(), coded(m.GetWeights()));
      c.check(bytes(coded(m.GetWeightedControlPoints())) == bytes(m.GetWeightedControlPoints()) && bytes(coded(m.GetWeights())) == bytes(m.GetWeights()), "exchange");
      const auto u = genParam<S>(c, PI);
      same(value(t, u), value(m, u), tol, "exchange:value");
    } else {
      const R t(m.GetDegrees(), coded(m.GetControlPoints()));
      c.check(t == m && snap(t) == snap(m), "exchange");
    }
  }
  size_t i = 0;
  for (auto& e : elems) c.check(before[i++] == snap(e.s), "element-modified");
  for (auto& p : inner) c.check(before[i++] == snap(p), "tile-modified");
}

// the ring of the example, filled with a cross of given thickness
void ringCase(Ctx& c) {
  using P2 = bz::Point<2>;
  using T = Bz<2, P2>;
  using O = Rz<2, P2>;
  const double thickness = c.rng.uni(0.05, 0.9), ri = c.rng.uni(0.2, 2), ro = ri + c.rng.uni(0.1, 3);
  const int n = (int)c.rng.range(3, 9);
  c.desc << "thickness=" << thickness << " radii " << ri << " " << ro << " segments " << n << "; ";
  c.nontrivial = true;
  const double a = .5 - .5 * thickness, b = .5 + .5 * thickness;
  const std::array<std::size_t, 2> one{1, 1};
  auto quad = [&](double x0, double x1, double y0, double y1) { return T{one, {P2{x0, y0}, P2{x1, y0}, P2{x0, y1}, P2{x1, y1}}}; };
  std::vector<T> tile{quad(a, b, a, b), quad(0, a, a, b), quad(b, 1, a, b), quad(a, b, 0, a), quad(a, b, b, 1)};
  for (auto& t : tile)
    for (size_t k = c.rng.below(3); k--;) { t.OrderElevateAlongParametricDimension(c.rng.below(2)); }
  const double seg = 2 * std::acos(-1) / n, w = std::cos(seg / 2);
  std::vector<O> ring;
  for (int i = 0; i < n; i++) {
    std::vector<P2> pts;
    for (double r : {ro, ri})
      for (int j = 0; j < 3; j++) {
        const double t = seg * (i + .5 * j), f = j == 1 ? r / w : r;
        pts.push_back(P2{f * std::cos(t), f * std::sin(t)});
      }
    ring.push_back(O{{2, 1}, pts, {1, w, 1, 1, w, 1}});
  }
  c.op("Compose");
  std::vector<std::vector<O>> m;
  for (auto& r : ring) {
    m.emplace_back();
    for (auto& t : tile) m.back().push_back(r.Compose(t));
  }
  const ld tol = 1e-8L * ro;
  for (int i = 0; i < n; i++) {
    const double v = c.rng.below(4) ? c.rng.unit() : (double)c.rng.below(2);
    auto at = [&](int s, int p, double x, double y) { c.op("Evaluate"); return m[(s + n) % n][p].Evaluate(x, y); };
    auto meet = [&](const P2& x, const P2& y, const char* key) { c.check_f(close(x[0], y[0], tol) && close(x[1], y[1], tol), key, [&] { std::ostringstream o; o << x << y; return o.str(); }); };
    meet(at(i, 1, 1, v), at(i, 0, 0, v), "gap-between-patches");
    meet(at(i, 2, 0, v), at(i, 0, 1, v), "gap-between-patches");
    meet(at(i, 3, v, 1), at(i, 0, v, 0), "gap-between-patches");
    meet(at(i, 4, v, 0), at(i, 0, v, 1), "gap-between-patches");
    meet(at(i, 2, 1, v), at(i + 1, 1, 0, v), "gap-between-elements");
    // arcs are exact: curves of constant radius
    c.check(close(hypotl(at(i, 3, v, 0)[0], at(i, 3, v, 0)[1]), ro, tol) && close(hypotl(at(i, 4, v, 1)[0], at(i, 4, v, 1)[1]), ri, tol), "arc-not-circular");
    for (int p = 0; p < 5; p++) {
      const double x = c.rng.unit(), y = c.rng.unit();
      const P2 q = at(i, p, x, y);
      // the tile is aligned with the polar directions: its second coordinate gives the radius
      const double ty = tile[p].Evaluate(x, y)[1];
      c.check_f(close(hypotl(q[0], q[1]), (ld)ro + ((ld)ri - ro) * ty, tol), "radius", [&] { std::ostringstream o; o << q; return o.str(); });
    }
    c.count("ring-segments");
  }
}
#define F(...) reg("structure<" #__VA_ARGS__ ">", structureCase<__VA_ARGS__>)
int main(int argc, char** argv) {
  using bz::Point;
  using B1d = Bz<1, double>; using B12 = Bz<1, Point<2>>; using B13 = Bz<1, Point<3>>; using B2d = Bz<2, double>; using B22 = Bz<2, Point<2>>;
  using B23 = Bz<2, Point<3>>; using B33 = Bz<3, Point<3>>;
  using R12 = Rz<1, Point<2>>; using R22 = Rz<2, Point<2>>; using R23 = Rz<2, Point<3>>; using R33 = Rz<3, Point<3>>;
#if GROUP == 0
  F(B22, B22); F(B22, B12); F(B12, B1d); F(R22, B22); F(R23, B12); F(B23, B22);
  reg("ring", ringCase);
#else
  F(B33, B33); F(B33, B23); F(B33, B13); F(R33, B23); F(B2d, B22); F(Bz<2, Point<2, float>>, Bz<2, Point<2, float>>); F(Bz<2, Point<2, long double>>, Bz<1, Point<2, long double>>); F(R12, B1d);
#endif
  return run_main(argc, argv, "P29");
}
