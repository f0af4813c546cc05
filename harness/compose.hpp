// Generators and reference composition shared by P08, P09, P10, P23.
#pragma once
#include "lib.hpp"

namespace vf {
// inner-function coefficients inside the unit cube
template <std::size_t PD, class P, class S>
void fillInner(Ctx& c, bz::BezierSpline<PD, P, S>& s) {
  const Deg d = vec<PD>(s.GetDegrees());
  const size_t n = prod1(d);
  const size_t style = c.rng.below(7);
  static const char* nm[] = {"uniform", "zero-one", "constant", "linear", "narrow", "mixed", "uniform"};
  const double lo = c.rng.uni(0, 0.5), w = c.rng.uni(0, 0.5);
  std::vector<double> cst(PT<P>::n);
  for (auto& x : cst) x = c.rng.below(3) == 0 ? (double)c.rng.below(2) : c.rng.unit();
  for (size_t i = 0; i < n; i++) {
    const Idx id = unravel(i, d);
    for (size_t q = 0; q < PT<P>::n; q++) {
      double x = 0;
      switch (style) {
        case 1: x = (double)c.rng.below(2); break;
        case 2: x = cst[q]; break;
        case 3: x = d[q % PD] ? (double)id[q % PD] / (double)d[q % PD] : 0.5; break;
        case 4: x = lo + w * c.rng.unit(); break;
        case 5: x = c.rng.chance(.4) ? (double)c.rng.below(2) : c.rng.unit(); break;
        default: x = c.rng.unit();
      }
      S v = (S)x;
      if (v > (S)1) v = (S)1;
      if (v < (S)0) v = (S)0;
      PT<P>::get(s.control_points[i], q) = v;
    }
  }
  c.desc << "inner(" << nm[style] << "): " << str(toM(s)) << "; ";
}
// degrees of outer and inner with bounded cost and binomial degrees
inline void genComposeDegrees(Ctx& c, size_t po, size_t pi, Deg& dо, Deg& di, size_t cost) {
  dо = genDeg(c, po, 6, 60);
  di = genDeg(c, pi, 5, 40);
  if (c.rng.chance(0.1)) { for (auto& x : dо) x = c.rng.below(2); }
  if (c.rng.chance(0.1)) {  // one direction of the outer spline of high degree
    const size_t k = c.rng.below(po);
    for (size_t i = 0; i < po; i++) dо[i] = i == k ? c.rng.range(4, 20) : c.rng.below(2);
    for (auto& x : di) x = c.rng.below(2);
    di[c.rng.below(pi)] = 1;
    c.count("degrees:outer-high");
  }
  for (int guard = 0; guard < 200; guard++) {
    size_t sum = 0;
    for (size_t x : dо) sum += x;
    bool ok = true;
    Deg r(pi);
    for (size_t k = 0; k < pi; k++) {
      r[k] = sum * di[k];
      if (r[k] > LIMIT) ok = false;
    }
    const size_t n = prod1(r);
    if (ok && n <= 1500 && prod1(dо) * n * n / 3 <= cost * 1000) return;
    // reduce the largest contribution
    if (c.rng.chance(0.5)) {
      size_t k = c.rng.below(po);
      if (dо[k] > 0) dо[k]--;
    } else {
      size_t k = c.rng.below(pi);
      if (di[k] > 1) di[k]--;
    }
  }
  for (auto& x : dо) x = 1;
  for (auto& x : di) x = 1;
}
inline M one(size_t pd) {
  M w(Deg(pd, 0), 1);
  w.c[0] = w.a[0] = 1;
  return w;
}
// x -> w - x
inline M minusM(const M& w, const M& x) {
  M r = addM(w, x, -1);
  return r;
}
// Composition of a polynomial outer with x_d = num_d / w (w = 1 for polynomial
// inner): returns the numerator over w^(sum of outer degrees), by de Casteljau
// steps carried out on polynomials.
inline M composeM(const M& outer, const M& num, const M& w) {
  std::vector<M> cur;
  for (size_t i = 0; i < outer.n(); i++) {
    M k(Deg(num.pd(), 0), outer.nc);
    for (size_t q = 0; q < outer.nc; q++) {
      k.c[q] = outer.c[i * outer.nc + q];
      k.a[q] = outer.a[i * outer.nc + q];
    }
    cur.push_back(k);
  }
  for (size_t d = 0; d < outer.pd(); d++) {
    const M x = num.nc == 1 ? num : num.comp(d);
    M y = minusM(w, x);
    // magnitudes: both are non-negative for inner functions in the unit cube
    for (size_t i = 0; i < y.a.size(); i++) y.a[i] = fabsl(y.c[i]) + 1e-3L * y.a[i];
    const size_t p = outer.deg[d];
    std::vector<M> nxt;
    for (size_t b = 0; b < cur.size(); b += p + 1) {
      std::vector<M> t(cur.begin() + b, cur.begin() + b + p + 1);
      for (size_t s = 0; s < p; s++) {
        for (size_t j = 0; j + 1 + s <= p; j++) t[j] = addM(mulM(y, t[j]), mulM(x, t[j + 1]));
      }
      nxt.push_back(t[0]);
    }
    cur = nxt;
  }
  return cur[0];
}
// nested evaluation
inline std::vector<ld> clampPoint(std::vector<ld> v) { return v; }
// coordinates outside of the unit interval, down to the numbers next to its bounds
template <class S>
S badCoordinate(Ctx& c) {
  static const double b[] = {-0.25, 1.25, -1e-3, 1.001, 7, -40};
  const size_t k = c.rng.below(9);
  if (k < 6) return (S)b[k];
  if (k == 6) return 1 + std::numeric_limits<S>::epsilon() * (S)c.rng.range(1, 3);
  return k == 7 ? -std::numeric_limits<S>::epsilon() : (S)-1e-18;
}
// a copy in which one coordinate is outside
template <std::size_t PD, class P, class S>
bz::BezierSpline<PD, P, S> makeBad(Ctx& c, const bz::BezierSpline<PD, P, S>& in) {
  auto bad = in;
  const size_t i = c.rng.below(bad.control_points.size()), q = c.rng.below(PT<P>::n);
  PT<P>::get(bad.control_points[i], q) = badCoordinate<typename PT<P>::S>(c);
  return bad;
}
template <std::size_t PD, class P, class S>
bz::RationalBezierSpline<PD, P, S> makeBad(Ctx& c, const bz::RationalBezierSpline<PD, P, S>& in) {
  auto p = in.GetNumeratorSpline();
  auto w = in.GetWeightFunctionSpline();
  const size_t i = c.rng.below(w.control_points.size()), q = c.rng.below(PT<P>::n);
  const S x = badCoordinate<S>(c), old = w.control_points[i];
  // next to the bounds, only weights that are powers of two read back exactly
  if (x > (S)-1e-3 && x < (S)1.001) {
    const S nw = std::exp2(std::round(std::log2(old)));
    for (size_t k = 0; k < PT<P>::n; k++) PT<P>::get(p.control_points[i], k) = std::min<S>(std::max<S>(PT<P>::get(p.control_points[i], k) / old, 0), 1) * nw;
    w.control_points[i] = nw;
  }
  PT<P>::get(p.control_points[i], q) = x * w.control_points[i];
  return bz::RationalBezierSpline<PD, P, S>(p, w);
}
}  // namespace vf
