// Splines with more control points than small index types can count: sizes
// just above 2^8, up to 2^15 and above 2^16, five parametric directions.
#pragma once
#include "lib.hpp"

namespace vf {
constexpr size_t LPD = 5;
using LS = Bz<LPD, bz::Point<2>>;
using LD = Bz<LPD, double>;
using LR = Rz<LPD, bz::Point<2>>;

// degrees whose number of control points lies in [lo, hi]
inline Deg largeDegIn(Ctx& c, size_t lo, size_t hi, size_t maxd = std::min<size_t>(LIMIT, 29)) {
  for (int guard = 0; guard < 100000; guard++) {
    Deg d(LPD);
    const size_t style = c.rng.below(4);
    const size_t base = (size_t)std::pow((double)lo, 1. / LPD);
    for (auto& x : d)
      x = style == 0 ? c.rng.below(maxd + 1) : style == 1 ? std::min(maxd, base + c.rng.below(3)) : c.rng.below(std::min(maxd, 3 * base) + 1);
    if (style == 3) {  // the strides themselves become large
      const size_t b4 = (size_t)std::pow((double)lo, 1. / (LPD - 1));
      for (auto& x : d) x = std::min(maxd, b4 + c.rng.below(3)) - (b4 > 1 ? 1 : 0);
      d[c.rng.chance(.6) ? LPD - 1 : c.rng.below(LPD)] = c.rng.below(2);
    }
    const size_t n = prod1(d);
    if (n >= lo && n <= hi) return d;
  }
  throw std::runtime_error("no degrees found");
}
inline Deg largeDeg(Ctx& c) {
  const size_t k = c.rng.below(5);
  if (k == 0) { c.count("size:above-2^8"); return largeDegIn(c, 257, 1200); }
  if (k == 1) { c.count("size:up-to-2^15"); return largeDegIn(c, 8000, 33000); }
  c.count("size:above-2^16");
  return largeDegIn(c, 65537, 110000);
}
inline void describe(Ctx& c, const Deg& d) {
  c.desc << "large " << str(d) << " state " << c.rng.s[0] << "; ";
  c.nontrivial = true;
}
template <class Spl>
Spl largeSpline(Ctx& c, const Deg& d) {
  describe(c, d);
  Spl s(arr<LPD>(d));
  fillSpline(c, s, c.rng.chance(0.3) ? ONEHOT : c.rng.chance(0.3) ? INT : UNI);
  if (c.rng.chance(0.5)) {  // something that stands out in the last entries
    auto& p = s.control_points[prod1(d) - 1 - c.rng.below(3) % prod1(d)];
    PT<typename Dim<Spl>::Phys>::get(p, 0) = 2.5;
  }
  return s;
}
template <class R>
R largeRational(Ctx& c, const Deg& d, std::vector<double>* weights = nullptr) {
  using P = typename Dim<R>::Phys;
  const Bz<LPD, P, double> s = largeSpline<Bz<LPD, P, double>>(c, d);
  std::vector<double> w(s.control_points.size());
  for (auto& x : w) x = c.rng.uni(0.5, 2);
  if (weights) *weights = w;
  return R(arr<LPD>(d), s.control_points, w);
}
// rare cases: one in `every` of the family, otherwise an ordinary case
inline void regLarge(const std::string& name, CaseFn large, CaseFn ordinary, size_t every = 16) {
  reg("large-" + name, [=](Ctx& c) {
    // too slow under memcheck
    if (G.variant == "vg" || c.rng.below(every) != 0) return ordinary(c);
    c.count("large-cases");
    large(c);
  });
}
inline std::vector<ld> largeParam(Ctx& c) { return genParam<double>(c, LPD); }
// values of u where single far-away control points dominate: near a corner
inline std::vector<ld> cornerish(Ctx& c) {
  std::vector<ld> u(LPD);
  for (auto& x : u) x = (ld)(double)(c.rng.chance(0.5) ? c.rng.uni(0.9, 1) : c.rng.uni(0, 0.1));
  return u;
}
}  // namespace vf
