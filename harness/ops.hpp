// The non-modifying operations of the library as one numbered list, each giving
// the bytes of everything it returned (P24, P25, P26).
#pragma once
#include "compose.hpp"

namespace vf {
template <class T>
std::string bytesOf(const T& x) { return bytes(std::vector<T>{x}); }
template <class T>
std::string snaps(const std::vector<T>& v) {
  std::string r = std::to_string(v.size()) + ":";
  for (auto& s : v) r += snap(s) + ";";
  return r;
}
template <std::size_t PD, class S>
struct Pool {
  using A = Bz<PD, S>;
  using V = Bz<PD, bz::Point<PD, S>>;
  using RA = Rz<PD, S>;
  using RV = Rz<PD, bz::Point<PD, S>>;
  std::vector<A> a;
  std::vector<V> v;   // v[0] always fits the unit cube
  std::vector<RA> ra;
  std::vector<RV> rv;  // rv[0] always fits the unit cube
  std::string all() const { return snaps(a) + snaps(v) + snaps(ra) + snaps(rv); }
};
template <class Spl>
Spl smallSpline(Ctx& c, size_t maxd, size_t cap) {
  Spl s(arr<Dim<Spl>::pd>(genDeg(c, Dim<Spl>::pd, maxd, cap)));
  fillSpline(c, s, c.rng.chance(0.3) ? INT : UNI);
  return s;
}
template <class RSpl>
RSpl smallRational(Ctx& c, size_t maxd, size_t cap) {
  using S = typename Dim<RSpl>::Sc;
  auto s = smallSpline<Bz<Dim<RSpl>::pd, typename Dim<RSpl>::Phys, S>>(c, maxd, cap);
  std::vector<S> w(s.control_points.size());
  for (auto& x : w) x = (S)c.rng.uni(0.5, 2);
  return RSpl(s.GetDegrees(), s.control_points, w);
}
template <std::size_t PD, class S>
Pool<PD, S> genPool(Ctx& c, size_t each, size_t maxd = 3, size_t cap = 16) {
  Pool<PD, S> p;
  for (size_t i = 0; i < each; i++) {
    p.a.push_back(smallSpline<Bz<PD, S>>(c, maxd, cap));
    auto v = smallSpline<Bz<PD, bz::Point<PD, S>>>(c, maxd, cap);
    if (i == 0) for (auto& x : v.control_points) for (auto& y : x) y = (S)c.rng.unit();
    p.v.push_back(v);
    p.ra.push_back(smallRational<Rz<PD, S>>(c, 2, 12));
    auto r = smallRational<Rz<PD, bz::Point<PD, S>>>(c, 2, 12);
    if (i == 0) {
      Bz<PD, bz::Point<PD, S>> b(r.GetDegrees());
      for (auto& x : b.control_points) for (auto& y : x) y = (S)c.rng.uni(0.05, 0.95);
      r = Rz<PD, bz::Point<PD, S>>(b.GetDegrees(), b.control_points, r.GetWeights());
    }
    p.rv.push_back(r);
  }
  c.desc << "pool";
  for (auto& s : p.a) c.desc << " " << str(toM(s));
  for (auto& s : p.v) c.desc << " " << str(toM(s));
  c.desc << " rational";
  for (auto& s : p.ra) c.desc << " " << str(toM(s.GetNumeratorSpline())) << str(toM(s.GetWeightFunctionSpline()));
  for (auto& s : p.rv) c.desc << " " << str(toM(s.GetNumeratorSpline())) << str(toM(s.GetWeightFunctionSpline()));
  c.desc << "; ";
  return p;
}
constexpr size_t NCONST = 44;
inline const char* constName(size_t op) {
  static const char* n[NCONST] = {
      "Evaluate", "ForwardEvaluate", "EvaluateDerivative", "BasisFunctions", "BasisFunctionsDerivatives",
      "BasisFunctionContributions", "DerivativeSpline", "Split", "Split-list", "add",
      "sub", "mul", "mul-vector", "dot", "scale", "negate", "shift", "RaisePower", "ExtractDimension", "corners",
      "Compose", "Compose-list", "ComposeSensitivity", "Compose-rational", "ComposeSensitivity-rational",
      "r-Evaluate", "r-ForwardEvaluate", "r-EvaluateDerivative", "r-BasisFunctions", "r-BasisFunctionsDerivatives",
      "r-DerivativeSpline", "r-Split", "r-add", "r-sub", "r-mul", "r-scale", "r-shift", "r-corners", "r-Compose",
      "r-Compose-rational", "r-ComposeSensitivity", "r-ExtractDimension", "equality-and-copies", "index-maps"};
  return n[op];
}
// one non-modifying operation; the operands and parameters come from rng alone
template <std::size_t PD, class S>
std::string constOp(const Pool<PD, S>& p, Rng& g, size_t op) {
  std::vector<ld> u(PD);
  for (auto& x : u) x = (ld)(S)g.unit();
  const auto q = pt<PD, S>(u);
  std::array<std::size_t, PD> o{};
  for (auto& x : o) x = g.below(3);
  const auto& a = p.a[g.below(p.a.size())];
  const auto& b = p.a[g.below(p.a.size())];
  const auto& v = p.v[g.below(p.v.size())];
  const auto& w = p.v[g.below(p.v.size())];
  const auto& in = p.v[0];
  const auto& ra = p.ra[g.below(p.ra.size())];
  const auto& rb = p.ra[g.below(p.ra.size())];
  const auto& rv = p.rv[g.below(p.rv.size())];
  const auto& rw = p.rv[g.below(p.rv.size())];
  const auto& rin = p.rv[0];
  const size_t dir = g.below(PD);
  const S x = (S)g.uni(0.1, 0.9), f = (S)g.uni(-2, 2);
  // operations on copies with small degrees keep products and compositions within the table
  switch (op) {
    case 0: return bytesOf(a.Evaluate(q)) + bytesOf(v.Evaluate(q));
    case 1: return bytesOf(a.ForwardEvaluate(q)) + bytesOf(v.ForwardEvaluate(q));
    case 2: return bytesOf(a.EvaluateDerivative(q, o)) + bytesOf(v.EvaluateDerivative(q, o));
    case 3: return bytes(a.BasisFunctions(q)) + bytes(v.BasisFunctions(q));
    case 4: return bytes(a.BasisFunctionsDerivatives(q, o)) + bytes(v.BasisFunctionsDerivatives(q, o));
    case 5: { std::string r; for (auto& l : v.BasisFunctionContributions(q)) r += bytes(l); return r; }
    case 6: return snap(a.DerivativeWRTParametricDimension(o)) + snap(v.DerivativeWRTParametricDimension(o));
    case 7: return snaps(a.SplitAtPosition(x, dir)) + snaps(v.SplitAtPosition(x, dir));
    case 8: return snaps(v.SplitAtPosition(std::vector<S>{(S)0.25, (S)0.5, (S)0.8}, dir));
    case 9: return snap(a + b) + snap(v + w);
    case 10: return snap(a - b) + snap(v - w);
    case 11: return snap(a * b);
    case 12: return snap(a * v);
    case 13: return snap(v * w);
    case 14: return snap(a * f) + snap(f * v);
    case 15: return snap(-a) + snap(-v);
    case 16: { auto s = v.control_points[0]; return snap(v + s) + snap(s + w) + snap(v - s) + snap(s - w); }
    case 17: return snap(a.RaisePower(g.below(4)));
    case 18: return snap(v.ExtractDimension(dir));
    case 19: return bytesOf(a.MaximumCorner()) + bytesOf(v.MinimumCorner()) + std::to_string(v.FitsIntoUnitCube());
    case 20: return snap(a.Compose(in)) + snap(v.Compose(in));
    case 21: return snaps(a.Compose(std::vector<typename Pool<PD, S>::V>{in, in}));
    case 22: return snaps(v.ComposeSensitivity(in));
    case 23: return snap(v.Compose(rin));
    case 24: return snaps(a.ComposeSensitivity(rin));
    case 25: return bytesOf(ra.Evaluate(q)) + bytesOf(rv.Evaluate(q));
    case 26: return bytesOf(ra.ForwardEvaluate(q)) + bytesOf(rv.ForwardEvaluate(q));
    case 27: return bytesOf(rv.EvaluateDerivative(q, o));
    case 28: return bytes(rv.BasisFunctions(q)) + bytes(ra.UnweightedBasisFunctions(q));
    case 29: return bytes(rv.BasisFunctionsDerivatives(q, o));
    case 30: { std::array<std::size_t, PD> k{}; k[dir] = 1; return snap(ra.DerivativeWRTParametricDimension(k)) + snap(rv.DerivativeWRTParametricDimension(k)); }
    case 31: return snaps(rv.SplitAtPosition(x, dir)) + snaps(ra.SplitAtPosition(std::vector<S>{(S)0.3, (S)0.6}, dir));
    case 32: return snap(ra + rb) + snap(rv + rw);
    case 33: return snap(ra - rb) + snap(rv - rw);
    case 34: return snap(ra * rv) + snap(rv * rw);
    case 35: return snap(ra * f) + snap(-rv);
    case 36: { auto s = rv.ControlPoint(std::array<std::size_t, PD>{}); return snap(rv + s) + snap(rv - s); }
    case 37: return bytesOf(rv.MaximumCorner()) + bytesOf(ra.MinimumCorner()) + std::to_string(rv.FitsIntoUnitCube());
    case 38: return snap(rv.Compose(in));
    case 39: return snap(ra.Compose(rin));
    case 40: return snaps(ra.ComposeSensitivity(in));
    case 41: return snap(rv.ExtractDimension(dir));
    case 42: { auto t = v; auto r = rv; return snap(t) + snap(r) + std::to_string(t == v) + std::to_string(a == b); }
    default: {
      std::string r;
      for (size_t i = 0; i < v.GetNumberOfControlPoints(); i++) { auto id = v.LocalToGlobalIndex(i); r += str(vec<PD>(id)) + std::to_string(v.GlobalToLocalIndex(id)) + bytesOf(v.ControlPoint(id)); }
      return r + str(vec<PD>(rv.GetDegrees())) + std::to_string(rv.GetNumberOfControlPoints()) + bytes(rv.GetWeights());
    }
  }
}
}  // namespace vf
