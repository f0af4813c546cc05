// Adapters between the library under test and the reference model: input
// generators, structural monitors and tolerant comparisons.
#pragma once
#include "model.hpp"

#include "bezman/src/bezier_spline.hpp"
#include "bezman/src/rational_bezier_spline.hpp"

namespace vf {
namespace bz = bezman;

template <class P>
struct PT {  // scalar valued
  static constexpr size_t n = 1;
  static constexpr bool scalar = true;
  using S = P;
  static const P& get(const P& p, size_t) { return p; }
  static P& get(P& p, size_t) { return p; }
};
template <std::size_t N, class B>
struct PT<bz::Point<N, B>> {
  static constexpr size_t n = N;
  static constexpr bool scalar = false;
  using S = B;
  static const B& get(const bz::Point<N, B>& p, size_t k) { return p[k]; }
  static B& get(bz::Point<N, B>& p, size_t k) { return p[k]; }
};

// relative accuracy demanded, as a multiple of the magnitude of the terms
template <class S>
constexpr ld R() {
  if constexpr (std::is_same_v<S, float>) return 3e-4L;
  else if constexpr (std::is_same_v<S, long double>) return 3e-17L;
  else return 1e-10L;
}

// absolute slack: below this, intermediate results may underflow
template <class S>
constexpr ld TINY() {
  if constexpr (std::is_same_v<S, float>) return 1e-28L;
  else return 1e-290L;
}

// coordinates and parameters may differ in type: the coarser one counts
template <class S, class P>
constexpr ld RR() { return std::max(R<S>(), R<typename PT<P>::S>()); }
template <class S, class P>
constexpr ld TT() { return std::max(TINY<S>(), TINY<typename PT<P>::S>()); }
// operands of different scalar types: accuracy of the coarser, as a multiple of
// the accuracy demanded of the result
template <class Res, class... Operands>
constexpr ld mixed() {
  return std::max({R<Res>(), R<Operands>()...}) / R<Res>();
}

template <class S>
inline S widen(ld x) { return static_cast<S>(x); }

template <std::size_t PD, class P, class S = typename PT<P>::S>
using Bz = bz::BezierSpline<PD, P, S>;
template <std::size_t PD, class P, class S = typename PT<P>::S>
using Rz = bz::RationalBezierSpline<PD, P, S>;

template <std::size_t PD>
std::array<std::size_t, PD> arr(const Idx& v) {
  std::array<std::size_t, PD> a{};
  for (size_t i = 0; i < PD; i++) a[i] = v[i];
  return a;
}
template <std::size_t PD>
Idx vec(const std::array<std::size_t, PD>& a) { return Idx(a.begin(), a.end()); }
template <std::size_t PD, class S>
bz::Point<PD, S> pt(const std::vector<ld>& u) {
  bz::Point<PD, S> p;
  for (size_t i = 0; i < PD; i++) p[i] = (S)u[i];
  return p;
}
template <class S>
std::vector<ld> roundto(std::vector<ld> u) {
  for (auto& x : u) x = (ld)(S)x;
  return u;
}

template <std::size_t PD, class P, class S>
M toM(const bz::BezierSpline<PD, P, S>& s) {
  Deg d = vec<PD>(s.GetDegrees());
  M m;
  m.deg = d;
  m.nc = PT<P>::n;
  const size_t N = s.control_points.size();
  m.c.resize(N * m.nc);
  m.a.resize(N * m.nc);
  for (size_t i = 0; i < N; i++)
    for (size_t q = 0; q < m.nc; q++) {
      m.c[i * m.nc + q] = (ld)PT<P>::get(s.control_points[i], q);
      m.a[i * m.nc + q] = fabsl(m.c[i * m.nc + q]);
    }
  return m;
}
template <std::size_t PD, class P, class S>
RM toRM(const bz::RationalBezierSpline<PD, P, S>& s) {
  return RM{toM(s.GetNumeratorSpline()), toM(s.GetWeightFunctionSpline())};
}

inline std::string str(const Idx& d) {
  std::string s = "(";
  for (size_t i = 0; i < d.size(); i++) s += (i ? "," : "") + std::to_string(d[i]);
  return s + ")";
}
inline std::string str(const std::vector<ld>& v) {
  std::ostringstream o;
  o.precision(19);
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
inline std::string str(const M& m) {
  std::ostringstream o;
  o.precision(17);
  o << "deg" << str(m.deg) << " ctps{";
  for (size_t i = 0; i < m.c.size(); i++) o << (i ? (i % m.nc ? "," : " | ") : "") << m.c[i];
  o << "}";
  return o.str();
}

// ---- structural monitor -----------------------------------------------------
template <std::size_t PD, class P, class S>
void structure(Ctx& c, const bz::BezierSpline<PD, P, S>& s, const std::string& lab) {
  const Deg d = vec<PD>(s.GetDegrees());
  for (size_t x : d)
    c.check_f(x < 4096, lab + ":absurd-degree", [&] { return "degrees " + str(d); });
  const size_t n = prod1(d);
  c.check_f(s.GetNumberOfControlPoints() == n, lab + ":count",
            [&] { return "number of control points " + std::to_string(s.GetNumberOfControlPoints()) +
                         " for degrees " + str(d); });
  c.check_f(s.control_points.size() == n && s.GetControlPoints().size() == n, lab + ":storage-size",
            [&] { return "stored " + std::to_string(s.control_points.size()) + " for degrees " + str(d); });
  // the index maps agree with first-direction-fastest order
  const size_t probes = std::min<size_t>(n, 24);
  for (size_t k = 0; k < probes; k++) {
    const size_t i = n <= 24 ? k : (k < 8 ? k : k < 16 ? n - 1 - (k - 8) : c.rng.below(n));
    const Idx id = unravel(i, d);
    const auto gi = s.LocalToGlobalIndex(i);
    c.check_f(vec<PD>(gi) == id, lab + ":index-map",
              [&] { return "index " + std::to_string(i) + " -> " + str(vec<PD>(gi)) + " want " + str(id); });
    c.check_f(s.GlobalToLocalIndex(arr<PD>(id)) == i, lab + ":index-map-inverse",
              [&] { return "multi index " + str(id) + " -> " + std::to_string(s.GlobalToLocalIndex(arr<PD>(id))) +
                           " want " + std::to_string(i); });
    c.check_f(&s.ControlPoint(arr<PD>(id)) == &s.control_points[i], lab + ":accessor",
              [&] { return "ControlPoint" + str(id) + " is not control point " + std::to_string(i); });
  }
}
template <std::size_t PD, class P, class S>
void structure(Ctx& c, const bz::RationalBezierSpline<PD, P, S>& s, const std::string& lab) {
  structure(c, s.GetNumeratorSpline(), lab + ":numerator");
  structure(c, s.GetWeightFunctionSpline(), lab + ":weightfn");
  c.check_f(s.GetNumeratorSpline().GetDegrees() == s.GetWeightFunctionSpline().GetDegrees(),
            lab + ":num-den-degrees", [&] {
              return "numerator " + str(vec<PD>(s.GetNumeratorSpline().GetDegrees())) + " weight function " +
                     str(vec<PD>(s.GetWeightFunctionSpline().GetDegrees()));
            });
  c.check(s.GetDegrees() == s.GetNumeratorSpline().GetDegrees(), lab + ":degrees-getter");
  c.check(s.GetNumberOfControlPoints() == s.GetWeightedControlPoints().size() &&
              s.GetNumberOfControlPoints() == s.GetWeights().size(),
          lab + ":sizes");
}

// ---- comparisons ------------------------------------------------------------
inline bool close(ld x, ld want, ld tol) { return fabsl(x - want) <= tol; }  // false on NaN

// library spline vs expected coefficients (degrees must match)
template <std::size_t PD, class P, class S>
void expectSpline(Ctx& c, const bz::BezierSpline<PD, P, S>& s, const M& want, const std::string& lab,
                  ld mult = 1) {
  structure(c, s, lab);
  const Deg d = vec<PD>(s.GetDegrees());
  c.check_f(d == want.deg, lab + ":degrees",
            [&] { return "degrees " + str(d) + " want " + str(want.deg); });
  c.check(PT<P>::n == want.nc, lab + ":components");
  for (size_t q = 0; q < want.nc; q++) {
    const ld mx = want.maxa(q);
    for (size_t i = 0; i < want.n(); i++) {
      const ld got = (ld)PT<P>::get(s.control_points[i], q);
      const ld tol = mult * (RR<S, P>() * want.a[i * want.nc + q] + 1e-3L * RR<S, P>() * mx) + TT<S, P>();
      c.check_f(close(got, want.c[i * want.nc + q], tol), lab + ":control-points", [&] {
        std::ostringstream o;
        o.precision(19);
        o << "control point " << i << " component " << q << ": got " << got << " want "
          << want.c[i * want.nc + q] << " tol " << tol;
        return o.str();
      });
    }
  }
}
// value vs expected
template <class S, class P>
void expectVal(Ctx& c, const P& got, const Val& want, const std::string& lab, ld mult = 1,
               const std::vector<ld>& floor_mag = {}) {
  for (size_t q = 0; q < PT<P>::n; q++) {
    const ld fl = q < floor_mag.size() ? floor_mag[q] : 0;
    const ld tol = mult * (RR<S, P>() * want.a[q] + 1e-3L * RR<S, P>() * fl) + TT<S, P>();
    const ld g = (ld)PT<P>::get(got, q);
    c.check_f(close(g, want.v[q], tol), lab, [&] {
      std::ostringstream o;
      o.precision(19);
      o << "component " << q << ": got " << g << " want " << want.v[q] << " tol " << tol;
      return o.str();
    });
  }
}
inline std::vector<ld> maxas(const M& m) {
  std::vector<ld> r(m.nc);
  for (size_t q = 0; q < m.nc; q++) r[q] = m.maxa(q);
  return r;
}
// two models as functions: same coefficients after bringing to the same degree
inline void expectVals(Ctx& c, const Val& got, const Val& want, const std::string& lab, ld rel,
                       const std::vector<ld>& floor_mag = {}) {
  for (size_t q = 0; q < want.v.size(); q++) {
    const ld fl = q < floor_mag.size() ? floor_mag[q] : 0;
    const ld tol = rel * (want.a[q] + 1e-2L * fl) + 1e-290L;
    c.check_f(close(got.v[q], want.v[q], tol), lab, [&] {
      std::ostringstream o;
      o.precision(19);
      o << "component " << q << ": got " << got.v[q] << " want " << want.v[q] << " tol " << tol;
      return o.str();
    });
  }
}

template <class T>
std::string bytes(const std::vector<T>& v) {
  std::string s;
  // long double has padding bytes: compare by value representation
  if constexpr (std::is_same_v<T, long double>) {
    for (auto& x : v) s.append(reinterpret_cast<const char*>(&x), 10);
  } else {
    if (!v.empty()) s.assign(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
  }
  return s;
}
template <std::size_t N, class B>
std::string bytes(const std::vector<bz::Point<N, B>>& v) {
  std::vector<B> f;
  for (auto& p : v)
    for (size_t k = 0; k < N; k++) f.push_back(p[k]);
  return bytes(f);
}
// snapshot of everything observable
template <std::size_t PD, class P, class S>
std::string snap(const bz::BezierSpline<PD, P, S>& s) {
  std::string r = str(vec<PD>(s.GetDegrees())) + "#" + std::to_string(s.GetNumberOfControlPoints()) + "#" +
                  std::to_string(s.control_points.size()) + "#";
  for (size_t k = 0; k < PD; k++) {  // the index map, as far as it is defined
    Idx e(PD, 0);
    e[k] = 1;
    if (s.GetDegrees()[k] > 0) r += std::to_string(s.GlobalToLocalIndex(arr<PD>(e))) + ",";
  }
  return r + "#" + bytes(s.control_points);
}
template <std::size_t PD, class P, class S>
std::string snap(const bz::RationalBezierSpline<PD, P, S>& s) {
  return snap(s.GetNumeratorSpline()) + "/" + snap(s.GetWeightFunctionSpline());
}

// ---- generators ---------------------------------------------------------------
constexpr size_t LIMIT = (size_t)(MAX_BINOMIAL_DEGREE) - 1;  // largest legal degree

// random degrees with at most `cap` control points and per-direction at most `maxd`
inline Deg genDeg(Ctx& c, size_t pd, size_t maxd, size_t cap) {
  Deg d(pd);
  const size_t style = c.rng.below(8);
  for (int tries = 0; tries < 60; tries++) {
    for (size_t i = 0; i < pd; i++) {
      size_t m;
      switch (style) {
        case 0: m = c.rng.below(3); break;                       // tiny with zeros
        case 1: m = c.rng.range(1, 3); break;
        case 2: m = c.rng.below(5); break;
        case 3: m = c.rng.below(8); break;
        case 4: m = i == c.idx % pd ? c.rng.below(maxd + 1) : c.rng.below(2); break;  // one long side
        case 5: m = c.rng.range(1, 4); break;
        case 6: m = c.rng.chance(0.3) ? 0 : c.rng.range(1, 6); break;
        default: m = 2; break;                                   // equal degrees
      }
      d[i] = std::min(m, maxd);
    }
    if (prod1(d) <= cap) return d;
  }
  for (size_t i = 0; i < pd; i++) d[i] = std::min<size_t>(1, maxd);
  while (prod1(d) > cap) {
    for (size_t i = 0; i < pd; i++) if (d[i]) { d[i]--; break; }
  }
  return d;
}

enum Mode { UNI, INT, ONEHOT, CONST, ZERO, BIG, SMALL, MIXED, UNIT01, NEAR, GREV, NMODES };
inline const char* modeName(int m) {
  static const char* n[] = {"uniform", "integer", "one-hot", "constant", "zero", "big", "small", "mixed", "unit", "near", "linear"};
  return n[m];
}
inline int genMode(Ctx& c) {
  static const int w[] = {UNI, UNI, UNI, UNI, INT, INT, ONEHOT, ONEHOT, CONST, ZERO, BIG, SMALL, MIXED, UNIT01, NEAR, GREV};
  return w[c.rng.below(sizeof w / sizeof *w)];
}
template <class S>
S genCoord(Ctx& c, int mode, ld base) {
  const bool f = std::is_same_v<S, float>;
  switch (mode) {
    case INT: return (S)((double)c.rng.below(11) - 5.);
    case BIG: return (S)(c.rng.uni(-1, 1) * (f ? 1e5 : 1e12));
    case SMALL: return (S)(c.rng.uni(-1, 1) * (f ? 1e-5 : 1e-12));
    case MIXED: return (S)(c.rng.uni(-1, 1) * std::pow(10., (double)c.rng.below(7) - 3.));
    case UNIT01: return (S)c.rng.unit();
    case NEAR: return (S)(base + (ld)c.rng.uni(-1, 1) * 1e-3L);
    case CONST: return (S)base;
    case ZERO: return (S)0;
    default: return (S)c.rng.uni(-1, 1);
  }
}
// fills the coefficient list of a spline with given degrees
template <std::size_t PD, class P, class S>
void fillSpline(Ctx& c, bz::BezierSpline<PD, P, S>& s, int mode) {
  const Deg d = vec<PD>(s.GetDegrees());
  const size_t n = prod1(d);
  const ld base = c.rng.uni(-2, 2);
  const size_t hot = c.rng.below(n);
  for (size_t i = 0; i < n; i++) {
    const Idx id = unravel(i, d);
    for (size_t q = 0; q < PT<P>::n; q++) {
      S v;
      if (mode == ONEHOT)
        v = i == hot ? (S)(1 + (int)q) : (S)0;
      else if (mode == GREV) {
        const size_t k = q % PD;
        v = d[k] ? (S)id[k] / (S)d[k] : (S)0;
      } else
        v = genCoord<S>(c, mode, base + (ld)q);
      PT<P>::get(s.control_points[i], q) = v;
    }
  }
}
template <class Spl>
struct Dim;
template <std::size_t PD, class P, class S>
struct Dim<bz::BezierSpline<PD, P, S>> {
  static constexpr size_t pd = PD;
  using Phys = P;
  using Sc = S;
};
template <std::size_t PD, class P, class S>
struct Dim<bz::RationalBezierSpline<PD, P, S>> {
  static constexpr size_t pd = PD;
  using Phys = P;
  using Sc = S;
};

template <class Spl>
Spl genSpline(Ctx& c, const Deg& d, int mode, const char* name = "s") {
  Spl s(arr<Dim<Spl>::pd>(d));
  fillSpline(c, s, mode);
  c.desc << name << ": " << modeName(mode) << " " << str(toM(s)) << "; ";
  return s;
}
template <class Spl>
Spl genSpline(Ctx& c, size_t maxd, size_t cap, const char* name = "s") {
  const Deg d = genDeg(c, Dim<Spl>::pd, maxd, cap);
  return genSpline<Spl>(c, d, genMode(c), name);
}
// positive weights
template <class S, class Coord = S>
std::vector<S> genWeights(Ctx& c, size_t n, double wide = 13) {
  std::vector<S> w(n);
  const size_t style = c.rng.below(8);
  const double k = c.rng.uni(0.3, 4);
  const double tiny = std::pow(10., c.rng.uni(-9, -2));
  const size_t odd = c.rng.below(n);
  // the common scale of the weights does not matter to the spline
  const bool fl = std::is_same_v<S, float> || std::is_same_v<Coord, float>;
  // one weight of another magnitude than the others
  const double far = std::pow(10., (c.rng.chance(.7) ? -1 : 1) * (fl ? c.rng.uni(1, 1.7) : c.rng.uni(3, 5.2)));
  double common = 1;
  if (c.rng.chance(0.25)) common = std::pow(10., c.rng.uni(-1, 1) * (fl ? 3 : c.rng.chance(.5) ? 13 : wide));
  for (size_t i = 0; i < n; i++) switch (style) {
      case 0: w[i] = (S)1; break;
      case 1: w[i] = (S)k; break;
      case 2: w[i] = (S)c.rng.uni(0.5, 2); break;
      case 3: w[i] = (S)c.rng.uni(0.1, 1); break;
      case 4: w[i] = (S)std::pow(10., c.rng.uni(-1.5, 1.5)); break;
      case 5: w[i] = (S)1 + (S)(tiny * c.rng.uni(-1, 1)); break;  // almost polynomial
      case 6: w[i] = i == odd ? (S)far : (S)c.rng.uni(0.5, 2); break;
      default: w[i] = i == odd ? (S)5 : (S)1;
    }
  for (auto& x : w) x = (S)(x * (S)common);
  return w;
}
template <class RSpl>
RSpl genRational(Ctx& c, const Deg& d, int mode, const char* name = "r", double wide = 13) {
  constexpr size_t PD = Dim<RSpl>::pd;
  using P = typename Dim<RSpl>::Phys;
  using S = typename Dim<RSpl>::Sc;
  bz::BezierSpline<PD, P, S> s(arr<PD>(d));
  fillSpline(c, s, mode);
  const std::vector<S> w = genWeights<S, typename PT<P>::S>(c, s.control_points.size(), wide);
  c.desc << name << ": " << modeName(mode) << " " << str(toM(s)) << " w{";
  for (size_t i = 0; i < w.size(); i++) c.desc << (i ? "," : "") << w[i];
  c.desc << "}; ";
  return RSpl(arr<PD>(d), s.control_points, w);
}
template <class RSpl>
RSpl genRational(Ctx& c, size_t maxd, size_t cap, const char* name = "r") {
  const Deg d = genDeg(c, Dim<RSpl>::pd, maxd, cap);
  return genRational<RSpl>(c, d, genMode(c), name);
}

// increasing positions within (0,1): spread, many, close together, close to an end
template <class S>
std::vector<S> genPositions(Ctx& c, size_t most, size_t many) {
  std::vector<S> ps;
  const ld eps = (ld)std::numeric_limits<S>::epsilon();
  const size_t style = c.rng.below(8);
  const size_t n = style == 1 ? c.rng.range(most, many) : c.rng.below(most + 1);
  if (style == 2 || style == 3) {  // gaps of any size, down to neighbouring numbers
    ld x = c.rng.chance(.5) ? (ld)c.rng.uni(0.01, 0.9) : c.rng.chance(.5) ? powl(10, -(ld)c.rng.uni(2, 15)) : 1 - powl(10, (ld)c.rng.uni((double)log10l(eps) + 1, -1));
    for (size_t i = 0; i < n; i++) {
      ps.push_back((S)x);
      x += c.rng.chance(.2) ? x * eps : powl(10, (ld)c.rng.uni((double)log10l(eps), -1.5));
    }
    if (c.rng.chance(.3)) ps.push_back(std::nextafter((S)1, (S)0));
    if (c.rng.chance(.2)) ps.push_back(std::numeric_limits<S>::min());
    c.count("positions:close-together");
  } else {
    for (size_t i = 0; i < n; i++) ps.push_back((S)(style == 4 ? (1 + c.rng.below(15)) / 16. : c.rng.chance(.2) ? c.rng.uni(0.001, 0.05) : c.rng.chance(.2) ? c.rng.uni(0.95, 0.999) : c.rng.uni(0.02, 0.98)));
    if (style == 1) c.count("positions:many");
  }
  std::sort(ps.begin(), ps.end());
  std::vector<S> q;
  for (S y : ps)
    if (y > 0 && y < 1 && (q.empty() || y > q.back())) q.push_back(y);
  return q;
}

// parameter vectors in the unit domain; `out` allows leaving it
template <class S>
std::vector<ld> genParam(Ctx& c, size_t pd, bool out = false, bool far = false) {
  std::vector<ld> u(pd);
  const size_t style = c.rng.below(10);
  for (size_t i = 0; i < pd; i++) {
    double x = c.rng.unit();
    if (style == 0) x = c.rng.below(2);                     // corners
    else if (style == 1 && c.rng.chance(0.6)) x = c.rng.below(2);  // edges
    else if (style == 2) x = 0.5;
    else if (style == 3 && c.rng.chance(0.5)) {
      const double e = std::pow(10., -c.rng.uni(1, 16));
      x = c.rng.chance(.5) ? e : 1 - e;
    }
    else if (style == 4 && out) x = far && c.rng.chance(.5) ? c.rng.uni(-4, 5) : c.rng.uni(-0.5, 1.5);
    else if (style == 5) x = (double)c.rng.below(9) / 8.;
    u[i] = (ld)(S)x;
  }
  return u;
}
inline bool isNontrivial(const M& m) {
  bool d = false, v = false;
  for (size_t x : m.deg) d |= x > 0;
  for (size_t i = m.nc; i < m.c.size(); i++) v |= m.c[i] != m.c[i % m.nc];
  return d && v;
}
template <class F>
bool refused(F&& f) {
  try {
    f();
  } catch (const CaseFail&) {
    throw;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
}  // namespace vf
