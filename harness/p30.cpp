// P30: splines over any scalar type.  Exact rational numbers must give exact
// results (no tolerance at all), differentiated scalars must carry the exact
// derivatives of the result with respect to everything that went into the
// operation: control points, weights, parameters, split positions, factors.
// The model is generic over its own number type: rationals or long double,
// below any nesting of (independent) dual numbers.
#include <boost/multiprecision/cpp_int.hpp>

#include "lib.hpp"
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
using namespace vf;
namespace mp = boost::multiprecision;
using Q = mp::number<mp::cpp_rational_backend, mp::et_off>;
template <class S, std::size_t N>
using AD = bezman::utils::computational_differentiation::AlgoDiffType<S, N>;

// ---- dual numbers of the model ----------------------------------------------
template <class T, std::size_t N>
struct Dl {
  T v{};
  std::array<T, N> g{};
  Dl() = default;
  template <class I, class = std::enable_if_t<std::is_integral_v<I>>>
  Dl(I i) : v(i) {}
};
#define BINOP(op, dv) \
  template <class T, std::size_t N> \
  Dl<T, N> operator op(const Dl<T, N>& a, const Dl<T, N>& b) { \
    Dl<T, N> r; \
    r.v = a.v op b.v; \
    for (std::size_t i = 0; i < N; i++) r.g[i] = dv; \
    return r; \
  }
BINOP(+, a.g[i] + b.g[i])
BINOP(-, a.g[i] - b.g[i])
BINOP(*, a.g[i] * b.v + a.v * b.g[i])
BINOP(/, (a.g[i] * b.v - a.v * b.g[i]) / (b.v * b.v))
#undef BINOP

// ---- library scalar <-> model number -----------------------------------------
template <class L> struct Tr;
template <class F>
struct TrF {  // built-in floating point: inputs are dyadic and exact
  using K = ld;
  static constexpr bool exact = false;
  static F from(const K& k) { return (F)k; }
  static K to(const F& x) { return x; }
  static K num(long a, long b) { return (ld)a / b; }
  static ld approx(const K& k) { return k; }
  template <class G> static K gen(G&& leaf, bool) { return leaf(true); }
};
template <> struct Tr<double> : TrF<double> { static constexpr ld tol = 1e-9L; };
template <> struct Tr<float> : TrF<float> { static constexpr ld tol = 2e-3L; };
template <> struct Tr<long double> : TrF<long double> { static constexpr ld tol = 5e-17L; };
template <>
struct Tr<Q> {
  using K = Q;
  static constexpr bool exact = true;
  static constexpr ld tol = 0;
  static Q from(const K& k) { return k; }
  static K to(const Q& x) { return x; }
  static K num(long a, long b) { return Q(a, b); }
  static ld approx(const K& k) { return k.convert_to<double>(); }
};
template <class T, std::size_t N>
struct Tr<AD<T, N>> {
  using L = AD<T, N>;
  using I = Tr<T>;
  using K = Dl<typename I::K, N>;
  static constexpr bool exact = I::exact;
  static constexpr ld tol = I::tol;
  static L from(const K& k) {
    L r(I::from(k.v));
    for (std::size_t i = 0; i < N; i++) r += L(T(I::from(k.v) - I::from(k.v)), i) * I::from(k.g[i]);
    return r;
  }
  static K to(const L& x) {
    K k;
    k.v = I::to(x.GetValue());
    const auto d = x.GetDerivatives();
    for (std::size_t i = 0; i < N; i++) k.g[i] = I::to(d[i]);
    return k;
  }
  static K num(long a, long b) {
    K k;
    k.v = I::num(a, b);
    return k;
  }
  static ld approx(const K& k) { return I::approx(k.v); }
};
// value a/b, derivatives drawn as well
template <class K> struct Draw {  // leaf
  template <class F> static void derivs(K&, F&&) {}
  template <class F> static void all(K& k, F&& f) { k = f(); }
};
template <class T, std::size_t N>
struct Draw<Dl<T, N>> {
  template <class F> static void derivs(Dl<T, N>& k, F&& f) {
    Draw<T>::derivs(k.v, f);
    for (auto& x : k.g) Draw<T>::all(x, f);
  }
  template <class F> static void all(Dl<T, N>& k, F&& f) {
    Draw<T>::all(k.v, f);
    for (auto& x : k.g) Draw<T>::all(x, f);
  }
};
template <class K> struct Leaf { using T = K; };
template <class T, std::size_t N> struct Leaf<Dl<T, N>> { using T_ = T; using T2 = typename Leaf<T>::T; };
inline void leaves(const ld& k, std::vector<ld>& v) { v.push_back(k); }
inline void leaves(const Q& k, std::vector<ld>& v) { v.push_back(k.convert_to<double>()); }
template <class T, std::size_t N>
void leaves(const Dl<T, N>& k, std::vector<ld>& v) {
  leaves(k.v, v);
  for (auto& x : k.g) leaves(x, v);
}
inline ld topValue(const ld& k) { return k; }
inline ld topValue(const Q& k) { return k.convert_to<double>(); }
template <class T, std::size_t N> ld topValue(const Dl<T, N>& k) { return topValue(k.v); }
inline bool same(const ld& a, const ld& b, ld tol) { return fabsl(a - b) <= tol; }
inline bool same(const Q& a, const Q& b, ld) { return a == b; }
template <class T, std::size_t N>
bool same(const Dl<T, N>& a, const Dl<T, N>& b, ld tol) {
  if (!same(a.v, b.v, tol)) return false;
  for (std::size_t i = 0; i < N; i++) if (!same(a.g[i], b.g[i], tol)) return false;
  return true;
}
template <class K>
std::string text(const K& k) {
  std::vector<ld> v;
  leaves(k, v);
  return str(v);
}

// ---- the model -----------------------------------------------------------------
template <class K> K powK(const K& x, size_t n) {
  K r(1);
  for (size_t i = 0; i < n; i++) r = r * x;
  return r;
}
template <class K> K bernK(size_t n, size_t i, const K& t) { return K((long)binom(n, i)) * powK(t, i) * powK(K(1) - t, n - i); }
template <class K>
struct MP {
  Deg d;
  size_t nc = 0;
  std::vector<std::vector<K>> c;
  std::vector<K> eval(const std::vector<K>& u) const {
    std::vector<std::vector<K>> b(d.size());
    for (size_t k = 0; k < d.size(); k++) for (size_t i = 0; i <= d[k]; i++) b[k].push_back(bernK<K>(d[k], i, u[k]));
    std::vector<K> r(nc, K(0));
    for (size_t i = 0; i < c.size(); i++) {
      const Idx id = unravel(i, d);
      K f(1);
      for (size_t k = 0; k < d.size(); k++) f = f * b[k][id[k]];
      for (size_t q = 0; q < nc; q++) r[q] = r[q] + f * c[i][q];
    }
    return r;
  }
  MP diff(size_t k) const {
    MP r;
    r.d = d;
    r.nc = nc;
    if (d[k] == 0) {
      r.c.assign(c.size(), std::vector<K>(nc, K(0)));
      return r;
    }
    r.d[k]--;
    for (size_t i = 0; i < prod1(r.d); i++) {
      Idx id = unravel(i, r.d);
      const auto& lo = c[ravel(id, d)];
      id[k]++;
      const auto& hi = c[ravel(id, d)];
      std::vector<K> p;
      for (size_t q = 0; q < nc; q++) p.push_back((hi[q] - lo[q]) * K((long)d[k]));
      r.c.push_back(p);
    }
    return r;
  }
  MP diff(const Idx& o) const {
    MP r = *this;
    for (size_t k = 0; k < o.size(); k++) for (size_t i = 0; i < o[k]; i++) r = r.diff(k);
    return r;
  }
};
template <class K>
struct RK {
  MP<K> n, w;
  std::vector<K> eval(const std::vector<K>& u) const {
    auto r = n.eval(u);
    const K w0 = w.eval(u)[0];
    for (auto& x : r) x = x / w0;
    return r;
  }
  // Leibniz: n = f w
  std::vector<K> der(const Idx& o, const std::vector<K>& u) const {
    std::map<Idx, std::vector<K>> f;
    Deg sz(o.begin(), o.end());
    const K w0 = w.eval(u)[0];
    for (size_t i = 0; i < prod1(sz); i++) {
      const Idx a = unravel(i, sz);
      auto v = n.diff(a).eval(u);
      for (auto& [b, fb] : f) {
        bool sub = true;
        K bin(1);
        Idx ab(a.size());
        for (size_t k = 0; k < a.size(); k++) {
          if (b[k] > a[k]) { sub = false; break; }
          ab[k] = a[k] - b[k];
          bin = bin * K((long)binom(a[k], b[k]));
        }
        if (!sub) continue;
        const K wv = w.diff(ab).eval(u)[0];
        for (size_t q = 0; q < v.size(); q++) v[q] = v[q] - bin * wv * fb[q];
      }
      for (auto& x : v) x = x / w0;
      f[a] = v;
    }
    return f[o];
  }
};

// ---- library objects ---------------------------------------------------------------
template <class L, size_t NC> struct PtOf { using T = bz::Point<NC, L>; };
template <class L> struct PtOf<L, 0> { using T = L; };
template <class L> L& comp(L& p, size_t) { return p; }
template <class L> const L& comp(const L& p, size_t) { return p; }
template <size_t N, class L> L& comp(bz::Point<N, L>& p, size_t q) { return p[q]; }
template <size_t N, class L> const L& comp(const bz::Point<N, L>& p, size_t q) { return p[q]; }
template <class P> struct NCof { static constexpr size_t n = 1; };
template <size_t N, class L> struct NCof<bz::Point<N, L>> { static constexpr size_t n = N; };

template <class L>
struct Gen {
  using T = Tr<L>;
  using K = typename T::K;
  Ctx& c;
  uint64_t digest;
  ~Gen() { c.desc << "numbers " << std::hex << digest << std::dec << "; "; }
  // a/b with derivatives; dyadic if the scalar is floating point
  K draw(long lo, long hi, bool derivs = true) {
    const long den = T::exact ? (long)c.rng.pick(std::vector<size_t>{1, 3, 7, 12, 60}) : 16;
    const long a = lo * den + (long)c.rng.below((size_t)((hi - lo) * den + 1));
    K k = T::num(a, den);
    digest = (digest ^ (uint64_t)(a * 64 + den)) * 0x100000001b3ull;
    if (derivs && c.rng.chance(.7))
      Draw<K>::derivs(k, [&]() {
        using R = std::conditional_t<T::exact, Q, ld>;
        return (R)((long)c.rng.below(9) - 4);
      });
    return k;
  }
  std::vector<K> param(size_t pd, bool derivs) {
    std::vector<K> u;
    for (size_t k = 0; k < pd; k++) u.push_back(draw(0, 1, derivs));
    return u;
  }
  template <size_t PD, class P>
  bz::BezierSpline<PD, P, L> spline(const Deg& d, long lo, long hi) {
    bz::BezierSpline<PD, P, L> s(arr<PD>(d));
    for (auto& p : s.control_points) for (size_t q = 0; q < NCof<P>::n; q++) comp(p, q) = T::from(draw(lo, hi));
    return s;
  }
  template <size_t PD, class P>
  bz::RationalBezierSpline<PD, P, L> rational(const Deg& d, long lo, long hi) {
    auto s = spline<PD, P>(d, lo, hi);
    std::vector<L> w;
    for (size_t i = 0; i < s.control_points.size(); i++) w.push_back(T::from(draw(1, 2)));
    return bz::RationalBezierSpline<PD, P, L>(arr<PD>(d), s.control_points, w);
  }
};
template <class L, class P, size_t PD>
MP<typename Tr<L>::K> model(const bz::BezierSpline<PD, P, L>& s) {
  MP<typename Tr<L>::K> m;
  m.d = vec<PD>(s.GetDegrees());
  m.nc = NCof<P>::n;
  for (auto& p : s.control_points) {
    std::vector<typename Tr<L>::K> v;
    for (size_t q = 0; q < m.nc; q++) v.push_back(Tr<L>::to(comp(p, q)));
    m.c.push_back(v);
  }
  return m;
}
template <class L, class P, size_t PD>
RK<typename Tr<L>::K> model(const bz::RationalBezierSpline<PD, P, L>& s) {
  return {model(s.GetNumeratorSpline()), model(s.GetWeightFunctionSpline())};
}
template <class L, class P>
std::vector<typename Tr<L>::K> values(const P& p) {
  std::vector<typename Tr<L>::K> v;
  for (size_t q = 0; q < NCof<P>::n; q++) v.push_back(Tr<L>::to(comp(p, q)));
  return v;
}
template <class L, size_t PD>
bz::Point<PD, L> point(const std::vector<typename Tr<L>::K>& u) {
  bz::Point<PD, L> p;
  for (size_t k = 0; k < PD; k++) p[k] = Tr<L>::from(u[k]);
  return p;
}
template <class L>
void expect(Ctx& c, const std::vector<typename Tr<L>::K>& got, const std::vector<typename Tr<L>::K>& want, const std::string& key,
            bool valueOnly = false, ld magnitude = 1) {
  c.check(got.size() == want.size(), key + ":size");
  std::vector<ld> all;
  for (auto& w : want) leaves(w, all);
  ld scale = magnitude;
  for (ld x : all) scale = std::max(scale, fabsl(x));
  for (size_t i = 0; i < got.size(); i++) {
    const bool ok = valueOnly ? fabsl(topValue(got[i]) - topValue(want[i])) <= std::max(Tr<L>::tol, 1e-15L) * scale
                              : same(got[i], want[i], Tr<L>::tol * scale);
    c.check_f(ok, key, [&] { return "component " + std::to_string(i) + " got " + text(got[i]) + " want " + text(want[i]); });
    c.count("compared");
  }
}
inline Deg degrees(Ctx& c, size_t pd, size_t mx) {
  Deg d(pd);
  for (auto& x : d) x = c.rng.below(mx + 1);
  if (pd == 3) for (auto& x : d) x = std::min<size_t>(x, 2);
  return d;
}
// a library result against the function it should be, at two parameters
template <class L, class S, class F>
void isFunction(Ctx& c, Gen<L>& g, const S& s, const Deg& deg, F&& want, const std::string& key, bool valueOnly = false, ld magnitude = 1) {
  c.check(Deg(s.GetDegrees().begin(), s.GetDegrees().end()) == deg, key + ":degrees");
  c.check(s.GetNumberOfControlPoints() == prod1(deg), key + ":number");
  const auto m = model<L>(s);
  for (int i = 0; i < 2; i++) {
    const auto u = g.param(deg.size(), i);
    expect<L>(c, m.eval(u), want(u), key, valueOnly, magnitude);
  }
}
template <size_t PD>
void describe(Ctx& c, const Deg& d) { c.desc << "degrees " << str(d) << "; "; }

template <class L, size_t PD, size_t NC>
void polyCase(Ctx& c) {
  using T = Tr<L>;
  using K = typename T::K;
  using P = typename PtOf<L, NC>::T;
  using S = bz::BezierSpline<PD, P, L>;
  Gen<L> g{c, 0};
  const Deg d = degrees(c, PD, 4);
  const S s = g.template spline<PD, P>(d, -2, 2);
  const auto m = model<L>(s);
  describe<PD>(c, d);
  c.nontrivial = prod1(d) > 1;
  const auto u = g.param(PD, c.rng.chance(.5));
  const auto up = point<L, PD>(u);
  c.op("Evaluate");
  expect<L>(c, values<L>(s.Evaluate(up)), m.eval(u), "Evaluate");
  c.op("ForwardEvaluate");
  expect<L>(c, values<L>(s.ForwardEvaluate(up)), m.eval(u), "ForwardEvaluate");
  Idx o(PD);
  for (auto& x : o) x = c.rng.below(4);
  {
    c.op("BasisFunctions");
    const auto b = s.BasisFunctions(up);
    std::vector<K> want, got;
    for (size_t i = 0; i < prod1(d); i++) {
      K f(1);
      const Idx id = unravel(i, d);
      for (size_t k = 0; k < PD; k++) f = f * bernK<K>(d[k], id[k], u[k]);
      want.push_back(f);
    }
    for (auto& x : b) got.push_back(T::to(x));
    expect<L>(c, got, want, "BasisFunctions");
    c.op("BasisFunctionsDerivatives");
    got.clear();
    want.clear();
    for (auto& x : s.BasisFunctionsDerivatives(up, arr<PD>(o))) got.push_back(T::to(x));
    for (size_t i = 0; i < prod1(d); i++) {
      MP<K> e;
      e.d = d;
      e.nc = 1;
      e.c.assign(prod1(d), {K(0)});
      e.c[i][0] = K(1);
      want.push_back(e.diff(o).eval(u)[0]);
    }
    expect<L>(c, got, want, "BasisFunctionsDerivatives");
  }
  c.op("EvaluateDerivative");
  expect<L>(c, values<L>(s.EvaluateDerivative(up, arr<PD>(o))), m.diff(o).eval(u), "EvaluateDerivative");
  {
    c.op("DerivativeWRTParametricDimension");
    const auto e = model<L>(s.DerivativeWRTParametricDimension(arr<PD>(o)));
    expect<L>(c, e.eval(u), m.diff(o).eval(u), "DerivativeWRTParametricDimension");
  }
  {
    c.op("OrderElevateAlongParametricDimension");
    S e = s;
    Deg de = d;
    for (int i = 0; i < 2; i++) {
      const size_t k = c.rng.below(PD);
      e.OrderElevateAlongParametricDimension(k);
      de[k]++;
    }
    isFunction<L>(c, g, e, de, [&](auto& v) { return m.eval(v); }, "OrderElevateAlongParametricDimension");
  }
  {  // the positions are differentiated as well
    c.op("SplitAtPosition");
    const size_t k = c.rng.below(PD);
    std::vector<K> at;
    std::vector<L> pos;
    K a = T::num(1 + (long)c.rng.below(3), 8);
    for (size_t i = 0, n = c.rng.range(1, 3); i < n; i++) {
      K z = a + T::num((long)i, 8) + T::num(1, 16);
      Draw<K>::derivs(z, [&]() {
        using R = std::conditional_t<T::exact, Q, ld>;
        return (R)((long)c.rng.below(5) - 2);
      });
      at.push_back(z);
      pos.push_back(T::from(z));
    }
    std::vector<S> parts;
    if (pos.size() == 1 && c.rng.chance(.5)) parts = s.SplitAtPosition(pos[0], k);
    else parts = s.SplitAtPosition(pos, k);
    c.check(parts.size() == pos.size() + 1, "SplitAtPosition:pieces");
    for (size_t i = 0; i < parts.size(); i++) {
      const K lo = i ? at[i - 1] : K(0), hi = i < at.size() ? at[i] : K(1);
      isFunction<L>(c, g, parts[i], d, [&](auto v) { v[k] = lo + (hi - lo) * v[k]; return m.eval(v); }, "SplitAtPosition");
    }
    for (long bad : {0L, 1L, 2L, -1L}) {
      bool thrown = false;
      try { (void)s.SplitAtPosition(T::from(T::num(bad, 1)), k); } catch (const std::exception&) { thrown = true; }
      c.check(thrown, "SplitAtPosition:refused");
    }
  }
  {  // algebra
    const Deg d2 = degrees(c, PD, 3);
    const S t = g.template spline<PD, P>(d2, -2, 2);
    const auto m2 = model<L>(t);
    const auto f = g.template spline<PD, L>(d2, -2, 2);
    const auto mf = model<L>(f);
    Deg dm(PD), ds(PD);
    for (size_t k = 0; k < PD; k++) dm[k] = std::max(d[k], d2[k]), ds[k] = d[k] + d2[k];
    auto lin = [&](int sg) {
      return [&, sg](auto& v) { auto r = m.eval(v); auto x = m2.eval(v); for (size_t q = 0; q < r.size(); q++) r[q] = sg > 0 ? r[q] + x[q] : r[q] - x[q]; return r; };
    };
    c.op("operator+");
    isFunction<L>(c, g, s + t, dm, lin(1), "operator+");
    { S x = s; x += t; isFunction<L>(c, g, x, dm, lin(1), "operator+="); }
    c.op("operator-");
    isFunction<L>(c, g, s - t, dm, lin(-1), "operator-");
    { S x = s; x -= t; isFunction<L>(c, g, x, dm, lin(-1), "operator-="); }
    c.op("operator*(spline)");
    auto times = [&](auto& v) { auto r = m.eval(v); const K x = mf.eval(v)[0]; for (auto& y : r) y = y * x; return r; };
    isFunction<L>(c, g, s * f, ds, times, "product:point-scalar");
    isFunction<L>(c, g, f * s, ds, times, "product:scalar-point");
    if constexpr (NC > 0)
      isFunction<L>(c, g, s * t, ds, [&](auto& v) {
        auto a = m.eval(v);
        auto b = m2.eval(v);
        K r(0);
        for (size_t q = 0; q < a.size(); q++) r = r + a[q] * b[q];
        return std::vector<K>{r};
      }, "product:dot");
    c.op("scale");
    const K k = g.draw(-2, 2);
    const L kl = T::from(k);
    auto sc = [&](auto& v) { auto r = m.eval(v); for (auto& x : r) x = x * k; return r; };
    isFunction<L>(c, g, s * kl, d, sc, "scale");
    isFunction<L>(c, g, kl * s, d, sc, "scale-left");
    { S x = s; x *= kl; isFunction<L>(c, g, x, d, sc, "scale-in-place"); }
    c.op("shift");
    P p;
    std::vector<K> pk;
    for (size_t q = 0; q < NCof<P>::n; q++) pk.push_back(g.draw(-2, 2)), comp(p, q) = T::from(pk.back());
    auto sh = [&](int a, int b) {
      return [&, a, b](auto& v) { auto r = m.eval(v); for (size_t q = 0; q < r.size(); q++) r[q] = K(a) * r[q] + K(b) * pk[q]; return r; };
    };
    isFunction<L>(c, g, s + p, d, sh(1, 1), "shift+");
    isFunction<L>(c, g, s - p, d, sh(1, -1), "shift-");
    isFunction<L>(c, g, p + s, d, sh(1, 1), "shift+left");
    isFunction<L>(c, g, p - s, d, sh(-1, 1), "shift-left");
    isFunction<L>(c, g, -s, d, sh(-1, 0), "negate");
    { S x = s; x += p; isFunction<L>(c, g, x, d, sh(1, 1), "shift+="); }
    { S x = s; x -= p; isFunction<L>(c, g, x, d, sh(1, -1), "shift-="); }
    if constexpr (NC == 0) {
      c.op("RaisePower");
      const size_t n = c.rng.below(4);
      Deg dn(d);
      for (auto& x : dn) x *= n;
      isFunction<L>(c, g, s.RaisePower(n), dn, [&](auto& v) { return std::vector<K>{powK(m.eval(v)[0], n)}; }, "RaisePower");
    } else {
      bool thrown = false;
      try { (void)s.RaisePower(2); } catch (const std::exception&) { thrown = true; }
      c.check(thrown, "RaisePower:refused");
    }
  }
  {  // components, corners, unit cube
    c.op("ExtractDimension");
    const size_t q = c.rng.below(NCof<P>::n);
    isFunction<L>(c, g, s.ExtractDimension(q), d, [&](auto& v) { return std::vector<K>{m.eval(v)[q]}; }, "ExtractDimension");
    bool thrown = false;
    try { (void)s.ExtractDimension(NCof<P>::n); } catch (const std::exception&) { thrown = true; }
    c.check(thrown, "ExtractDimension:refused");
    c.op("corners");
    std::vector<K> mx = m.c[0], mn = m.c[0];
    std::vector<int> tmx(m.nc, 0), tmn(m.nc, 0);
    for (size_t i = 1; i < m.c.size(); i++) for (size_t z = 0; z < m.nc; z++) {
      const ld a = topValue(m.c[i][z]);
      if (a == topValue(mx[z])) tmx[z] = 1;
      if (a == topValue(mn[z])) tmn[z] = 1;
      if (a > topValue(mx[z])) mx[z] = m.c[i][z], tmx[z] = 0;
      if (a < topValue(mn[z])) mn[z] = m.c[i][z], tmn[z] = 0;
    }
    const auto gx = values<L>(s.MaximumCorner()), gn = values<L>(s.MinimumCorner());
    bool flat = false, fits = true, tie = false;
    for (size_t z = 0; z < m.nc; z++) {
      expect<L>(c, {gx[z]}, {mx[z]}, "MaximumCorner", tmx[z]);
      expect<L>(c, {gn[z]}, {mn[z]}, "MinimumCorner", tmn[z]);
      if (topValue(mx[z]) == topValue(mn[z])) flat = true;
      if (tmx[z] || tmn[z]) tie = true;
      if (topValue(mx[z]) > 1 || topValue(mn[z]) < 0) fits = false;
    }
    c.check(s.FitsIntoUnitCube() == fits, "FitsIntoUnitCube");
    c.op("FitIntoUnitCube");
    S e = s;
    e.FitIntoUnitCube();
    if (!flat)
      isFunction<L>(c, g, e, d, [&](auto& v) {
        auto r = m.eval(v);
        for (size_t z = 0; z < r.size(); z++) r[z] = (r[z] - mn[z]) / (mx[z] - mn[z]);
        return r;
      }, "FitIntoUnitCube", tie);
    c.op("TransposeAndScale");
    P sh, fc;
    std::vector<K> a, b;
    for (size_t z = 0; z < m.nc; z++) {
      a.push_back(g.draw(-2, 2));
      b.push_back(g.draw(-2, 2));
      comp(sh, z) = T::from(a[z]);
      comp(fc, z) = T::from(b[z]);
    }
    e = s;
    e.TransposeAndScale(sh, fc);
    isFunction<L>(c, g, e, d, [&](auto& v) { auto r = m.eval(v); for (size_t z = 0; z < r.size(); z++) r[z] = (r[z] + a[z]) * b[z]; return r; }, "TransposeAndScale");
  }
}

template <class L, size_t PD, size_t NC>
void rationalCase(Ctx& c) {
  using T = Tr<L>;
  using K = typename T::K;
  using P = typename PtOf<L, NC>::T;
  using R = bz::RationalBezierSpline<PD, P, L>;
  Gen<L> g{c, 0};
  const Deg d = degrees(c, PD, 3);
  const R s = g.template rational<PD, P>(d, -2, 2);
  const auto m = model<L>(s);
  describe<PD>(c, d);
  c.nontrivial = prod1(d) > 1;
  const auto u = g.param(PD, c.rng.chance(.5));
  const auto up = point<L, PD>(u);
  c.op("rational Evaluate");
  expect<L>(c, values<L>(s.Evaluate(up)), m.eval(u), "rational:Evaluate");
  expect<L>(c, values<L>(s.ForwardEvaluate(up)), m.eval(u), "rational:ForwardEvaluate");
  Idx o(PD);
  for (auto& x : o) x = c.rng.below(PD == 1 ? 4 : 3);
  c.op("rational EvaluateDerivative");
  expect<L>(c, values<L>(s.EvaluateDerivative(up, arr<PD>(o))), m.der(o, u), "rational:EvaluateDerivative");
  c.op("rational BasisFunctions");
  auto basis = [&](const std::vector<L>& f, const std::vector<K>& want, const std::string& key) {
    // weights belong to the basis: with control points they give the value
    c.check(f.size() == prod1(d), key + ":size");
    std::vector<K> r(m.n.nc, K(0));
    for (size_t i = 0; i < f.size(); i++) for (size_t q = 0; q < r.size(); q++) r[q] = r[q] + T::to(f[i]) * m.n.c[i][q] / m.w.c[i][0];
    expect<L>(c, r, want, key);
  };
  basis(s.BasisFunctions(up), m.eval(u), "rational:BasisFunctions");
  basis(s.BasisFunctionsDerivatives(up, arr<PD>(o)), m.der(o, u), "rational:BasisFunctionsDerivatives");
  {
    c.op("rational DerivativeWRTParametricDimension");
    Idx o1(PD, 0);
    o1[c.rng.below(PD)] = 1;
    if (PD == 1 && c.rng.chance(.3)) o1[0] = 2;
    const auto e = model<L>(s.DerivativeWRTParametricDimension(arr<PD>(o1)));
    expect<L>(c, e.eval(u), m.der(o1, u), "rational:DerivativeWRTParametricDimension");
  }
  {
    c.op("rational elevate");
    R e = s;
    Deg de = d;
    const size_t k = c.rng.below(PD);
    e.OrderElevateAlongParametricDimension(k);
    de[k]++;
    isFunction<L>(c, g, e, de, [&](auto& v) { return m.eval(v); }, "rational:elevate");
  }
  {
    c.op("rational split");
    const size_t k = c.rng.below(PD);
    K z1 = T::num(1 + (long)c.rng.below(2), 4), z2 = z1 + T::num(1, 4);
    Draw<K>::derivs(z1, [&]() {
      using N = std::conditional_t<T::exact, Q, ld>;
      return (N)((long)c.rng.below(5) - 2);
    });
    const bool two = c.rng.chance(.5);
    const auto parts = two ? s.SplitAtPosition(std::vector<L>{T::from(z1), T::from(z2)}, k) : s.SplitAtPosition(T::from(z1), k);
    const std::vector<K> at = two ? std::vector<K>{K(0), z1, z2, K(1)} : std::vector<K>{K(0), z1, K(1)};
    c.check(parts.size() + 1 == at.size(), "rational:split:pieces");
    for (size_t i = 0; i < parts.size(); i++)
      isFunction<L>(c, g, parts[i], d, [&](auto v) { v[k] = at[i] + (at[i + 1] - at[i]) * v[k]; return m.eval(v); }, "rational:split");
  }
  {
    const Deg d2 = degrees(c, PD, 2);
    const R t = g.template rational<PD, P>(d2, -2, 2);
    const auto f = g.template rational<PD, L>(d2, -2, 2);
    const auto m2 = model<L>(t), mf = model<L>(f);
    auto at2 = [&](const auto& x, auto&& want, const std::string& key) {
      const auto mx = model<L>(x);
      for (int i = 0; i < 2; i++) {
        const auto v = g.param(PD, i);
        expect<L>(c, mx.eval(v), want(v), key);
      }
    };
    auto lin = [&](int sg) {
      return [&, sg](auto& v) { auto r = m.eval(v); auto x = m2.eval(v); for (size_t q = 0; q < r.size(); q++) r[q] = r[q] + K(sg) * x[q]; return r; };
    };
    c.op("rational algebra");
    at2(s + t, lin(1), "rational:operator+");
    at2(s - t, lin(-1), "rational:operator-");
    { R x = s; x += t; at2(x, lin(1), "rational:operator+="); }
    { R x = s; x -= t; at2(x, lin(-1), "rational:operator-="); }
    auto times = [&](auto& v) { auto r = m.eval(v); const K x = mf.eval(v)[0]; for (auto& y : r) y = y * x; return r; };
    at2(s * f, times, "rational:product");
    at2(f * s, times, "rational:product-left");
    const K k = g.draw(-2, 2);
    auto sc = [&](auto& v) { auto r = m.eval(v); for (auto& x : r) x = x * k; return r; };
    at2(s * T::from(k), sc, "rational:scale");
    at2(T::from(k) * s, sc, "rational:scale-left");
    P p;
    std::vector<K> pk;
    for (size_t q = 0; q < NCof<P>::n; q++) pk.push_back(g.draw(-2, 2)), comp(p, q) = T::from(pk.back());
    auto sh = [&](int a, int b) {
      return [&, a, b](auto& v) { auto r = m.eval(v); for (size_t q = 0; q < r.size(); q++) r[q] = K(a) * r[q] + K(b) * pk[q]; return r; };
    };
    at2(s + p, sh(1, 1), "rational:shift+");
    at2(s - p, sh(1, -1), "rational:shift-");
    at2(p + s, sh(1, 1), "rational:shift+left");
    at2(-s, sh(-1, 0), "rational:negate");
    const size_t q = c.rng.below(NCof<P>::n);
    if constexpr (NC > 0) {
      c.op("rational corners");
      std::vector<K> mx, mn;
      for (size_t z = 0; z < m.n.nc; z++) {
        size_t a = 0, b = 0;
        auto at = [&](size_t i) { return m.n.c[i][z] / m.w.c[i][0]; };
        for (size_t i = 1; i < prod1(d); i++) {
          if (topValue(at(i)) > topValue(at(a))) a = i;
          if (topValue(at(i)) < topValue(at(b))) b = i;
        }
        mx.push_back(at(a));
        mn.push_back(at(b));
      }
      expect<L>(c, values<L>(s.MaximumCorner()), mx, "rational:MaximumCorner", true);
      expect<L>(c, values<L>(s.MinimumCorner()), mn, "rational:MinimumCorner", true);
    }
    (void)q;
  }
  {
    c.op("rational from polynomial");
    const auto b = g.template spline<PD, P>(d, -2, 2);
    const auto mb = model<L>(b);
    isFunction<L>(c, g, R(b), d, [&](auto& v) { return mb.eval(v); }, "rational:from-polynomial");
  }
}

// outer: PO parameters, NC components; inner: PI parameters, PO components
template <class L, size_t PO, size_t PI, size_t NC>
void composeCase(Ctx& c) {
  using T = Tr<L>;
  using K = typename T::K;
  using P = typename PtOf<L, NC>::T;
  using IP = typename PtOf<L, PO == 1 ? 0 : PO>::T;
  Gen<L> g{c, 0};
  const Deg dO = degrees(c, PO, PO == 1 ? 3 : 2), di = degrees(c, PI, PI == 1 ? 2 : 1);
  const bool ro = c.rng.chance(.5), ri = c.rng.chance(.5);
  c.desc << "outer " << str(dO) << (ro ? " rational" : "") << " inner " << str(di) << (ri ? " rational" : "") << "; ";
  const auto bo = g.template spline<PO, P>(dO, -2, 2);
  const auto qo = g.template rational<PO, P>(dO, -2, 2);
  const auto bi = g.template spline<PI, IP>(di, 0, 1);
  auto qi = g.template rational<PI, IP>(di, 0, 1);
  const auto mbo = model<L>(bo);
  const auto mqo = model<L>(qo);
  const auto mbi = model<L>(bi);
  const auto mqi = model<L>(qi);
  c.nontrivial = prod1(dO) * prod1(di) > 1;
  auto inner = [&](const std::vector<K>& v) { return ri ? mqi.eval(v) : mbi.eval(v); };
  auto nested = [&](const std::vector<K>& v) { return ro ? mqo.eval(inner(v)) : mbo.eval(inner(v)); };
  auto at2 = [&](const auto& x, auto&& want, const std::string& key) {
    const auto mx = model<L>(x);
    for (int i = 0; i < 2; i++) {
      const auto v = g.param(PI, i);
      expect<L>(c, mx.eval(v), want(v), key);
    }
  };
  auto sens = [&](const auto& list, const std::string& key) {
    c.check(list.size() == prod1(dO), key + ":size");
    const size_t j = c.rng.below(list.size());
    const Idx id = unravel(j, dO);
    at2(list[j], [&](const std::vector<K>& v) {
      const auto x = inner(v);
      K f(1);
      for (size_t k = 0; k < PO; k++) f = f * bernK<K>(dO[k], id[k], x[k]);
      if (ro) f = f * mqo.w.c[j][0] / mqo.w.eval(x)[0];
      return std::vector<K>{f};
    }, key);
  };
  const std::string nm = std::string(ro ? "rational" : "polynomial") + "-" + (ri ? "rational" : "polynomial");
  c.op("Compose " + nm);
  try {
    if (!ro && !ri) at2(bo.Compose(bi), nested, "Compose:" + nm);
    if (!ro && ri) at2(bo.Compose(qi), nested, "Compose:" + nm);
    if (ro && !ri) at2(qo.Compose(bi), nested, "Compose:" + nm);
    if (ro && ri) at2(qo.Compose(qi), nested, "Compose:" + nm);
    c.op("ComposeSensitivity " + nm);
    if (!ro && !ri) sens(bo.ComposeSensitivity(bi), "ComposeSensitivity:" + nm);
    if (!ro && ri) sens(bo.ComposeSensitivity(qi), "ComposeSensitivity:" + nm);
    if (ro && !ri) sens(qo.ComposeSensitivity(bi), "ComposeSensitivity:" + nm);
    if (ro && ri) sens(qo.ComposeSensitivity(qi), "ComposeSensitivity:" + nm);
  } catch (const std::runtime_error& e) {
    // rounding of weighted points may leave the cube by an ulp (floating point only)
    c.check(!T::exact && ri, "Compose:refused", e.what());
    c.count("refused by rounding");
  }
  c.op("Compose outside");
  auto out = bi;
  comp(out.control_points[c.rng.below(out.control_points.size())], c.rng.below(PO)) = T::from(T::num(c.rng.chance(.5) ? 33 : -1, 32));
  bool thrown = false;
  try { if (ro) (void)qo.Compose(out); else (void)bo.Compose(out); } catch (const std::exception&) { thrown = true; }
  c.check(thrown, "Compose:outside-refused");
}
// degrees as high as the table of binomial coefficients goes
template <class L, size_t PD, size_t NC>
void highCase(Ctx& c) {
  using T = Tr<L>;
  using K = typename T::K;
  using P = typename PtOf<L, NC>::T;
  using S = bz::BezierSpline<PD, P, L>;
  Gen<L> g{c, 0};
  Deg d(PD), o(PD), e(PD);
  const size_t high = c.rng.below(PD);
  for (size_t k = 0; k < PD; k++) d[k] = k == high ? c.rng.range(5, LIMIT - 1) : c.rng.below(3);
  for (size_t k = 0; k < PD; k++) o[k] = c.rng.below(k == high ? 5 : 2);
  for (size_t k = 0; k < PD; k++) e[k] = c.rng.below(std::min<size_t>(4, LIMIT - d[k] + 1));
  describe<PD>(c, d);
  // magnitude of the terms that are summed: control points, derivatives of the parameters, derivatives taken
  const bool plain = std::is_floating_point_v<L>;
  const ld mag = plain ? .3L : 8 * (1 + 2 * (ld)d[high]);
  ld magd = std::max<ld>(8, mag);
  for (size_t k = 0; k < PD; k++) for (size_t i = 0; i < o[k]; i++) magd *= 2 * (ld)d[k];
  const S s = g.template spline<PD, P>(d, -2, 2);
  const auto f = g.template spline<PD, L>(e, -2, 2);
  const auto m = model<L>(s);
  const auto mf = model<L>(f);
  c.nontrivial = true;
  auto u = g.param(PD, c.rng.chance(.5));
  if (c.rng.chance(.2)) {  // exactly at an end, but with derivatives
    const K end((int)c.rng.below(2));
    K z = end;
    Draw<K>::derivs(z, [&]() {
      using R = std::conditional_t<T::exact, Q, ld>;
      return (R)((long)c.rng.below(5) - 2);
    });
    u[high] = z;
  }
  const auto up = point<L, PD>(u);
  c.op("Evaluate");
  expect<L>(c, values<L>(s.Evaluate(up)), m.eval(u), "high:Evaluate", false, mag);
  expect<L>(c, values<L>(s.ForwardEvaluate(up)), m.eval(u), "high:ForwardEvaluate", false, mag);
  c.op("BasisFunctions");
  {
    std::vector<K> want, got;
    for (size_t i = 0; i < prod1(d); i++) {
      K b(1);
      const Idx id = unravel(i, d);
      for (size_t k = 0; k < PD; k++) b = b * bernK<K>(d[k], id[k], u[k]);
      want.push_back(b);
    }
    for (auto& x : s.BasisFunctions(up)) got.push_back(T::to(x));
    expect<L>(c, got, want, "high:BasisFunctions", false, mag);
  }
  c.op("EvaluateDerivative");
  expect<L>(c, values<L>(s.EvaluateDerivative(up, arr<PD>(o))), m.diff(o).eval(u), "high:EvaluateDerivative", false, magd);
  expect<L>(c, model<L>(s.DerivativeWRTParametricDimension(arr<PD>(o))).eval(u), m.diff(o).eval(u), "high:DerivativeWRTParametricDimension", false, magd);
  c.op("product");
  {
    Deg dm(d);
    for (size_t k = 0; k < PD; k++) dm[k] += e[k];
    isFunction<L>(c, g, f * s, dm, [&](auto& v) { auto r = m.eval(v); const K x = mf.eval(v)[0]; for (auto& y : r) y = x * y; return r; }, "high:product", false, 16 * mag);
  }
  c.op("OrderElevateAlongParametricDimension");
  {
    S t = s;
    Deg de(d);
    t.OrderElevateAlongParametricDimension(high);
    de[high]++;
    isFunction<L>(c, g, t, de, [&](auto& v) { return m.eval(v); }, "high:OrderElevateAlongParametricDimension", false, 2 * mag);
  }
  c.op("SplitAtPosition");
  {
    K z = T::num(1 + (long)c.rng.below(7), 8);
    const auto parts = s.SplitAtPosition(T::from(z), high);
    c.check(parts.size() == 2, "high:SplitAtPosition:pieces");
    isFunction<L>(c, g, parts[0], d, [&](auto v) { v[high] = z * v[high]; return m.eval(v); }, "high:SplitAtPosition", false, 2 * mag);
    isFunction<L>(c, g, parts[1], d, [&](auto v) { v[high] = z + (K(1) - z) * v[high]; return m.eval(v); }, "high:SplitAtPosition", false, 2 * mag);
  }
}
#define F(f, ...) reg(#f "<" #__VA_ARGS__ ">", f<__VA_ARGS__>)
int main(int argc, char** argv) {
#if GROUP == 0
  using L = Q;
#elif GROUP == 1
  using L = AD<double, 2>;
#elif GROUP == 2
  using L = AD<Q, 2>;
#elif GROUP == 3
  using N = AD<double, 1>;
  using L = AD<N, 1>;
#elif GROUP == 4
  using L = AD<float, 2>;
#elif GROUP == 5
  using L = long double;
#else
  using L = AD<long double, 2>;
#endif
  F(highCase, L, 1, 0);
  F(polyCase, L, 1, 0);
  F(polyCase, L, 2, 2);
  F(rationalCase, L, 1, 2);
  F(composeCase, L, 1, 2, 2);
  F(composeCase, L, 2, 2, 2);
#if GROUP < 3
  F(polyCase, L, 3, 1);
  F(rationalCase, L, 2, 0);
  F(composeCase, L, 2, 1, 0);
#endif
  return run_main(argc, argv, "P30");
}
