// P21: Point arithmetic against component-wise definitions.
#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"
#include "lib.hpp"
using namespace vf;

template <class S>
S genS(Ctx& c, bool nonzero = false) {
  switch (c.rng.below(8)) {
    case 0: if (!nonzero) return S(0); return S(1);
    case 1: return S(-1);
    case 2: return (S)(int)c.rng.range(1, 9);
    case 3: return (S)c.rng.uni(1e3, 1e6);
    case 4: return (S)c.rng.uni(-1e-3, -1e-6);
    default: {
      S x = (S)c.rng.uni(-3, 3);
      if constexpr (std::is_same_v<S, long double>) x += (S)c.rng.uni(-1, 1) * 1e-17L;
      return x == 0 ? S(1) : x;
    }
  }
}
template <>
int genS<int>(Ctx& c, bool nonzero) {
  int x = (int)c.rng.range(0, 2000) - 1000;
  return x == 0 && nonzero ? 7 : x;
}
template <class S>
S fmtBack(const std::string& s) { return (S)strtold(s.c_str(), nullptr); }

template <std::size_t D, class S>
void pointCase(Ctx& c) {
  using P = bz::Point<D, S>;
  constexpr bool integer = std::is_integral_v<S>;
  const ld eps = integer ? 0 : (ld)std::numeric_limits<S>::epsilon();
  P a, b;
  for (size_t i = 0; i < D; i++) { a[i] = genS<S>(c); b[i] = genS<S>(c, true); }
  const S s = genS<S>(c, true);
  c.desc << "a";
  for (size_t i = 0; i < D; i++) c.desc << " " << a[i];
  c.desc << " b";
  for (size_t i = 0; i < D; i++) c.desc << " " << b[i];
  c.desc << " s " << s;
  c.nontrivial = true;
  const P a0 = a, b0 = b;
  const S s0 = s;
  auto same = [&](const std::string& lab) {
    bool ok = s == s0;
    for (size_t i = 0; i < D; i++) ok = ok && a[i] == a0[i] && b[i] == b0[i];
    c.check(ok, lab + ":operand-changed");
  };
  // f(i): expected component, tolerance in roundings
  auto cmp = [&](const P& got, auto f, const std::string& lab, ld r = 4) {
    for (size_t i = 0; i < D; i++) {
      const ld w = f(i);
      c.check_f(fabsl((ld)got[i] - w) <= r * eps * fabsl(w) + (integer ? 0 : 1e-300L), lab, [&] {
        std::ostringstream o; o.precision(21); o << "component " << i << " got " << (ld)got[i] << " want " << w; return o.str(); });
    }
  };
  auto A = [&](size_t i) { return (ld)a0[i]; };
  auto B = [&](size_t i) { return (ld)b0[i]; };
  const ld Sx = s0;
  auto I = [&](ld x) { return integer ? truncl(x) : x; };
  auto ipo = [&](auto op, auto f, const std::string& lab, ld r = 4) {  // in-place form
    P t = a0;
    P& ref = op(t);
    c.check(&ref == &t, lab + ":returns-itself");
    cmp(t, f, lab, r);
  };
  c.op("add-sub");
  // cancellation is exact in each component up to one rounding of the operands' size
  auto add = [&](const P& got, int sg, const std::string& lab) {
    for (size_t i = 0; i < D; i++) c.check_f(fabsl((ld)got[i] - (A(i) + sg * B(i))) <= 2 * eps * (fabsl(A(i)) + fabsl(B(i))), lab, [&] { return "component " + std::to_string(i) + " got " + std::to_string((ld)got[i]); });
  };
  add(a + b, 1, "operator+"); same("operator+");
  add(a - b, -1, "operator-"); same("operator-");
  { P t = a; P& r = (t += b); add(t, 1, "operator+="); c.check(&r == &t, "operator+=:returns-itself"); same("operator+="); }
  { P t = a; P& r = (t -= b); add(t, -1, "operator-="); c.check(&r == &t, "operator-=:returns-itself"); same("operator-="); }
  c.op("negation");
  cmp(-a, [&](size_t i) { return -A(i); }, "negation"); same("negation");
  c.op("scaling");
  cmp(a * s, [&](size_t i) { return A(i) * Sx; }, "point*scalar"); same("point*scalar");
  cmp(s * a, [&](size_t i) { return A(i) * Sx; }, "scalar*point"); same("scalar*point");
  cmp(a / s, [&](size_t i) { return I(A(i) / Sx); }, "point/scalar"); same("point/scalar");
  cmp(s / b, [&](size_t i) { return I(Sx / B(i)); }, "scalar/point"); same("scalar/point");
  ipo([&](P& t) -> P& { return t *= s; }, [&](size_t i) { return A(i) * Sx; }, "operator*="); same("operator*=");
  ipo([&](P& t) -> P& { return t /= s; }, [&](size_t i) { return I(A(i) / Sx); }, "operator/="); same("operator/=");
  if constexpr (!integer) {  // literals of another arithmetic type
    cmp(2 * a, [&](size_t i) { return 2 * A(i); }, "int*point");
    cmp(a * 2, [&](size_t i) { return 2 * A(i); }, "point*int");
    cmp(0.5 * a, [&](size_t i) { return 0.5L * A(i); }, "double*point");
    cmp(a / 4, [&](size_t i) { return A(i) / 4; }, "point/int");
    cmp(1. / b, [&](size_t i) { return 1 / B(i); }, "double/point");
  }
  c.op("products");
  {
    ld w = 0, m = 0;
    for (size_t i = 0; i < D; i++) { w += A(i) * B(i); m += fabsl(A(i) * B(i)); }
    const S got = a * b;
    c.check_f(fabsl((ld)got - w) <= 4 * D * eps * m, "dot", [&] { return "got " + std::to_string((ld)got) + " want " + std::to_string(w); });
    c.check(a * b == b * a, "dot:commutes");
    same("dot");
    ld q = 0;
    for (size_t i = 0; i < D; i++) q += A(i) * A(i);
    const S n2 = a.SquaredEuclidianNorm(), n1 = a.EuclidianNorm(), aa = a * a;
    c.check_f(fabsl((ld)n2 - q) <= 4 * D * eps * q, "squared-norm", [&] { return "got " + std::to_string((ld)n2) + " want " + std::to_string(q); });
    c.check_f(fabsl((ld)n1 - I(sqrtl(q))) <= 4 * D * eps * sqrtl(q), "norm", [&] { return "got " + std::to_string((ld)n1) + " want " + std::to_string(sqrtl(q)); });
    c.check(fabsl((ld)aa - q) <= 4 * D * eps * q, "dot:self");
    same("norms");
    // mixed scalar types
    bz::Point<D, double> d;
    ld w2 = 0, m2 = 0;
    for (size_t i = 0; i < D; i++) { d[i] = (double)b0[i]; w2 += A(i) * d[i]; m2 += fabsl(A(i) * d[i]); }
    c.check(fabsl((ld)(a * d) - w2) <= 4 * D * (std::max<ld>(integer ? 0 : eps, 2.3e-16L)) * m2, "dot:mixed");
    c.check((ld)(d * a) == (ld)(a * d), "dot:mixed:commutes");
    c.check(std::is_same_v<decltype(a * d), decltype(S{} * double{})> && std::is_same_v<decltype(d * a), decltype(S{} * double{})>, "dot:mixed:type");
    // operands of another type whose values their own type cannot hold: the result has the common type
    auto mixed = [&](auto zero, const char* lab) {
      using T = decltype(zero);
      using C = decltype(T{} * S{});
      bz::Point<D, T> e;
      ld w3 = 0, m3 = 0;
      for (size_t i = 0; i < D; i++) {
        e[i] = std::is_integral_v<T> ? (T)c.rng.range(0, 40) - (T)20 : (T)c.rng.uni(-3, 3);
        w3 += A(i) * (ld)e[i];
        m3 += fabsl(A(i) * (ld)e[i]);
      }
      const ld ec = std::is_integral_v<C> ? 0 : (ld)std::numeric_limits<C>::epsilon();
      c.check_f(fabsl((ld)(a * e) - w3) <= 4 * D * ec * m3, std::string("dot:mixed:") + lab, [&] { return "got " + std::to_string((ld)(a * e)) + " want " + std::to_string(w3); });
      c.check_f(fabsl((ld)(e * a) - w3) <= 4 * D * ec * m3, std::string("dot:mixed:reverse:") + lab, [&] { return "got " + std::to_string((ld)(e * a)) + " want " + std::to_string(w3); });
    };
    mixed(0, "int");
    mixed(0.f, "float");
    mixed(0., "double");
    mixed(0.L, "long double");
  }
  c.op("aliasing");
  { P t = a; t += t; cmp(t, [&](size_t i) { return 2 * A(i); }, "alias:p+=p"); }
  { P t = a; t -= t; cmp(t, [&](size_t) { return 0.L; }, "alias:p-=p"); }
  for (size_t k = 0; k < D; k++) {
    { P t = b; t *= t[k]; cmp(t, [&](size_t i) { return B(i) * B(k); }, "alias:p*=p[k]"); }
    { P t = b; t /= t[k]; cmp(t, [&](size_t i) { return I(B(i) / B(k)); }, "alias:p/=p[k]"); }
    { P t = b; t = t * t[k]; cmp(t, [&](size_t i) { return B(i) * B(k); }, "alias:p=p*p[k]"); }
    { P t = b; t = t / t[k]; cmp(t, [&](size_t i) { return I(B(i) / B(k)); }, "alias:p=p/p[k]"); }
    { P t = b; t = t[k] * t; cmp(t, [&](size_t i) { return B(i) * B(k); }, "alias:p=p[k]*p"); }
    { P t = b; t = t[k] / t; cmp(t, [&](size_t i) { return I(B(k) / B(i)); }, "alias:p=p[k]/p"); }
  }
  { P t = a; t = t + t; cmp(t, [&](size_t i) { return 2 * A(i); }, "alias:p=p+p"); }
  { P t = a; t = t - b; add(t, -1, "alias:p=p-q"); }
  { P t = b; t = a - t; add(t, -1, "alias:q=p-q"); }
  { P t = a; t = -t; cmp(t, [&](size_t i) { return -A(i); }, "alias:p=-p"); }
  // very large and very small operands whose results are ordinary numbers
  if constexpr (!integer) {
    c.op("extreme-scales");
    const int top = std::numeric_limits<S>::max_exponent, low = std::numeric_limits<S>::min_exponent;
    const int sub = std::numeric_limits<S>::digits / 2;
    P x;
    S t;
    auto draw = [&](int e) { return (S)ldexpl((ld)(c.rng.chance(.5) ? 1 : -1) * c.rng.uni(1, 2), e); };
    const bool huge = c.rng.chance(.5);
    const int e = huge ? top - 2 - (int)c.rng.below(8) : low - (int)c.rng.below(sub);
    t = draw(e);
    for (size_t i = 0; i < D; i++) x[i] = draw(huge ? e - 1 - (int)c.rng.below(20) : e + (int)c.rng.range(sub, sub + 20));
    auto X = [&](size_t i) { return (ld)x[i]; };
    const ld T0 = t;
    cmp(x / t, [&](size_t i) { return X(i) / T0; }, "extreme:point/scalar");
    { P y = x; y /= t; cmp(y, [&](size_t i) { return X(i) / T0; }, "extreme:operator/="); }
    cmp(t / x, [&](size_t i) { return T0 / X(i); }, "extreme:scalar/point");
    const S inv = draw(huge ? low - (int)c.rng.below(sub) : top - 2 - (int)c.rng.below(8));
    cmp(x * inv, [&](size_t i) { return X(i) * (ld)inv; }, "extreme:point*scalar");
    cmp(inv * x, [&](size_t i) { return X(i) * (ld)inv; }, "extreme:scalar*point");
    { P y = x; y *= inv; cmp(y, [&](size_t i) { return X(i) * (ld)inv; }, "extreme:operator*="); }
    cmp(-x, [&](size_t i) { return -X(i); }, "extreme:negation");
  }
  // zeros, infinities and NaN among the operands: still component by component
  if constexpr (!integer) {
    c.op("special-values");
    auto draw = [&]() -> S {
      switch (c.rng.below(8)) {
        case 0: return S(0);
        case 1: return -S(0);
        case 2: return std::numeric_limits<S>::infinity();
        case 3: return -std::numeric_limits<S>::infinity();
        case 4: return std::numeric_limits<S>::quiet_NaN();
        default: return (S)c.rng.uni(-3, 3);
      }
    };
    P x, y;
    for (size_t i = 0; i < D; i++) { x[i] = c.rng.chance(.5) ? a0[i] : draw(); y[i] = c.rng.chance(.5) ? b0[i] : draw(); }
    const S t = draw();
    auto alike = [&](S got, S want) {
      if (want != want) return got != got;
      if (std::isinf(want)) return got == want;
      return (bool)(fabsl((ld)got - (ld)want) <= 4 * eps * fabsl((ld)want));
    };
    auto each = [&](const P& got, auto f, const std::string& lab) {
      for (size_t i = 0; i < D; i++) {
        const S w = f(i);
        c.check_f(alike(got[i], w), "special:" + lab, [&] { std::ostringstream o; o << "component " << i << " of x " << x[i] << " y " << y[i] << " t " << t << " got " << got[i] << " want " << w; return o.str(); });
      }
    };
    each(x + y, [&](size_t i) { return x[i] + y[i]; }, "+");
    each(x - y, [&](size_t i) { return x[i] - y[i]; }, "-");
    each(-x, [&](size_t i) { return -x[i]; }, "negation");
    each(x * t, [&](size_t i) { return x[i] * t; }, "point*scalar");
    each(t * x, [&](size_t i) { return x[i] * t; }, "scalar*point");
    each(x / t, [&](size_t i) { return x[i] / t; }, "point/scalar");
    each(t / x, [&](size_t i) { return t / x[i]; }, "scalar/point");
    { P z = x; z *= t; each(z, [&](size_t i) { return x[i] * t; }, "*="); }
    { P z = x; z /= t; each(z, [&](size_t i) { return x[i] / t; }, "/="); }
    { P z = x; z += y; each(z, [&](size_t i) { return x[i] + y[i]; }, "+="); }
    { P z = x; z -= y; each(z, [&](size_t i) { return x[i] - y[i]; }, "-="); }
    // a sum with a term that is not finite does not depend on the order
    S w = 0, q = 0;
    for (size_t i = 0; i < D; i++) { w += x[i] * y[i]; q += x[i] * x[i]; }
    if (!std::isfinite(w)) {
      const S g = x * y, h = y * x;
      c.check_f(alike(g, w) && alike(h, w), "special:dot", [&] { std::ostringstream o; o << "got " << g << " and " << h << " want " << w; return o.str(); });
      c.count("special:dot:not-finite");
    }
    if (!std::isfinite(q)) {
      const S g = x.SquaredEuclidianNorm(), h = x.EuclidianNorm();
      c.check_f(alike(g, q) && alike(h, q), "special:norm", [&] { std::ostringstream o; o << "got " << g << " and " << h << " want " << q; return o.str(); });
    }
    c.check((x == y) == [&] { for (size_t i = 0; i < D; i++) if (!(x[i] == y[i])) return false; return true; }(), "special:equality");
  }
  c.op("construct");
  {
    const P z{};
    const P cp(a);
    P as;
    as = a;
    for (size_t i = 0; i < D; i++) {
      c.check(cp[i] == a[i] && as[i] == a[i], "copy");
      c.check(a.at(i) == a[i] && *(a.begin() + i) == a[i], "access");
    }
    c.check(a.size() == D && P::kSpatialDimension == D, "size");
    c.check((cp == a) && !(cp != a), "equality");
    P o = a;
    const size_t k = c.rng.below(D);
    o[k] = o[k] + S(1) == o[k] ? S(0) : o[k] + S(1);
    c.check(o[k] == a[k] || o != a, "inequality");
    if constexpr (D == 1) { const P v(a0[0]); c.check(v == a, "construct:variadic"); }
    if constexpr (D == 2) { const P v{a0[0], a0[1]}; c.check(v == a, "construct:variadic"); }
    if constexpr (D == 3) { const P v{a0[0], a0[1], a0[2]}; c.check(v == a, "construct:variadic"); }
    if constexpr (D == 4) { const P v(a0[0], a0[1], a0[2], a0[3]); c.check(v == a, "construct:variadic"); }
  }
  c.op("text");
  const int prec = (int)c.rng.range(1, 17);
  for (int form = 0; form < 3; form++) {
    const int p = form == 0 ? 6 : prec;
    std::string t;
    if (form == 0) t = a.toString();
    else if (form == 1) t = a.toString(prec);
    else { std::ostringstream o; o << a; t = o.str(); }
    const int pp = form == 2 ? 6 : p;
    std::vector<ld> got;
    const char* q = t.c_str();
    for (; *q;) {
      char* e = nullptr;
      const ld x = strtold(q, &e);
      if (e != q) { got.push_back(x); q = e; } else q++;
    }
    c.check_f(got.size() == D, "text:components", [&] { return t; });
    for (size_t i = 0; i < D; i++)
      c.check_f(fabsl(got[i] - A(i)) <= (integer ? 0.L : 0.6L * powl(10.L, 1 - pp) * fabsl(A(i)) + 1e-30L), "text:value", [&] { return t; });
    c.check_f(!t.empty() && t.front() == '[' && t.back() == ']' && std::count(t.begin(), t.end(), ',') == (long)D - 1, "text:form", [&] { return t; });
    same("text");
  }
}
// points of differentiated components
template <std::size_t D, std::size_t N>
void adPoint(Ctx& c) {
  using A = bz::utils::computational_differentiation::AlgoDiffType<double, N>;
  using P = bz::Point<D, A>;
  P a, b;
  std::vector<std::vector<ld>> ga(D, std::vector<ld>(N)), gb = ga;
  std::vector<ld> va(D), vb(D);
  auto draw = [&](ld& v, std::vector<ld>& g) {
    const double x = (double)(v = (double)(c.rng.chance(0.5) ? 1 : -1) * c.rng.uni(0.3, 3));
    A r(x);
    for (size_t k = 0; k < N; k++) {
      A t(0., k);
      const double w = c.rng.uni(-2, 2);
      g[k] = w;
      r += t * w;
    }
    c.desc << " " << x;
    return r;
  };
  for (size_t i = 0; i < D; i++) { a[i] = draw(va[i], ga[i]); b[i] = draw(vb[i], gb[i]); }
  ld vs; std::vector<ld> gs(N);
  const A s = draw(vs, gs);
  c.nontrivial = true;
  auto is = [&](const A& got, ld v, auto g, const std::string& lab) {
    c.check_f(fabsl(got.GetValue() - v) <= 1e-13L * (1 + fabsl(v)), lab + ":value", [&] { return "got " + std::to_string(got.GetValue()) + " want " + std::to_string(v); });
    for (size_t k = 0; k < N; k++) c.check(fabsl(got.GetDerivatives()[k] - g(k)) <= 1e-12L * (10 + fabsl(g(k))), lab + ":derivative");
  };
  auto prod = [](ld v, ld g, ld w, ld h) { return v * h + g * w; };
  auto quot = [](ld v, ld g, ld w, ld h) { return (g * w - v * h) / (w * w); };
  c.op("ad-point");
  const P sum = a + b, dif = a - b, neg = -a, ps = a * s, sp = s * a, pd = a / s, sd = s / b, dp = 2.5 * a, dd = 2.5 / b;
  for (size_t i = 0; i < D; i++) {
    is(sum[i], va[i] + vb[i], [&](size_t k) { return ga[i][k] + gb[i][k]; }, "ad:+");
    is(dif[i], va[i] - vb[i], [&](size_t k) { return ga[i][k] - gb[i][k]; }, "ad:-");
    is(neg[i], -va[i], [&](size_t k) { return -ga[i][k]; }, "ad:neg");
    is(ps[i], va[i] * vs, [&](size_t k) { return prod(va[i], ga[i][k], vs, gs[k]); }, "ad:p*s");
    is(sp[i], va[i] * vs, [&](size_t k) { return prod(va[i], ga[i][k], vs, gs[k]); }, "ad:s*p");
    is(pd[i], va[i] / vs, [&](size_t k) { return quot(va[i], ga[i][k], vs, gs[k]); }, "ad:p/s");
    is(sd[i], vs / vb[i], [&](size_t k) { return quot(vs, gs[k], vb[i], gb[i][k]); }, "ad:s/p");
    is(dp[i], 2.5L * va[i], [&](size_t k) { return 2.5L * ga[i][k]; }, "ad:2.5*p");
    is(dd[i], 2.5L / vb[i], [&](size_t k) { return quot(2.5L, 0, vb[i], gb[i][k]); }, "ad:2.5/p");
  }
  ld w = 0, q = 0;
  std::vector<ld> gw(N), gq(N);
  for (size_t i = 0; i < D; i++) {
    w += va[i] * vb[i];
    q += va[i] * va[i];
    for (size_t k = 0; k < N; k++) { gw[k] += prod(va[i], ga[i][k], vb[i], gb[i][k]); gq[k] += 2 * va[i] * ga[i][k]; }
  }
  is(a * b, w, [&](size_t k) { return gw[k]; }, "ad:dot");
  is(a.SquaredEuclidianNorm(), q, [&](size_t k) { return gq[k]; }, "ad:squared-norm");
  is(a.EuclidianNorm(), sqrtl(q), [&](size_t k) { return gq[k] / (2 * sqrtl(q)); }, "ad:norm");
  for (size_t j = 0; j < D; j++) {
    P t = a, u = a;
    t *= t[j];
    u /= u[j];
    for (size_t i = 0; i < D; i++) {
      is(t[i], va[i] * va[j], [&](size_t k) { return prod(va[i], ga[i][k], va[j], ga[j][k]); }, "ad:alias*=");
      is(u[i], va[i] / va[j], [&](size_t k) { return quot(va[i], ga[i][k], va[j], ga[j][k]); }, "ad:alias/=");
    }
  }
}
int main(int argc, char** argv) {
  reg("Point<1>", pointCase<1, double>);
  reg("Point<2>", pointCase<2, double>);
  reg("Point<3>", pointCase<3, double>);
  reg("Point<4>", pointCase<4, double>);
  reg("Point<7>", pointCase<7, double>);
  reg("Point<20>", pointCase<20, double>);
  reg("Point<33,float>", pointCase<33, float>);
  reg("Point<1,float>", pointCase<1, float>);
  reg("Point<2,float>", pointCase<2, float>);
  reg("Point<3,float>", pointCase<3, float>);
  reg("Point<3,long double>", pointCase<3, long double>);
  reg("Point<2,int>", pointCase<2, int>);
  reg("Point<19,int>", pointCase<19, int>);
  reg("Point<3,AD>", adPoint<3, 2>);
  reg("Point<1,AD>", adPoint<1, 3>);
  return run_main(argc, argv, "P21");
}
