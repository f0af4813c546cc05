// P07: products and integer powers.
#include "large.hpp"
using namespace vf;

template <class A, class B>
void prodCase(Ctx& c) {
  constexpr size_t PD = Dim<A>::pd;
  using S = decltype(typename Dim<A>::Sc{} * typename Dim<B>::Sc{});
  constexpr ld K = mixed<S, typename Dim<A>::Sc, typename Dim<B>::Sc>();
  Deg d1 = genDeg(c, PD, LIMIT, 60), d2 = genDeg(c, PD, LIMIT, 60);
  for (size_t k = 0; k < PD; k++)
    while (d1[k] + d2[k] > LIMIT || d1[k] + d2[k] > 34) (c.rng.chance(.5) && d1[k] ? d1[k] : d2[k] ? d2[k] : d1[k])--;
  while ([&] { Deg s(PD); for (size_t k = 0; k < PD; k++) s[k] = d1[k] + d2[k]; return prod1(s); }() > 700) {
    const size_t k = c.rng.below(PD);
    if (d1[k] > 1) d1[k]--;
    if (d2[k] > 1) d2[k]--;
  }
  const A a = genSpline<A>(c, d1, genMode(c), "a");
  const B b = genSpline<B>(c, d2, genMode(c), "b");
  static_assert(std::is_same_v<typename Dim<std::decay_t<decltype(a * b)>>::Sc, S> && std::is_same_v<typename Dim<std::decay_t<decltype(b * a)>>::Sc, S>);
  const M ma = toM(a), mb = toM(b);
  c.nontrivial = isNontrivial(ma) && isNontrivial(mb);
  const std::string sa = snap(a), sb = snap(b);
  const M w = mulM(ma, mb);
  c.op("a*b");
  const auto p = a * b;
  expectSpline(c, p, w, "product", 4 * K);
  c.op("b*a");
  const auto q = b * a;
  expectSpline(c, q, w, "product-swapped", 4 * K);
  for (int k = 0; k < 2; k++) {
    const auto u = genParam<S>(c, PD, true);
    c.desc << "u=" << str(u) << "; ";
    const Val va = ma.eval(u), vb = mb.eval(u);
    Val e;
    const bool dot = ma.nc > 1 && mb.nc > 1;
    e.v.assign(w.nc, 0); e.a.assign(w.nc, 0);
    for (size_t j = 0; j < std::max(ma.nc, mb.nc); j++) {
      const size_t ja = ma.nc == 1 ? 0 : j, jb = mb.nc == 1 ? 0 : j, o = dot ? 0 : j;
      e.v[o] += va.v[ja] * vb.v[jb];
      e.a[o] += va.a[ja] * vb.a[jb];
    }
    c.op("Evaluate");
    e.a = w.eval(u).a;  // outside the domain, rounding errors grow with the degree
    expectVal<S>(c, p.Evaluate(pt<PD, S>(u)), e, "product:pointwise", 20 * K, maxas(w));
  }
  if constexpr (std::is_same_v<A, B>) {
    if (std::all_of(d1.begin(), d1.end(), [](size_t x) { return 2 * x <= LIMIT; })) {
      c.op("a*a");
      expectSpline(c, a * a, mulM(ma, ma), "product-self", 4);
    }
    if constexpr (PT<typename Dim<A>::Phys>::scalar) {
      A t = a;
      t = t * b;
      expectSpline(c, t, w, "product-reassigned", 4);
    }
  }
  c.check(snap(a) == sa && snap(b) == sb, "product:modifies-operand");
}

template <class A>
void powCase(Ctx& c) {
  constexpr size_t PD = Dim<A>::pd;
  using P = typename Dim<A>::Phys;
  using S = typename Dim<A>::Sc;
  size_t n = c.rng.below(8);
  Deg d = genDeg(c, PD, 6, 24);
  const bool high = c.rng.chance(.25);
  if (high) {  // as high as the degrees allow, without limit for constants
    for (size_t k = 0; k < PD; k++) d[k] = c.rng.chance(.6) ? 0 : c.rng.below(4);
    const size_t top = *std::max_element(d.begin(), d.end());
    n = top ? c.rng.below(LIMIT / top + 1) : c.rng.below(std::is_same_v<S, float> || RR<S, P>() > 1e-5L ? 70 : 2100);
    if (c.rng.chance(.3)) n = (size_t)1 << c.rng.below(top ? 4 : 7);
  }
  for (size_t k = 0; k < PD; k++)
    while (d[k] * n > LIMIT) d[k]--;
  while ([&] { Deg s(PD); for (size_t k = 0; k < PD; k++) s[k] = d[k] * n; return prod1(s); }() > (G.thorough ? 1500 : 500)) n--;
  int mode = genMode(c);
  if (mode == BIG) mode = INT;
  if (mode == SMALL) mode = UNI;
  if (n > 8 && (mode == INT || mode == MIXED || mode == NEAR || mode == CONST || mode == ONEHOT)) mode = UNI;
  const A a = genSpline<A>(c, d, mode, "a");
  c.desc << "power=" << n << "; ";
  const M m = toM(a);
  c.nontrivial = isNontrivial(m) && n > 0;
  c.count("power:" + (n < 10 ? std::to_string(n) : n < 100 ? std::string("10+") : std::string("100+")));
  const std::string sa = snap(a);
  c.op("RaisePower");
  if constexpr (PT<P>::scalar) {
    M w(Deg(PD, 0), 1);
    w.c[0] = w.a[0] = 1;
    for (size_t i = 0; i < n; i++) w = mulM(w, m);
    const auto r = a.RaisePower(n);
    expectSpline(c, r, w, "power", 10);
    const auto u = genParam<S>(c, PD);
    const Val v = m.eval(u);
    Val e;
    e.v.push_back(ipow(v.v[0], n));
    e.a.push_back(ipow(v.a[0], n));
    expectVal<S>(c, r.Evaluate(pt<PD, S>(u)), e, "power:pointwise", 50, maxas(w));
  } else {
    c.check(refused([&] { a.RaisePower(n); }), "power:point-valued-accepted");
  }
  c.check(snap(a) == sa, "power:modifies-operand");
}
void largeCase(Ctx& c) {
  // the product is the large one; one factor is small
  const Deg d = largeDeg(c);
  Deg e(LPD, 0), f = d;
  for (int k = 0; k < 3; k++) { const size_t q = c.rng.below(LPD); if (f[q] && e[q] < 2) { f[q]--; e[q]++; } }
  const LD a = largeSpline<LD>(c, f), b = largeSpline<LD>(c, e);
  const M w = mulM(toM(b), toM(a));
  c.op("a*b"); expectSpline(c, a * b, w, "large:product", 4);
  c.op("b*a"); expectSpline(c, b * a, w, "large:product-swapped", 4);
}
#define F(PD, A, B) reg("product<" #PD "," #A "," #B ">", prodCase<Bz<PD, A>, Bz<PD, B>>)
#define W(PD, ...) reg("power<" #PD "," #__VA_ARGS__ ">", powCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
  using P2 = Point<2>; using P3 = Point<3>; using P2f = Point<2, float>; using P2l = Point<2, long double>;
#if GROUP == 0
  F(1, double, double); F(2, double, double); F(1, P2, double); F(2, P3, double); F(2, P2, P2); F(1, P3, P3);
  W(1, double); W(2, double);
  F(2, P3, float); F(2, P2f, double); F(1, float, double); F(2, P2, P2f); F(1, double, long double); F(2, long double, P2f);
#else
  F(3, double, double); F(3, P3, double); F(3, P2, P2); F(2, P2f, float); F(2, P2l, long double); F(1, float, float); F(4, double, double); F(6, double, P2);
  W(3, double); W(2, P2); W(1, float); W(2, long double);
#endif
#if GROUP == 1
  regLarge("product", largeCase, prodCase<Bz<4, double>, Bz<4, double>>);
#endif
  return run_main(argc, argv, "P07");
}
