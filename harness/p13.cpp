// P13: rational algebra.
#include "large.hpp"
using namespace vf;

template <class Spl>
Spl genWithWeights(Ctx& c, const Deg& d, int mode, const std::vector<typename Dim<Spl>::Sc>& w, const char* name) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  Bz<PD, P, S> s(arr<PD>(d));
  fillSpline(c, s, mode);
  c.desc << name << ": " << str(toM(s)) << " w{";
  for (auto x : w) c.desc << x << ",";
  c.desc << "}; ";
  return Spl(arr<PD>(d), s.control_points, w);
}
// combined values
Val plus(const Val& x, const Val& y, ld s) {
  Val r = x;
  for (size_t q = 0; q < r.v.size(); q++) { r.v[q] += s * y.v[q]; r.a[q] += y.a[q]; }
  return r;
}
Val times(const Val& x, const Val& y) {
  Val r;
  const bool dot = x.v.size() > 1 && y.v.size() > 1;
  const size_t n = std::max(x.v.size(), y.v.size());
  r.v.assign(dot ? 1 : n, 0);
  r.a = r.v;
  for (size_t q = 0; q < n; q++) {
    const size_t i = x.v.size() == 1 ? 0 : q, j = y.v.size() == 1 ? 0 : q, o = dot ? 0 : q;
    r.v[o] += x.v[i] * y.v[j];
    r.a[o] += x.a[i] * y.a[j];
  }
  return r;
}
template <class R1>
void spread1(Ctx& c, const R1& r, const RM& m, std::vector<ld>& fl) {
  fl.assign(m.num.nc, 0);
  for (size_t i = 0; i < m.num.n(); i++)
    for (size_t q = 0; q < m.num.nc; q++) fl[q] = std::max(fl[q], fabsl(m.num.c[i * m.num.nc + q] / m.w.c[i]));
}

template <class Spl, class Other>
void algCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  using SO = typename Dim<Other>::Sc;
  using SR = decltype(S{} * SO{});
  constexpr ld K = mixed<SR, S, SO>();
  constexpr bool same = std::is_same_v<Spl, Other>;
  const bool bigger = c.rng.chance(.08);
  const size_t md = bigger ? 14 : 6, mc = bigger ? 130 : 40;
  Deg d1 = genDeg(c, PD, md, mc), d2 = genDeg(c, PD, md, mc);
  const size_t rel = c.rng.below(7);  // relation of the weight functions
  if (rel <= 2) d2 = d1;
  const size_t n1 = prod1(d1), n2 = prod1(d2);
  std::vector<S> w1 = genWeights<S, SO>(c, n1);
  std::vector<SO> w2 = genWeights<SO, S>(c, n2);
  if (rel == 0) w2.assign(w1.begin(), w1.end());
  if (rel == 1) { const S k = (S)c.rng.uni(0.3, 3); for (size_t i = 0; i < n1; i++) w2[i] = (SO)(w1[i] * k); }
  c.count(rel == 0 ? "weights:equal" : rel == 1 ? "weights:proportional" : rel == 2 ? "weights:different" : "degrees:different");
  const Spl a = genWithWeights<Spl>(c, d1, genMode(c), w1, "a");
  const Other b = genWithWeights<Other>(c, d2, genMode(c), w2, "b");
  const RM ma = toRM(a), mb = toRM(b);
  c.nontrivial = isNontrivial(ma.num) && isNontrivial(mb.num);
  const std::string sa = snap(a), sb = snap(b);
  std::vector<std::vector<ld>> us;
  for (int k = 0; k < 3; k++) {
    us.push_back(genParam<S>(c, PD));
    c.desc << "u=" << str(us.back()) << "; ";
  }
  std::vector<ld> fa, fb;
  spread1(c, a, ma, fa);
  spread1(c, b, mb, fb);
  auto verify = [&](const auto& r, auto&& val, const std::string& lab, const std::vector<ld>& fl) {
    structure(c, r, lab);
    for (auto& w : r.GetWeights()) c.check(w > 0, lab + ":weight-not-positive");
    for (auto& u : us) expectVal<typename Dim<std::decay_t<decltype(r)>>::Sc>(c, r.Evaluate(pt<PD, typename Dim<std::decay_t<decltype(r)>>::Sc>(u)), val(u), lab, 50 * K, fl);
  };
  std::vector<ld> fs = fa;
  if constexpr (same) {
    for (size_t q = 0; q < fs.size(); q++) fs[q] += fb[q];
    auto vs = [&](const std::vector<ld>& u) { return plus(ma.eval(u), mb.eval(u), 1); };
    auto vd = [&](const std::vector<ld>& u) { return plus(ma.eval(u), mb.eval(u), -1); };
    auto vr = [&](const std::vector<ld>& u) { return plus(mb.eval(u), ma.eval(u), -1); };
    c.op("a+b"); verify(a + b, vs, "add", fs);
    c.op("b+a"); verify(b + a, vs, "add", fs);
    c.op("a-b"); verify(a - b, vd, "sub", fs);
    c.op("b-a"); verify(b - a, vr, "sub", fs);
    c.op("a+=b"); Spl t = a; Spl& q = (t += b); c.check(&q == &t, "add-assign:returns-other-object"); verify(t, vs, "add-assign", fs);
    c.op("a-=b"); Spl t2 = a; Spl& q2 = (t2 -= b); c.check(&q2 == &t2, "sub-assign:returns-other-object"); verify(t2, vd, "sub-assign", fs);
    // several in a row
    if (prod1(d1) + prod1(d2) < 30 && std::all_of(d1.begin(), d1.end(), [](size_t x) { return x <= 5; }) && std::all_of(d2.begin(), d2.end(), [](size_t x) { return x <= 5; })) {
      c.op("a+=b;a-=a2");
      Spl t3 = a;
      t3 += b;
      t3 -= a;
      verify(t3, [&](const std::vector<ld>& u) { Val v = mb.eval(u), w = ma.eval(u); for (size_t q = 0; q < v.a.size(); q++) v.a[q] += 2 * w.a[q]; return v; }, "add-then-subtract", fs);
    }
  }
  {
    auto vp = [&](const std::vector<ld>& u) { return times(ma.eval(u), mb.eval(u)); };
    std::vector<ld> fp(PT<P>::n);
    const ld A = *std::max_element(fa.begin(), fa.end()), B = *std::max_element(fb.begin(), fb.end());
    std::fill(fp.begin(), fp.end(), A * B * 4);
    fp.resize(std::max(fa.size(), fb.size()), A * B * 4);
    c.op("a*b"); verify(a * b, vp, "mul", fp);
    c.op("b*a"); verify(b * a, vp, "mul-swapped", fp);
  }
  // same object as both operands
  c.op("self");
  auto v2 = [&](const std::vector<ld>& u) { return plus(ma.eval(u), ma.eval(u), 1); };
  auto v0 = [&](const std::vector<ld>& u) { return plus(ma.eval(u), ma.eval(u), -1); };
  verify(a + a, v2, "add-self", fa);
  verify(a - a, v0, "sub-self", fa);
  { Spl t = a; t += t; verify(t, v2, "add-assign-self", fa); }
  { Spl t = a; t -= t; verify(t, v0, "sub-assign-self", fa); }
  if (std::all_of(d1.begin(), d1.end(), [](size_t x) { return 2 * x <= LIMIT; })) {
    const ld A = *std::max_element(fa.begin(), fa.end());
    verify(a * a, [&](const std::vector<ld>& u) { return times(ma.eval(u), ma.eval(u)); }, "mul-self", std::vector<ld>(PT<P>::n, 4 * A * A));
  }
  // scalars
  {
    std::vector<S> cand{(S)0, (S)1, (S)-1, (S)2, (S)0.5, (S)c.rng.uni(-3, 3), (S)1e-6, (S)1e5};
    const S f = c.rng.pick(cand);
    c.desc << "factor=" << (double)f << "; ";
    auto v = [&](const std::vector<ld>& u) { Val x = ma.eval(u); for (auto& y : x.v) y *= f; for (auto& y : x.a) y *= fabsl((ld)f); return x; };
    std::vector<ld> ff = fa;
    for (auto& x : ff) x *= fabsl((ld)f);
    c.op("scale");
    verify(a * f, v, "scale", ff);
    verify(f * a, v, "scale-left", ff);
    Spl t = a; Spl& q = (t *= f); c.check(&q == &t, "scale-assign:returns-other-object"); verify(t, v, "scale-assign", ff);
    c.op("negate");
    verify(-a, [&](const std::vector<ld>& u) { Val x = ma.eval(u); for (auto& y : x.v) y = -y; return x; }, "negate", fa);
  }
  // translations
  {
    P p{};
    Val pv;
    for (size_t q = 0; q < PT<P>::n; q++) {
      PT<P>::get(p, q) = (S)c.rng.uni(-3, 3);
      pv.v.push_back((ld)PT<P>::get(p, q));
      pv.a.push_back(fabsl(pv.v.back()));
    }
    c.desc << "shift=" << str(pv.v) << "; ";
    std::vector<ld> ff = fa;
    for (size_t q = 0; q < ff.size(); q++) ff[q] += pv.a[q];
    c.op("translate");
    auto vp = [&](const std::vector<ld>& u) { return plus(ma.eval(u), pv, 1); };
    auto vm = [&](const std::vector<ld>& u) { return plus(ma.eval(u), pv, -1); };
    verify(a + p, vp, "shift", ff);
    verify(p + a, vp, "shift-left", ff);
    verify(a - p, vm, "shift-minus", ff);
    { Spl t = a; Spl& q = (t += p); c.check(&q == &t, "shift-assign:returns-other-object"); verify(t, vp, "shift-assign", ff); }
    { Spl t = a; Spl& q = (t -= p); c.check(&q == &t, "shift-assign:returns-other-object"); verify(t, vm, "shift-minus-assign", ff); }
    // own weighted control point
    c.op("alias-control-point");
    const size_t i = c.rng.below(n1);
    for (size_t q = 0; q < PT<P>::n; q++) {
      pv.v[q] = ma.num.c[i * ma.num.nc + q];
      pv.a[q] = fabsl(pv.v[q]);
      ff[q] = fa[q] + pv.a[q];
    }
    { Spl t = a; t += t.GetWeightedControlPoints()[i]; verify(t, vp, "alias-shift-assign", ff); }
    { Spl t = a; t -= t.GetWeightedControlPoints()[i]; verify(t, vm, "alias-shift-minus-assign", ff); }
    {
      Spl t = a;
      const size_t q0 = c.rng.below(PT<P>::n);
      const ld f = pv.v[q0];
      t *= PT<P>::get(t.GetWeightedControlPoints()[i], q0);
      std::vector<ld> fg = fa;
      for (auto& x : fg) x *= fabsl(f);
      verify(t, [&](const std::vector<ld>& u) { Val x = ma.eval(u); for (auto& y : x.v) y *= f; for (auto& y : x.a) y *= fabsl(f); return x; }, "alias-scale-assign", fg);
    }
    {
      Spl t = a;
      const ld f = (ld)w1[i];
      t *= t.GetWeights()[i];
      std::vector<ld> fg = fa;
      for (auto& x : fg) x *= f;
      verify(t, [&](const std::vector<ld>& u) { Val x = ma.eval(u); for (auto& y : x.v) y *= f; for (auto& y : x.a) y *= f; return x; }, "alias-scale-assign-weight", fg);
    }
  }
  c.check(snap(a) == sa && snap(b) == sb, "algebra:modifies-operand");
}
void largeCase(Ctx& c) {
  const Deg d = largeDeg(c);
  std::vector<double> w;
  const LR a = largeRational<LR>(c, d, &w);
  const LS p = largeSpline<LS>(c, d);
  const LR b(arr<LPD>(d), p.control_points, w);
  Deg e(LPD, 0);
  for (int k = 0; k < 2; k++) { const size_t q = c.rng.below(LPD); if (d[q] + e[q] < LIMIT) e[q]++; }
  const LR s = largeRational<LR>(c, e);
  const RM ma = toRM(a), mb = toRM(b), ms = toRM(s);
  const std::vector<ld> fl{1000, 1000};
  auto same = [&](const LR& r, const RM& x, const RM& y, ld sign, const char* lab) {
    structure(c, r, lab);
    for (int k = 0; k < 2; k++) {
      const auto u = k ? cornerish(c) : largeParam(c);
      expectVal<double>(c, r.Evaluate(pt<LPD, double>(u)), plus(x.eval(u), y.eval(u), sign), lab, 50, fl);
    }
  };
  c.op("a+b"); same(a + b, ma, mb, 1, "large:add");
  c.op("a-=b"); { LR t = a; t -= b; same(t, ma, mb, -1, "large:sub-assign"); }
  if (prod1(e) <= 4 && prod1(d) * prod1(e) < 400000) { c.op("a+s"); same(a + s, ma, ms, 1, "large:add-different-weights"); }
  c.op("negate"); { const auto u = cornerish(c); Val x = ma.eval(u); for (auto& y : x.v) y = -y; expectVal<double>(c, (-a).Evaluate(pt<LPD, double>(u)), x, "large:negate", 50, fl); }
}
#define F(PD, A, B) reg("rational-algebra<" #PD "," #A "," #B ">", algCase<Rz<PD, A>, Rz<PD, B>>)
int main(int argc, char** argv) {
  using bz::Point;
  using P2 = Point<2>; using P3 = Point<3>; using P2f = Point<2, float>; using P2l = Point<2, long double>;
#if GROUP == 0
  F(1, double, double); F(2, P2, P2); F(1, P3, double); F(2, double, double); F(2, P3, double); F(2, P2, P2f); F(1, P3, float); F(2, float, double); F(1, double, long double);
#else
  F(3, P3, P3); F(3, double, double); F(1, P2, P2); F(2, P2l, P2l); F(2, P2l, long double); F(5, double, P2); F(1, P2f, P2f);
#endif
#if GROUP == 1
  regLarge("algebra", largeCase, algCase<Rz<2, P2l>, Rz<2, P2l>>, 24);
#endif
  return run_main(argc, argv, "P13");
}
