// P06: addition, subtraction, scaling and translation.
#include "large.hpp"
using namespace vf;

template <class Spl>
typename Dim<Spl>::Phys genPoint(Ctx& c, std::vector<ld>& out, const char* name) {
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  P p{};
  const int mode = c.rng.below(6) == 0 ? ZERO : genMode(c);
  out.clear();
  for (size_t q = 0; q < PT<P>::n; q++) {
    PT<P>::get(p, q) = genCoord<S>(c, mode == ONEHOT || mode == GREV ? UNI : mode, 1.5 + (double)q);
    out.push_back((ld)PT<P>::get(p, q));
  }
  c.desc << name << "=" << str(out) << "; ";
  return p;
}

template <class Spl>
void addCase(Ctx& c) {
  constexpr size_t PD = Dim<Spl>::pd;
  using P = typename Dim<Spl>::Phys;
  using S = typename Dim<Spl>::Sc;
  const size_t cap = 100;
  Deg d1 = genDeg(c, PD, 9, cap), d2 = genDeg(c, PD, 9, cap);
  switch (c.rng.below(6)) {
    case 0: d2 = d1; break;
    case 1: d2 = d1; d2[c.rng.below(PD)] += 1 + c.rng.below(3); break;      // rhs larger
    case 2: d2 = d1; d1[c.rng.below(PD)] += 1 + c.rng.below(3); break;      // lhs larger
    case 3: if (PD > 1) { d2 = d1; d2[0] += 1 + c.rng.below(2); d1[PD - 1] += 1 + c.rng.below(2); } break;  // crossed
    default: break;
  }
  if (prod1(maxdeg(d1, d2)) > 1500) { d2 = d1; }
  const Spl a = genSpline<Spl>(c, d1, genMode(c), "a");
  const Spl b = genSpline<Spl>(c, d2, genMode(c), "b");
  const M ma = toM(a), mb = toM(b);
  c.nontrivial = isNontrivial(ma) || isNontrivial(mb);
  const std::string sa = snap(a), sb = snap(b);
  if (d1 == d2) c.count("degrees:equal");
  else {
    bool l = false, r = false;
    for (size_t i = 0; i < PD; i++) { l |= d1[i] > d2[i]; r |= d2[i] > d1[i]; }
    c.count(l && r ? "degrees:crossed" : l ? "degrees:lhs-larger" : "degrees:rhs-larger");
  }
  const M sum = addM(ma, mb), dif = addM(ma, mb, -1), fid = addM(mb, ma, -1);
  c.op("a+b"); expectSpline(c, a + b, sum, "add", 8);
  c.op("b+a"); expectSpline(c, b + a, sum, "add", 8);
  c.op("a-b"); expectSpline(c, a - b, dif, "sub", 8);
  c.op("b-a"); expectSpline(c, b - a, fid, "sub", 8);
  {
    Spl t = a;
    c.op("a+=b"); Spl& r = (t += b);
    c.check(&r == &t, "add-assign:returns-other-object");
    expectSpline(c, t, sum, "add-assign", 8);
    c.op("a-=b"); Spl t2 = a;
    Spl& r2 = (t2 -= b);
    c.check(&r2 == &t2, "sub-assign:returns-other-object");
    expectSpline(c, t2, dif, "sub-assign", 8);
  }
  // pointwise at random parameters
  for (int k = 0; k < 2; k++) {
    const auto u = genParam<S>(c, PD, true);
    Val va = ma.eval(u), vb = mb.eval(u), vs = va, vd = va;
    for (size_t q = 0; q < ma.nc; q++) {
      vs.v[q] += vb.v[q]; vs.a[q] += vb.a[q];
      vd.v[q] -= vb.v[q]; vd.a[q] += vb.a[q];
    }
    const auto fl = maxas(sum);
    // outside the domain, rounding errors grow with the degree of the result
    vs.a = sum.eval(u).a;
    vd.a = dif.eval(u).a;
    expectVal<S>(c, (a + b).Evaluate(pt<PD, S>(u)), vs, "add:pointwise", 20, fl);
    expectVal<S>(c, (a - b).Evaluate(pt<PD, S>(u)), vd, "sub:pointwise", 20, fl);
  }
  // self operands
  {
    c.op("self");
    expectSpline(c, a + a, ma.scaled(2), "add-self", 8);
    M z = addM(ma, ma, -1);
    expectSpline(c, a - a, z, "sub-self", 8);
    Spl t = a; t += t; expectSpline(c, t, ma.scaled(2), "add-assign-self", 8);
    Spl t2 = a; t2 -= t2; expectSpline(c, t2, z, "sub-assign-self", 8);
    Spl t3 = a; t3 = t3 + b; expectSpline(c, t3, sum, "add-reassigned", 8);
    Spl t4 = b; t4 = a - t4; expectSpline(c, t4, dif, "sub-reassigned", 8);
  }
  // scaling and negation
  {
    std::vector<S> cand{(S)0, (S)1, (S)-1, (S)2, (S)0.5, (S)c.rng.uni(-3, 3), (S)1e-8, (S)1e6};
    const S f = c.rng.pick(cand);
    c.desc << "factor=" << (double)f << "; ";
    c.op("scale");
    expectSpline(c, a * f, ma.scaled(f), "scale");
    expectSpline(c, f * a, ma.scaled(f), "scale-left");
    Spl t = a; Spl& r = (t *= f);
    c.check(&r == &t, "scale-assign:returns-other-object");
    expectSpline(c, t, ma.scaled(f), "scale-assign");
    c.op("negate");
    expectSpline(c, -a, ma.scaled(-1), "negate");
  }
  // translation
  {
    std::vector<ld> pv;
    const P p = genPoint<Spl>(c, pv, "shift");
    c.op("translate");
    expectSpline(c, a + p, ma.shifted(pv), "shift");
    expectSpline(c, p + a, ma.shifted(pv), "shift-left");
    expectSpline(c, a - p, ma.shifted(pv, -1), "shift-minus");
    expectSpline(c, p - a, ma.shifted(pv, -1).scaled(-1), "shift-minus-left");
    Spl t = a; Spl& r = (t += p); c.check(&r == &t, "shift-assign:returns-other-object");
    expectSpline(c, t, ma.shifted(pv), "shift-assign");
    Spl t2 = a; Spl& r2 = (t2 -= p); c.check(&r2 == &t2, "shift-assign:returns-other-object");
    expectSpline(c, t2, ma.shifted(pv, -1), "shift-minus-assign");
  }
  // an own control point as operand
  {
    c.op("alias-control-point");
    for (size_t i : {(size_t)0, ma.n() - 1, c.rng.below(ma.n())}) {
      std::vector<ld> pv(ma.c.begin() + i * ma.nc, ma.c.begin() + (i + 1) * ma.nc);
      Spl t = a; t += t.control_points[i]; expectSpline(c, t, ma.shifted(pv), "alias-shift-assign");
      Spl t2 = a; t2 -= t2.control_points[i]; expectSpline(c, t2, ma.shifted(pv, -1), "alias-shift-minus-assign");
      if constexpr (PT<P>::scalar) {
        Spl t3 = a; t3 *= t3.control_points[i]; expectSpline(c, t3, ma.scaled(pv[0]), "alias-scale-assign");
      } else {
        const size_t q = c.rng.below(ma.nc);
        Spl t3 = a; t3 *= t3.control_points[i][q]; expectSpline(c, t3, ma.scaled(pv[q]), "alias-scale-assign");
      }
    }
  }
  c.check(snap(a) == sa && snap(b) == sb, "add:modifies-operand");
}
void largeCase(Ctx& c) {
  const Deg d = largeDeg(c);
  Deg e = d;
  const size_t k = c.rng.below(LPD);
  const size_t rel = c.rng.below(3);
  if (rel == 1 && e[k]) e[k]--;
  if (rel == 2) for (auto& x : e) x = std::min<size_t>(x, c.rng.below(3)), (void)0;
  if (rel == 2) { e = d; if (e[k]) e[k]--; const size_t l = (k + 1) % LPD; if (e[l] + 1 <= LIMIT) e[l]++; }
  const LS a = largeSpline<LS>(c, d), b = largeSpline<LS>(c, e);
  const M ma = toM(a), mb = toM(b);
  c.op("a+b"); expectSpline(c, a + b, addM(ma, mb), "large:add", 8);
  c.op("a-=b"); LS t = a; t -= b; expectSpline(c, t, addM(ma, mb, -1), "large:sub-assign", 8);
  c.op("scale"); expectSpline(c, a * 1.5, ma.scaled(1.5), "large:scale");
  c.op("negate"); expectSpline(c, -a, ma.scaled(-1), "large:negate");
  const bz::Point<2> p{0.5, -2.};
  c.op("translate");
  expectSpline(c, a + p, ma.shifted({0.5, -2}), "large:shift");
  expectSpline(c, p - a, ma.shifted({0.5, -2}, -1).scaled(-1), "large:shift-minus-left");
}
#define F(PD, ...) reg("algebra<" #PD "," #__VA_ARGS__ ">", addCase<Bz<PD, __VA_ARGS__>>)
int main(int argc, char** argv) {
  using bz::Point;
#if GROUP == 0
  F(1, double); F(2, Point<2>); F(2, double); F(3, Point<3>); F(1, Point<3>);
  F(2, Point<2, float>, double); F(2, Point<3>, float); F(1, float, double); F(1, double, float);
#else
  F(3, double); F(4, Point<2>); F(6, double); F(2, Point<2, float>); F(2, Point<3, long double>); F(1, float);
#endif
#if GROUP == 1
  regLarge("algebra", largeCase, addCase<Bz<4, Point<2>>>);
#endif
  return run_main(argc, argv, "P06");
}
