// P26: splines are values.  Copies in every form stay independent under every
// modifying operation, non-modifying and refused operations leave operands
// (also the same object twice) bitwise unchanged, results do not share state,
// equality is exact.
#include "ops.hpp"
#include "large.hpp"
using namespace vf;

template <class X>
struct IsRat { static constexpr bool v = false; };
template <std::size_t PD, class P, class S>
struct IsRat<bz::RationalBezierSpline<PD, P, S>> { static constexpr bool v = true; };

template <class X>
X gen(Ctx& c) {
  if constexpr (IsRat<X>::v) return smallRational<X>(c, 3, 24);
  else return smallSpline<X>(c, 4, 40);
}
template <class X>
auto& ctps(X& s) { if constexpr (IsRat<X>::v) return s.GetWeightedControlPoints(); else return s.control_points; }
template <class F>
bool isRefused(F&& f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}

constexpr size_t NMUT = 17;
// one modifying operation on s alone
template <class X>
std::string mutate(Ctx& c, X& s, size_t k) {
  using D = Dim<X>;
  using S = typename D::Sc;
  const size_t dir = c.rng.below(D::pd);
  const X o = s;
  switch (k) {
    case 0: s.OrderElevateAlongParametricDimension(dir); return "elevate";
    case 1: s *= (S)-1.5; return "scale-assign";
    case 2: s += o; return "add-assign";
    case 3: { X e = o; e.OrderElevateAlongParametricDimension(dir); s += e; return "add-assign-higher"; }
    case 4: s -= o; return "sub-assign";
    case 5: for (auto& p : ctps(s)) p = p + p; return "write-all";
    case 6: { auto& p = ctps(s)[c.rng.below(ctps(s).size())]; PT<typename D::Phys>::get(p, c.rng.below(PT<typename D::Phys>::n)) += (S)1; return "write-one"; }
    case 7: {
      if constexpr (IsRat<X>::v) s.GetWeights()[c.rng.below(s.GetWeights().size())] *= (S)1.5; else s.ControlPoint(arr<D::pd>(Idx(D::pd, 0))) *= (S)3;
      return "write-by-accessor";
    }
    case 8: { auto d = s.GetDegrees(); d[dir]++; s.UpdateDegrees(d); if constexpr (IsRat<X>::v) for (auto& w : s.GetWeights()) w = 1; return "grow"; }
    case 9: { auto d = s.GetDegrees(); for (auto& x : d) x /= 2; s.UpdateDegrees(d); return "shrink"; }
    case 10: s = gen<X>(c); return "assign-other";
    case 11: { auto l = s.SplitAtPosition((S)0.5, dir); s = l[1]; return "split"; }
    case 12: { auto p = ctps(s)[0]; s += p; return "shift-assign"; }
    case 13: { std::array<std::size_t, D::pd> q{}; q[dir] = 1; s = s.DerivativeWRTParametricDimension(q); return "derive"; }
    case 14: s = -s; return "negate";
    case 15: { X t = gen<X>(c); std::swap(s, t); return "swap"; }
    default: {
      if constexpr (IsRat<X>::v) { s.WeightedControlPoint(arr<D::pd>(Idx(D::pd, 0))) *= (S)2; return "write-weighted"; }
      else { s.FitIntoUnitCube(); auto p = ctps(s)[0]; s.TransposeAndScale(p, p); return "fit-and-scale"; }
    }
  }
}

template <class X>
void copies(Ctx& c) {
  const size_t form = c.rng.below(10);
  X s = gen<X>(c);
  const std::string s0 = snap(s);
  c.desc << "form " << form << " " << s0;
  c.nontrivial = true;
  X d;
  std::vector<X> others;
  const char* fn[] = {"copy-construct", "copy-assign-to-empty", "copy-assign-over", "move-construct", "move-assign", "vector-push", "vector-copy",
                      "array-copy", "by-value", "swap-twice"};
  c.op(fn[form]);
  const std::string lab = fn[form];
  switch (form) {
    case 0: { X t(s); d = t; break; }
    case 1: d = s; break;
    case 2: { d = gen<X>(c); d = s; break; }
    case 3: { X t = s; X u(std::move(t)); d = u; t = s; c.check(snap(t) == s0, lab + ":moved-from-not-assignable"); break; }
    case 4: { X t = s; d = gen<X>(c); d = std::move(t); t = s; c.check(snap(t) == s0, lab + ":moved-from-not-assignable"); break; }
    case 5: { std::vector<X> v; for (int i = 0; i < 9; i++) v.push_back(s); for (auto& x : v) c.check(snap(x) == s0, lab + ":differs"); d = v[4]; others.assign(v.begin(), v.end()); break; }
    case 6: { std::vector<X> v(5, s); auto w = v; v.clear(); for (auto& x : w) c.check(snap(x) == s0, lab + ":differs"); w.insert(w.begin(), gen<X>(c)); d = w[3]; others = w; break; }
    case 7: { std::array<X, 3> v{s, s, s}; auto w = v; d = w[1]; break; }
    case 8: { auto f = [](X t) { t *= (typename Dim<X>::Sc)2; return t; }; (void)f(s); c.check(snap(s) == s0, lab + ":argument-changed"); auto g = [](const X& t) { return t; }; d = g(s); break; }
    default: { X t = gen<X>(c); const std::string t0 = snap(t); std::swap(s, t); c.check(snap(s) == t0 && snap(t) == s0, lab + ":differs"); std::swap(s, t); d = s; }
  }
  c.check(snap(s) == s0, lab + ":source-changed");
  c.check(snap(d) == s0, lab + ":differs");
  if constexpr (!IsRat<X>::v) c.check((s == d) && (d == s) && (s == s), lab + ":not-equal");
  structure(c, d, lab);
  { X& r = d; d = r; c.check(snap(d) == s0, "self-assign:differs"); }
  // changes of either side
  std::vector<std::string> os;
  for (auto& o : others) os.push_back(snap(o));
  const size_t steps = G.thorough ? 12 : 6;
  std::string ds = s0, ss = s0;
  for (size_t i = 0; i < steps; i++) {
    const bool onCopy = c.rng.chance(0.5);
    const size_t k = c.rng.below(NMUT);
    X& t = onCopy ? d : s;
    // keep the sizes small; weight and point signs stay admissible
    const std::string op = mutate(c, t, k);
    c.op(op);
    c.desc << " " << op << (onCopy ? "(copy)" : "(source)");
    if (onCopy) { c.check(snap(s) == ss, lab + "+" + op + ":changes-the-source"); ds = snap(d); }
    else { c.check(snap(d) == ds, lab + "+" + op + ":changes-the-copy"); ss = snap(s); }
    for (size_t q = 0; q < others.size(); q++) c.check(snap(others[q]) == os[q], lab + "+" + op + ":changes-another-copy");
    bool big = ctps(t).size() > 60;
    for (auto x : t.GetDegrees()) big = big || x > 7;
    ld m = 0;
    for (auto& p : ctps(t)) for (size_t q = 0; q < PT<typename Dim<X>::Phys>::n; q++) m = std::max(m, fabsl((ld)PT<typename Dim<X>::Phys>::get(p, q)));
    if (big || !(m < 1e6L)) { t = gen<X>(c); (onCopy ? ds : ss) = snap(t); }
    if constexpr (IsRat<X>::v) {
      bool bad = false;
      for (auto w : t.GetWeights()) bad = bad || !(w > 1e-2) || !(w < 1e3);
      if (bad) { t = gen<X>(c); (onCopy ? ds : ss) = snap(t); }
    }
  }
}

// non-modifying operations, alone and in sequences
template <std::size_t PD, class S>
void constOps(Ctx& c) {
  const Pool<PD, S> pool = genPool<PD, S>(c, c.rng.range(1, 3), 3, 16);  // a pool of one: operands are the same object
  const std::string before = pool.all();
  c.nontrivial = true;
  for (size_t i = 0; i < 6; i++) {
    const size_t op = c.rng.below(NCONST);
    const uint64_t seed = c.rng.u64();
    c.op(constName(op));
    c.desc << " " << constName(op);
    Rng g(seed);
    const std::string r = constOp(pool, g, op);
    c.check(pool.all() == before, std::string(constName(op)) + ":operand-changed");
    Rng g2(seed);
    c.check(constOp(pool, g2, op) == r, std::string(constName(op)) + ":not-repeatable");
    // the same with operands that are separate copies
    const Pool<PD, S> twin = pool;
    Rng g3(seed);
    c.check(constOp(twin, g3, op) == r, std::string(constName(op)) + ":copies-behave-differently");
  }
}

// results are independent of operands and of each other; operand identity does not matter
template <std::size_t PD, class S>
void results(Ctx& c) {
  Pool<PD, S> p = genPool<PD, S>(c, 2, 2, 9);
  c.nontrivial = true;
  const size_t what = c.rng.below(14);
  const size_t dir = c.rng.below(PD);
  c.desc << " what=" << what << " dir=" << dir;
  auto indep = [&](auto list, const std::string& lab) {
    c.op(lab);
    const std::string before = p.all();
    std::vector<std::string> sn;
    for (auto& s : list) sn.push_back(snap(s));
    for (size_t i = 0; i < list.size(); i++) {
      mutate(c, list[i], c.rng.below(7));
      sn[i] = snap(list[i]);
      for (size_t k = 0; k < list.size(); k++) c.check(snap(list[k]) == sn[k], lab + ":results-share-state");
      c.check(p.all() == before, lab + ":result-shares-state-with-operand");
    }
    c.count("results-mutated", list.size());
  };
  auto one = [&](auto s, const std::string& lab) { indep(std::vector<decltype(s)>{s}, lab); };
  // a op a against a op (copy of a), bitwise
  auto same = [&](auto&& f, const auto& a, const std::string& lab) {
    c.op(lab);
    auto b = a, b2 = a;
    const std::string before = p.all(), a0 = snap(a);
    const std::string x = f(a, a), y = f(a, b), z = f(b, b2);
    c.check(x == y && y == z, lab + ":same-object-twice-differs");
    c.check(p.all() == before && snap(a) == a0 && snap(b) == a0 && snap(b2) == a0, lab + ":operand-changed");
  };
  auto& a = p.a[c.rng.below(2)];
  auto& v = p.v[c.rng.below(2)];
  auto& ra = p.ra[c.rng.below(2)];
  auto& rv = p.rv[c.rng.below(2)];
  std::array<std::size_t, PD> d{};
  d[dir] = c.rng.below(3);
  switch (what) {
    case 0: indep(v.SplitAtPosition((S)0.3, dir), "Split"); indep(v.SplitAtPosition(std::vector<S>{(S)0.2, (S)0.4, (S)0.9}, dir), "Split-list"); break;
    case 1: indep(rv.SplitAtPosition((S)0.3, dir), "r-Split"); indep(rv.SplitAtPosition(std::vector<S>{(S)0.2, (S)0.4}, dir), "r-Split-list"); break;
    case 2: indep(v.SplitAtPosition(std::vector<S>{}, dir), "Split-nothing"); indep(rv.SplitAtPosition(std::vector<S>{}, dir), "r-Split-nothing"); break;
    case 3: indep(v.ComposeSensitivity(p.v[0]), "ComposeSensitivity"); break;
    case 4: one(v.DerivativeWRTParametricDimension(d), "Derivative"); one(v.DerivativeWRTParametricDimension({}), "Derivative-order-zero"); break;
    case 5: { std::array<std::size_t, PD> e{}; e[dir] = d[dir] > 0; one(rv.DerivativeWRTParametricDimension(e), "r-Derivative"); break; }
    case 6: one(v + v, "add"); one(v - v, "sub"); one(v * (S)1, "scale-by-one"); one(-v, "negate"); break;
    case 7: one(rv + rv, "r-add"); one(rv - rv, "r-sub"); one(rv * (S)1, "r-scale-by-one"); one(-rv, "r-negate"); break;
    case 8: one(a.RaisePower(1), "RaisePower-one"); one(a.RaisePower(2), "RaisePower"); one(a * a, "mul"); one(v * v, "dot"); break;
    case 9: one(v.ExtractDimension(dir), "Extract"); one(rv.ExtractDimension(dir), "r-Extract"); break;
    case 10: {
      auto q = v.control_points[0];
      one(v + q, "shift");
      one(q + v, "shift-left");
      auto z = q - q;
      one(v + z, "shift-by-zero");
      break;
    }
    case 11: {
      same([](auto& x, auto& y) { return snap(x + y) + snap(x - y) + snap(x * y); }, a, "poly-twice");
      same([](auto& x, auto& y) { return snap(x + y) + snap(x - y) + snap(x * y); }, v, "poly-vector-twice");
      same([](auto& x, auto& y) { return snap(x + y) + snap(x - y) + snap(x * y); }, ra, "rational-twice");
      same([](auto& x, auto& y) { return snap(x + y) + snap(x - y) + snap(x * y); }, rv, "rational-vector-twice");
      break;
    }
    case 12: {
      same([](auto& x, auto& y) { return snap(x.Compose(y)) + snaps(x.ComposeSensitivity(y)); }, p.v[0], "Compose-with-itself");
      same([](auto& x, auto& y) { return snap(x.Compose(y)); }, p.rv[0], "r-Compose-with-itself");
      break;
    }
    default: {
      auto asg = [](auto f) { return [f](auto& x, auto& y) { auto t = x; if ((void*)&x == (void*)&y) f(t, t); else { auto u = y; f(t, u); } return snap(t); }; };
      same(asg([](auto& x, auto& y) { x += y; }), v, "add-assign-itself");
      same(asg([](auto& x, auto& y) { x -= y; }), v, "sub-assign-itself");
      same(asg([](auto& x, auto& y) { x += y; }), rv, "r-add-assign-itself");
      same(asg([](auto& x, auto& y) { x -= y; }), rv, "r-sub-assign-itself");
      same(asg([](auto& x, auto& y) { x += y; }), a, "add-assign-itself-scalar");
      same(asg([](auto& x, auto& y) { x -= y; }), ra, "r-sub-assign-itself-scalar");
    }
  }
}

template <class X>
void equality(Ctx& c) {
  using D = Dim<X>;
  using S = typename D::Sc;
  using P = typename D::Phys;
  X s = gen<X>(c);
  if (c.rng.chance(0.1)) fillSpline(c, s, INT);
  c.desc << snap(s);
  c.nontrivial = true;
  const M m = toM(s);
  c.op("==");
  const X t(s.GetDegrees(), s.control_points);
  c.check((s == t) && (t == s), "equal-splines-compare-different");
  // one component of one control point, by one rounding step, a small or a large amount
  for (int k = 0; k < 4; k++) {
    const size_t i = k == 0 ? m.n() - 1 : c.rng.below(m.n()), q = k == 0 ? m.nc - 1 : c.rng.below(m.nc);
    X u = s;
    S& x = PT<P>::get(u.control_points[i], q);
    const S old = x;
    switch (c.rng.below(4)) {
      case 0: x = std::nextafter(x, (S)1e9); break;
      case 1: x = std::nextafter(x, (S)-1e9); break;
      case 2: x = x + (S)1; break;
      default: x = x == 0 ? (S)1 : -x;
    }
    c.check_f(!(u == s) && !(s == u), "different-control-points-compare-equal", [&] { return "control point " + std::to_string(i) + " component " + std::to_string(q) + " " + std::to_string((double)old) + " against " + std::to_string((double)x); });
    x = old;
    c.check(u == s, "restored-spline-compares-different");
  }
  // the same function or the same numbers under other degrees
  const size_t dir = c.rng.below(D::pd);
  { X u = s; u.OrderElevateAlongParametricDimension(dir); c.check(!(u == s) && !(s == u), "elevated-spline-compares-equal"); }
  if (D::pd > 1) {
    auto d = s.GetDegrees();
    std::rotate(d.begin(), d.begin() + 1, d.end());
    X u(d, s.control_points);
    c.check((u == s) == (d == s.GetDegrees()), "permuted-degrees");
    // all control points equal: only the degrees differ
    X e(s.GetDegrees()), f(d);
    c.check((e == f) == (d == s.GetDegrees()), "permuted-degrees-of-zero-spline");
  } else {
    auto d = s.GetDegrees();
    d[0]++;
    X e(s.GetDegrees()), f(d);
    c.check(!(e == f) && !(f == e), "zero-splines-of-different-degree-compare-equal");
  }
  // swapped control points
  if (m.n() > 1) {
    const size_t i = c.rng.below(m.n()), k = c.rng.below(m.n());
    X u = s;
    std::swap(u.control_points[i], u.control_points[k]);
    bool eq = true;
    for (size_t q = 0; q < m.nc; q++) eq = eq && PT<P>::get(s.control_points[i], q) == PT<P>::get(s.control_points[k], q);
    c.check((u == s) == eq, "exchanged-control-points");
  }
  c.check(X() == X(), "default-splines-compare-different");
  // conversion to a rational spline
  c.op("to-rational");
  const std::string s0 = snap(s);
  bz::RationalBezierSpline<D::pd, P, S> r(s);
  c.check(snap(s) == s0, "to-rational:source-changed");
  c.check(snap(r.GetNumeratorSpline()) == s0, "to-rational:numerator");
  for (auto w : r.GetWeights()) c.check(w == (S)1, "to-rational:weights");
  for (int k = 0; k < 3; k++) {
    const auto u = genParam<S>(c, D::pd);
    expectVal<S>(c, r.Evaluate(pt<D::pd, S>(u)), m.eval(u), "to-rational:function");
  }
  r *= (S)2;
  r.GetWeights()[0] = (S)3;
  c.check(snap(s) == s0, "to-rational:shares-state");
  bz::RationalBezierSpline<D::pd, P, S> r2(s.GetDegrees());
  r2 = s;
  c.check(snap(r2.GetNumeratorSpline()) == s0, "to-rational-assign:numerator");
}

// refused operations, all operands as before
template <std::size_t PD, class S>
void refusedOps(Ctx& c) {
  Pool<PD, S> p = genPool<PD, S>(c, 2, 3, 16);
  c.nontrivial = true;
  const std::string before = p.all();
  for (int i = 0; i < 5; i++) {
    auto& a = p.a[c.rng.below(2)];
    auto& v = p.v[c.rng.below(2)];
    auto& ra = p.ra[c.rng.below(2)];
    auto& rv = p.rv[c.rng.below(2)];
    auto big = v;
    auto rbig = rv;
    const size_t dir = c.rng.below(PD);
    for (auto& q : big.control_points) q[dir] = (S)c.rng.uni(1.5, 4);
    for (size_t k = 0; k < rbig.GetWeightedControlPoints().size(); k++) rbig.GetWeightedControlPoints()[k][dir] = (S)c.rng.uni(1.5, 4) * rbig.GetWeights()[k];
    const std::string b0 = snap(big), r0 = snap(rbig);
    const size_t what = c.rng.below(10);
    const S bad = c.rng.chance(0.5) ? (S)-0.25 : (S)1.25;
    const std::vector<S> badl = c.rng.chance(0.5) ? std::vector<S>{(S)0.7, (S)0.3} : std::vector<S>{(S)0.2, (S)0.6, (S)0.4};
    bool r = true;
    const char* nm[] = {"Split", "Split-list", "r-Split", "r-Split-list", "Compose", "ComposeSensitivity", "r-Compose", "Compose-rational", "r-Compose-rational", "Compose-list"};
    c.op(nm[what]);
    c.desc << " " << nm[what];
    switch (what) {
      case 0: r = isRefused([&] { v.SplitAtPosition(bad, dir); }); break;
      case 1: r = isRefused([&] { a.SplitAtPosition(badl, dir); }); break;
      case 2: r = isRefused([&] { rv.SplitAtPosition(bad, dir); }); break;
      case 3: r = isRefused([&] { ra.SplitAtPosition(badl, dir); }); break;
      case 4: r = isRefused([&] { a.Compose(big); }); break;
      case 5: r = isRefused([&] { v.ComposeSensitivity(big); }); break;
      case 6: r = isRefused([&] { ra.Compose(big); }); break;
      case 7: r = isRefused([&] { v.Compose(rbig); }); break;
      case 8: r = isRefused([&] { rv.Compose(rbig); }); break;
      default: r = isRefused([&] { a.Compose(std::vector<typename Pool<PD, S>::V>{p.v[0], big}); });
    }
    c.check(r, std::string(nm[what]) + ":accepted");
    c.check(p.all() == before && snap(big) == b0 && snap(rbig) == r0, std::string(nm[what]) + ":refused-but-operand-changed");
  }
}

template <std::size_t PD, class S>
void regAll(const std::string& n) {
  using PV = bz::Point<PD, S>;
  reg(n + "-copies-scalar", copies<Bz<PD, S>>);
  reg(n + "-copies-vector", copies<Bz<PD, PV>>);
  reg(n + "-copies-rational-scalar", copies<Rz<PD, S>>);
  reg(n + "-copies-rational-vector", copies<Rz<PD, PV>>);
  reg(n + "-operands", constOps<PD, S>, 2);
  reg(n + "-results", results<PD, S>, 3);
  reg(n + "-equality-scalar", equality<Bz<PD, S>>);
  reg(n + "-equality-vector", equality<Bz<PD, PV>>);
  reg(n + "-refused", refusedOps<PD, S>);
}

#if GROUP == 1
void largeValues(Ctx& c) {
  const Deg d = largeDeg(c);
  const LS s = largeSpline<LS>(c, d);
  const size_t n = prod1(d);
  c.op("copy");
  LS t = s;
  c.check(t == s, "large:copy-not-equal");
  const size_t i = c.rng.chance(.3) ? n - 1 : c.rng.below(n);
  c.desc << "entry " << i << "; ";
  t.control_points[i][1] += 1;
  c.check(!(t == s), "large:equality-misses-an-entry");
  t.control_points[i][1] = s.control_points[i][1];
  c.check(t == s || t.control_points[i][1] != s.control_points[i][1], "large:equality-after-restoring");
  LR a(s), b(s);
  c.check(snap(a) == snap(b), "large:rational-copy-differs");
  const std::string sa = snap(a);
  b.GetWeights()[i] = 1.5;
  c.check(snap(a) == sa, "large:rational-copy-not-independent");
  LS u(arr<LPD>(d));
  u = s;
  u *= 2.;
  c.check(snap(t) == snap(s), "large:copy-not-independent");
}
#endif
int main(int argc, char** argv) {
#if GROUP == 0
  regAll<1, double>("1d-double");
  regAll<2, double>("2d-double");
#else
  regAll<2, float>("2d-float");
  regAll<3, double>("3d-double");
#endif
#if GROUP == 1
  regLarge("values", largeValues, copies<Bz<3, double>>);
#endif
  return run_main(argc, argv, "P26");
}
