// P23: histories of operations over a pool of splines, each step checked
// against shadow models, everything else against snapshots; digests of all
// states are compared between builds by run.py.
#include "ops.hpp"
using namespace vf;

template <class X>
struct IsRat { static constexpr bool v = false; };
template <std::size_t PD, class P, class S>
struct IsRat<bz::RationalBezierSpline<PD, P, S>> { static constexpr bool v = true; };

template <std::size_t PD, class S>
struct World {
  using A = Bz<PD, S>;
  using PV = bz::Point<PD, S>;
  using V = Bz<PD, PV>;
  using RA = Rz<PD, S>;
  using RV = Rz<PD, PV>;
  Ctx& c;
  std::vector<A> a;
  std::vector<V> v;
  std::vector<RA> ra;
  std::vector<RV> rv;
  std::vector<std::string> sn;  // one snapshot per slot
  uint64_t dig = 1469598103934665603ull;
  static constexpr size_t K = 3, MAXD = 9, MAXN = 90;
  explicit World(Ctx& x) : c(x) {}

  template <class F>
  void each(F&& f) {
    size_t k = 0;
    for (auto& s : a) f(s, k++);
    for (auto& s : v) f(s, k++);
    for (auto& s : ra) f(s, k++);
    for (auto& s : rv) f(s, k++);
  }
  void feed(const std::string& s) { dig = fnv(s, dig); }
  void start() {
    for (size_t i = 0; i < K; i++) {
      a.push_back(smallSpline<A>(c, 4, 30));
      v.push_back(smallSpline<V>(c, 4, 30));
      ra.push_back(smallRational<RA>(c, 3, 20));
      rv.push_back(smallRational<RV>(c, 3, 20));
    }
    each([&](auto& s, size_t) { sn.push_back(snap(s)); });
  }
  bool fits(const Deg& d) const {
    for (size_t x : d) if (x > MAXD) return false;
    return prod1(d) <= MAXN;
  }
  // all slots except `changed` are bitwise what they were
  void others(const void* changed, const std::string& op) {
    each([&](auto& s, size_t k) {
      if ((const void*)&s == changed) { sn[k] = snap(s); feed(sn[k]); }
      else c.check_f(snap(s) == sn[k], op + ":other-spline-changed", [&] { return "slot " + std::to_string(k); });
    });
  }
  Deg deg(const A& s) { return vec<PD>(s.GetDegrees()); }
  Deg deg(const V& s) { return vec<PD>(s.GetDegrees()); }
  Deg deg(const RA& s) { return vec<PD>(s.GetDegrees()); }
  Deg deg(const RV& s) { return vec<PD>(s.GetDegrees()); }
  // keeps slots of moderate size
  template <class X>
  void settle(X& s) {
    bool bad = !fits(deg(s));
    if constexpr (IsRat<X>::v) {
      ld lo = INFINITY, hi = 0, m = 0;
      for (auto w : s.GetWeights()) { lo = std::min<ld>(lo, w); hi = std::max<ld>(hi, w); }
      for (auto& p : s.GetWeightedControlPoints()) for (size_t q = 0; q < PT<typename X::PhysicalPointType_>::n; q++) m = std::max(m, fabsl((ld)PT<typename X::PhysicalPointType_>::get(p, q)));
      bad = bad || !(lo > 1e-3L) || !(hi < 1e3L * lo) || !(m < 1e5L);
      if (bad) { s = smallRational<X>(c, 3, 20); c.count("slot-renewed"); }
    } else {
      ld m = 0;
      for (auto& p : s.control_points) for (size_t q = 0; q < PT<typename X::PhysicalPointType_>::n; q++) m = std::max(m, fabsl((ld)PT<typename X::PhysicalPointType_>::get(p, q)));
      bad = bad || !(m < 1e5L);
      if (bad) { s = smallSpline<X>(c, 4, 30); c.count("slot-renewed"); }
    }
  }
  std::vector<ld> floors(const RM& m) {
    std::vector<ld> f(m.num.nc, 0);
    for (size_t i = 0; i < m.num.n(); i++)
      for (size_t q = 0; q < m.num.nc; q++) f[q] = std::max(f[q], fabsl(m.num.c[i * m.num.nc + q]) / std::max(fabsl(m.w.c[i]), 1e-6L));
    return f;
  }
  // a rational result as a function
  template <class X, class F>
  void ratIs(const X& s, F&& want, const std::string& lab, ld extra = 0) {
    structure(c, s, lab);
    auto fl = floors(toRM(s));
    for (auto& f : fl) f = f + extra;
    for (int k = 0; k < 3; k++) {
      const auto u = genParam<S>(c, PD);
      expectVal<S>(c, s.Evaluate(pt<PD, S>(u)), want(u), lab + ":function", 100, fl);
    }
  }
  Val sum(Val x, const Val& y, ld s) { for (size_t q = 0; q < x.v.size(); q++) { x.v[q] += s * y.v[q]; x.a[q] += y.a[q]; } return x; }

  // operations common to both polynomial types
  template <class X>
  bool polyOp(std::vector<X>& pool, size_t what) {
    using P = typename X::PhysicalPointType_;
    X& s = pool[c.rng.below(K)];
    X& o = pool[c.rng.below(K)];
    const M m = toM(s), n = toM(o);
    const size_t dir = c.rng.below(PD);
    const char* nm[] = {"elevate", "derive", "split", "split-list", "add", "sub", "add-assign", "sub-assign", "scale", "negate", "shift",
                        "shift-assign", "copy", "move", "swap", "renew", "transpose-scale", "write", "self-assign", "update-degrees", "refused-split"};
    const std::string op = nm[what];
    c.op(op);
    c.desc << op << "(" << (&s - &pool[0]) << "," << (&o - &pool[0]) << "," << dir << ") ";
    switch (what) {
      case 0: if (m.deg[dir] >= MAXD) return false; s.OrderElevateAlongParametricDimension(dir); expectSpline(c, s, m.elevated(dir), op); break;
      case 1: {
        Idx k(PD);
        for (auto& x : k) x = c.rng.below(3);
        M w = m.deriv(k);
        s = s.DerivativeWRTParametricDimension(arr<PD>(k));
        for (size_t q = 0; q < PD; q++) if (k[q] > m.deg[q]) { c.count("derivative-above-degree"); w = toM(s); for (ld x : w.c) c.check(x == 0, op + ":above-degree-not-zero"); }
        expectSpline(c, s, w, op);
        break;
      }
      case 2: {
        const S x = (S)c.rng.uni(0.1, 0.9);
        auto l = s.SplitAtPosition(x, dir);
        c.check(l.size() == 2, op + ":pieces");
        const size_t k = c.rng.below(2);
        expectSpline(c, l[1 - k], k ? m.restricted(0, x, dir) : m.restricted(x, 1, dir), op, 100);
        s = l[k];
        expectSpline(c, s, k ? m.restricted(x, 1, dir) : m.restricted(0, x, dir), op, 100);
        break;
      }
      case 3: {
        std::vector<S> x{(S)c.rng.uni(0.1, 0.3), (S)c.rng.uni(0.35, 0.6), (S)c.rng.uni(0.65, 0.9)};
        auto l = s.SplitAtPosition(x, dir);
        c.check(l.size() == 4, op + ":pieces");
        const size_t k = c.rng.below(4);
        o = l[k];
        expectSpline(c, o, m.restricted(k ? (ld)x[k - 1] : 0, k < 3 ? (ld)x[k] : 1, dir), op, 1000);
        others(&o, op);
        settle(o);
        others(&o, op);
        return true;
      }
      case 4: case 5: { M w = addM(m, n, what == 4 ? 1 : -1); X r = what == 4 ? s + o : s - o; expectSpline(c, r, w, op); X& t = pool[c.rng.below(K)]; t = r; others(&t, op); settle(t); others(&t, op); return true; }
      case 6: { M w = addM(m, n); s += o; expectSpline(c, s, w, op); break; }
      case 7: { M w = addM(m, n, -1); s -= o; expectSpline(c, s, w, op); break; }
      case 8: { const S f = (S)c.rng.uni(-2, 2); M w = m.scaled(f); if (c.rng.chance(.4)) s *= f; else if (c.rng.chance(.5)) s = s * f; else s = f * s; expectSpline(c, s, w, op); break; }
      case 9: s = -s; expectSpline(c, s, m.scaled(-1), op); break;
      case 10: case 11: {
        // the operand may be a control point of the same or of another spline
        const P& p = o.control_points[c.rng.below(o.control_points.size())];
        std::vector<ld> pv;
        for (size_t q = 0; q < PT<P>::n; q++) pv.push_back((ld)PT<P>::get(p, q));
        const int sg = c.rng.chance(.5) ? 1 : -1;
        if (what == 10) { if (sg > 0) s = s + p; else s = s - p; } else { if (sg > 0) s += p; else s -= p; }
        expectSpline(c, s, m.shifted(pv, sg), op);
        break;
      }
      case 12: s = o; c.check(snap(s) == snap(o), op + ":differs"); c.check(s == o, op + ":not-equal"); break;
      case 13: { X t = o; const std::string q = snap(t); s = std::move(t); c.check(snap(s) == q, op + ":differs"); t = o; c.check(snap(t) == snap(o), op + ":moved-from-not-assignable"); break; }
      case 14: { const std::string x = snap(s), y = snap(o); std::swap(s, o); c.check(snap(s) == y && snap(o) == x, op + ":differs"); for (size_t k = 0, j = 0; k < 1; k++, j++) { each([&](auto& z, size_t q) { if ((void*)&z == (void*)&s || (void*)&z == (void*)&o) sn[q] = snap(z); }); } others(nullptr, op); return true; }
      case 15: { X t; t = smallSpline<X>(c, 5, 40); s = t; expectSpline(c, s, toM(t), op); break; }
      case 16: {
        P t = o.control_points[0], f = o.control_points[o.control_points.size() - 1];
        M w = m;
        for (size_t i = 0; i < w.n(); i++) for (size_t q = 0; q < w.nc; q++) {
          w.c[i * w.nc + q] = (m.c[i * w.nc + q] + (ld)PT<P>::get(t, q)) * (ld)PT<P>::get(f, q);
          w.a[i * w.nc + q] = (m.a[i * w.nc + q] + fabsl((ld)PT<P>::get(t, q))) * fabsl((ld)PT<P>::get(f, q));
        }
        s.TransposeAndScale(t, f);
        expectSpline(c, s, w, op);
        break;
      }
      case 17: {
        const size_t i = c.rng.below(m.n()), q = c.rng.below(m.nc);
        M w = m;
        const S x = (S)c.rng.uni(-2, 2);
        w.c[i * m.nc + q] = (ld)x; w.a[i * m.nc + q] = fabsl((ld)x);
        PT<P>::get(s.ControlPoint(arr<PD>(unravel(i, m.deg))), q) = x;
        expectSpline(c, s, w, op);
        break;
      }
      case 18: { const std::string q = snap(s); X& t = s; s = t; c.check(snap(s) == q, op + ":differs"); break; }
      case 19: {  // new degrees, smaller or larger: storage follows, then the coefficients are given anew
        const Deg d = genDeg(c, PD, 5, 40);
        s.UpdateDegrees(arr<PD>(d));
        c.check(deg(s) == d, op + ":degrees");
        structure(c, s, op);
        fillSpline(c, s, UNI);
        const M w = toM(s);
        const auto u = genParam<S>(c, PD);
        expectVal<S>(c, s.Evaluate(pt<PD, S>(u)), w.eval(u), op + ":function", 1, maxas(w));
        break;
      }
      default: {
        const std::string q = snap(s);
        c.check(refused([&] { s.SplitAtPosition((S)(c.rng.chance(.5) ? 1.5 : 0.), dir); }), op + ":accepted");
        c.check(refused([&] { s.SplitAtPosition(std::vector<S>{(S)0.7, (S)0.2}, dir); }), op + ":accepted");
        c.check(snap(s) == q, op + ":operand-changed");
      }
    }
    others(&s, op);
    settle(s);
    others(&s, op);
    return true;
  }
  template <class X>
  bool ratOp(std::vector<X>& pool, size_t what) {
    using P = typename X::PhysicalPointType_;
    X& s = pool[c.rng.below(K)];
    X& o = pool[c.rng.below(K)];
    const RM m = toRM(s), n = toRM(o);
    const size_t dir = c.rng.below(PD);
    const char* nm[] = {"r-elevate", "r-derive", "r-split", "r-split-list", "r-add", "r-sub", "r-add-assign", "r-sub-assign", "r-scale", "r-negate",
                        "r-shift", "r-copy", "r-move", "r-renew", "r-write", "r-update-degrees", "r-refused"};
    const std::string op = nm[what];
    c.op(op);
    c.desc << op << "(" << (&s - &pool[0]) << "," << (&o - &pool[0]) << "," << dir << ") ";
    auto fm = [&](const std::vector<ld>& u) { return m.eval(u); };
    ld ex = 0;
    for (ld x : floors(m)) ex = std::max(ex, x);
    for (ld x : floors(n)) ex = std::max(ex, x);
    switch (what) {
      case 0: { if (m.num.deg[dir] >= MAXD) return false; s.OrderElevateAlongParametricDimension(dir); Deg e = m.num.deg; e[dir]++; c.check(deg(s) == e, op + ":degrees"); ratIs(s, fm, op, ex); break; }
      case 1: {
        for (size_t x : m.num.deg) if (2 * x > 18) return false;
        if (prod1(m.num.deg) > 40) return false;
        Idx k(PD, 0);
        k[dir] = 1;
        X r = s.DerivativeWRTParametricDimension(arr<PD>(k));
        ld sz = 0;
        for (ld x : floors(toRM(r))) sz = std::max(sz, x);
        ratIs(r, [&](const std::vector<ld>& u) {
          const Ser w = serOf(m.w, 0, u, k);
          Val out;
          for (size_t q = 0; q < m.num.nc; q++) { const Ser d = serDiv(serOf(m.num, q, u, k), w); out.v.push_back(d.c.back()); out.a.push_back(d.a.back()); }
          return out; }, op, sz + 20 * ex);
        s = r;
        break;
      }
      case 2: case 3: {
        std::vector<ld> kn{0, c.rng.uni(0.1, 0.45)};
        if (what == 3) kn.push_back(c.rng.uni(0.5, 0.9));
        for (auto& x : kn) x = (ld)(S)x;
        std::vector<S> pos;
        for (size_t i = 1; i < kn.size(); i++) pos.push_back((S)kn[i]);
        kn.push_back(1);
        auto l = what == 2 ? s.SplitAtPosition(pos[0], dir) : s.SplitAtPosition(pos, dir);
        c.check(l.size() + 1 == kn.size(), op + ":pieces");
        for (size_t i = 0; i < l.size(); i++) ratIs(l[i], [&](std::vector<ld> u) { u[dir] = kn[i] + u[dir] * (kn[i + 1] - kn[i]); return m.eval(u); }, op, ex);
        s = l[c.rng.below(l.size())];
        break;
      }
      case 4: case 5: case 6: case 7: {
        Deg e = m.num.deg;
        for (size_t q = 0; q < PD; q++) e[q] += n.num.deg[q];
        for (size_t x : e) if (x > 18) return false;
        if (prod1(e) > 200) return false;
        const ld sg = what % 2 == 0 ? 1 : -1;
        auto f = [&](const std::vector<ld>& u) { return sum(m.eval(u), n.eval(u), sg); };
        if (what == 4) { X r = s + o; ratIs(r, f, op, 2 * ex); s = r; }
        else if (what == 5) { X r = s - o; ratIs(r, f, op, 2 * ex); s = r; }
        else if (what == 6) { s += o; ratIs(s, f, op, 2 * ex); }
        else { s -= o; ratIs(s, f, op, 2 * ex); }
        break;
      }
      case 8: case 9: {
        const S x = what == 9 ? (S)-1 : (S)c.rng.uni(-2, 2);
        if (what == 9) s = -s; else if (c.rng.chance(.5)) s *= x; else s = x * s;
        ratIs(s, [&](const std::vector<ld>& u) { Val r = m.eval(u); for (auto& y : r.v) y *= (ld)x; for (auto& y : r.a) y *= fabsl((ld)x); return r; }, op, ex);
        break;
      }
      case 10: {
        P p = o.ControlPoint(arr<PD>(Idx(PD, 0)));
        Val pv;
        for (size_t q = 0; q < PT<P>::n; q++) { pv.v.push_back((ld)PT<P>::get(p, q)); pv.a.push_back(fabsl(pv.v.back())); }
        const ld sg = c.rng.chance(.5) ? 1 : -1;
        if (c.rng.chance(.5)) { if (sg > 0) s += p; else s -= p; } else { if (sg > 0) s = s + p; else s = s - p; }
        ratIs(s, [&](const std::vector<ld>& u) { return sum(m.eval(u), pv, sg); }, op, 2 * ex);
        break;
      }
      case 11: s = o; c.check(snap(s) == snap(o), op + ":differs"); break;
      case 12: { X t = o; const std::string q = snap(t); s = std::move(t); c.check(snap(s) == q, op + ":differs"); t = o; c.check(snap(t) == snap(o), op + ":moved-from-not-assignable"); break; }
      case 13: { X t; t = smallRational<X>(c, 3, 20); s = t; c.check(snap(s) == snap(t), op + ":differs"); break; }
      case 14: {
        const size_t i = c.rng.below(m.num.n());
        const S w = (S)c.rng.uni(0.5, 2);
        RM e = m;
        s.Weight(arr<PD>(unravel(i, m.num.deg))) = w;
        e.w.c[i] = e.w.a[i] = (ld)w;
        ratIs(s, [&](const std::vector<ld>& u) { return e.eval(u); }, op, 10 * ex);
        break;
      }
      case 15: {
        const Deg d = genDeg(c, PD, 4, 24);
        s.UpdateDegrees(arr<PD>(d));
        structure(c, s, op);
        c.check(deg(s) == d, op + ":degrees");
        for (auto& w : s.GetWeights()) w = (S)c.rng.uni(0.4, 2);
        for (auto& p : s.GetWeightedControlPoints()) for (size_t q = 0; q < PT<P>::n; q++) PT<P>::get(p, q) = (S)c.rng.uni(-2, 2);
        const RM e = toRM(s);
        ratIs(s, [&](const std::vector<ld>& u) { return e.eval(u); }, op, 1);
        break;
      }
      default: {
        const std::string q = snap(s);
        c.check(refused([&] { s.SplitAtPosition((S)-0.5, dir); }), op + ":accepted");
        c.check(refused([&] { s.SplitAtPosition(std::vector<S>{(S)0.7, (S)0.2}, dir); }), op + ":accepted");
        c.check(snap(s) == q, op + ":operand-changed");
      }
    }
    others(&s, op);
    settle(s);
    others(&s, op);
    return true;
  }
  // operations between types, and compositions
  bool mixedOp(size_t what) {
    A& x = a[c.rng.below(K)];
    A& y = a[c.rng.below(K)];
    V& p = v[c.rng.below(K)];
    V& q = v[c.rng.below(K)];
    RA& r = ra[c.rng.below(K)];
    RV& t = rv[c.rng.below(K)];
    const char* nm[] = {"mul", "mul-vector", "dot", "extract", "fit-unit-cube", "compose", "compose-refused", "to-rational", "r-mul", "r-dot",
                        "r-compose", "compose-rational", "power", "sensitivity", "evaluate", "r-evaluate"};
    const std::string op = nm[what];
    c.op(op);
    c.desc << op << " ";
    auto cap = [&](const Deg& d, const Deg& e, size_t lim) { Deg s = d; for (size_t k = 0; k < PD; k++) { s[k] += e[k]; if (s[k] > 18) return false; } return prod1(s) <= lim; };
    auto done = [&](auto& s) { others(&s, op); settle(s); others(&s, op); return true; };
    // an inner function of small degree inside the unit cube
    auto inner = [&] {
      Deg d(PD);
      for (auto& k : d) k = c.rng.below(2);
      V in(arr<PD>(d));
      for (auto& z : in.control_points) for (auto& w : z) w = (S)c.rng.unit();
      return in;
    };
    auto small = [&](const Deg& d, size_t lim) { size_t s = 0; for (size_t k : d) s += k; return s <= lim && prod1(d) <= 30; };
    switch (what) {
      case 0: { if (!cap(deg(x), deg(y), 200)) return false; const M w = mulM(toM(x), toM(y)); A z = x * y; expectSpline(c, z, w, op); x = z; return done(x); }
      case 1: { if (!cap(deg(x), deg(p), 200)) return false; const M w = mulM(toM(x), toM(p)); V z = x * p; expectSpline(c, z, w, op); q = z; return done(q); }
      case 2: {
        if (!cap(deg(p), deg(q), 200)) return false;
        M w = mulM(toM(p), toM(q));
        A z = p * q;
        expectSpline(c, z, w, op);
        x = z;
        return done(x);
      }
      case 3: { const size_t k = c.rng.below(PD); const M w = toM(p).comp(k); x = p.ExtractDimension(k); expectSpline(c, x, w, op); return done(x); }
      case 4: {
        const M m = toM(p);
        p.FitIntoUnitCube();
        structure(c, p, op);
        c.check(deg(p) == m.deg, op + ":degrees");
        for (size_t k = 0; k < PD; k++) {
          ld lo = INFINITY, hi = -INFINITY;
          for (size_t i = 0; i < m.n(); i++) { lo = std::min(lo, m.c[i * PD + k]); hi = std::max(hi, m.c[i * PD + k]); }
          for (size_t i = 0; i < m.n(); i++) {
            const ld g = (ld)p.control_points[i][k];
            c.check(g >= -R<S>() && g <= 1 + R<S>(), op + ":outside");
            if (hi > lo) c.check(close(g, (m.c[i * PD + k] - lo) / (hi - lo), 100 * R<S>() * (1 + (fabsl(lo) + fabsl(hi)) / (hi - lo))), op + ":not-affine");
          }
        }
        return done(p);
      }
      case 5: {
        if (!small(deg(x), 8)) return false;
        const V in = inner();
        const M o = toM(x), i = toM(in);
        A z = x.Compose(in);
        structure(c, z, op);
        for (int k = 0; k < 3; k++) { const auto u = genParam<S>(c, PD); Val w = o.eval(i.eval(u).v); expectVal<S>(c, z.Evaluate(pt<PD, S>(u)), w, op + ":function", 100, maxas(o)); }
        x = z;
        return done(x);
      }
      case 6: {
        V in = inner();
        in.control_points[c.rng.below(in.control_points.size())][c.rng.below(PD)] = (S)(c.rng.chance(.5) ? 1.25 : -0.5);
        const std::string i = snap(in);
        c.check(refused([&] { x.Compose(in); }) && refused([&] { p.ComposeSensitivity(in); }) && refused([&] { r.Compose(in); }), op + ":accepted");
        c.check(snap(in) == i, op + ":operand-changed");
        others(nullptr, op);
        return true;
      }
      case 7: { const M m = toM(p); t = RV(p); ratIs(t, [&](const std::vector<ld>& u) { return m.eval(u); }, op); return done(t); }
      case 8: {
        RA& r2 = ra[c.rng.below(K)];
        if (!cap(deg(r), deg(r2), 150)) return false;
        const RM m = toRM(r), n = toRM(r2);
        RA z = r * r2;
        ld ex = 0, ey = 0;
        for (ld w : floors(m)) ex = std::max(ex, w);
        for (ld w : floors(n)) ey = std::max(ey, w);
        ratIs(z, [&](const std::vector<ld>& u) { Val g = m.eval(u), h = n.eval(u); g.a[0] *= h.a[0]; g.v[0] *= h.v[0]; return g; }, op, ex * ey);
        r = z;
        return done(r);
      }
      case 9: {
        RV& t2 = rv[c.rng.below(K)];
        if (!cap(deg(t), deg(t2), 150)) return false;
        const RM m = toRM(t), n = toRM(t2);
        RA z = t * t2;
        ld ex = 0, ey = 0;
        for (ld w : floors(m)) ex = std::max(ex, w);
        for (ld w : floors(n)) ey = std::max(ey, w);
        ratIs(z, [&](const std::vector<ld>& u) { Val g = m.eval(u), h = n.eval(u), o; o.v = {0}; o.a = {0}; for (size_t k = 0; k < PD; k++) { o.v[0] += g.v[k] * h.v[k]; o.a[0] += g.a[k] * h.a[k]; } return o; }, op, PD * ex * ey);
        r = z;
        return done(r);
      }
      case 10: {
        if (!small(deg(t), 6)) return false;
        const V in = inner();
        const RM m = toRM(t);
        const M i = toM(in);
        ld ex = 0;
        for (ld w : floors(m)) ex = std::max(ex, w);
        RV z = t.Compose(in);
        ratIs(z, [&](const std::vector<ld>& u) { return m.eval(i.eval(u).v); }, op, ex);
        t = z;
        return done(t);
      }
      case 11: {
        if (!small(deg(x), 5)) return false;
        const V in0 = inner();
        std::vector<S> w(in0.control_points.size());
        for (auto& k : w) k = (S)c.rng.uni(0.5, 2);
        std::vector<PV> cp = in0.control_points;
        for (auto& k : cp) for (auto& l : k) l = (S)(0.02 + 0.96 * l);
        const RV in(in0.GetDegrees(), cp, w);
        const M o = toM(x);
        const RM i = toRM(in);
        RA z = x.Compose(in);
        ratIs(z, [&](const std::vector<ld>& u) { return o.eval(i.eval(u).v); }, op, o.maxa_all());
        r = z;
        return done(r);
      }
      case 12: {
        const size_t k = c.rng.below(4);
        for (size_t d : deg(x)) if (d * k > 12) return false;
        Deg e = deg(x);
        for (auto& d : e) d *= k;
        if (prod1(e) > 150) return false;
        M w = one(PD);
        for (size_t j = 0; j < k; j++) w = mulM(w, toM(x));
        A z = x.RaisePower(k);
        c.check(prod1(deg(z)) == z.control_points.size(), op + ":storage");
        for (int j = 0; j < 3; j++) { const auto u = genParam<S>(c, PD); Val b = toM(x).eval(u), g; g.v = {ipow(b.v[0], k)}; g.a = {ipow(b.a[0], k)}; expectVal<S>(c, z.Evaluate(pt<PD, S>(u)), g, op + ":function", 100, maxas(w)); }
        y = z;
        return done(y);
      }
      case 13: {
        if (!small(deg(x), 5)) return false;
        const V in = inner();
        const auto l = x.ComposeSensitivity(in);
        const M o = toM(x), i = toM(in);
        c.check(l.size() == o.n(), op + ":count");
        const auto u = genParam<S>(c, PD);
        const auto at = i.eval(u).v;
        for (size_t k = 0; k < l.size(); k++) {
          ld b = 1;
          const Idx id = unravel(k, o.deg);
          for (size_t d = 0; d < PD; d++) b *= bern(o.deg[d], id[d], at[d]);
          c.check(close((ld)l[k].Evaluate(pt<PD, S>(u)), b, 100 * R<S>()), op + ":value");
          feed(snap(l[k]));
        }
        others(nullptr, op);
        return true;
      }
      case 14: {
        const auto u = genParam<S>(c, PD);
        const auto z = pt<PD, S>(u);
        std::array<std::size_t, PD> o{};
        for (auto& k : o) k = c.rng.below(3);
        const M m = toM(p);
        expectVal<S>(c, p.Evaluate(z), m.eval(u), op, 1, maxas(m));
        expectVal<S>(c, p.ForwardEvaluate(z), m.eval(u), op, 1, maxas(m));
        auto fl = maxas(m);
        for (auto& k : fl) k *= 1e4L;
        expectVal<S>(c, p.EvaluateDerivative(z, o), m.evald(u, vec<PD>(o)), op + ":derivative", 1, fl);
        feed(bytesOf(p.Evaluate(z)) + bytesOf(p.ForwardEvaluate(z)) + bytesOf(p.EvaluateDerivative(z, o)) + bytes(p.BasisFunctions(z)) + bytes(p.BasisFunctionsDerivatives(z, o)));
        others(nullptr, op);
        return true;
      }
      default: {
        const auto u = genParam<S>(c, PD);
        const auto z = pt<PD, S>(u);
        std::array<std::size_t, PD> o{};
        for (auto& k : o) k = c.rng.below(2);
        const RM m = toRM(t);
        auto fl = floors(m);
        expectVal<S>(c, t.Evaluate(z), m.eval(u), op, 10, fl);
        expectVal<S>(c, t.ForwardEvaluate(z), m.eval(u), op, 10, fl);
        feed(bytesOf(t.Evaluate(z)) + bytesOf(t.EvaluateDerivative(z, o)) + bytes(t.BasisFunctions(z)) + bytes(t.BasisFunctionsDerivatives(z, o)) + bytesOf(t.MaximumCorner()));
        others(nullptr, op);
        return true;
      }
    }
  }
};
template <std::size_t PD, class S>
void history(Ctx& c) {
  World<PD, S> w(c);
  w.start();
  c.nontrivial = true;
  c.desc << "pool";
  w.each([&](auto& s, size_t k) { c.desc << (k ? " | " : " ") << str(w.deg(s)); });
  c.desc << " " << std::hex << w.sn[0].size() << fnv(w.sn[0] + w.sn[4] + w.sn[8]) << std::dec << ": ";
  const size_t steps = c.rng.range(10, G.thorough ? 60 : 28);
  size_t done = 0;
  for (size_t k = 0; k < steps; k++) {
    bool ok;
    switch (c.rng.below(6)) {
      case 0: ok = w.polyOp(w.a, c.rng.below(21)); break;
      case 1: ok = w.polyOp(w.v, c.rng.below(21)); break;
      case 2: ok = w.ratOp(w.ra, c.rng.below(17)); break;
      case 3: ok = w.ratOp(w.rv, c.rng.below(17)); break;
      default: ok = w.mixedOp(c.rng.below(16));
    }
    done += ok;
  }
  c.count("history-steps", done);
  w.each([&](auto& s, size_t) { structure(c, s, "end"); });
  c.digest(w.dig);
}
int main(int argc, char** argv) {
#if GROUP == 0
  reg("history<1>", history<1, double>);
  reg("history<2>", history<2, double>);
#else
  reg("history<3>", history<3, double>);
  reg("history<2,float>", history<2, float>);
#endif
  return run_main(argc, argv, "P23");
}
