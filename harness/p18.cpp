// P18: nested differentiation (exact Hessians) and differentiation through splines.
#include "ad.hpp"
#include "lib.hpp"
using namespace vf;

// N inner (compile time), outer compile time or run time
template <std::size_t N, bool DYN>
void nestedCase(Ctx& c) {
  using I = AD<double, N>;
  using T = AD<I, DYN ? 0 : N>;
  constexpr size_t n = N;
  const ld eps = EPS<double>();
  auto mk = [&](double v, size_t i) {
    if constexpr (DYN) return T(I(v, i), n, i); else return T(I(v, i), i);
  };
  auto mc = [&](double v) {
    if constexpr (DYN) return T(I(v), n); else return T(I(v));
  };
  const size_t nreg = n + c.rng.range(1, 3);
  const auto v = genValues<double>(c, nreg);
  std::vector<Dual> r;
  std::vector<T> t;
  for (size_t i = 0; i < nreg; i++) {
    Dual d(v[i], n);
    if (i < n) d.g[i] = 1;
    r.push_back(d);
    t.push_back(i < n ? mk((double)v[i], i) : mc((double)v[i]));
    c.desc << (i < n ? "x" : "c") << i << "=" << (double)v[i] << " ";
  }
  const size_t steps = c.rng.range(1, G.thorough ? 16 : 9);
  for (size_t k = 0; k < steps; k++) {
    Ins ins;
    if (!drawIns(c, r, ins, eps, true, false, false)) break;
    c.op(opName(ins.op));
    c.desc << "; r" << ins.dst << "=" << opName(ins.op) << "(r" << ins.a << ",r" << ins.b << "," << ins.s << ")";
    stepT(t, ins, I(ins.s));
    c.nontrivial = true;
    const size_t q = ins.dst;
    const std::string op = std::string("nested:") + opName(ins.op);
    auto ck = [&](ld got, ld want, ld tol, const char* what, size_t i, size_t j) {
      c.check_f(fabsl(got - want) <= 400 * tol + 1e-30L, op + ":" + what, [&] {
        std::ostringstream o; o.precision(18); o << what << "(" << i << "," << j << ") got " << got << " want " << want << " tol " << 400 * tol; return o.str(); });
    };
    const I val = t[q].GetValue();
    const auto d = t[q].GetDerivatives();
    c.check(t[q].GetNumberOfDerivatives() == n && d.size() == n, op + ":number-of-derivatives");
    ck(val.GetValue(), r[q].v, r[q].ev, "value", 0, 0);
    for (size_t i = 0; i < n; i++) {
      ck(val.GetDerivatives()[i], r[q].g[i], r[q].eg[i], "gradient-of-value", i, 0);
      ck(d[i].GetValue(), r[q].g[i], r[q].eg[i], "gradient", i, 0);
      for (size_t j = 0; j < n; j++) {
        ck(d[i].GetDerivatives()[j], r[q].h[i * n + j], r[q].eh[i * n + j], "hessian", i, j);
        c.check(fabsl((ld)d[i].GetDerivatives()[j] - (ld)d[j].GetDerivatives()[i]) <= 400 * (r[q].eh[i * n + j] + r[q].eh[j * n + i]) + 1e-30L, op + ":hessian-not-symmetric");
      }
    }
  }
  c.op("comparisons");
  for (int k = 0; k < 3; k++) {
    const T& a = t[c.rng.below(nreg)];
    const T& b = t[c.rng.below(nreg)];
    const double x = a.GetValue().GetValue(), y = b.GetValue().GetValue();
    c.check((a > b) == (x > y) && (a >= b) == (x >= y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a == b) == (x == y) && (a != b) == (x != y), "nested:compare");
  }
}

// ---- derivatives carried through splines -------------------------------------
template <class A>
A mkVar(double v, size_t n, size_t i) {
  if constexpr (std::is_same_v<A, AD<double, 0>>) return A(v, n, i); else return A(v, i);
}
template <class A>
A mkConst(double v, size_t n) {
  if constexpr (std::is_same_v<A, AD<double, 0>>) return A(v, n); else return A(v);
}
// gradient slots: first PD for the parameters, then 2 for control points
template <std::size_t PD, class A, size_t NC, bool RAT>
void splineCase(Ctx& c) {
  constexpr size_t n = PD + 2;
  constexpr bool dyn = std::is_same_v<A, AD<double, 0>>;
  using P = std::conditional_t<NC == 1, A, bz::Point<NC, A>>;
  const Deg d = genDeg(c, PD, 6, 40);
  const size_t N = prod1(d);
  M num(d, NC), w(d, 1), ctp(d, NC);
  for (size_t i = 0; i < N; i++) {
    w.c[i] = w.a[i] = RAT ? (double)c.rng.uni(0.3, 3) : 1.;
    for (size_t q = 0; q < NC; q++) {
      ctp.c[i * NC + q] = (double)c.rng.uni(-2, 2);
      num.c[i * NC + q] = ctp.c[i * NC + q] * w.c[i];
      num.a[i * NC + q] = fabsl(num.c[i * NC + q]);
    }
  }
  const size_t k0 = c.rng.below(N), k1 = c.rng.below(N), q0 = c.rng.below(NC), q1 = c.rng.below(NC);
  const bool distinct = k0 != k1 || q0 != q1;
  std::vector<P> pts(N);
  std::vector<A> ws;
  for (size_t i = 0; i < N; i++) {
    for (size_t q = 0; q < NC; q++) {
      const double x = (double)ctp.c[i * NC + q];
      A a = i == k0 && q == q0 ? mkVar<A>(x, n, PD) : i == k1 && q == q1 ? mkVar<A>(x, n, PD + 1) : mkConst<A>(x, n);
      if constexpr (NC == 1) pts[i] = a; else pts[i][q] = a;
    }
    ws.push_back(mkConst<A>((double)w.c[i], n));
  }
  const auto u = genParam<double>(c, PD);
  bz::Point<PD, A> p;
  for (size_t k = 0; k < PD; k++) p[k] = mkVar<A>((double)u[k], n, k);
  c.desc << "ctps " << str(ctp) << " w " << str(w) << " u=" << str(u) << " active " << k0 << "." << q0 << " " << k1 << "." << q1 << "; ";
  c.nontrivial = true;
  // expected
  const Idx z(PD, 0);
  std::vector<Ser> sw;
  auto wantBasis = [&](size_t i, std::vector<ld>& grad) {  // unweighted control point basis function
    M e(d, 1);
    e.c[i] = e.a[i] = w.c[i];
    ld v = 0;
    for (size_t k = 0; k < PD; k++) {
      Idx o(PD, 0);
      o[k] = 1;
      Ser s = serDiv(serOf(e, 0, u, o), serOf(w, 0, u, o));
      v = s.c[0];
      grad[k] = s.c[1];
    }
    return v;
  };
  const ld T1 = 1e-10L * 100;
  auto verify = [&](const P& got, const std::string& lab) {
    for (size_t q = 0; q < NC; q++) {
      A a;
      if constexpr (NC == 1) a = got; else a = got[q];
      ld want = 0;
      const Val e = num.eval(u), f = w.eval(u);
      want = e.v[q] / f.v[0];
      c.check_f(close((ld)a.GetValue(), want, T1 * (1 + fabsl(want))), lab + ":value", [&] { return "got " + std::to_string(a.GetValue()) + " want " + std::to_string((double)want); });
      const auto g = a.GetDerivatives();
      c.check(g.size() == n, lab + ":number-of-derivatives");
      for (size_t k = 0; k < PD; k++) {
        Idx o(PD, 0);
        o[k] = 1;
        const Ser s = serDiv(serOf(num, q, u, o), serOf(w, 0, u, o));
        c.check_f(close((ld)g[k], s.c[1], T1 * (1 + s.a[1])), lab + ":parametric-derivative", [&] { return "direction " + std::to_string(k) + " got " + std::to_string(g[k]) + " want " + std::to_string((double)s.c[1]); });
      }
      std::vector<ld> dummy(PD);
      for (int x = 0; x < (distinct ? 2 : 1); x++) {
        const size_t kk = x ? k1 : k0, qq = x ? q1 : q0;
        const ld b = qq == q ? wantBasis(kk, dummy) : 0;
        c.check_f(close((ld)g[PD + x], b, T1), lab + ":control-point-derivative", [&] { return "got " + std::to_string(g[PD + x]) + " want " + std::to_string((double)b); });
      }
    }
  };
  auto basis = [&](const std::vector<A>& b, const std::string& lab) {
    c.check(b.size() == N, lab + ":count");
    for (size_t i = 0; i < N; i++) {
      std::vector<ld> g(PD);
      const ld v = wantBasis(i, g);
      c.check(close((ld)b[i].GetValue(), v, T1), lab + ":value");
      for (size_t k = 0; k < PD; k++)
        c.check_f(close((ld)b[i].GetDerivatives()[k], g[k], T1 * 100), lab + ":parametric-derivative", [&] { return "entry " + std::to_string(i) + " got " + std::to_string(b[i].GetDerivatives()[k]) + " want " + std::to_string((double)g[k]); });
    }
  };
  if constexpr (RAT) {
    bz::RationalBezierSpline<PD, P, A> s(arr<PD>(d), pts, ws);
    c.op("rational-Evaluate");
    verify(s.Evaluate(p), "rational-Evaluate");
    c.op("rational-BasisFunctions");
    if constexpr (!dyn) basis(s.BasisFunctions(p), "rational-BasisFunctions");
    if constexpr (!dyn) { c.op("rational-ForwardEvaluate"); verify(s.ForwardEvaluate(p), "rational-ForwardEvaluate"); }
  } else {
    bz::BezierSpline<PD, P, A> s(arr<PD>(d), pts);
    c.op("Evaluate");
    verify(s.Evaluate(p), "Evaluate");
    if constexpr (!dyn) {
      c.op("BasisFunctions");
      basis(s.BasisFunctions(p), "BasisFunctions");
      { c.op("ForwardEvaluate"); verify(s.ForwardEvaluate(p), "ForwardEvaluate"); }
    }
    // plain parameter, differentiated control points
    c.op("Evaluate-control-points");
    if constexpr (!dyn) {
      bz::BezierSpline<PD, P, double> t(arr<PD>(d), pts);
      const P v = t.Evaluate(pt<PD, double>(u));
      for (size_t q = 0; q < NC; q++) {
        A a;
        if constexpr (NC == 1) a = v; else a = v[q];
        std::vector<ld> dummy(PD);
        const ld want = num.eval(u).v[q];
        c.check(close((ld)a.GetValue(), want, T1 * (1 + fabsl(want))), "Evaluate-control-points:value");
        for (int x = 0; x < (distinct ? 2 : 1); x++) {
          const ld b = (x ? q1 : q0) == q ? wantBasis(x ? k1 : k0, dummy) : 0;
          c.check(close((ld)a.GetDerivatives()[PD + x], b, T1), "Evaluate-control-points:derivative");
        }
        for (size_t k = 0; k < PD; k++) c.check(a.GetDerivatives()[k] == 0, "Evaluate-control-points:foreign-derivative");
      }
    }
  }
}
int main(int argc, char** argv) {
  using D = AD<double, 0>;
#if GROUP == 0
  reg("nested<1>", nestedCase<1, false>);
  reg("nested<2>", nestedCase<2, false>);
  reg("nested<3>", nestedCase<3, false>);
  reg("nested-dynamic<2>", nestedCase<2, true>);
#else
  reg("spline-ad<1>", splineCase<1, AD<double, 3>, 1, false>);
  reg("spline-ad<2>", splineCase<2, AD<double, 4>, 1, false>);
  reg("spline-ad<2,Point>", splineCase<2, AD<double, 4>, 2, false>);
  reg("spline-ad<3,Point>", splineCase<3, AD<double, 5>, 3, false>);
  reg("spline-ad-dynamic<1>", splineCase<1, D, 1, false>);
  reg("spline-ad-dynamic<2,Point>", splineCase<2, D, 2, false>);
  reg("rational-ad<1>", splineCase<1, AD<double, 3>, 1, true>);
  reg("rational-ad<2>", splineCase<2, AD<double, 4>, 1, true>);
  reg("rational-ad<2,Point>", splineCase<2, AD<double, 4>, 2, true>);
#endif
  return run_main(argc, argv, "P18");
}
