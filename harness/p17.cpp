// P17: automatic differentiation gives exact values and gradients.
#include "ad.hpp"
using namespace vf;

template <class S, std::size_t N>
AD<S, N> var(S v, size_t n, size_t i) {
  if constexpr (N == 0) return AD<S, 0>(v, n, i);
  else return AD<S, N>(v, i);
}
template <class S, std::size_t N>
AD<S, N> cst(S v, size_t n) {
  if constexpr (N == 0) return AD<S, 0>(v, n);
  else return AD<S, N>(v);
}

template <class S, std::size_t N>
void exprCase(Ctx& c) {
  using T = AD<S, N>;
  const size_t n = N ? N : c.rng.range(1, 6);
  const ld eps = EPS<S>();
  const size_t nreg = n + c.rng.range(1, 4);
  const auto v = genValues<S>(c, nreg);
  std::vector<Dual> r;
  std::vector<T> t;
  for (size_t i = 0; i < nreg; i++) {
    Dual d(v[i], n);
    if (i < n) {
      d.g[i] = 1;
      if (c.rng.chance(.3)) {  // the other way to declare a variable
        T x = cst<S, N>((S)v[i], n);
        x.SetActiveComponent((i + 1) % n);
        x.SetActiveComponent(i);
        t.push_back(x);
      } else t.push_back(var<S, N>((S)v[i], n, i));
    } else t.push_back(cst<S, N>((S)v[i], n));
    r.push_back(d);
    c.desc << (i < n ? "x" : "c") << i << "=" << (double)v[i] << " ";
    c.check((ld)t.back().GetValue() == v[i] && t.back().GetNumberOfDerivatives() == n && t.back().GetDerivatives().size() == n, "construct");
    for (size_t k = 0; k < n; k++) c.check((ld)t.back().GetDerivatives()[k] == (i == k ? 1 : 0), "construct:gradient");
  }
  const size_t steps = c.rng.range(1, G.thorough ? 25 : 14);
  for (size_t k = 0; k < steps; k++) {
    Ins ins;
    if (!drawIns(c, r, ins, eps, false, std::is_same_v<S, float>, N > 0)) break;
    c.op(opName(ins.op));
    if (ins.a == ins.b && (ins.op <= IDIV || ins.op == POWA)) c.count("aliased-operands");
    c.desc << "; r" << ins.dst << "=" << opName(ins.op) << "(r" << ins.a << ",r" << ins.b << "," << ins.s << ")";
    std::vector<std::string> before;
    std::vector<T> old = t;
    if (ins.op == SETS) {
      if constexpr (N > 0) t[ins.dst] = (S)ins.s;
    } else stepT(t, ins, (S)ins.s);
    c.nontrivial = true;
    for (size_t q = 0; q < nreg; q++) {
      if (q != ins.dst) {  // nothing but the target changes
        c.check(t[q].GetValue() == old[q].GetValue() && t[q].GetDerivatives() == old[q].GetDerivatives(), std::string(opName(ins.op)) + ":changes-other-variable");
        continue;
      }
      const ld got = (ld)t[q].GetValue();
      c.check_f(fabsl(got - r[q].v) <= 200 * r[q].ev + 1e-30L, std::string(opName(ins.op)) + ":value", [&] {
        std::ostringstream o; o.precision(18); o << "got " << got << " want " << r[q].v << " tol " << 200 * r[q].ev; return o.str(); });
      c.check(t[q].GetNumberOfDerivatives() == n, std::string(opName(ins.op)) + ":number-of-derivatives");
      const auto g = t[q].GetDerivatives();
      for (size_t k2 = 0; k2 < n; k2++)
        c.check_f(fabsl((ld)g[k2] - r[q].g[k2]) <= 200 * r[q].eg[k2] + 1e-30L, std::string(opName(ins.op)) + ":gradient", [&] {
          std::ostringstream o; o.precision(18); o << "d/dx" << k2 << " got " << g[k2] << " want " << r[q].g[k2] << " tol " << 200 * r[q].eg[k2]; return o.str(); });
    }
  }
  // comparisons order by value only
  c.op("comparisons");
  for (int k = 0; k < 10; k++) {
    T a0 = t[c.rng.below(nreg)];
    T b0 = t[c.rng.below(nreg)];
    if (c.rng.chance(.3)) b0 = cst<S, N>(a0.GetValue(), n);  // same value, other derivatives
    if constexpr (N == 0) if (c.rng.chance(.3)) {  // another number of derivatives
      const S v2 = c.rng.chance(.5) ? a0.GetValue() : b0.GetValue();
      if (c.rng.chance(.5)) b0 = T(v2, n + 1 + c.rng.below(3), c.rng.below(n));
      else b0 = T(v2, n + 2);
      c.count("compare:other-number-of-derivatives");
    }
    if (c.rng.chance(.2)) {  // values without or at the end of the order, and both zeros
      const S odd[] = {std::numeric_limits<S>::quiet_NaN(), std::numeric_limits<S>::infinity(), -std::numeric_limits<S>::infinity(), S(0), -S(0), std::numeric_limits<S>::denorm_min()};
      b0 = cst<S, N>(odd[c.rng.below(6)], n);
      if (c.rng.chance(.4)) a0 = var<S, N>(odd[c.rng.below(6)], n, 0);
      if (c.rng.chance(.5)) std::swap(a0, b0);
      c.count("compare:special-values");
    }
    const T& a = a0;
    const T& b = b0;
    const S x = a.GetValue(), y = b.GetValue();
    c.check((a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y) && (a == b) == (x == y) && (a != b) == (x != y), "compare:variables");
    c.check((a < y) == (x < y) && (a <= y) == (x <= y) && (a > y) == (x > y) && (a >= y) == (x >= y) && (a == y) == (x == y) && (a != y) == (x != y), "compare:scalar-right");
    c.check((x < b) == (x < y) && (x <= b) == (x <= y) && (x > b) == (x > y) && (x >= b) == (x >= y) && (x == b) == (x == y) && (x != b) == (x != y), "compare:scalar-left");
  }
  // copies are independent, text form shows the value
  {
    T a = t[0];
    T b(a);
    a += (S)1;
    a *= (S)2;
    c.check(b.GetValue() == t[0].GetValue() && b.GetDerivatives() == t[0].GetDerivatives(), "copy:not-independent");
    std::ostringstream p, q;
    p << b;
    q << t[0].GetValue();
    c.check(p.str() == q.str(), "text-form");
  }
}
// one operation on numbers of any magnitude: whenever value and derivative are
// numbers of the type, they are the ones obtained
template <class S, std::size_t N>
void extremeCase(Ctx& c) {
  using T = AD<S, N>;
  using L = std::numeric_limits<S>;
  const size_t n = N ? N : c.rng.range(2, 4);
  const ld eps = (ld)L::epsilon();
  const double top = std::is_same_v<S, float> ? 37 : std::is_same_v<S, double> ? 305 : 2000;
  const ld lowest = (ld)L::min() * 1e4L, highest = (ld)L::max() * 1e-3L;
  c.nontrivial = true;
  auto any = [&](double range) {
    ld x;
    switch (c.rng.below(4)) {
      case 0: x = powl(10, (ld)c.rng.uni(-1, 1) * range); break;
      case 1: x = powl(10, (ld)c.rng.uni(-3, 3)); break;
      case 2: x = powl(2, (ld)(int)c.rng.range(0, 40) - 20); break;
      default: x = powl(10, (ld)c.rng.uni(-1, 1) * std::min(range, 20.));
    }
    return (S)(c.rng.chance(.5) ? x : -x);
  };
  for (int k = 0; k < 6; k++) {
    const int op = (int)c.rng.below(24);
    S a = any(top), b = any(top);
    if (c.rng.chance(.1)) b = a;
    // value, derivatives after the two operands, additional relative error
    ld v = 0, da = 0, db = 0, more = 0;
    bool both = false;
    T r;
    const size_t ia = c.rng.below(n), ib = (ia + 1) % n;
    auto X = [&] { return var<S, N>(a, n, ia); };
    auto Y = [&] { return var<S, N>(b, n, ib); };
    const char* name = "";
    auto expect = [&](const char* nm, ld f, ld fa, ld fb = 0) { name = nm; v = f; da = fa; db = fb; c.op(nm); c.desc << nm << " of " << (ld)a << "," << (ld)b << "; "; };
    const ld A = (ld)a;
    ld B = (ld)b;
    auto in = [&](ld x) { return x == 0 || (fabsl(x) > lowest && fabsl(x) < highest); };
    switch (op) {
      case 0: if (!in(A / B)) continue; expect("a/b", A / B, 1 / B, -A / B / B); both = true; r = X() / Y(); break;
      case 1: if (!in(A / B)) continue; expect("a/=b", A / B, 1 / B, -A / B / B); both = true; r = X(); r /= Y(); break;
      case 2: if (!in(A / B) || !in(1 / B)) continue; expect("a/s", A / B, 1 / B); r = X() / b; break;
      case 3: if (!in(A / B) || !in(1 / B)) continue; expect("a/=s", A / B, 1 / B); r = X(); r /= b; break;
      case 4: if (!in(B / A)) continue; expect("s/a", B / A, -B / A / A); r = b / X(); break;
      case 5: if (!in(A * B)) continue; expect("a*b", A * B, B, A); both = true; r = X() * Y(); break;
      case 6: if (!in(A * B)) continue; expect("a*s", A * B, B); r = c.rng.chance(.5) ? X() * b : b * X(); break;
      case 7: expect("a+b", (ld)(S)(A + B), 1, 1); both = true; r = X() + Y(); break;
      case 8: expect("a-b", (ld)(S)(A - B), 1, -1); both = true; r = X() - Y(); break;
      case 9: expect("s-a", (ld)(S)(B - A), -1); r = b - X(); break;
      case 10: case 11: {
        a = fabsl(A) > 0 ? (S)fabsl(A) : (S)1;
        const ld most = std::is_same_v<S, float> ? 60 : 500;
        b = c.rng.chance(.5) ? (S)((int)c.rng.below(13) - 6) : (S)c.rng.uni(-8, 8);
        B = (ld)b;
        if (op == 10 && c.rng.chance(.3) && B == floorl(B)) a = -a;
        const ld A2 = (ld)a, l = logl(fabsl(A2));
        if (B == 0 || fabsl(B * l) > most) continue;
        more = 1 + fabsl(B);
        if (op == 10) { expect("pow(a,s)", powl(A2, B), B * powl(A2, B - 1)); r = pow(X(), b); }
        else {
          more += fabsl(B * l);
          const ld p = powl(A2, B);
          if (!in(B / A2) || !in(p) || !in(p * l) || !in(1 / A2)) continue;
          expect("pow(a,b)", p, B / A2 * p, l * p); both = true; r = pow(X(), Y());
        }
        break;
      }
      case 12: { a = (S)(c.rng.uni(-1, 1) * (std::is_same_v<S, float> ? 80 : 690)); const ld e = expl((ld)a); more = fabsl((ld)a) * (std::is_same_v<S, long double>); expect("exp", e, e); r = exp(X()); break; }
      case 13: { a = (S)fabsl(A); if (!in(1 / A)) continue; expect("log", logl((ld)a), 1 / (ld)a); r = log(X()); break; }
      case 14: { a = (S)fabsl(A); if (!in(1 / A) || !in(A * 3)) continue; expect("log10", log10l((ld)a), 1 / ((ld)a * logl(10.L))); r = log10(X()); break; }
      case 15: { a = (S)fabsl(A); expect("sqrt", sqrtl((ld)a), .5L / sqrtl((ld)a)); r = sqrt(X()); break; }
      case 16: expect("abs", fabsl(A), A > 0 ? 1 : -1); r = abs(X()); break;
      case 17: case 18: case 19: {
        // reduced exactly by the standard functions
        a = any(std::min(top, 15.));
        const ld x = (ld)a, s = sinl(x), q = cosl(x);
        if (op == 17) { expect("sin", s, q); r = sin(X()); }
        else if (op == 18) { expect("cos", q, -s); r = cos(X()); }
        else { if (fabsl(q) < 1e-4L) continue; expect("tan", s / q, 1 / q / q); r = tan(X()); }
        break;
      }
      case 20: case 21: {
        // up to the ends of the domain
        ld x = c.rng.chance(.5) ? 1 - powl(10, (ld)c.rng.uni(log10(eps) + 1, -1)) : (ld)any(10);
        if (!(fabsl(x) < 1)) x = 1 / x * .9L;
        if (c.rng.chance(.5)) x = -x;
        a = (S)x;
        x = (ld)a;
        const ld w = 1 / sqrtl((1 - x) * (1 + x));
        more = w * w;
        if (op == 20) { expect("asin", asinl(x), w); r = asin(X()); }
        else { expect("acos", acosl(x), -w); r = acos(X()); }
        break;
      }
      case 22: { if (!in(1 / A / A) && fabsl(A) > 1) continue; expect("atan", atanl(A), 1 / (1 + A * A)); r = atan(X()); break; }
      default: expect("-a", -A, -1); r = -X(); break;
    }
    const ld tol = 24 * eps * (1 + more);
    c.check_f(fabsl((ld)r.GetValue() - v) <= tol * fabsl(v), std::string("extreme:") + name + ":value", [&] {
      std::ostringstream o; o.precision(18); o << name << " of " << (ld)a << ", " << (ld)b << ": got " << r.GetValue() << " want " << v; return o.str(); });
    c.check(r.GetNumberOfDerivatives() == n, std::string("extreme:") + name + ":number-of-derivatives");
    if (!in(da) || !in(db)) continue;
    const auto g = r.GetDerivatives();
    for (size_t i = 0; i < n; i++) {
      ld want = i == ia ? da : 0;
      if (both && i == ib && n > 1) want = db;
      if (both && n == 1) want = da + db;
      const ld mag = both && n == 1 ? fabsl(da) + fabsl(db) : fabsl(want);
      if (!in(want)) continue;
      c.check_f(fabsl((ld)g[i] - want) <= tol * mag, std::string("extreme:") + name + ":gradient", [&] {
        std::ostringstream o; o.precision(18); o << name << " of " << (ld)a << ", " << (ld)b << ": d/dx" << i << " got " << g[i] << " want " << want; return o.str(); });
    }
  }
}
#define F(S, N) reg("expressions<" #S "," #N ">", exprCase<S, N>)
#define E(S, N) reg("magnitudes<" #S "," #N ">", extremeCase<S, N>)
int main(int argc, char** argv) {
  F(double, 1); F(double, 2); F(double, 3); F(double, 5); F(double, 0); F(double, 0); F(float, 2); F(float, 0); F(long double, 3); F(long double, 0);
  E(double, 2); E(double, 0); E(float, 3); E(long double, 2); E(double, 1); E(float, 0);
  return run_main(argc, argv, "P17");
}
