// Random expression programs over registers, an independent long-double
// evaluator (value, gradient, Hessian, each with a running rounding-error
// bound) and an executor for any type of the library.  Shared by P17 and P18.
#pragma once
#include "framework.hpp"

#include "bezman/src/utils/computational_differentiation/algo_diff_type.hpp"

namespace vf {
template <class S, std::size_t N>
using AD = bezman::utils::computational_differentiation::AlgoDiffType<S, N>;

enum Op { ADD, SUB, MUL, DIV, IADD, ISUB, IMUL, IDIV, ADDS, SUBS, MULS, DIVS, IADDS, ISUBS, IMULS, IDIVS,
          SADD, SSUB, SMUL, SDIV, POWS, POWA, NEG, EXP, LOG, LOG10, SQRT, ABS, SIN, COS, TAN, ASIN, ACOS, ATAN,
          COPY, SETS, NOPS };
inline const char* opName(int o) {
  static const char* n[] = {"a+b", "a-b", "a*b", "a/b", "a+=b", "a-=b", "a*=b", "a/=b", "a+s", "a-s", "a*s", "a/s",
                            "a+=s", "a-=s", "a*=s", "a/=s", "s+a", "s-a", "s*a", "s/a", "pow(a,s)", "pow(a,b)", "-a",
                            "exp", "log", "log10", "sqrt", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "copy", "a=s"};
  return n[o];
}
struct Ins {
  int op;
  size_t dst, a, b;
  double s;
};

// value, gradient, Hessian with error bounds
struct Dual {
  ld v = 0, ev = 0;
  std::vector<ld> g, eg, h, eh;
  Dual() = default;
  Dual(ld x, size_t n) : v(x), g(n), eg(n), h(n * n), eh(n * n) {}
  size_t n() const { return g.size(); }
};
inline Dual unary(const Dual& x, ld f0, ld f1, ld f2, ld f3, ld eps) {
  const size_t n = x.n();
  Dual r(f0, n);
  r.ev = fabsl(f1) * x.ev + fabsl(f2) * x.ev * x.ev + eps * fabsl(f0);
  for (size_t i = 0; i < n; i++) {
    r.g[i] = f1 * x.g[i];
    r.eg[i] = fabsl(f1) * x.eg[i] + fabsl(f2) * x.ev * (fabsl(x.g[i]) + x.eg[i]) + fabsl(f3) * x.ev * x.ev * fabsl(x.g[i]) + eps * fabsl(r.g[i]);
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      const size_t k = i * n + j;
      const ld t1 = f1 * x.h[k], t2 = f2 * x.g[i] * x.g[j];
      r.h[k] = t1 + t2;
      r.eh[k] = fabsl(f1) * x.eh[k] + fabsl(f2) * x.ev * fabsl(x.h[k]) + fabsl(f3) * x.ev * fabsl(x.g[i] * x.g[j]) +
                fabsl(f2) * (fabsl(x.g[i]) * x.eg[j] + fabsl(x.g[j]) * x.eg[i] + x.eg[i] * x.eg[j]) + fabsl(f2) * x.ev * x.eh[k] + eps * (fabsl(t1) + fabsl(t2));
    }
  return r;
}
inline Dual addD(const Dual& x, const Dual& y, ld s, ld eps) {
  const size_t n = x.n();
  Dual r(x.v + s * y.v, n);
  r.ev = x.ev + y.ev + eps * (fabsl(x.v) + fabsl(y.v));
  for (size_t i = 0; i < n; i++) { r.g[i] = x.g[i] + s * y.g[i]; r.eg[i] = x.eg[i] + y.eg[i] + eps * (fabsl(x.g[i]) + fabsl(y.g[i])); }
  for (size_t i = 0; i < n * n; i++) { r.h[i] = x.h[i] + s * y.h[i]; r.eh[i] = x.eh[i] + y.eh[i] + eps * (fabsl(x.h[i]) + fabsl(y.h[i])); }
  return r;
}
inline Dual mulD(const Dual& x, const Dual& y, ld eps) {
  const size_t n = x.n();
  Dual r(x.v * y.v, n);
  r.ev = fabsl(x.v) * y.ev + fabsl(y.v) * x.ev + x.ev * y.ev + eps * fabsl(r.v);
  for (size_t i = 0; i < n; i++) {
    const ld a = x.v * y.g[i], b = y.v * x.g[i];
    r.g[i] = a + b;
    r.eg[i] = fabsl(x.v) * y.eg[i] + x.ev * fabsl(y.g[i]) + fabsl(y.v) * x.eg[i] + y.ev * fabsl(x.g[i]) + x.ev * y.eg[i] + y.ev * x.eg[i] + eps * (fabsl(a) + fabsl(b));
  }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      const size_t k = i * n + j;
      const ld a = x.v * y.h[k], b = y.v * x.h[k], p = x.g[i] * y.g[j], q = x.g[j] * y.g[i];
      r.h[k] = a + b + p + q;
      r.eh[k] = fabsl(x.v) * y.eh[k] + x.ev * fabsl(y.h[k]) + fabsl(y.v) * x.eh[k] + y.ev * fabsl(x.h[k]) +
                x.eg[i] * fabsl(y.g[j]) + fabsl(x.g[i]) * y.eg[j] + x.eg[j] * fabsl(y.g[i]) + fabsl(x.g[j]) * y.eg[i] +
                x.ev * y.eh[k] + y.ev * x.eh[k] + x.eg[i] * y.eg[j] + x.eg[j] * y.eg[i] +
                eps * (fabsl(a) + fabsl(b) + fabsl(p) + fabsl(q));
    }
  return r;
}
inline Dual recipD(const Dual& x, ld eps) {
  const ld i = 1 / x.v;
  return unary(x, i, -i * i, 2 * i * i * i, -6 * i * i * i * i, eps);
}
inline Dual logD(const Dual& x, ld eps) {
  const ld i = 1 / x.v;
  return unary(x, logl(x.v), i, -i * i, 2 * i * i * i, eps);
}
inline Dual expD(const Dual& x, ld eps) {
  const ld e = expl(x.v);
  return unary(x, e, e, e, e, eps);
}
inline ld powl_int(ld b, ld p) { return p == 0 ? 1 : powl(b, p); }

// performs one instruction; false if the operation is not admissible here
inline bool stepD(std::vector<Dual>& r, const Ins& i, ld eps, bool nested) {
  const Dual a = r[i.a], b = r[i.b];
  const size_t n = a.n();
  const ld s = i.s;
  Dual c(s, n);  // a constant
  Dual o;
  auto away0 = [&](const Dual& x, ld lim) { return fabsl(x.v) > lim && fabsl(x.v) > 1e3L * x.ev; };
  switch (i.op) {
    case ADD: case IADD: o = addD(a, b, 1, eps); break;
    case SUB: case ISUB: o = addD(a, b, -1, eps); break;
    case MUL: case IMUL: o = mulD(a, b, eps); break;
    case DIV: case IDIV: if (!away0(b, 0.05L)) return false; o = mulD(a, recipD(b, eps), eps); break;
    case ADDS: case IADDS: case SADD: o = addD(a, c, 1, eps); break;
    case SUBS: case ISUBS: o = addD(a, c, -1, eps); break;
    case SSUB: o = addD(c, a, -1, eps); break;
    case MULS: case IMULS: case SMUL: o = mulD(a, c, eps); break;
    case DIVS: case IDIVS: if (fabsl(s) < 0.05L) return false; o = mulD(a, recipD(c, eps), eps); break;
    case SDIV: if (!away0(a, 0.05L)) return false; o = mulD(c, recipD(a, eps), eps); break;
    case POWS: {
      const bool integer = s == (double)(long)s;
      if (nested) {
        if (!(a.v > 0.05L) || !away0(a, 0.05L)) return false;
        // either exp(s log(x)) or x * x^(s-1): the bound covers both
        o = expD(mulD(logD(a, eps), c, eps), eps);
        const Dual o2 = mulD(a, expD(mulD(logD(a, eps), Dual(s - 1, n), eps), eps), eps * (1 + fabsl(s)));
        o.ev += o2.ev;
        for (size_t k = 0; k < n; k++) o.eg[k] += o2.eg[k];
        for (size_t k = 0; k < n * n; k++) o.eh[k] += o2.eh[k];
      } else {
        if (a.v == 0 && a.ev == 0) { if (!integer || s < 0) return false; }
        else if (!away0(a, 0.05L)) return false;
        if (a.v < 0 && !integer) return false;
        auto f = [&](int k) {  // k-th derivative of x^s
          ld q = 1;
          for (int j = 0; j < k; j++) q *= s - j;
          return q == 0 ? 0.L : q * powl_int(a.v, s - k);
        };
        o = unary(a, f(0), f(1), f(2), f(3), eps * (1 + fabsl(s)));
      }
      break;
    }
    case POWA: if (!(a.v > 0.05L) || !away0(a, 0.05L)) return false; o = expD(mulD(logD(a, eps), b, eps), eps); break;
    case NEG: o = mulD(a, Dual(-1, n), 0); break;
    case EXP: if (fabsl(a.v) > 20) return false; o = expD(a, eps); break;
    case LOG: if (!(a.v > 0.05L) || !away0(a, 0.05L)) return false; o = logD(a, eps); break;
    case LOG10: if (!(a.v > 0.05L) || !away0(a, 0.05L)) return false; o = mulD(logD(a, eps), Dual(1 / logl(10.L), n), eps); break;
    case SQRT: {
      if (!(a.v > 0.05L) || !away0(a, 0.05L)) return false;
      const ld q = sqrtl(a.v);
      o = unary(a, q, 0.5L / q, -0.25L / (q * a.v), 0.375L / (q * a.v * a.v), eps);
      break;
    }
    case ABS: if (!away0(a, 1e-4L)) return false; o = a.v > 0 ? a : mulD(a, Dual(-1, n), 0); break;
    case SIN: if (fabsl(a.v) > 50) return false; o = unary(a, sinl(a.v), cosl(a.v), -sinl(a.v), -cosl(a.v), eps); break;
    case COS: if (fabsl(a.v) > 50) return false; o = unary(a, cosl(a.v), -sinl(a.v), -cosl(a.v), sinl(a.v), eps); break;
    case TAN: {
      if (fabsl(a.v) > 50 || fabsl(cosl(a.v)) < 0.1L) return false;
      const ld t = tanl(a.v), q = 1 + t * t;
      o = unary(a, t, q, 2 * t * q, 2 * q * (1 + 3 * t * t), eps * (1 + fabsl(a.v)));
      break;
    }
    case ASIN: case ACOS: {
      if (fabsl(a.v) > 0.95L) return false;
      const ld q = 1 / (1 - a.v * a.v), w = sqrtl(q), sg = i.op == ASIN ? 1 : -1;
      o = unary(a, i.op == ASIN ? asinl(a.v) : acosl(a.v), sg * w, sg * a.v * w * q, sg * (1 + 2 * a.v * a.v) * w * q * q, eps * (1 + q));
      break;
    }
    case ATAN: {
      const ld q = 1 / (1 + a.v * a.v);
      o = unary(a, atanl(a.v), q, -2 * a.v * q * q, (6 * a.v * a.v - 2) * q * q * q, eps);
      break;
    }
    case COPY: o = a; break;
    case SETS: o = c; break;
    default: return false;
  }
  // keep everything of moderate size and well conditioned
  const ld lim = 1e5L * eps;
  if (!(fabsl(o.v) < 1e5L) || !(o.ev <= lim * (1 + fabsl(o.v)))) return false;
  for (size_t k = 0; k < n; k++) if (!(fabsl(o.g[k]) < 1e7L) || !(o.eg[k] <= 10 * lim * (1 + fabsl(o.g[k])))) return false;
  for (size_t k = 0; k < n * n; k++) if (!(fabsl(o.h[k]) < 1e9L) || !(o.eh[k] <= 100 * lim * (1 + fabsl(o.h[k])))) return false;
  r[i.dst] = o;
  return true;
}

template <class T, class Sc>
void stepT(std::vector<T>& r, const Ins& i, const Sc& s) {
  switch (i.op) {
    case ADD: r[i.dst] = r[i.a] + r[i.b]; break;
    case SUB: r[i.dst] = r[i.a] - r[i.b]; break;
    case MUL: r[i.dst] = r[i.a] * r[i.b]; break;
    case DIV: r[i.dst] = r[i.a] / r[i.b]; break;
    case IADD: r[i.a] += r[i.b]; break;
    case ISUB: r[i.a] -= r[i.b]; break;
    case IMUL: r[i.a] *= r[i.b]; break;
    case IDIV: r[i.a] /= r[i.b]; break;
    case ADDS: r[i.dst] = r[i.a] + s; break;
    case SUBS: r[i.dst] = r[i.a] - s; break;
    case MULS: r[i.dst] = r[i.a] * s; break;
    case DIVS: r[i.dst] = r[i.a] / s; break;
    case IADDS: r[i.a] += s; break;
    case ISUBS: r[i.a] -= s; break;
    case IMULS: r[i.a] *= s; break;
    case IDIVS: r[i.a] /= s; break;
    case SADD: r[i.dst] = s + r[i.a]; break;
    case SSUB: r[i.dst] = s - r[i.a]; break;
    case SMUL: r[i.dst] = s * r[i.a]; break;
    case SDIV: r[i.dst] = s / r[i.a]; break;
    case POWS: r[i.dst] = pow(r[i.a], s); break;
    case POWA: r[i.dst] = pow(r[i.a], r[i.b]); break;
    case NEG: r[i.dst] = -r[i.a]; break;
    case EXP: r[i.dst] = exp(r[i.a]); break;
    case LOG: r[i.dst] = log(r[i.a]); break;
    case LOG10: r[i.dst] = log10(r[i.a]); break;
    case SQRT: r[i.dst] = sqrt(r[i.a]); break;
    case ABS: r[i.dst] = abs(r[i.a]); break;
    case SIN: r[i.dst] = sin(r[i.a]); break;
    case COS: r[i.dst] = cos(r[i.a]); break;
    case TAN: r[i.dst] = tan(r[i.a]); break;
    case ASIN: r[i.dst] = asin(r[i.a]); break;
    case ACOS: r[i.dst] = acos(r[i.a]); break;
    case ATAN: r[i.dst] = atan(r[i.a]); break;
    case COPY: r[i.dst] = r[i.a]; break;
    default: break;
  }
}
inline bool inPlace(int op) { return (op >= IADD && op <= IDIV) || (op >= IADDS && op <= IDIVS); }

template <class S>
std::vector<ld> genValues(Ctx& c, size_t n) {
  std::vector<ld> v(n);
  for (auto& x : v) {
    const size_t k = c.rng.below(8);
    double y = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -1 : k == 3 ? (double)c.rng.range(2, 5) : k <= 5 ? c.rng.uni(0.1, 3) : c.rng.uni(-3, 3);
    x = (ld)(S)y;
  }
  return v;
}
// draws an instruction that is admissible in the current state
inline bool drawIns(Ctx& c, std::vector<Dual>& r, Ins& i, ld eps, bool nested, bool isFloat, bool allowSet) {
  for (int t = 0; t < 40; t++) {
    i.op = (int)c.rng.below(NOPS);
    if (i.op == SETS && !allowSet) continue;
    i.a = c.rng.below(r.size());
    i.b = c.rng.chance(0.2) ? i.a : c.rng.below(r.size());
    i.dst = inPlace(i.op) ? i.a : c.rng.below(r.size());
    const size_t k = c.rng.below(6);
    i.s = k == 0 ? (double)((int)c.rng.below(7) - 3) : k == 1 ? 0.5 : k == 2 ? 2 : c.rng.uni(-3, 3);
    if (i.op == POWS && c.rng.chance(.6)) i.s = (double)((int)c.rng.below(8) - 2);
    if (isFloat) i.s = (double)(float)i.s;
    std::vector<Dual> save = r;
    if (stepD(r, i, eps, nested)) return true;
    r = save;
  }
  return false;
}
template <class S>
constexpr ld EPS() { return (ld)std::numeric_limits<S>::epsilon(); }
}  // namespace vf
