// Reference model: tensor-product Bernstein polynomials in long double, written
// from the mathematical definition and independently of the library.  Every
// coefficient carries a magnitude `a` (sum of absolute contributions), which
// scales the rounding tolerance of the comparisons.
#pragma once
#include "framework.hpp"

namespace vf {
using Deg = std::vector<size_t>;
using Idx = std::vector<size_t>;

inline ld binom(size_t n, size_t k) {
  if (k > n) return 0;
  if (k > n - k) k = n - k;
  ld r = 1;
  for (size_t i = 1; i <= k; i++) r = r * (ld)(n - k + i) / (ld)i;
  return roundl(r);
}
inline ld ipow(ld x, size_t n) {
  ld r = 1;
  for (size_t i = 0; i < n; i++) r *= x;
  return r;
}
inline ld bern(size_t n, size_t i, ld t) { return binom(n, i) * ipow(t, i) * ipow(1 - t, n - i); }
inline ld bern_abs(size_t n, size_t i, ld t) {
  return binom(n, i) * ipow(fabsl(t), i) * ipow(fabsl(1 - t), n - i);
}
// k-th derivative of B_i^n at t: n!/(n-k)! sum_j (-1)^(k-j) C(k,j) B_{i-j}^{n-k}
inline ld bern_der(size_t n, size_t i, size_t k, ld t, ld* mag = nullptr) {
  if (mag) *mag = 0;
  if (k > n) return 0;
  ld f = 1;
  for (size_t q = 0; q < k; q++) f *= (ld)(n - q);
  ld s = 0, m = 0;
  for (size_t j = 0; j <= k; j++) {
    if (j > i || i - j > n - k) continue;
    ld term = binom(k, j) * bern(n - k, i - j, t);
    s += ((k - j) & 1) ? -term : term;
    m += binom(k, j) * bern_abs(n - k, i - j, t);
  }
  if (mag) *mag = m * f;
  return s * f;
}

inline size_t prod1(const Deg& d) {
  size_t n = 1;
  for (size_t x : d) n *= x + 1;
  return n;
}
inline Idx unravel(size_t i, const Deg& d) {
  Idx r(d.size());
  for (size_t k = 0; k < d.size(); k++) {
    r[k] = i % (d[k] + 1);
    i /= d[k] + 1;
  }
  return r;
}
inline size_t ravel(const Idx& id, const Deg& d) {
  size_t r = 0, s = 1;
  for (size_t k = 0; k < d.size(); k++) {
    r += s * id[k];
    s *= d[k] + 1;
  }
  return r;
}

struct Val {
  std::vector<ld> v, a;
};

struct M {
  Deg deg;
  size_t nc = 1;             // components
  std::vector<ld> c, a;      // [ctp*nc + comp]
  size_t n() const { return prod1(deg); }
  size_t pd() const { return deg.size(); }
  M() = default;
  M(Deg d, size_t ncomp) : deg(std::move(d)), nc(ncomp), c(n() * ncomp), a(n() * ncomp) {}

  Val eval(const std::vector<ld>& u) const { return evald(u, Idx(pd(), 0)); }
  Val evald(const std::vector<ld>& u, const Idx& k) const {
    std::vector<std::vector<ld>> b(pd()), m(pd());
    for (size_t d = 0; d < pd(); d++) {
      b[d].resize(deg[d] + 1);
      m[d].resize(deg[d] + 1);
      for (size_t i = 0; i <= deg[d]; i++) b[d][i] = bern_der(deg[d], i, k[d], u[d], &m[d][i]);
    }
    Val r;
    r.v.assign(nc, 0);
    r.a.assign(nc, 0);
    const size_t N = n();
    for (size_t i = 0; i < N; i++) {
      Idx id = unravel(i, deg);
      ld w = 1, wm = 1;
      for (size_t d = 0; d < pd(); d++) {
        w *= b[d][id[d]];
        wm *= m[d][id[d]];
      }
      for (size_t q = 0; q < nc; q++) {
        r.v[q] += w * c[i * nc + q];
        r.a[q] += wm * a[i * nc + q];
      }
    }
    return r;
  }
  M elevated(size_t dir) const {
    Deg nd = deg;
    nd[dir]++;
    M r(nd, nc);
    const ld n1 = (ld)nd[dir];
    for (size_t i = 0; i < r.n(); i++) {
      Idx id = unravel(i, nd);
      const ld f = (ld)id[dir] / n1;
      for (size_t q = 0; q < nc; q++) {
        ld v = 0, m = 0;
        if (id[dir] > 0) {
          Idx j = id;
          j[dir]--;
          v += f * c[ravel(j, deg) * nc + q];
          m += f * a[ravel(j, deg) * nc + q];
        }
        if (id[dir] <= deg[dir]) {
          v += (1 - f) * c[ravel(id, deg) * nc + q];
          m += (1 - f) * a[ravel(id, deg) * nc + q];
        }
        r.c[i * nc + q] = v;
        r.a[i * nc + q] = m;
      }
    }
    return r;
  }
  M elevated_to(const Deg& d) const {
    M r = *this;
    for (size_t k = 0; k < pd(); k++)
      while (r.deg[k] < d[k]) r = r.elevated(k);
    return r;
  }
  M deriv1(size_t dir) const {
    if (deg[dir] == 0) return M(deg, nc);
    Deg nd = deg;
    nd[dir]--;
    M r(nd, nc);
    for (size_t i = 0; i < r.n(); i++) {
      Idx lo = unravel(i, nd), hi = lo;
      hi[dir]++;
      for (size_t q = 0; q < nc; q++) {
        r.c[i * nc + q] = (ld)deg[dir] * (c[ravel(hi, deg) * nc + q] - c[ravel(lo, deg) * nc + q]);
        r.a[i * nc + q] = (ld)deg[dir] * (a[ravel(hi, deg) * nc + q] + a[ravel(lo, deg) * nc + q]);
      }
    }
    return r;
  }
  M deriv(const Idx& k) const {
    M r = *this;
    for (size_t d = 0; d < pd(); d++)
      for (size_t j = 0; j < k[d]; j++) r = r.deriv1(d);
    return r;
  }
  // restriction to [lo,hi] in direction dir, by blossoming each control point
  M restricted(ld lo, ld hi, size_t dir) const {
    M r(deg, nc);
    const size_t p = deg[dir];
    for (size_t i = 0; i < n(); i++) {
      Idx id = unravel(i, deg);
      for (size_t q = 0; q < nc; q++) {
        std::vector<ld> w(p + 1), m(p + 1);
        for (size_t j = 0; j <= p; j++) {
          Idx k = id;
          k[dir] = j;
          w[j] = c[ravel(k, deg) * nc + q];
          m[j] = a[ravel(k, deg) * nc + q];
        }
        // blossom at (p-i) times lo and i times hi
        for (size_t s = 0; s < p; s++) {
          const ld t = s < id[dir] ? hi : lo;
          for (size_t j = 0; j + s < p; j++) {
            w[j] = (1 - t) * w[j] + t * w[j + 1];
            m[j] = fabsl(1 - t) * m[j] + fabsl(t) * m[j + 1];
          }
        }
        r.c[i * nc + q] = w[0];
        r.a[i * nc + q] = m[0];
      }
    }
    return r;
  }
  M comp(size_t q) const {
    M r(deg, 1);
    for (size_t i = 0; i < n(); i++) {
      r.c[i] = c[i * nc + q];
      r.a[i] = a[i * nc + q];
    }
    return r;
  }
  M scaled(ld s) const {
    M r = *this;
    for (auto& x : r.c) x *= s;
    for (auto& x : r.a) x *= fabsl(s);
    return r;
  }
  M shifted(const std::vector<ld>& p, ld sign = 1) const {
    M r = *this;
    for (size_t i = 0; i < n(); i++)
      for (size_t q = 0; q < nc; q++) {
        r.c[i * nc + q] += sign * p[q];
        r.a[i * nc + q] += fabsl(p[q]);
      }
    return r;
  }
  ld maxa(size_t q) const {
    ld m = 0;
    for (size_t i = 0; i < n(); i++) m = std::max(m, a[i * nc + q]);
    return m;
  }
  ld maxa_all() const {
    ld m = 0;
    for (ld x : a) m = std::max(m, x);
    return m;
  }
};

inline Deg maxdeg(const Deg& a, const Deg& b) {
  Deg r(a.size());
  for (size_t i = 0; i < a.size(); i++) r[i] = std::max(a[i], b[i]);
  return r;
}
inline M addM(const M& x, const M& y, ld sign = 1) {
  const Deg d = maxdeg(x.deg, y.deg);
  M p = x.elevated_to(d), q = y.elevated_to(d);
  for (size_t i = 0; i < p.c.size(); i++) {
    p.c[i] += sign * q.c[i];
    p.a[i] += q.a[i];
  }
  return p;
}
// nc combos: 1x1 -> 1, 1xk -> k, kx1 -> k, kxk -> dot product (dot=true)
inline M mulM(const M& x, const M& y) {
  const bool dot = x.nc > 1 && y.nc > 1;
  const size_t nc = dot ? 1 : std::max(x.nc, y.nc);
  Deg d(x.deg.size());
  for (size_t i = 0; i < d.size(); i++) d[i] = x.deg[i] + y.deg[i];
  M r(d, nc);
  for (size_t i = 0; i < x.n(); i++) {
    Idx ix = unravel(i, x.deg);
    for (size_t j = 0; j < y.n(); j++) {
      Idx iy = unravel(j, y.deg), k(d.size());
      ld f = 1;
      for (size_t q = 0; q < d.size(); q++) {
        k[q] = ix[q] + iy[q];
        f *= binom(x.deg[q], ix[q]) * binom(y.deg[q], iy[q]) / binom(d[q], k[q]);
      }
      const size_t kk = ravel(k, d);
      if (dot) {
        for (size_t q = 0; q < x.nc; q++) {
          r.c[kk] += f * x.c[i * x.nc + q] * y.c[j * y.nc + q];
          r.a[kk] += f * x.a[i * x.nc + q] * y.a[j * y.nc + q];
        }
      } else {
        for (size_t q = 0; q < nc; q++) {
          const size_t qx = x.nc == 1 ? 0 : q, qy = y.nc == 1 ? 0 : q;
          r.c[kk * nc + q] += f * x.c[i * x.nc + qx] * y.c[j * y.nc + qy];
          r.a[kk * nc + q] += f * x.a[i * x.nc + qx] * y.a[j * y.nc + qy];
        }
      }
    }
  }
  return r;
}

// rational: num/w
struct RM {
  M num, w;
  Val eval(const std::vector<ld>& u) const {
    Val n = num.eval(u), d = w.eval(u);
    Val r = n;
    for (size_t q = 0; q < n.v.size(); q++) {
      r.v[q] = n.v[q] / d.v[0];
      r.a[q] = n.a[q] / fabsl(d.v[0]) + fabsl(n.v[q]) * d.a[0] / (d.v[0] * d.v[0]);
    }
    return r;
  }
};

// Truncated multivariate Taylor series (dense, per-direction orders), used to
// differentiate quotients independently of the Leibniz recursion in the library
struct Ser {
  Idx ord;
  std::vector<ld> c, a;  // Taylor coefficients (derivative / k!)
  explicit Ser(const Idx& o) : ord(o), c(prod1(o)), a(prod1(o)) {}
};
inline Ser serOf(const M& m, size_t q, const std::vector<ld>& u, const Idx& ord) {
  Ser s(ord);
  M mc = m.comp(q);
  for (size_t i = 0; i < s.c.size(); i++) {
    Idx k = unravel(i, ord);
    ld f = 1;
    for (size_t d = 0; d < k.size(); d++)
      for (size_t j = 2; j <= k[d]; j++) f *= (ld)j;
    Val v = mc.evald(u, k);
    s.c[i] = v.v[0] / f;
    s.a[i] = v.a[0] / f;
  }
  return s;
}
// q = n / w as power series: q_k = (n_k - sum_{0<j<=k} w_j q_{k-j}) / w_0
inline Ser serDiv(const Ser& n, const Ser& w) {
  Ser q(n.ord);
  for (size_t i = 0; i < q.c.size(); i++) {
    Idx k = unravel(i, n.ord);
    ld v = n.c[i], m = n.a[i];
    for (size_t j = 1; j < q.c.size(); j++) {
      Idx jj = unravel(j, n.ord), r(k.size());
      bool ok = true;
      for (size_t d = 0; d < k.size(); d++) {
        if (jj[d] > k[d]) { ok = false; break; }
        r[d] = k[d] - jj[d];
      }
      if (!ok) continue;
      const size_t rr = ravel(r, n.ord);
      v -= w.c[j] * q.c[rr];
      m += w.a[j] * q.a[rr];
    }
    q.c[i] = v / w.c[0];
    q.a[i] = (m + fabsl(v) * w.a[0] / fabsl(w.c[0])) / fabsl(w.c[0]);
  }
  return q;
}
inline ld facprod(const Idx& k) {
  ld f = 1;
  for (size_t d = 0; d < k.size(); d++)
    for (size_t j = 2; j <= k[d]; j++) f *= (ld)j;
  return f;
}
}  // namespace vf
