// Stand-in for Algoim's Bernstein polynomial tools. Polynomials live on [0,1]^N; coefficient arrays
// are stored with the last index fastest.
#ifndef ALGOIM_BERNSTEIN_HPP
#define ALGOIM_BERNSTEIN_HPP

#include "binomial.hpp"
#include "uvector.hpp"
#include "xarray.hpp"

#include <limits>
#include <numbers>
#include <vector>

namespace algoim::bernstein {

// i-th of n nodes clustered towards the ends of [0,1], which are included.
inline real modifiedChebyshevNode(int i, int n)
{
  assert(0 <= i && i < n);
  return n == 1 ? 0.5 : 0.5 - 0.5 * std::cos(std::numbers::pi * i / (n - 1));
}

// Values of the n Bernstein polynomials of degree n-1.
inline void evalBernsteinBasis(real x, int n, real *out)
{
  const real *binom = Binomial::row(n - 1);
  real p = 1.0;
  for (int i = 0; i < n; ++i) {
    out[i] = binom[i] * p;
    p *= x;
  }
  p = 1.0;
  for (int i = n - 1; i >= 0; --i) {
    out[i] *= p;
    p *= 1.0 - x;
  }
}

inline void evalBernsteinBasisDer(real x, int n, real *out)
{
  for (int i = 0; i < n; ++i) out[i] = 0.0;
  if (n < 2) return;
  std::vector<real> low(static_cast<std::size_t>(n - 1));
  evalBernsteinBasis(x, n - 1, low.data());
  for (int i = 0; i < n - 1; ++i) {
    const real v = (n - 1) * low[static_cast<std::size_t>(i)];
    out[i] -= v;
    out[i + 1] += v;
  }
}

namespace detail {
  // Sum of the coefficients times the tensor product of the given 1D bases.
  template<int N> real contract(const xarray<real, N> &c, const std::array<std::vector<real>, N> &basis)
  {
    real val = 0.0;
    int k = 0;
    for_each_index<N>(c.ext(), [&](const uvector<int, N> &i) {
      real v = c[k++];
      for (int d = 0; d < N; ++d) v *= basis[static_cast<std::size_t>(d)][static_cast<std::size_t>(i(d))];
      val += v;
    });
    return val;
  }
}// namespace detail

template<int N> real evalBernsteinPoly(const xarray<real, N> &c, const uvector<real, N> &x)
{
  std::array<std::vector<real>, N> basis;
  for (int d = 0; d < N; ++d) {
    auto &b = basis[static_cast<std::size_t>(d)];
    b.resize(static_cast<std::size_t>(c.ext(d)));
    evalBernsteinBasis(x(d), c.ext(d), b.data());
  }
  return detail::contract<N>(c, basis);
}

template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &c, const uvector<real, N> &x)
{
  uvector<real, N> g;
  for (int dir = 0; dir < N; ++dir) {
    std::array<std::vector<real>, N> basis;
    for (int d = 0; d < N; ++d) {
      auto &b = basis[static_cast<std::size_t>(d)];
      b.resize(static_cast<std::size_t>(c.ext(d)));
      if (d == dir)
        evalBernsteinBasisDer(x(d), c.ext(d), b.data());
      else
        evalBernsteinBasis(x(d), c.ext(d), b.data());
    }
    g(dir) = detail::contract<N>(c, basis);
  }
  return g;
}

namespace detail {
  // Keeps in p[0..n-1] (stride s) the control points of the restriction to [a,b].
  inline void restrictLine(real *p, int n, int s, real a, real b)
  {
    const auto left = [&](real t) {// restrict to [0,t]
      for (int r = 1; r < n; ++r)
        for (int i = n - 1; i >= r; --i) p[i * s] = (1.0 - t) * p[(i - 1) * s] + t * p[i * s];
    };
    const auto right = [&](real t) {// restrict to [t,1]
      for (int r = 1; r < n; ++r)
        for (int i = 0; i < n - r; ++i) p[i * s] = (1.0 - t) * p[i * s] + t * p[(i + 1) * s];
    };
    if (b == 0.0) {// evaluate the degenerate or reversed case through the right end
      right(a);
      left(b == a ? 0.0 : (b - a) / (1.0 - a));
    } else {
      left(b);
      right(a / b);
    }
  }
}// namespace detail

// Restriction of a polynomial to the box [a,b], in place.
template<int N> void deCasteljau(xarray<real, N> &c, const real *a, const real *b)
{
  for (int d = 0; d < N; ++d) {
    int stride = 1;
    for (int e = d + 1; e < N; ++e) stride *= c.ext(e);
    const int n = c.ext(d);
    const int total = c.size();
    for (int k = 0; k < total; ++k) {
      if ((k / stride) % n == 0) detail::restrictLine(c.data() + k, n, stride, a[d], b[d]);
    }
  }
}

// 1 or -1 if every coefficient is positive or negative, 0 otherwise.
template<int N> int uniformSign(const xarray<real, N> &c)
{
  const auto sgn = [](real v) { return v > 0.0 ? 1 : (v < 0.0 ? -1 : 0); };
  const int s = sgn(c[0]);
  for (int i = 1; i < c.size(); ++i)
    if (sgn(c[i]) != s) return 0;
  return s;
}

// Restriction to the line through x (without component k) along k.
template<int N> void collapseAlongAxis(const xarray<real, N> &c, const uvector<real, N - 1> &x, int k, real *out)
{
  std::array<std::vector<real>, N> basis;
  for (int d = 0; d < N; ++d) {
    if (d == k) continue;
    auto &b = basis[static_cast<std::size_t>(d)];
    b.resize(static_cast<std::size_t>(c.ext(d)));
    evalBernsteinBasis(x(d < k ? d : d - 1), c.ext(d), b.data());
  }
  for (int i = 0; i < c.ext(k); ++i) out[i] = 0.0;
  int n = 0;
  for_each_index<N>(c.ext(), [&](const uvector<int, N> &i) {
    real v = c[n++];
    for (int d = 0; d < N; ++d)
      if (d != k) v *= basis[static_cast<std::size_t>(d)][static_cast<std::size_t>(i(d))];
    out[i(k)] += v;
  });
}

namespace detail {
  inline real eval1(const std::vector<real> &c, real t)
  {
    std::vector<real> p(c);
    const auto n = p.size();
    for (std::size_t r = 1; r < n; ++r)
      for (std::size_t i = 0; i + r < n; ++i) p[i] = (1.0 - t) * p[i] + t * p[i + 1];
    return p[0];
  }

  // Root of c (a polynomial over [0,1]) between lo and hi, where it changes sign.
  inline real bisect(const std::vector<real> &c, real lo, real hi)
  {
    real flo = eval1(c, lo);
    for (int it = 0; it < 200; ++it) {
      const real mid = 0.5 * (lo + hi);
      if (mid <= lo || mid >= hi) break;
      const real f = eval1(c, mid);
      if (f == 0.0) return mid;
      if ((f > 0.0) == (flo > 0.0)) {
        lo = mid;
        flo = f;
      } else {
        hi = mid;
      }
    }
    return 0.5 * (lo + hi);
  }

  inline int variations(const std::vector<real> &c, real tol)
  {
    int n = 0;
    int last = 0;
    for (const real v : c) {
      const int s = v > tol ? 1 : (v < -tol ? -1 : 0);
      if (s != 0) {
        if (last != 0 && s != last) ++n;
        last = s;
      }
    }
    return n;
  }

  // Roots strictly inside (a,b) of the polynomial with control points c over [a,b]; full over [0,1].
  inline void isolate(const std::vector<real> &full,
    const std::vector<real> &c,
    real a,
    real b,
    real tol,
    int depth,
    std::vector<real> &out)
  {
    const int v = variations(c, 0.0);
    if (v == 0) return;
    const auto n = c.size();
    if (v == 1 && c.front() != 0.0 && c.back() != 0.0 && (c.front() > 0.0) != (c.back() > 0.0)) {
      const std::vector<real> local(c);
      const real t = bisect(local, 0.0, 1.0);
      out.push_back(a + (b - a) * t);
      return;
    }
    if (depth >= 44) {
      // A multiple root, or several closer together than can be told apart.
      real m = 0.0;
      for (const real x : c) m = std::max(m, std::abs(x));
      if ((c.front() > 0.0) != (c.back() > 0.0) || m <= tol) out.push_back(0.5 * (a + b));
      return;
    }
    std::vector<real> l(n);
    std::vector<real> r(c);
    for (std::size_t k = 0; k < n; ++k) {
      l[k] = r[0];
      for (std::size_t i = 0; i + 1 < n - k; ++i) r[i] = 0.5 * (r[i] + r[i + 1]);
    }
    // r now holds the right half
    const real mid = 0.5 * (a + b);
    isolate(full, l, a, mid, tol, depth + 1, out);
    if (l.back() == 0.0 && (out.empty() || out.back() != mid)) out.push_back(mid);
    isolate(full, r, mid, b, tol, depth + 1, out);
  }
}// namespace detail

// Real roots in [0,1] of the polynomial with n Bernstein coefficients; at most n-1 of them.
inline int bernsteinUnitIntervalRealRoots(const real *c, int n, real *roots)
{
  if (n < 2) return 0;
  std::vector<real> p(c, c + n);
  real scale = 0.0;
  for (const real v : p) scale = std::max(scale, std::abs(v));
  if (scale == 0.0) return 0;
  const real eps = std::numeric_limits<real>::epsilon();
  std::vector<real> out;
  if (p.front() == 0.0) out.push_back(0.0);
  detail::isolate(p, p, 0.0, 1.0, 16.0 * eps * scale, 0, out);
  if (p.back() == 0.0) out.push_back(1.0);
  std::sort(out.begin(), out.end());
  // Clusters around a multiple root are one root.
  std::vector<real> distinct;
  for (const real r : out)
    if (distinct.empty() || r - distinct.back() > 1.0e-12) distinct.push_back(r);
  int count = 0;
  for (const real r : distinct)
    if (count < n - 1) roots[count++] = r;
  return count;
}

}// namespace algoim::bernstein
#endif
