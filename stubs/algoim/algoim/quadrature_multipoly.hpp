// Stand-in for Algoim's quadrature over domains bounded by polynomials in Bernstein form: elimination of
// one direction at a time through faces, discriminants and resultants
// (R. Saye, J. Comput. Phys. 448, 2022).
#ifndef ALGOIM_QUADRATURE_MULTIPOLY_HPP
#define ALGOIM_QUADRATURE_MULTIPOLY_HPP

#include "bernstein.hpp"
#include "booluarray.hpp"
#include "gaussquad.hpp"
#include "polyset.hpp"
#include "uvector.hpp"
#include "xarray.hpp"

#include <tuple>
#include <vector>

namespace algoim {

enum QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };

namespace detail {

  template<int N> struct Poly
  {
    std::vector<real> c;
    uvector<int, N> ext;
    explicit Poly(const uvector<int, N> &e) : c(static_cast<std::size_t>(prod(e)), 0.0), ext(e) {}
    explicit Poly(const xarray<real, N> &x) : c(x.data(), x.data() + x.size()), ext(x.ext()) {}
    xarray<real, N> view() const { return { const_cast<real *>(c.data()), ext }; }
  };

  template<int N, int E> bool maskEmpty(const booluarray<N, E> &mask)
  {
    bool empty = true;
    for_each_index<N>(uvector<int, N>(E), [&](const uvector<int, N> &i) { empty = empty && !mask(i); });
    return empty;
  }

  template<int N, int E> bool pointWithinMask(const booluarray<N, E> &mask, const uvector<real, N> &x)
  {
    uvector<int, N> i;
    for (int d = 0; d < N; ++d) i(d) = std::clamp(static_cast<int>(std::floor(x(d) * E)), 0, E - 1);
    return mask(i);
  }

  template<int N, int E>
  bool lineIntersectsMask(const booluarray<N, E> &mask, const uvector<real, N - 1> &x, int k)
  {
    uvector<int, N> i;
    for (int d = 0; d < N; ++d)
      if (d != k) i(d) = std::clamp(static_cast<int>(std::floor(x(d < k ? d : d - 1) * E)), 0, E - 1);
    for (i(k) = 0; i(k) < E; ++i(k))
      if (mask(i)) return true;
    return false;
  }

  // Coefficients over one subcell, very slightly enlarged.
  template<int N, int E> Poly<N> onSubcell(const xarray<real, N> &p, const uvector<int, N> &i)
  {
    Poly<N> q(p);
    std::array<real, N> a;
    std::array<real, N> b;
    for (int d = 0; d < N; ++d) {
      constexpr real pad = 1.0 / (64.0 * E);
      a[static_cast<std::size_t>(d)] = std::max(0.0, static_cast<real>(i(d)) / E - pad);
      b[static_cast<std::size_t>(d)] = std::min(1.0, static_cast<real>(i(d) + 1) / E + pad);
    }
    auto v = q.view();
    bernstein::deCasteljau(v, a.data(), b.data());
    return q;
  }

  inline bool uniform(const std::vector<real> &c)
  {
    bool pos = true;
    bool neg = true;
    for (const real v : c) {
      pos = pos && v > 0.0;
      neg = neg && v < 0.0;
    }
    return pos || neg;
  }

  // The subcells of the mask in which p may vanish.
  template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &p, const booluarray<N, E> &in)
  {
    booluarray<N, E> out(false);
    for_each_index<N>(uvector<int, N>(E), [&](const uvector<int, N> &i) {
      if (in(i)) out(i) = !uniform(onSubcell<N, E>(p, i).c);
    });
    return out;
  }

  template<int N> Poly<N> derivative(const xarray<real, N> &p, int k)
  {
    uvector<int, N> ext = p.ext();
    const int deg = ext(k) - 1;
    ext(k) = std::max(1, deg);
    Poly<N> q(ext);
    if (deg == 0) return q;
    auto v = q.view();
    for_each_index<N>(ext, [&](const uvector<int, N> &i) {
      auto j = i;
      ++j(k);
      v.m(i) = deg * (p.m(j) - p.m(i));
    });
    return q;
  }

  template<int N> Poly<N> raise(const xarray<real, N> &p, int k)
  {
    uvector<int, N> ext = p.ext();
    const int n = ext(k)++;
    Poly<N> q(ext);
    auto v = q.view();
    for_each_index<N>(ext, [&](const uvector<int, N> &i) {
      auto j = i;
      const real t = static_cast<real>(i(k)) / n;
      real s = 0.0;
      if (i(k) > 0) {
        j(k) = i(k) - 1;
        s += t * p.m(j);
      }
      if (i(k) < n) {
        j(k) = i(k);
        s += (1.0 - t) * p.m(j);
      }
      v.m(i) = s;
    });
    return q;
  }

  // Drops degrees the polynomial does not really have (spurious ones ruin discriminants and resultants).
  template<int N> void autoReduce(Poly<N> &p)
  {
    real scale = 0.0;
    for (const real v : p.c) scale = std::max(scale, std::abs(v));
    const real tol = 1.0e3 * std::numeric_limits<real>::epsilon() * scale;
    for (int k = 0; k < N; ++k) {
      while (p.ext(k) > 1) {
        auto ext = p.ext;
        const int n = --ext(k);// degree of p along k
        Poly<N> q(ext);
        auto from = p.view();
        auto to = q.view();
        // from both ends to the middle
        for (int s = 0; s < n; ++s) {
          const bool fwd = s < (n + 1) / 2;
          const int i = fwd ? s : n - 1 - (s - (n + 1) / 2);
          for_each_index<N>(ext, [&](const uvector<int, N> &a) {
            if (a(k) != i) return;
            auto b = a;
            if (fwd) {
              real v = n * from.m(a);
              b(k) = i - 1;
              if (i > 0) v -= i * to.m(b);
              to.m(a) = v / (n - i);
            } else {
              b(k) = i + 1;
              real v = n * from.m(b);
              if (i + 1 < n) v -= (n - i - 1) * to.m(b);
              to.m(a) = v / (i + 1);
            }
          });
        }
        const Poly<N> back = raise<N>(q.view(), k);
        real err = 0.0;
        for (std::size_t i = 0; i < p.c.size(); ++i) err = std::max(err, std::abs(back.c[i] - p.c[i]));
        if (!(err <= tol)) break;
        p = q;
      }
    }
  }

  // Could p and q vanish together in a cell where their coefficients are these (same extents)?
  inline bool mayMeet(const std::vector<real> &p, const std::vector<real> &q)
  {
    if (uniform(p) || uniform(q)) return false;
    // orthant test: some combination cos(t) p + sin(t) q of one sign everywhere
    real sp = 0.0;
    real sq = 0.0;
    for (const real v : p) sp = std::max(sp, std::abs(v));
    for (const real v : q) sq = std::max(sq, std::abs(v));
    for (int t = 1; t < 32; ++t) {
      const real a = std::cos(std::numbers::pi * t / 32.0) / sp;
      const real b = std::sin(std::numbers::pi * t / 32.0) / sq;
      bool pos = true;
      bool neg = true;
      for (std::size_t i = 0; i < p.size(); ++i) {
        const real v = a * p[i] + b * q[i];
        pos = pos && v > 0.0;
        neg = neg && v < 0.0;
      }
      if (pos || neg) return false;
    }
    return true;
  }

  // Subcells in which both may vanish together.
  template<int N, int E>
  booluarray<N, E> meetMask(const Poly<N> &p0, const booluarray<N, E> &pm, const Poly<N> &q0, const booluarray<N, E> &qm)
  {
    Poly<N> p = p0;
    Poly<N> q = q0;
    for (int d = 0; d < N; ++d) {
      while (p.ext(d) < q.ext(d)) p = raise<N>(p.view(), d);
      while (q.ext(d) < p.ext(d)) q = raise<N>(q.view(), d);
    }
    booluarray<N, E> out(false);
    for_each_index<N>(uvector<int, N>(E), [&](const uvector<int, N> &i) {
      if (pm(i) && qm(i)) out(i) = mayMeet(onSubcell<N, E>(p.view(), i).c, onSubcell<N, E>(q.view(), i).c);
    });
    return out;
  }

  template<int N, int E> booluarray<N - 1, E> collapseMask(const booluarray<N, E> &mask, int k)
  {
    booluarray<N - 1, E> out(false);
    for_each_index<N>(uvector<int, N>(E), [&](const uvector<int, N> &i) {
      if (mask(i)) out(remove_component(i, k)) = true;
    });
    return out;
  }

  template<int N, int E> booluarray<N - 1, E> faceMask(const booluarray<N, E> &mask, int k, int side)
  {
    booluarray<N - 1, E> out(false);
    for_each_index<N>(uvector<int, N>(E), [&](const uvector<int, N> &i) {
      if (i(k) == (side == 0 ? 0 : E - 1)) out(remove_component(i, k)) = mask(i);
    });
    return out;
  }

  template<int N> Poly<N - 1> faceOf(const xarray<real, N> &p, int k, int side)
  {
    Poly<N - 1> q(remove_component(p.ext(), k));
    auto v = q.view();
    for_each_index<N - 1>(q.ext, [&](const uvector<int, N - 1> &i) {
      v.m(i) = p.m(add_component(i, k, side == 0 ? 0 : p.ext(k) - 1));
    });
    return q;
  }

  using lreal = long double;

  // In-place elimination with partial pivoting; returns the determinant of the n x n matrix.
  inline lreal determinant(std::vector<lreal> &a, int n)
  {
    const auto at = [&](int i, int j) -> lreal & { return a[static_cast<std::size_t>(i * n + j)]; };
    lreal det = 1.0L;
    for (int c = 0; c < n; ++c) {
      int piv = c;
      for (int r = c + 1; r < n; ++r)
        if (std::abs(at(r, c)) > std::abs(at(piv, c))) piv = r;
      if (at(piv, c) == 0.0L) return 0.0L;
      if (piv != c) {
        for (int j = 0; j < n; ++j) std::swap(at(piv, j), at(c, j));
        det = -det;
      }
      det *= at(c, c);
      for (int r = c + 1; r < n; ++r) {
        const lreal m = at(r, c) / at(c, c);
        if (m == 0.0L) continue;
        for (int j = c; j < n; ++j) at(r, j) -= m * at(c, j);
      }
    }
    return det;
  }

  // Resultant of two polynomials in Bernstein form on [0,1] (Sylvester determinant of the homogeneous forms).
  inline lreal resultant1(const std::vector<real> &p, const std::vector<real> &q)
  {
    const int m = static_cast<int>(p.size()) - 1;
    const int n = static_cast<int>(q.size()) - 1;
    if (m + n == 0) return 1.0L;
    std::vector<lreal> a(static_cast<std::size_t>((m + n) * (m + n)), 0.0L);
    for (int r = 0; r < n; ++r)
      for (int i = 0; i <= m; ++i)
        a[static_cast<std::size_t>(r * (m + n) + r + i)] =
          static_cast<lreal>(p[static_cast<std::size_t>(i)]) * Binomial::c(m, i);
    for (int r = 0; r < m; ++r)
      for (int i = 0; i <= n; ++i)
        a[static_cast<std::size_t>((n + r) * (m + n) + r + i)] =
          static_cast<lreal>(q[static_cast<std::size_t>(i)]) * Binomial::c(n, i);
    return determinant(a, m + n);
  }

  // Inverse of the matrix of the Bernstein polynomials at the interpolation nodes.
  inline const std::vector<lreal> &interpolationInverse(int n)
  {
    static thread_local std::map<int, std::vector<lreal>> cache;
    auto &inv = cache[n];
    if (!inv.empty()) return inv;
    std::vector<lreal> a(static_cast<std::size_t>(n * n));
    inv.assign(static_cast<std::size_t>(n * n), 0.0L);
    for (int i = 0; i < n; ++i) {
      const lreal x = n == 1 ? 0.5L
                             : 0.5L - 0.5L * std::cos(std::numbers::pi_v<lreal> * (i + 0.5L) / n);
      const real *b = Binomial::row(n - 1);
      for (int j = 0; j < n; ++j)
        a[static_cast<std::size_t>(i * n + j)] = b[j] * std::pow(x, static_cast<lreal>(j)) * std::pow(1.0L - x, static_cast<lreal>(n - 1 - j));
      inv[static_cast<std::size_t>(i * n + i)] = 1.0L;
    }
    const auto A = [&](int i, int j) -> lreal & { return a[static_cast<std::size_t>(i * n + j)]; };
    const auto B = [&](int i, int j) -> lreal & { return inv[static_cast<std::size_t>(i * n + j)]; };
    for (int c = 0; c < n; ++c) {
      int piv = c;
      for (int r = c + 1; r < n; ++r)
        if (std::abs(A(r, c)) > std::abs(A(piv, c))) piv = r;
      for (int j = 0; j < n; ++j) {
        std::swap(A(piv, j), A(c, j));
        std::swap(B(piv, j), B(c, j));
      }
      const lreal d = A(c, c);
      for (int j = 0; j < n; ++j) {
        A(c, j) /= d;
        B(c, j) /= d;
      }
      for (int r = 0; r < n; ++r) {
        if (r == c) continue;
        const lreal m = A(r, c);
        if (m == 0.0L) continue;
        for (int j = 0; j < n; ++j) {
          A(r, j) -= m * A(c, j);
          B(r, j) -= m * B(c, j);
        }
      }
    }
    return inv;
  }

  inline real interpolationNode(int i, int n)
  {
    return n == 1 ? 0.5 : static_cast<real>(0.5L - 0.5L * std::cos(std::numbers::pi_v<lreal> * (i + 0.5L) / n));
  }

  // The resultant of p and q with respect to direction k, as a polynomial in the other directions.
  template<int N> Poly<N - 1> eliminate(Poly<N> p, Poly<N> q, int k)
  {
    autoReduce(p);
    autoReduce(q);
    const int m = p.ext(k) - 1;
    const int n = q.ext(k) - 1;
    uvector<int, N - 1> ext;
    for (int d = 0, j = 0; d < N; ++d)
      if (d != k) ext(j++) = n * (p.ext(d) - 1) + m * (q.ext(d) - 1) + 1;

    std::vector<lreal> val;
    std::vector<real> lp(static_cast<std::size_t>(m + 1));
    std::vector<real> lq(static_cast<std::size_t>(n + 1));
    for_each_index<N - 1>(ext, [&](const uvector<int, N - 1> &i) {
      uvector<real, N - 1> x;
      for (int d = 0; d < N - 1; ++d) x(d) = interpolationNode(i(d), ext(d));
      bernstein::collapseAlongAxis<N>(p.view(), x, k, lp.data());
      bernstein::collapseAlongAxis<N>(q.view(), x, k, lq.data());
      val.push_back(resultant1(lp, lq));
    });
    // from values at the nodes to coefficients, one direction after the other
    for (int d = 0; d < N - 1; ++d) {
      int stride = 1;
      for (int e = d + 1; e < N - 1; ++e) stride *= ext(e);
      const int len = ext(d);
      const auto &inv = interpolationInverse(len);
      std::vector<lreal> line(static_cast<std::size_t>(len));
      for (int s = 0; s < static_cast<int>(val.size()); ++s) {
        if ((s / stride) % len != 0) continue;
        for (int i = 0; i < len; ++i) {
          lreal v = 0.0L;
          for (int j = 0; j < len; ++j)
            v += inv[static_cast<std::size_t>(i * len + j)] * val[static_cast<std::size_t>(s + j * stride)];
          line[static_cast<std::size_t>(i)] = v;
        }
        for (int i = 0; i < len; ++i) val[static_cast<std::size_t>(s + i * stride)] = line[static_cast<std::size_t>(i)];
      }
    }
    Poly<N - 1> r(ext);
    lreal scale = 0.0L;
    for (const lreal v : val) scale = std::max(scale, std::abs(v));
    for (std::size_t i = 0; i < val.size(); ++i)
      r.c[i] = scale > 0.0L ? static_cast<real>(val[i] / scale) : 0.0;
    return r;
  }

  template<int N> void normalise(Poly<N> &p)
  {
    real scale = 0.0;
    for (const real v : p.c) scale = std::max(scale, std::abs(v));
    if (scale > 0.0)
      for (real &v : p.c) v /= scale;
  }

  template<int N> bool nonzero(const Poly<N> &p)
  {
    for (const real v : p.c)
      if (v != 0.0) return true;
    return false;
  }

  template<int N, int E>
  booluarray<N, E> discriminantMask(const Poly<N> &p, const booluarray<N, E> &mask, int k)
  {
    return meetMask<N, E>(p, mask, derivative<N>(p.view(), k), mask);
  }

  // The polynomials in N-1 directions whose zeros delimit where the structure along k changes.
  template<int N, int E> void eliminate_axis(PolySet<N, E> &phi, int k, PolySet<N - 1, E> &out)
  {
    const auto add = [&](Poly<N - 1> p, const booluarray<N - 1, E> &in) {
      if (!nonzero(p) || maskEmpty(in)) return;
      normalise(p);
      autoReduce(p);
      const auto mask = nonzeroMask<N - 1, E>(p.view(), in);
      if (!maskEmpty(mask)) out.push_back(p.view(), mask);
    };
    const int n = static_cast<int>(phi.count());
    for (int i = 0; i < n; ++i) {
      const auto ii = static_cast<std::size_t>(i);
      Poly<N> p(phi.poly(ii));
      autoReduce(p);
      for (int side = 0; side < 2; ++side) add(faceOf<N>(p.view(), k, side), faceMask(phi.mask(ii), k, side));
      if (p.ext(k) > 2) {
        const auto mask = collapseMask(discriminantMask<N, E>(p, phi.mask(ii), k), k);
        if (!maskEmpty(mask)) add(eliminate<N>(p, derivative<N>(p.view(), k), k), mask);
      }
      for (int j = i + 1; j < n; ++j) {
        const auto jj = static_cast<std::size_t>(j);
        const Poly<N> q(phi.poly(jj));
        const auto mask = collapseMask(meetMask<N, E>(p, phi.mask(ii), q, phi.mask(jj)), k);
        if (!maskEmpty(mask) && p.ext(k) + q.ext(k) > 2) add(eliminate<N>(p, q, k), mask);
      }
    }
  }

  // How well suited each direction is, and which ones have vertical tangents.
  template<int N, int E> uvector<real, N> score_estimate(PolySet<N, E> &phi, uvector<bool, N> &has_disc)
  {
    uvector<real, N> score(0.0);
    has_disc = uvector<bool, N>(false);
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const Poly<N> p(phi.poly(i));
      for_each_index<N>(uvector<int, N>(E), [&](const uvector<int, N> &c) {
        if (!phi.mask(i)(c)) return;
        uvector<real, N> x;
        for (int d = 0; d < N; ++d) x(d) = (c(d) + 0.5) / E;
        const uvector<real, N> g = bernstein::evalBernsteinPolyGradient<N>(p.view(), x);
        real s = 0.0;
        for (int d = 0; d < N; ++d) s += std::abs(g(d));
        if (s > 0.0)
          for (int d = 0; d < N; ++d) score(d) += std::abs(g(d)) / s;
      });
      for (int d = 0; d < N; ++d)
        if (!has_disc(d) && p.ext(d) > 2) has_disc(d) = !maskEmpty(discriminantMask<N, E>(p, phi.mask(i), d));
    }
    return score;
  }

}// namespace detail

template<int N> struct ImplicitPolyQuadrature
{
  enum IntegralType { Inner, OuterSingle, OuterAggregate };

  PolySet<N, ALGOIM_M> phi;
  int k{ -1 };
  ImplicitPolyQuadrature<N - 1> base;
  bool auto_apply_TS{ false };
  IntegralType type{ OuterSingle };
  std::array<std::tuple<int, ImplicitPolyQuadrature<N - 1>>, static_cast<std::size_t>(N > 1 ? N - 1 : 1)> base_other;

  ImplicitPolyQuadrature() = default;
  explicit ImplicitPolyQuadrature(const xarray<real, N> &p)
  {
    const auto mask = detail::nonzeroMask(p, booluarray<N, ALGOIM_M>(true));
    if (!detail::maskEmpty(mask)) phi.push_back(p, mask);
    build(true, false);
  }

  void build(bool outer, bool ts)
  {
    type = outer ? OuterSingle : Inner;
    auto_apply_TS = ts;
    if (phi.count() == 0) {
      k = N;
      auto_apply_TS = false;
      return;
    }
    if constexpr (N == 1) {
      k = 0;
    } else {
      uvector<bool, N> has_disc;
      uvector<real, N> score = detail::score_estimate(phi, has_disc);
      const real top = max(abs(score));
      if (top > 0.0) score /= 2.0 * top;
      for (int i = 0; i < N; ++i)
        if (!has_disc(i)) score(i) += 1.0;
      k = argmax(score);
      detail::eliminate_axis(phi, k, base.phi);
      base.build(false, auto_apply_TS || has_disc(k));
      if (outer && has_disc(k)) {
        type = OuterAggregate;
        for (int i = 0, j = 0; i < N; ++i) {
          if (i == k) continue;
          auto &[dir, b] = base_other[static_cast<std::size_t>(j++)];
          dir = i;
          detail::eliminate_axis(phi, i, b.phi);
          b.build(false, true);
        }
      }
    }
  }

  // Roots of every polynomial above the base point, in direction dir.
  template<typename G> void forRoots(const uvector<real, N - 1> &x, int dir, const G &g)
  {
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto p = phi.poly(i);
      const auto &mask = phi.mask(i);
      if (!detail::lineIntersectsMask<N, ALGOIM_M>(mask, x, dir)) continue;
      const int n = p.ext(dir);
      std::vector<real> line(static_cast<std::size_t>(n));
      std::vector<real> roots(static_cast<std::size_t>(n));
      bernstein::collapseAlongAxis<N>(p, x, dir, line.data());
      const int count = bernstein::bernsteinUnitIntervalRealRoots(line.data(), n, roots.data());
      for (int j = 0; j < count; ++j) {
        const real r = roots[static_cast<std::size_t>(j)];
        if (detail::pointWithinMask<N, ALGOIM_M>(mask, add_component(x, dir, r))) g(r, i);
      }
    }
  }

  template<typename F> void integrate(QuadStrategy strategy, int q, const F &f)
  {
    assert(0 <= k && k <= N);
    if (k == N) {
      const auto &rule = gaussRule(q);
      for_each_index<N>(uvector<int, N>(q), [&](const uvector<int, N> &i) {
        uvector<real, N> x;
        real w = 1.0;
        for (int d = 0; d < N; ++d) {
          const auto &[t, wt] = rule[static_cast<std::size_t>(i(d))];
          x(d) = t;
          w *= wt;
        }
        f(x, w);
      });
      return;
    }
    const auto above = [&](const uvector<real, N - 1> &xb, real wb) {
      std::vector<real> nodes{ 0.0, 1.0 };
      forRoots(xb, k, [&](real r, std::size_t) { nodes.push_back(r); });
      std::sort(nodes.begin(), nodes.end());
      const bool ts = strategy == AlwaysTS || (strategy == AutoMixed && auto_apply_TS);
      const Rule1 &rule = ts ? tanhSinhRule(q) : gaussRule(q);
      for (std::size_t s = 0; s + 1 < nodes.size(); ++s) {
        const real len = nodes[s + 1] - nodes[s];
        if (len < 1.0e-14) continue;
        for (const auto &[t, wt] : rule) f(add_component(xb, k, nodes[s] + len * t), wb * len * wt);
      }
    };
    if constexpr (N == 1)
      above(uvector<real, 0>(), 1.0);
    else
      base.integrate(strategy, q, above);
  }

  // f(point, weight, weighted normal)
  template<typename F> void integrate_surf(QuadStrategy strategy, int q, const F &f)
  {
    assert(type == OuterSingle || type == OuterAggregate);
    if (k == N) return;
    const bool aggregate = type == OuterAggregate;
    const auto along = [&](int dir, const uvector<real, N - 1> &xb, real wb) {
      forRoots(xb, dir, [&](real r, std::size_t i) {
        const uvector<real, N> x = add_component(xb, dir, r);
        const uvector<real, N> g = bernstein::evalBernsteinPolyGradient<N>(phi.poly(i), x);
        const real len = norm(g);
        if (!(len > 0.0)) return;
        const uvector<real, N> n = g / len;
        if (aggregate) {
          // the squares of the components of the normal share the surface among the directions
          const real w = wb * std::abs(n(dir));
          f(x, w, set_component<real, N>(uvector<real, N>(0.0), dir, n(dir) > 0.0 ? wb : -wb));
        } else {
          const real w = wb / std::abs(n(dir));
          f(x, w, w * n);
        }
      });
    };
    if constexpr (N == 1) {
      along(k, uvector<real, 0>(), 1.0);
    } else {
      base.integrate(strategy, q, [&](const uvector<real, N - 1> &x, real w) { along(k, x, w); });
      if (aggregate)
        for (auto &[dir, b] : base_other) {
          const int d = dir;
          b.integrate(strategy, q, [&](const uvector<real, N - 1> &x, real w) { along(d, x, w); });
        }
    }
  }
};

template<> struct ImplicitPolyQuadrature<0>
{
};

}// namespace algoim
#endif
