// Stand-in for Algoim's quadrature over implicitly defined subsets of a box, for general C1 functions:
// dimension reduction along a monotone direction proved by interval arithmetic, with subdivision
// (R. Saye, SIAM J. Sci. Comput. 37(2), 2015).
#ifndef ALGOIM_QUADRATURE_GENERAL_HPP
#define ALGOIM_QUADRATURE_GENERAL_HPP

#include "gaussquad.hpp"
#include "hyperrectangle.hpp"
#include "interval.hpp"
#include "uvector.hpp"
#include "xarray.hpp"

#include <limits>
#include <vector>

namespace algoim {

// A restriction of the level set function to some sides of the box, and the sign wanted for it
// (0 = any).
template<int N> struct PsiCode
{
  uvector<int, N> sides_;
  int sign_{ 0 };

  PsiCode() = default;
  PsiCode(const uvector<int, N> &sides, int sign) : sides_(sides), sign_(sign) {}
  PsiCode(const PsiCode &other, int dim, int side, int sign) : sides_(other.sides_), sign_(sign)
  {
    sides_(dim) = side;
  }
  int side(int dim) const { return sides_(dim); }
  int sign() const { return sign_; }
};

namespace detail {

  template<bool S> void determineSigns(bool positiveAbove, int sign, int &bottom, int &top)
  {
    if constexpr (S) {
      bottom = positiveAbove ? -1 : 1;
      top = positiveAbove ? 1 : -1;
    } else if (sign == 0) {
      bottom = 0;
      top = 0;
    } else {
      // The wanted side touches only one of the two faces without crossing the interface.
      const bool wanted_above = positiveAbove == (sign == 1);
      bottom = wanted_above ? 0 : sign;
      top = wanted_above ? sign : 0;
    }
  }

  // The root between lo and hi of a function that changes sign there.
  template<typename G> real bracketed(const G &g, real lo, real hi, real flo)
  {
    if (flo == 0.0) return lo;
    real fhi = 0.0;
    bool have_hi = false;
    for (int it = 0; it < 200; ++it) {
      const real mid = 0.5 * (lo + hi);
      if (!(mid > lo && mid < hi)) break;
      const real f = g(mid);
      if (f == 0.0) return mid;
      if ((f > 0.0) == (flo > 0.0)) {
        lo = mid;
        flo = f;
      } else {
        hi = mid;
        fhi = f;
        have_hi = true;
      }
      if (it > 60 && have_hi) break;
    }
    if (have_hi && std::abs(flo) < std::abs(fhi)) return lo;
    return have_hi ? hi : 0.5 * (lo + hi);
  }

  template<typename Phi, int N>
  void rootsOnLine(const Phi &phi, uvector<real, N> x, int dir, real x0, real x1, int level, std::vector<real> &roots)
  {
    const auto at = [&](real t) {
      x(dir) = t;
      return static_cast<real>(phi(x));
    };
    const real f0 = at(x0);
    const real f1 = at(x1);
    const bool change = (f0 >= 0.0) != (f1 >= 0.0);

    uvector<Interval<N>, N> xi;
    for (int d = 0; d < N; ++d) {
      xi(d) = Interval<N>(x(d));
      Interval<N>::delta(d) = 0.0;
    }
    xi(dir) = Interval<N>(0.5 * (x0 + x1), set_component<real, N>(uvector<real, N>(0.0), dir, 1.0));
    Interval<N>::delta(dir) = 0.5 * (x1 - x0);
    const Interval<N> val = phi(xi);
    if (val.uniformSign()) return;
    const uvector<Interval<N>, N> grad = phi.grad(xi);
    const bool monotone = grad(dir).uniformSign();
    if (monotone || level >= 10) {
      if (change) roots.push_back(bracketed(at, x0, x1, f0));
      return;
    }
    const real mid = 0.5 * (x0 + x1);
    rootsOnLine<Phi, N>(phi, x, dir, x0, mid, level + 1, roots);
    rootsOnLine<Phi, N>(phi, x, dir, mid, x1, level + 1, roots);
  }

  // Roots of phi on the segment {x + t e_dir, x0 <= t <= x1}, appended to roots.
  template<typename Phi, int N>
  void rootFind(const Phi &phi,
    const uvector<real, N> &x_in,
    int dir,
    real x0,
    real x1,
    std::vector<real> &roots,
    bool monotone)
  {
    if (!monotone) {
      rootsOnLine<Phi, N>(phi, x_in, dir, x0, x1, 0, roots);
      return;
    }
    uvector<real, N> x = x_in;
    const auto at = [&](real t) {
      x(dir) = t;
      return static_cast<real>(phi(x));
    };
    const real f0 = at(x0);
    const real f1 = at(x1);
    if ((f0 >= 0.0) != (f1 >= 0.0)) roots.push_back(bracketed(at, x0, x1, f0));
  }

}// namespace detail

// M = number of free directions, N = dimension, S = surface integral.
template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  const Phi &phi;
  F &f;
  uvector<bool, N> free;
  std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> psi;
  int psiCount;
  HyperRectangle<real, N> xrange;
  int p;
  int e0{ -1 };
  uvector<Interval<N>, N> xint;

  PsiCode<N> &psiAt(int i) { return psi[static_cast<std::size_t>(i)]; }

  void restrictInterval(int i)
  {
    for (int d = 0; d < N; ++d)
      if (!free(d)) xint(d).alpha = xrange.side(psiAt(i).side(d))(d);
  }
  void restrictPoint(int i, uvector<real, N> &x)
  {
    for (int d = 0; d < N; ++d)
      if (!free(d)) x(d) = xrange.side(psiAt(i).side(d))(d);
  }

  bool prune()
  {
    for (int i = 0; i < psiCount;) {
      restrictInterval(i);
      const Interval<N> r = phi(xint);
      if (!r.uniformSign()) {
        ++i;
        continue;
      }
      const int s = psiAt(i).sign();
      if ((r.alpha >= 0.0 && s >= 0) || (r.alpha <= 0.0 && s <= 0))
        std::swap(psiAt(i), psiAt(--psiCount));
      else
        return false;
    }
    return true;
  }

  // Called back by the integral of one dimension less.
  void evalIntegrand(uvector<real, N> x, real w)
  {
    if constexpr (S) {
      static_assert(M == N);
      std::vector<real> roots;
      detail::rootFind<Phi, N>(phi, x, e0, xrange.min(e0), xrange.max(e0), roots, M > 1);
      for (const real r : roots) {
        x(e0) = r;
        const uvector<real, N> g = phi.grad(x);
        f.evalIntegrand(x, w * norm(g) / std::abs(g(e0)));
      }
    } else {
      std::vector<real> nodes{ xrange.min(e0), xrange.max(e0) };
      for (int i = 0; i < psiCount; ++i) {
        restrictPoint(i, x);
        detail::rootFind<Phi, N>(phi, x, e0, xrange.min(e0), xrange.max(e0), nodes, M > 1);
      }
      std::sort(nodes.begin(), nodes.end());
      const real tol = 50.0 * std::numeric_limits<real>::epsilon() * xrange.extent(e0);
      for (std::size_t s = 0; s + 1 < nodes.size(); ++s) {
        const real len = nodes[s + 1] - nodes[s];
        if (len < tol) continue;
        x(e0) = 0.5 * (nodes[s] + nodes[s + 1]);
        bool okay = true;
        for (int i = 0; i < psiCount && okay; ++i) {
          restrictPoint(i, x);
          okay = static_cast<real>(phi(x)) > 0.0 ? psiAt(i).sign() >= 0 : psiAt(i).sign() <= 0;
        }
        if (!okay) continue;
        for (const auto &[t, wt] : gaussRule(p)) {
          x(e0) = nodes[s] + len * t;
          f.evalIntegrand(x, w * len * wt);
        }
      }
    }
  }

  // The whole box, in the free directions.
  void tensorProduct()
  {
    const auto &rule = gaussRule(p);
    uvector<int, N> ext(1);
    for (int d = 0; d < N; ++d)
      if (free(d)) ext(d) = p;
    for_each_index<N>(ext, [&](const uvector<int, N> &i) {
      uvector<real, N> x;
      real w = 1.0;
      for (int d = 0; d < N; ++d) {
        if (!free(d)) continue;
        const auto &[t, wt] = rule[static_cast<std::size_t>(i(d))];
        x(d) = xrange.min(d) + xrange.extent(d) * t;
        w *= xrange.extent(d) * wt;
      }
      for (int d = 0; d < N; ++d)
        if (!free(d) && M == N - 1) x(d) = fixedCoordinate(d);
      f.evalIntegrand(x, w);
    });
  }
  // Facet integrals start with one fixed direction: its coordinate belongs to the point.
  uvector<real, N> fixed_;
  real fixedCoordinate(int d) const { return fixed_(d); }

  ImplicitIntegral(const Phi &phi_,
    F &f_,
    const uvector<bool, N> &free_,
    const std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> &psi_,
    int psiCount_,
    const HyperRectangle<real, N> &xrange_,
    int p_,
    int level = 0)
    : phi(phi_), f(f_), free(free_), psi(psi_), psiCount(psiCount_), xrange(xrange_), p(p_)
  {
    for (int d = 0; d < N; ++d)
      if (!free(d)) fixed_(d) = xrange.side(psi[0].side(d))(d);

    if constexpr (M == 1) {
      for (int d = 0; d < N; ++d)
        if (free(d)) e0 = d;
      uvector<real, N> x;
      for (int d = 0; d < N; ++d)
        if (!free(d)) x(d) = fixed_(d);
      evalIntegrand(x, 1.0);
      return;
    } else {
      for (int d = 0; d < N; ++d) {
        if (free(d)) {
          xint(d) = Interval<N>(xrange.midpoint(d), set_component<real, N>(uvector<real, N>(0.0), d, 1.0));
          Interval<N>::delta(d) = 0.5 * xrange.extent(d);
        } else {
          xint(d) = Interval<N>(0.0);
          Interval<N>::delta(d) = 0.0;
        }
      }
      if (!prune()) return;
      if (psiCount == 0) {
        if constexpr (!S) tensorProduct();
        return;
      }

      real best = 0.0;
      restrictInterval(0);
      const uvector<Interval<N>, N> g = phi.grad(xint);
      for (int d = 0; d < N; ++d) {
        if (free(d) && std::abs(g(d).alpha) > 1.001 * g(d).maxDeviation()) {
          const real q = std::abs(g(d).alpha) * xrange.extent(d);
          if (q > best) {
            best = q;
            e0 = d;
          }
        }
      }

      std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> newPsi;
      int newCount = 0;
      for (int i = 0; i < psiCount; ++i) {
        restrictInterval(i);
        bool okay = e0 >= 0;
        Interval<N> gi;
        if (okay) {
          gi = uvector<Interval<N>, N>(phi.grad(xint))(e0);
          okay = gi.uniformSign();
        }
        if (!okay) {
          split(level);
          return;
        }
        int bottom{ 0 };
        int top{ 0 };
        detail::determineSigns<S>(gi.alpha > 0.0, psiAt(i).sign(), bottom, top);
        newPsi[static_cast<std::size_t>(newCount++)] = PsiCode<N>(psiAt(i), e0, 0, bottom);
        newPsi[static_cast<std::size_t>(newCount++)] = PsiCode<N>(psiAt(i), e0, 1, top);
      }
      ImplicitIntegral<M - 1, N, Phi, ImplicitIntegral, false>(
        phi, *this, set_component(free, e0, false), newPsi, newCount, xrange, p);
    }
  }

  void split(int level)
  {
    if (level < 16) {
      int d0 = -1;
      for (int d = 0; d < N; ++d)
        if (free(d) && (d0 < 0 || xrange.extent(d) > xrange.extent(d0))) d0 = d;
      const real mid = xrange.midpoint(d0);
      ImplicitIntegral(phi,
        f,
        free,
        psi,
        psiCount,
        HyperRectangle<real, N>(xrange.min(), set_component(xrange.max(), d0, mid)),
        p,
        level + 1);
      ImplicitIntegral(phi,
        f,
        free,
        psi,
        psiCount,
        HyperRectangle<real, N>(set_component(xrange.min(), d0, mid), xrange.max()),
        p,
        level + 1);
      return;
    }
    // Too deep: one low order rule, according to the signs at the centre.
    uvector<real, N> x = xrange.midpoint();
    bool okay = true;
    for (int i = 0; i < psiCount && okay; ++i) {
      restrictPoint(i, x);
      okay = static_cast<real>(phi(x)) >= 0.0 ? psiAt(i).sign() >= 0 : psiAt(i).sign() <= 0;
    }
    if (!okay) return;
    if constexpr (S) {
      static_assert(M == N);
      real measure = 0.0;
      const uvector<real, N> g = phi.grad(x);
      for (int d = 0; d < N; ++d) {
        real area = 1.0;
        for (int e = 0; e < N; ++e)
          if (e != d) area *= xrange.extent(e);
        measure = std::max(measure, std::abs(g(d)) > 0.0 ? area : 0.0);
      }
      if (measure > 0.0) f.evalIntegrand(x, measure);
    } else {
      tensorProduct();
    }
  }
};

// Base of the recursion (never entered).
template<int N, typename Phi, typename F, bool S> struct ImplicitIntegral<0, N, Phi, F, S>
{
  template<typename... A> explicit ImplicitIntegral(A &&...) {}
};

template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &x_, real w_) : x(x_), w(w_) {}
  };
  std::vector<Node> nodes;

  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.emplace_back(x, w); }
  real sumWeights() const
  {
    real s = 0.0;
    for (const auto &n : nodes) s += n.w;
    return s;
  }
  template<typename F> real operator()(const F &f) const
  {
    real s = 0.0;
    for (const auto &n : nodes) s += n.w * f(n.x);
    return s;
  }
};

// dim = -1: the part of the box where phi < 0; 0 <= dim < N: of the facet orthogonal to dim, on the
// given side; dim = N: the zero level set.
template<int N, typename F>
QuadratureRule<N> quadGen(const F &phi, const HyperRectangle<real, N> &box, int dim, int side, int p)
{
  QuadratureRule<N> q;
  std::array<PsiCode<N>, static_cast<std::size_t>(1 << (N - 1))> psi;
  uvector<bool, N> free(true);
  if (0 <= dim && dim < N) {
    psi[0] = PsiCode<N>(set_component<int, N>(uvector<int, N>(0), dim, side), -1);
    free(dim) = false;
    // The node's fixed coordinate is set by the integral.
    ImplicitIntegral<N - 1, N, F, QuadratureRule<N>, false>(phi, q, free, psi, 1, box, p);
    for (auto &n : q.nodes) n.x(dim) = box.side(side)(dim);
  } else {
    psi[0] = PsiCode<N>(uvector<int, N>(0), -1);
    if (dim == N)
      ImplicitIntegral<N, N, F, QuadratureRule<N>, true>(phi, q, free, psi, 1, box, p);
    else
      ImplicitIntegral<N, N, F, QuadratureRule<N>, false>(phi, q, free, psi, 1, box, p);
  }
  return q;
}

}// namespace algoim
#endif
