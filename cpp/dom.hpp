// Random unfitted domains and reference integrals for the drivers of C01-C04, C10 and C11.
#pragma once
#include "mon.hpp"
#include <qugar/affine_transf.hpp>
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tpms_lib.hpp>
#include <algorithm>
#include <array>
#include <functional>
#include <memory>
#include <set>

namespace dom {
using namespace qugar;
using namespace qugar::impl;
using mon::Rng, mon::str, mon::vec;
using Id = std::int64_t;

template<int dim> using Ptr = std::shared_ptr<const ImplicitFunc<dim>>;

template<int dim> Point<dim> rp(Rng &g, double lo, double hi)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = g.uni(lo, hi);
  return p;
}
template<int dim> Point<dim> unit(Rng &g)
{
  while (true) {
    auto p = rp<dim>(g, -1, 1);
    double s = 0;
    for (int i = 0; i < dim; ++i) s += p(i) * p(i);
    if (s < 0.04 || s > 1) continue;
    for (int i = 0; i < dim; ++i) p(i) /= std::sqrt(s);
    return p;
  }
}
template<int dim> struct Dom
{
  Ptr<dim> f, neg;// the function, and its negation
  std::shared_ptr<const CartGridTP<dim>> grid;
  std::array<std::vector<real>, dim> br;
  std::array<int, 3> n{ 1, 1, 1 };
  std::string d;
  bool bz = false;// polynomial in Bezier form
  bool plane = false;
  Point<dim> o, nrm;// of the plane

  Id cells() const { return Id(n[0]) * n[1] * n[2]; }
  std::array<int, 3> idx(Id c) const { return { int(c % n[0]), int(c / n[0] % n[1]), int(c / n[0] / n[1]) }; }
  Id id(const std::array<int, 3> &i) const { return i[0] + Id(n[0]) * (i[1] + Id(n[1]) * i[2]); }
  double lo(Id c, int d_) const { return br[std::size_t(d_)][std::size_t(idx(c)[std::size_t(d_)])]; }
  double len(Id c, int d_) const { return br[std::size_t(d_)][std::size_t(idx(c)[std::size_t(d_)]) + 1] - lo(c, d_); }
  double vol(Id c) const
  {
    double v = 1;
    for (int i = 0; i < dim; ++i) v *= len(c, i);
    return v;
  }
  Point<dim> map(Id c, const Point<dim> &X) const
  {
    Point<dim> x;
    for (int i = 0; i < dim; ++i) x(i) = lo(c, i) + len(c, i) * X(i);
    return x;
  }
  double at(Id c, const Point<dim> &X) const { return (*f)(map(c, X)); }
  //! Neighbour through a facet, or -1.
  Id neighbour(Id c, int lf) const
  {
    auto i = idx(c);
    auto &k = i[std::size_t(lf / 2)];
    k += lf % 2 ? 1 : -1;
    return k < 0 || k >= n[std::size_t(lf / 2)] ? -1 : id(i);
  }
};
//! Variation of the function over a cell and its extremes at a lattice of points (optionally of a facet).
struct Range
{
  double lo = 1e300, hi = -1e300, s = 0;
};
template<int dim> double variation(const Dom<dim> &D, Id c)
{
  double s = 0;
  Point<dim> X;
  const int k = 4;
  for (int q = 0; q < std::pow(k, dim) - 0.5; ++q) {
    for (int i = 0, r = q; i < dim; ++i, r /= k) X(i) = (r % k) / double(k - 1);
    const auto gr = D.f->grad(D.map(c, X));
    double t = 0;
    for (int i = 0; i < dim; ++i) t += std::abs(gr(i)) * D.len(c, i);
    s = std::max(s, t);
  }
  return s;
}
template<int dim> Range range(const Dom<dim> &D, Id c, int lf = -1, int k = 7)
{
  Range r;
  Point<dim> X;
  const int fd = lf < 0 ? -1 : lf / 2;
  const int nd = lf < 0 ? dim : dim - 1;
  for (int q = 0; q < std::pow(k, nd) - 0.5; ++q) {
    for (int i = 0, t = q; i < dim; ++i) {
      if (i == fd) {
        X(i) = lf % 2;
        continue;
      }
      X(i) = (t % k) / double(k - 1);
      t /= k;
    }
    const double v = D.at(c, X);
    r.lo = std::min(r.lo, v), r.hi = std::max(r.hi, v);
  }
  r.s = variation(D, c);
  return r;
}
//! Integrals of 1 and the coordinates over the part of the unit cube where g < 0, along rays.
template<int N, class G> std::array<double, 4> moments(const G &g, int M)
{
  std::array<double, 4> r{};
  int dir = 0;
  if (N > 1) {
    double best = -1;
    for (int d = 0; d < N; ++d) {
      double s = 0;
      for (int q = 0; q < 27; ++q) {
        Point<N> a;
        for (int i = 0, t = q; i < N; ++i, t /= 3) a(i) = (t % 3) * 0.45;
        auto b = a;
        b(d) += 0.1;
        s += std::abs(g(b) - g(a));
      }
      if (s > best) best = s, dir = d;
    }
  }
  const int K = N == 1 ? 400 : 24, m = N == 1 ? 1 : 2 * M;
  static const double gp[2] = { 0.21132486540518712, 0.78867513459481287 };
  const int rays = N == 1 ? 1 : N == 2 ? m : m * m;
  for (int q = 0; q < rays; ++q) {
    Point<N> X;
    double w = 1;
    for (int i = 0, t = q; i < N; ++i) {
      if (i == dir) continue;
      X(i) = (t % m / 2 + gp[t % m % 2]) / M;
      w /= m;
      t /= m;
    }
    const auto at = [&](double t) {
      X(dir) = t;
      return g(X);
    };
    std::vector<double> cut{ 0 };
    double fa = at(0);
    const bool neg0 = fa < 0;
    for (int k = 0; k < K; ++k) {
      double a = double(k) / K, b = double(k + 1) / K;
      const double fb = at(b);
      if ((fa < 0) != (fb < 0)) {
        const bool sa = fa < 0;
        for (int it = 0; it < 50; ++it) {
          const double c = 0.5 * (a + b);
          ((at(c) < 0) == sa ? a : b) = c;
        }
        cut.push_back(0.5 * (a + b));
      }
      fa = fb;
    }
    cut.push_back(1);
    for (std::size_t k = 0; k + 1 < cut.size(); ++k) {
      if (neg0 != (k % 2 == 0)) continue;
      const double l = cut[k + 1] - cut[k], mid = 0.5 * (cut[k + 1] + cut[k]);
      X(dir) = mid;
      r[0] += w * l;
      for (int i = 0; i < N; ++i) r[std::size_t(i + 1)] += w * l * X(i);
    }
  }
  return r;
}
//! Gauss nodes and weights on [0,1], own computation.
inline const std::vector<std::pair<double, double>> &gauss(int n)
{
  static thread_local std::map<int, std::vector<std::pair<double, double>>> memo;
  auto &r = memo[n];
  if (!r.empty()) return r;
  for (int i = 0; i < n; ++i) {
    long double x = std::cos(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 1;
    for (int it = 0; it < 60; ++it) {
      long double p0 = 1, p1 = x;
      for (int k = 2; k <= n; ++k) {
        const long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
        p0 = p1, p1 = p2;
      }
      dp = n * (x * p1 - p0) / (x * x - 1);
      x -= p1 / dp;
    }
    r.emplace_back(double((1 + x) / 2), double(1 / ((1 - x * x) * dp * dp)));
  }
  return r;
}
//! Exact integral of a polynomial over {X in [0,1]^N : a.X < b}, degree up to 12 per direction.
template<int N> double half(const Point<N> &a, double b, const std::function<double(const Point<N> &)> &p)
{
  Point<N> X;
  std::function<double(int, double)> rec = [&](int d, double rest) -> double {// rest = b - sum over done directions
    // directions N-1 .. d+1 are fixed; integrate direction d and below
    std::vector<double> brk{ 0, 1 };
    // kinks: where the plane passes through a corner of the lower directions
    for (int q = 0; q < (1 << d); ++q) {
      double s = rest;
      for (int i = 0; i < d; ++i) s -= (q >> i & 1) * a(i);
      if (std::abs(a(d)) > 1e-300) {
        const double t = s / a(d);
        if (t > 0 && t < 1) brk.push_back(t);
      }
    }
    std::sort(brk.begin(), brk.end());
    double sum = 0;
    for (std::size_t k = 0; k + 1 < brk.size(); ++k) {
      const double l = brk[k + 1] - brk[k];
      if (l <= 0) continue;
      if (d == 0 && !(a(0) * 0.5 * (brk[k] + brk[k + 1]) < rest)) continue;
      for (const auto &[t, w] : gauss(9)) {
        X(d) = brk[k] + l * t;
        sum += w * l * (d == 0 ? p(X) : rec(d - 1, rest - a(d) * X(d)));
      }
    }
    return sum;
  };
  return rec(N - 1, b);
}

template<int dim> AffineTransf<dim> transf(Rng &g)
{
  while (true) {
    Vector<real, dim *(dim + 1)> c;
    double A[3][3] = {};
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) A[i][j] = g.uni(-1.2, 1.2);
    const double det = dim == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0]
                                : A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
    if (std::abs(det) < 0.4) continue;
    for (int i = 0; i < dim; ++i) {
      for (int j = 0; j < dim; ++j) c(i * dim + j) = A[i][j];
      c(dim * dim + i) = g.uni(-0.3, 0.3);
    }
    return AffineTransf<dim>(c);
  }
}
template<int dim> RefSystem<dim> sys(Rng &g, const Point<dim> &o)
{
  const auto u = unit<dim>(g);
  if constexpr (dim == 2) return RefSystem<2>(o, u);
  else {
    while (true) {
      const auto w = unit<3>(g);
      const double c = w(0) * u(0) + w(1) * u(1) + w(2) * u(2);
      if (std::abs(c) < 0.9) return RefSystem<3>(o, u, w);
    }
  }
}
//! Random grid of the box [lo,hi]^dim. Dyadic when exact coordinates matter.
template<int dim> void grid(Rng &g, Dom<dim> &D, int nmax, double lo, double hi, bool uniform = false)
{
  for (int i = 0; i < dim; ++i) {
    const int n = g.in(1, nmax);
    std::vector<real> b{ lo };
    std::vector<double> w;
    double s = 0;
    for (int k = 0; k < n; ++k) w.push_back(uniform ? 1 : g.uni(0.3, 1.5)), s += w.back();
    for (int k = 0; k + 1 < n; ++k) b.push_back(b.back() + (hi - lo) * w[std::size_t(k)] / s);
    b.push_back(hi);
    D.br[std::size_t(i)] = b;
    D.n[std::size_t(i)] = n;
  }
  D.grid = std::make_shared<CartGridTP<dim>>(D.br);
  for (int i = 0; i < dim; ++i)
    for (std::size_t k = 1; k + 1 < D.br[std::size_t(i)].size(); ++k) D.d += str(k == 1 ? " |" : " ", D.br[std::size_t(i)][k]);
  D.d += str(" grid ", D.n[0], "x", D.n[1], "x", D.n[2], " on [", lo, ",", hi, "]");
}
enum Kind { ANY, PLANE, CURVED };
template<int dim> void function(Rng &g, Dom<dim> &D, Kind kind, bool bezier)
{
  using namespace funcs;
  D.bz = bezier;
  const auto c = rp<dim>(g, 0.1, 0.9);
  if (kind == PLANE || (kind == ANY && g.chance(0.15))) {
    D.plane = true;
    D.o = c;
    D.nrm = unit<dim>(g);
    const double s = g.chance(0.5) ? 1 : std::pow(10, g.uni(-2, 2));
    for (int i = 0; i < dim; ++i) D.nrm(i) *= s;
    D.d += str("plane o ", vec(D.o, dim), " n ", vec(D.nrm, dim));
    if (bezier) D.f = std::make_shared<PlaneBzr<dim>>(D.o, D.nrm);
    else D.f = std::make_shared<Plane<dim>>(D.o, D.nrm);
    return;
  }
  const double r = g.uni(0.15, 0.6);
  if (bezier) {
    switch (g.pick(dim == 2 ? 4 : 4)) {
    case 0:
      D.d += str("spherebzr r ", r, " c ", vec(c, dim));
      D.f = std::make_shared<SphereBzr<dim>>(r, c);
      return;
    case 1: {
      Point<dim> ax;
      for (int i = 0; i < dim; ++i) ax(i) = g.uni(0.15, 0.7);
      D.d += str("ellipsoidbzr ", vec(ax, dim), " c ", vec(c, dim));
      D.f = std::make_shared<EllipsoidBzr<dim>>(ax, sys<dim>(g, c));
      return;
    }
    case 2:
      if constexpr (dim == 3) {
        D.d += str("cylinderbzr r ", r, " c ", vec(c, dim));
        D.f = std::make_shared<CylinderBzr>(r, c, unit<3>(g));
        return;
      } else {
        const double ri = g.uni(0.1, 0.3);
        D.d += str("annulusbzr ", ri, " ", ri + 0.25, " c ", vec(c, 2));
        D.f = std::make_shared<AnnulusBzr>(ri, ri + 0.25, c);
        return;
      }
    default: {
      TensorSizeTP<dim> o;
      int tot = 1;
      for (int i = 0; i < dim; ++i) o(i) = g.in(2, dim == 2 ? 4 : 3), tot *= o(i);
      std::vector<real> cf;
      for (int i = 0; i < tot; ++i) cf.push_back(g.uni(-1, 1));
      D.d += "random bezier";
      for (const double x : cf) D.d += str(" ", x);
      D.f = std::make_shared<BezierTP<dim, 1>>(o, cf);
      return;
    }
    }
  }
  if (kind == ANY && g.chance(0.12)) {
    const auto T = transf<dim>(g);
    D.d += str("square of a random affine map, centre ", vec(T.transform_point(Point<dim>(0.0)), dim));
    D.f = std::make_shared<Square<dim>>(T);
    return;
  }
  switch (g.pick(8)) {
  case 0:
    D.d += str("sphere r ", r, " c ", vec(c, dim));
    D.f = std::make_shared<Sphere<dim>>(r, c);
    return;
  case 1: {
    Point<dim> ax;
    for (int i = 0; i < dim; ++i) ax(i) = g.uni(0.15, 0.7);
    D.d += str("ellipsoid ", vec(ax, dim), " c ", vec(c, dim));
    D.f = std::make_shared<Ellipsoid<dim>>(ax, sys<dim>(g, c));
    return;
  }
  case 2:
    if constexpr (dim == 3) {
      D.d += str("cylinder r ", r, " c ", vec(c, 3));
      D.f = std::make_shared<Cylinder>(r, c, unit<3>(g));
    } else {
      const double ri = g.uni(0.1, 0.3);
      D.d += str("annulus ", ri, " ", ri + 0.25, " c ", vec(c, 2));
      D.f = std::make_shared<Annulus>(ri, ri + 0.25, c);
    }
    return;
  case 3: {
    std::array<real, (1 << dim)> cf;
    for (auto &x : cf) x = g.uni(-1, 1);
    D.d += "dimlinear";
    for (const double x : cf) D.d += str(" ", x);
    D.f = std::make_shared<DimLinear<dim>>(cf);
    return;
  }
  case 4: {
    Vector<real, dim> m;
    for (int i = 0; i < dim; ++i) m(i) = g.uni(0.4, 0.8);
    const double z = g.uni(0, 1);
    const int w = g.pick(3);
    D.d += str("tpms ", w, " m ", vec(m, dim), " z ", z);
    if constexpr (dim == 2) {
      if (w == 0) D.f = std::make_shared<tpms::Schoen<2>>(m, z);
      else if (w == 1) D.f = std::make_shared<tpms::SchwarzPrimitive<2>>(m, z);
      else D.f = std::make_shared<tpms::SchwarzDiamond<2>>(m, z);
    } else {
      if (w == 0) D.f = std::make_shared<tpms::Schoen<3>>(m);
      else if (w == 1) D.f = std::make_shared<tpms::SchwarzPrimitive<3>>(m);
      else D.f = std::make_shared<tpms::SchwarzDiamond<3>>(m);
    }
    return;
  }
  case 5: {
    const auto T = transf<dim>(g);
    D.d += str("transformed sphere r ", r, " c ", vec(c, dim), " moved to ", vec(T.transform_point(c), dim));
    D.f = std::make_shared<TransformedFunction<dim>>(std::make_shared<Sphere<dim>>(r, c), T);
    return;
  }
  case 6: {
    const auto nn = unit<dim>(g);
    D.d += str("sphere r ", r, " c ", vec(c, dim), " + plane ", vec(nn, dim));
    const auto a = std::make_shared<Sphere<dim>>(r, c);
    const auto b = std::make_shared<Plane<dim>>(rp<dim>(g, 0.3, 0.7), nn);
    if (g.chance(0.5)) D.f = std::make_shared<AddFunctions<dim>>(a, b);
    else D.f = std::make_shared<SubtractFunctions<dim>>(a, b);
    return;
  }
  default:
    D.d += str("outside of sphere r ", r, " c ", vec(c, dim));
    D.f = std::make_shared<Negative<dim>>(std::make_shared<Sphere<dim>>(r, c));
    return;
  }
}
template<int dim> Dom<dim> make(Rng &g, Kind kind, int nmax = dim == 2 ? 5 : 3)
{
  Dom<dim> D;
  const bool bz = g.chance(0.45);
  function<dim>(g, D, kind, bz);
  if (bz) {
    const auto b = std::dynamic_pointer_cast<const BezierTP<dim, 1>>(D.f);
    auto cf = b->get_coefs();
    for (auto &x : cf) x = -x;
    D.neg = std::make_shared<BezierTP<dim, 1>>(b->get_order(), cf);
  } else {
    D.neg = std::make_shared<funcs::Negative<dim>>(D.f);
  }
  const bool wide = !bz && g.chance(0.4);
  grid<dim>(g, D, nmax, wide ? g.uni(-0.6, 0) : bz && g.chance(0.3) ? 0.125 : 0, wide ? g.uni(0.7, 1.5) : 1);
  return D;
}
//! Whether the interface in a cell is a gentle graph over some direction (elsewhere tangencies spoil Gauss rules).
template<int dim> bool gentle(const Dom<dim> &D, Id c)
{
  const int k = 6;
  Point<dim> X;
  std::array<double, dim> lo, hi;
  lo.fill(1e300), hi.fill(-1e300);
  double s = 0;
  for (int q = 0; q < std::pow(k, dim) - 0.5; ++q) {
    for (int i = 0, r = q; i < dim; ++i, r /= k) X(i) = (r % k) / double(k - 1);
    const auto gr = D.f->grad(D.map(c, X));
    double t = 0;
    for (int i = 0; i < dim; ++i) {
      const double e = gr(i) * D.len(c, i);
      t += std::abs(e);
      lo[std::size_t(i)] = std::min(lo[std::size_t(i)], e), hi[std::size_t(i)] = std::max(hi[std::size_t(i)], e);
    }
    s = std::max(s, t);
  }
  for (int i = 0; i < dim; ++i)
    if (std::max(lo[std::size_t(i)], -hi[std::size_t(i)]) > 0.3 * s) return true;
  return false;
}
}// namespace dom
