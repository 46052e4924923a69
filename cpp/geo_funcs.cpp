// C06: implicit functions: derivatives against finite differences of the values, shapes against
// their geometric definition, intervals against sampled points.
//   geo_funcs SECTION SEED N
#include "mon.hpp"
#include <qugar/affine_transf.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tpms_lib.hpp>
#include <algoim/interval.hpp>
#include <array>
#include <functional>
#include <memory>
using namespace qugar;
using namespace qugar::impl;
using mon::chk, mon::str, mon::vec, mon::Rng;

template<int dim> using F = ImplicitFunc<dim>;
template<int dim> using Ptr = std::shared_ptr<const F<dim>>;
template<int dim> using Samp = std::function<Point<dim>(Rng &)>;

template<int dim> Point<dim> rp(Rng &g, double lo, double hi)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = g.uni(lo, hi);
  return p;
}
template<int dim> double len(const Point<dim> &p)
{
  double s = 0;
  for (int i = 0; i < dim; ++i) s += p(i) * p(i);
  return std::sqrt(s);
}
template<int dim> double dotp(const Point<dim> &a, const Point<dim> &b)
{
  double s = 0;
  for (int i = 0; i < dim; ++i) s += a(i) * b(i);
  return s;
}
//! Derivative of a scalar along coordinate i, sixth order central differences.
template<int dim, class G> double fd(const G &f, const Point<dim> &x, int i, double h, double &mag)
{
  static const double w[3] = { 45. / 60, -9. / 60, 1. / 60 };
  double s = 0;
  for (int k = 1; k <= 3; ++k) {
    auto a = x, b = x;
    a(i) += k * h, b(i) -= k * h;
    const double u = f(a), v = f(b);
    mag = std::max({ mag, std::abs(u), std::abs(v) });
    s += w[k - 1] * (u - v);
  }
  return s / h;
}
template<int dim> void derivs(const std::string &k, const F<dim> &f, const Point<dim> &x, double h)
{
  const auto g = f.grad(x);
  const auto H = f.hessian(x);
  double m = 1e-3, mg = 1e-3;
  for (int i = 0; i < dim; ++i) mg = std::max(mg, std::abs(g(i)));
  for (int i = 0; i < dim; ++i) {
    const double d = fd<dim>([&](const auto &y) { return f(y); }, x, i, h, m);
    mon::close(g(i), d, 1e-6 * mg + 1e-11 * m / h, k + " gradient", str("component ", i, " at ", vec(x, dim)));
  }
  for (int i = 0, q = 0; i < dim; ++i)
    for (int j = i; j < dim; ++j, ++q) {
      double a = 1e-3;
      const double d = fd<dim>([&](const auto &y) { return f.grad(y)(i); }, x, j, h, a);
      mon::close(H(q), d, 1e-6 * (a + mg) + 1e-11 * a / h, k + " hessian", str("component ", i, j, " at ", vec(x, dim)));
    }
}
template<int dim> void enclose(Rng &g, const std::string &k, const F<dim> &f, const Point<dim> &c, double size)
{
  using Itv = ::algoim::Interval<dim>;
  Point<dim, Itv> X;
  Point<dim> dl;
  for (int i = 0; i < dim; ++i) Itv::delta(i) = dl(i) = g.chance(0.2) ? 0 : g.uni(0.01, 1) * size;
  for (int i = 0; i < dim; ++i) {
    Point<dim> e;
    for (int j = 0; j < dim; ++j) e(j) = i == j;
    X(i) = Itv(c(i), e);
  }
  const auto V = f(X);
  const auto G = f.grad(X);
  for (int s = 0; s < 8; ++s) {
    Point<dim> d, x;
    for (int i = 0; i < dim; ++i) d(i) = dl(i) * (g.chance(0.3) ? g.sgn() : g.uni(-1, 1)), x(i) = c(i) + d(i);
    const auto in = [&](const Itv &I, double y, const std::string &w) {
      double l = I.alpha;
      for (int j = 0; j < dim; ++j) l += I.beta(j) * d(j);
      chk(std::abs(y - l) <= I.eps + 1e-10 * (1 + std::abs(y) + std::abs(I.alpha)), k + w, str("at ", vec(x, dim), " value ", y, " outside ", l, "+-", I.eps, " box ", vec(c, dim), "+-", vec(dl, dim)));
    };
    in(V, f(x), " interval value");
    const auto gx = f.grad(x);
    for (int i = 0; i < dim; ++i) in(G(i), gx(i), " interval gradient");
  }
}
//! A shape: its signed "outside-ness" (negative inside) in units of length, as geometry defines it.
template<int dim> using Def = std::function<double(const Point<dim> &)>;
//! Compares the sign of the function with the geometry, and the value on the surface with zero.
template<int dim> void shape(const std::string &k, Rng &g, const F<dim> &f, const Def<dim> &def, double lo, double hi, double h = 2e-3)
{
  for (int s = 0; s < 6; ++s) {
    const auto x = rp<dim>(g, lo, hi), y = rp<dim>(g, lo, hi);
    const double d = def(x), v = f(x);
    if (d > 1e-6) chk(v > 0, k + " positive outside", str(v, " at ", vec(x, dim), " distance ", d));
    else if (d < -1e-6) chk(v < 0, k + " negative inside", str(v, " at ", vec(x, dim), " distance ", d));
    if (d * def(y) < 0) {// bisect for a point of the surface
      auto a = x, b = y;
      for (int t = 0; t < 60; ++t) {
        Point<dim> m;
        for (int i = 0; i < dim; ++i) m(i) = 0.5 * (a(i) + b(i));
        (def(m) * d > 0 ? a : b) = m;
      }
      const double sc = 1e-6 + std::abs(v) + std::abs(f(y)) + len<dim>(f.grad(a));
      mon::close(f(a), 0, 1e-9 * sc, k + " zero on the surface", vec(a, dim));
    }
    if (s < 3) derivs<dim>(k, f, x, h);
    if (s < 3) enclose<dim>(g, k, f, x, 0.3);
  }
}
template<int dim> Point<dim> unit(Rng &g)
{
  while (true) {
    auto p = rp<dim>(g, -1, 1);
    if (g.chance(0.25)) {
      for (int i = 0; i < dim; ++i) p(i) = 0;
      p(g.pick(dim)) = g.sgn();
    }
    const double n = len<dim>(p);
    if (n < 0.2) continue;
    for (int i = 0; i < dim; ++i) p(i) /= n;
    return p;
  }
}
template<int dim> Point<dim> scaled(const Point<dim> &p, double s)
{
  auto q = p;
  for (int i = 0; i < dim; ++i) q(i) *= s;
  return q;
}
template<int dim> bool eq(const Point<dim> &a, const Point<dim> &b, double t = 0)
{
  for (int i = 0; i < dim; ++i)
    if (!(std::abs(a(i) - b(i)) <= t)) return false;
  return true;
}
template<int dim> AffineTransf<dim> transf(Rng &g, std::string &d)
{
  Vector<real, dim *(dim + 1)> c;
  double A[3][3] = {};
  while (true) {
    for (int i = 0; i < dim; ++i)
      for (int j = 0; j < dim; ++j) A[i][j] = g.uni(-1.5, 1.5);
    const double det = dim == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0]
                                : A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
    if (std::abs(det) > 0.4) break;
  }
  for (int i = 0; i < dim; ++i) {
    for (int j = 0; j < dim; ++j) c(i * dim + j) = A[i][j];
    c(dim * dim + i) = g.uni(-1, 1);
  }
  d += str("T", vec(c, dim * (dim + 1)));
  return AffineTransf<dim>(c);
}
const double BLO = -0.2, BHI = 1.2;// Bezier forms are meant for the unit box
template<int dim> std::string nm(const char *s) { return str(s, " ", dim, "d"); }

template<int dim> void round_shapes(Rng &g)
{
  using namespace funcs;
  {
    const double r = g.uni(0.05, 1.5);
    const auto c = g.chance(0.2) ? Point<dim>(0.0) : rp<dim>(g, -0.5, 1.5);
    mon::run_case(nm<dim>("sphere"), str("r ", r, " c ", vec(c, dim)), [&] {
      const bool dc = eq<dim>(c, Point<dim>(0.0));
      const Sphere<dim> f = dc ? Sphere<dim>(r) : Sphere<dim>(r, c);
      const SphereBzr<dim> b = dc ? SphereBzr<dim>(r) : SphereBzr<dim>(r, c);
      const Def<dim> def = [&](const auto &x) { return len<dim>(x - c) - r; };
      shape<dim>(nm<dim>("Sphere"), g, f, def, -2, 2);
      shape<dim>(nm<dim>("SphereBzr"), g, b, def, BLO, BHI);
      chk(f.radius() == r && eq<dim>(f.center(), c) && b.radius() == r && eq<dim>(b.center(), c), nm<dim>("Sphere parameters"));
    });
  }
  {
    Point<dim> ax;
    for (int i = 0; i < dim; ++i) ax(i) = g.uni(0.1, 1.5);
    const bool dflt = g.chance(0.2);
    const auto o = rp<dim>(g, -0.5, 1.5), u = scaled<dim>(unit<dim>(g), g.uni(0.1, 5));
    mon::run_case(nm<dim>("ellipsoid"), str("axes ", vec(ax, dim), " o ", vec(o, dim), " x ", vec(u, dim)), [&] {
      const RefSystem<dim> sys = [&] {
        if (dflt) return RefSystem<dim>();
        if constexpr (dim == 2) return RefSystem<2>(o, u);
        else {
          auto w = unit<3>(g);
          while (std::abs(dotp<3>(w, u)) > 0.9 * len<3>(u)) w = unit<3>(g);
          return RefSystem<3>(o, u, w);
        }
      }();
      const Ellipsoid<dim> f = dflt ? Ellipsoid<dim>(ax) : Ellipsoid<dim>(ax, sys);
      const EllipsoidBzr<dim> b = dflt ? EllipsoidBzr<dim>(ax) : EllipsoidBzr<dim>(ax, sys);
      const auto or_ = sys.get_origin();
      const Def<dim> def = [&](const auto &x) {
        double s = 0;
        for (int i = 0; i < dim; ++i) {
          const double p = dotp<dim>(x - or_, sys.get_basis()[static_cast<std::size_t>(i)]) / ax(i);
          s += p * p;
        }
        return std::sqrt(s) - 1;
      };
      shape<dim>(nm<dim>("Ellipsoid"), g, f, def, -2, 2);
      shape<dim>(nm<dim>("EllipsoidBzr"), g, b, def, BLO, BHI);
      chk(eq<dim>(f.semi_axes(), ax) && eq<dim>(b.semi_axes(), ax) && eq<dim>(f.ref_system().get_origin(), or_), nm<dim>("Ellipsoid parameters"));
    });
  }
  {
    const bool dflt = g.chance(0.2);
    const double s = g.chance(0.5) ? 1 : std::pow(10, g.uni(-2, 2));
    const auto o = rp<dim>(g, -0.5, 1.5), n = scaled<dim>(unit<dim>(g), s);
    mon::run_case(nm<dim>("plane"), str("o ", vec(o, dim), " n ", vec(n, dim)), [&] {
      const Plane<dim> f = dflt ? Plane<dim>() : Plane<dim>(o, n);
      const PlaneBzr<dim> b = dflt ? PlaneBzr<dim>() : PlaneBzr<dim>(o, n);
      const Def<dim> def = [&](const auto &x) { return dflt ? x(0) : dotp<dim>(x - o, n) / s; };
      shape<dim>(nm<dim>("Plane"), g, f, def, -2, 2);
      shape<dim>(nm<dim>("PlaneBzr"), g, b, def, BLO, BHI);
      if (!dflt) chk(eq<dim>(f.origin(), o) && eq<dim>(f.normal(), n, 1e-12 * s) && eq<dim>(b.origin(), o), nm<dim>("Plane parameters"));
    });
  }
  {
    const double v = g.chance(0.3) ? 0.5 : g.uni(-2, 2);
    mon::run_case(nm<dim>("constant"), str("v ", v), [&] {
      const Constant<dim> f = v == 0.5 ? Constant<dim>() : Constant<dim>(v);
      const ConstantBzr<dim> b = v == 0.5 ? ConstantBzr<dim>() : ConstantBzr<dim>(v);
      const auto x = rp<dim>(g, -2, 2);
      chk(f(x) == v && b(x) == v && f.value() == v && b.value() == v, nm<dim>("Constant value"), str(f(x), " ", b(x)));
      derivs<dim>(nm<dim>("Constant"), f, x, 1e-2), derivs<dim>(nm<dim>("ConstantBzr"), b, x, 1e-2);
      enclose<dim>(g, nm<dim>("Constant"), f, x, 1), enclose<dim>(g, nm<dim>("ConstantBzr"), b, x, 1);
    });
  }
  {// (bi)linear: the corner values are the coefficients, first direction fastest
    std::array<real, (1 << dim)> c;
    for (auto &x : c) x = g.uni(-1, 1);
    std::string d = str("c0 ", c[0], " ");
    const bool tr = g.chance(0.5);
    const auto T = tr ? transf<dim>(g, d) : AffineTransf<dim>();
    mon::run_case(nm<dim>("DimLinear"), d, [&] {
      const DimLinear<dim> f = tr ? DimLinear<dim>(c, T) : DimLinear<dim>(c);
      for (int s = 0; s < 6; ++s) {
        const auto x = rp<dim>(g, -1, 2);
        double w = 0;
        for (int q = 0; q < (1 << dim); ++q) {
          double b = 1;
          for (int i = 0; i < dim; ++i) b *= (q >> i & 1) ? x(i) : 1 - x(i);
          w += b * c[static_cast<std::size_t>(q)];
        }
        const auto y = T.transform_point(x);
        mon::close(f(y), w, 1e-11, nm<dim>("DimLinear value"), vec(x, dim));
        derivs<dim>(nm<dim>("DimLinear"), f, y, 2e-3);
        enclose<dim>(g, nm<dim>("DimLinear"), f, y, 0.5);
      }
    });
  }
  {
    std::string d;
    const bool tr = g.chance(0.6);
    const auto T = tr ? transf<dim>(g, d) : AffineTransf<dim>();
    mon::run_case(nm<dim>("Square"), d, [&] {
      const Square<dim> f = tr ? Square<dim>(T) : Square<dim>();
      for (int s = 0; s < 10; ++s) {
        const auto x = rp<dim>(g, -2, 2);
        const auto y = T.transform_point(x);
        std::array<double, dim> a;
        for (int i = 0; i < dim; ++i) a[static_cast<std::size_t>(i)] = std::abs(x(i));
        std::sort(a.begin(), a.end());
        const double m = a[dim - 1];
        if (std::abs(m - 1) > 1e-6) chk((f(y) > 0) == (m > 1), nm<dim>("Square sign"), vec(x, dim));
        mon::close(f(y), m - 1, 1e-11, nm<dim>("Square value"), vec(x, dim));
        if (m - a[dim - 2] > 0.1) derivs<dim>(nm<dim>("Square"), f, y, 1e-3);
        enclose<dim>(g, nm<dim>("Square"), f, y, g.chance(0.5) ? 0.05 : 0.5);
      }
    });
  }
}
void plane_shapes(Rng &g)
{
  using namespace funcs;
  const double ri = g.uni(0.05, 1), ro = ri + g.uni(0.05, 1);
  const bool dflt = g.chance(0.2);
  const auto c = dflt ? Point<2>(0.0) : rp<2>(g, -0.5, 1.5);
  mon::run_case("annulus", str("r ", ri, " ", ro, " c ", vec(c, 2)), [&] {
    const Annulus f = dflt ? Annulus(ri, ro) : Annulus(ri, ro, c);
    const AnnulusBzr b = dflt ? AnnulusBzr(ri, ro) : AnnulusBzr(ri, ro, c);
    const Def<2> def = [&](const auto &x) {
      const double d = len<2>(x - c);
      return std::max(d - ro, ri - d);
    };
    shape<2>("Annulus", g, f, def, -2, 2);
    shape<2>("AnnulusBzr", g, b, def, BLO, BHI);
    chk(f.inner_radius() == ri && b.outer_radius() == ro && f.outer_radius() == ro && eq<2>(f.center(), c) && eq<2>(b.center(), c), "Annulus parameters");
  });
}
void solid_shapes(Rng &g)
{
  using namespace funcs;
  {
    const double r = g.uni(0.05, 1);
    const int dflt = g.pick(4);// axis and origin, origin only, axis only, none
    const auto o = dflt == 3 ? Point<3>(0.0) : rp<3>(g, -0.5, 1.5);
    const auto e = dflt >= 2 ? Point<3>(0.0, 0.0, 1.0) : unit<3>(g);
    const auto a = scaled<3>(e, g.uni(0.05, 5));
    mon::run_case("cylinder", str("r ", r, " o ", vec(o, 3), " a ", vec(a, 3)), [&] {
      const Cylinder f = dflt == 3 ? Cylinder(r) : dflt == 2 ? Cylinder(r, o) : Cylinder(r, o, a);
      const CylinderBzr b = dflt == 3 ? CylinderBzr(r) : dflt == 2 ? CylinderBzr(r, o) : CylinderBzr(r, o, a);
      const Def<3> def = [&](const auto &x) {
        const Point<3> d = x - o;
        const double p = dotp<3>(d, e);
        return len<3>(d - scaled<3>(e, p)) - r;
      };
      shape<3>("Cylinder", g, f, def, -2, 2);
      shape<3>("CylinderBzr", g, b, def, BLO, BHI);
      chk(f.radius() == r && eq<3>(f.origin(), o) && eq<3>(f.axis(), e, 1e-12) && eq<3>(b.axis(), e, 1e-12), "Cylinder parameters");
    });
  }
  {
    const double r = g.uni(0.05, 0.7), R = r + g.uni(0.05, 1);
    const int dflt = g.pick(4);
    const auto o = dflt == 3 ? Point<3>(0.0) : rp<3>(g, -0.5, 1.5);
    const auto e = dflt >= 2 ? Point<3>(0.0, 0.0, 1.0) : unit<3>(g);
    const auto a = scaled<3>(e, g.uni(0.05, 5));
    mon::run_case("torus", str("R ", R, " r ", r, " o ", vec(o, 3), " a ", vec(a, 3)), [&] {
      const Torus f = dflt == 3 ? Torus(R, r) : dflt == 2 ? Torus(R, r, o) : Torus(R, r, o, a);
      const TorusBzr b = dflt == 3 ? TorusBzr(R, r) : dflt == 2 ? TorusBzr(R, r, o) : TorusBzr(R, r, o, a);
      const Def<3> def = [&](const auto &x) {
        const Point<3> d = x - o;
        const double z = dotp<3>(d, e), rho = len<3>(d - scaled<3>(e, z)) - R;
        return std::sqrt(z * z + rho * rho) - r;
      };
      shape<3>("Torus", g, f, def, -2, 2);
      shape<3>("TorusBzr", g, b, def, BLO, BHI);
      chk(f.major_radius() == R && f.minor_radius() == r && b.major_radius() == R && b.minor_radius() == r && eq<3>(f.center(), o) && eq<3>(f.axis(), e, 1e-12), "Torus parameters");
    });
  }
}
template<int dim> using TpmsVal = double (*)(double, double, double);
template<int dim, template<int> class C> void tpms1(Rng &g, const char *name, double (*w)(double, double, double))
{
  const bool dflt = g.chance(0.15);
  Vector<real, dim> m;
  for (int i = 0; i < dim; ++i) m(i) = dflt ? 1 : g.chance(0.5) ? g.in(1, 3) : g.uni(0.3, 2.5);
  const double z = dflt ? 0 : g.uni(-1, 1);
  const auto k = nm<dim>(name);
  mon::run_case(k, str("mnq ", vec(m, dim), " z ", z), [&] {
    const C<dim> f = [&] {
      if (dflt) return C<dim>();
      if constexpr (dim == 2) return C<2>(m, z);
      else return C<3>(m);
    }();
    for (int s = 0; s < 4; ++s) {
      const auto x = rp<dim>(g, -1, 1);
      const double t = 2 * M_PI;
      const double third = dim == 3 ? m(dim - 1) * x(dim - 1) : z;
      mon::close(f(x), w(t * m(0) * x(0), t * m(1) * x(1), t * third), 1e-11, k + " value", vec(x, dim));
      auto y = x;
      const int i = g.pick(dim);
      y(i) += g.in(-2, 2) / m(i);
      mon::close(f(x), f(y), 1e-10, k + " period", vec(x, dim));
      derivs<dim>(k, f, x, 1e-3);
      enclose<dim>(g, k, f, x, g.chance(0.5) ? 0.02 : 0.3);
    }
  });
}
template<int dim> void tpms_all(Rng &g)
{
  using namespace qugar::impl::tpms;
  tpms1<dim, Schoen>(g, "Schoen", [](double x, double y, double z) { return sin(x) * cos(y) + sin(y) * cos(z) + sin(z) * cos(x); });
  tpms1<dim, SchoenIWP>(g, "SchoenIWP", [](double x, double y, double z) { return 2 * (cos(x) * cos(y) + cos(y) * cos(z) + cos(z) * cos(x)) - cos(2 * x) - cos(2 * y) - cos(2 * z); });
  tpms1<dim, SchoenFRD>(g, "SchoenFRD", [](double x, double y, double z) { return 4 * cos(x) * cos(y) * cos(z) - cos(2 * x) * cos(2 * y) - cos(2 * y) * cos(2 * z) - cos(2 * z) * cos(2 * x); });
  tpms1<dim, FischerKochS>(g, "FischerKochS", [](double x, double y, double z) { return cos(2 * x) * sin(y) * cos(z) + cos(x) * cos(2 * y) * sin(z) + sin(x) * cos(y) * cos(2 * z); });
  tpms1<dim, SchwarzDiamond>(g, "SchwarzDiamond", [](double x, double y, double z) { return cos(x) * cos(y) * cos(z) - sin(x) * sin(y) * sin(z); });
  tpms1<dim, SchwarzPrimitive>(g, "SchwarzPrimitive", [](double x, double y, double z) { return cos(x) + cos(y) + cos(z); });
}
//! An expression with the value it stands for.
template<int dim> struct Expr
{
  Ptr<dim> f;
  std::function<double(const Point<dim> &)> v;
};
template<int dim> Expr<dim> leaf(Rng &g, std::string &d)
{
  using namespace funcs;
  Ptr<dim> f;
  switch (g.pick(5)) {
  case 0: d += "plane ", f = std::make_shared<Plane<dim>>(rp<dim>(g, -1, 1), unit<dim>(g)); break;
  case 1: d += "sphere ", f = std::make_shared<Sphere<dim>>(g.uni(0.1, 1), rp<dim>(g, -1, 1)); break;
  case 2: d += "gyroid ", f = std::make_shared<tpms::Schoen<dim>>(); break;
  case 3: {
    std::array<real, (1 << dim)> c;
    for (auto &x : c) x = g.uni(-1, 1);
    d += "dimlinear ", f = std::make_shared<DimLinear<dim>>(c);
    break;
  }
  default: d += "spherebzr ", f = std::make_shared<SphereBzr<dim>>(g.uni(0.1, 1), rp<dim>(g, 0, 1));
  }
  return { f, [f](const auto &x) { return (*f)(x); } };
}
template<int dim> Expr<dim> tree(Rng &g, std::string &d, int depth)
{
  using namespace funcs;
  if (depth == 0 || g.chance(0.15)) return leaf<dim>(g, d);
  switch (g.pick(4)) {
  case 0: {
    d += "neg(";
    const auto a = tree<dim>(g, d, depth - 1);
    d += ")";
    return { std::make_shared<Negative<dim>>(a.f), [a](const auto &x) { return -a.v(x); } };
  }
  case 1:
  case 2: {
    const bool add = g.chance(0.5);
    d += add ? "add(" : "sub(";
    const auto a = tree<dim>(g, d, depth - 1);
    const auto b = g.chance(0.2) ? a : tree<dim>(g, d, depth - 1);
    d += ")";
    if (add) return { std::make_shared<AddFunctions<dim>>(a.f, b.f), [a, b](const auto &x) { return a.v(x) + b.v(x); } };
    return { std::make_shared<SubtractFunctions<dim>>(a.f, b.f), [a, b](const auto &x) { return a.v(x) - b.v(x); } };
  }
  default: {
    const auto T = transf<dim>(g, d);
    d += "tr(";
    const auto a = tree<dim>(g, d, depth - 1);
    d += ")";
    const auto I = T.inverse();
    return { std::make_shared<TransformedFunction<dim>>(a.f, T), [a, I](const auto &x) { return a.v(I.transform_point(x)); } };
  }
  }
}
template<int dim> void comb(Rng &g)
{
  std::string d;
  const auto e = tree<dim>(g, d, 3);
  mon::run_case(nm<dim>("expression"), d, [&] {
    for (int s = 0; s < 4; ++s) {
      const auto x = rp<dim>(g, -1, 1);
      const double w = e.v(x);
      mon::close((*e.f)(x), w, 1e-9 * (1 + std::abs(w)), nm<dim>("expression value"), vec(x, dim));
      derivs<dim>(nm<dim>("expression"), *e.f, x, 2e-4);
      enclose<dim>(g, nm<dim>("expression"), *e.f, x, g.chance(0.5) ? 0.02 : 0.3);
    }
  });
}
int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string s = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int n = std::atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    if (s == "prim") round_shapes<2>(g), round_shapes<3>(g), plane_shapes(g), solid_shapes(g);
    else if (s == "tpms") tpms_all<2>(g), tpms_all<3>(g);
    else if (s == "comb") comb<2>(g), comb<3>(g);
    else return 9;
  }
  mon::finish();
}
