// C08: affine maps and reference systems against their definition.
//   geo_affine SECTION SEED N
#include "mon.hpp"
#include <qugar/affine_transf.hpp>
#include <qugar/ref_system.hpp>
#include <algoim/interval.hpp>
#include <array>
using namespace qugar;
using namespace qugar::impl;
using mon::chk, mon::str, mon::vec, mon::Rng;

template<int dim> std::string nm(const char *s) { return str(s, dim, "d"); }
template<int dim> struct Map
{
  double A[dim][dim], b[dim];
};
template<int dim> AffineTransf<dim> make(const Map<dim> &m)
{
  Vector<real, dim *(dim + 1)> c;
  for (int i = 0; i < dim; ++i) {
    for (int j = 0; j < dim; ++j) c(i * dim + j) = m.A[i][j];
    c(dim * dim + i) = m.b[i];
  }
  return AffineTransf<dim>(c);
}
template<int dim> Point<dim> app(const Map<dim> &m, const Point<dim> &x)
{
  Point<dim> y;
  for (int i = 0; i < dim; ++i) {
    y(i) = m.b[i];
    for (int j = 0; j < dim; ++j) y(i) += m.A[i][j] * x(j);
  }
  return y;
}
//! Matrix and origin, read off the map's action on points.
template<int dim> Map<dim> read(const AffineTransf<dim> &T)
{
  Map<dim> m;
  Point<dim> z;
  for (int i = 0; i < dim; ++i) z(i) = 0;
  const auto o = T.transform_point(z);
  for (int j = 0; j < dim; ++j) {
    auto e = z;
    e(j) = 1;
    const auto y = T.transform_point(e);
    for (int i = 0; i < dim; ++i) m.A[i][j] = y(i) - o(i);
  }
  for (int i = 0; i < dim; ++i) m.b[i] = o(i);
  return m;
}
template<int dim> Point<dim> rp(Rng &g, double s = 2)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = g.uni(-s, s);
  return p;
}
template<int dim> double det(const Map<dim> &m)
{
  if constexpr (dim == 2) return m.A[0][0] * m.A[1][1] - m.A[0][1] * m.A[1][0];
  else
    return m.A[0][0] * (m.A[1][1] * m.A[2][2] - m.A[1][2] * m.A[2][1]) - m.A[0][1] * (m.A[1][0] * m.A[2][2] - m.A[1][2] * m.A[2][0])
           + m.A[0][2] * (m.A[1][0] * m.A[2][1] - m.A[1][1] * m.A[2][0]);
}
template<int dim> Map<dim> rnd_map(Rng &g, double &sc)
{
  Map<dim> m;
  do {
    sc = g.chance(0.3) ? std::pow(10.0, g.uni(-6, 4)) : 1;
    for (auto &r : m.A)
      for (auto &x : r) x = g.chance(0.15) ? 0.0 : g.uni(-1, 1);
  } while (std::abs(det(m)) < 0.05);
  for (auto &r : m.A)
    for (auto &x : r) x *= sc;
  for (auto &x : m.b) x = g.chance(0.2) ? 0 : g.uni(-2, 2);
  return m;
}
template<int dim> void near(const Point<dim> &a, const Point<dim> &b, double tol, const std::string &k)
{
  double e = 0;
  for (int i = 0; i < dim; ++i) e = std::max(e, std::isnan(a(i)) ? INFINITY : std::abs(a(i) - b(i)));
  chk(e <= tol, k, str("got ", vec(a, dim), " expected ", vec(b, dim), " tol ", tol));
}
constexpr int tix(int dim, int i, int j) { return i > j ? tix(dim, j, i) : i * dim - i * (i - 1) / 2 + (j - i); }

template<int dim> void maps(Rng &g)
{
  double s1, s2;
  const auto m = rnd_map<dim>(g, s1), n = rnd_map<dim>(g, s2);
  std::string d = str("A=");
  for (auto &r : m.A)
    for (auto x : r) d += str(x, " ");
  mon::run_case(nm<dim>("maps"), d, [&] {
    const auto T = make(m), S = make(n);
    const auto TS = T * S, I = T.inverse();
    for (int k = 0; k < 8; ++k) {
      const auto x = rp<dim>(g);
      near<dim>(T.transform_point(x), app(m, x), 1e-13 * (10 + s1 * 10), nm<dim>("transform_point"));
      near<dim>(TS.transform_point(x), T.transform_point(S.transform_point(x)), 1e-12 * (1 + s1 + s1 * s2) * 10, nm<dim>("composition"));
      near<dim>(I.transform_point(T.transform_point(x)), x, 1e-10 * (1 + 1 / s1), nm<dim>("inverse of image"));
      const auto y = [&] { auto z = app(m, x); return z; }();
      near<dim>(T.transform_point(I.transform_point(y)), y, 1e-10 * (1 + s1), nm<dim>("image of inverse"));
      // Vectors and tensors: gradient and Hessian of f(T(x)), with f a polynomial of degree 2.
      Point<dim> gr = rp<dim>(g), want, v;
      double H[dim][dim];
      Vector<real, dim *(dim + 1) / 2> h;
      for (int i = 0; i < dim; ++i)
        for (int j = i; j < dim; ++j) H[i][j] = H[j][i] = h(tix(dim, i, j)) = g.uni(-1, 1);
      for (int i = 0; i < dim; ++i) {
        want(i) = 0;
        for (int j = 0; j < dim; ++j) want(i) += m.A[j][i] * gr(j);
      }
      near<dim>(T.transform_vector(gr), want, 1e-12 * s1 * 10, nm<dim>("transform_vector"));
      const auto th = T.transform_tensor(h);
      for (int i = 0; i < dim; ++i)
        for (int j = i; j < dim; ++j) {
          double w = 0;
          for (int a = 0; a < dim; ++a)
            for (int b = 0; b < dim; ++b) w += m.A[a][i] * H[a][b] * m.A[b][j];
          mon::close(th(tix(dim, i, j)), w, 1e-12 * s1 * s1 * 10, nm<dim>("transform_tensor"), str(i, j));
        }
      near<dim>(S.transform_vector(T.transform_vector(gr)), TS.transform_vector(gr), 1e-11 * s1 * s2 * 10, nm<dim>("chain of vectors"));
      const auto c1 = S.transform_tensor(T.transform_tensor(h)), c2 = TS.transform_tensor(h);
      for (int i = 0; i < dim * (dim + 1) / 2; ++i) mon::close(c1(i), c2(i), 1e-11 * s1 * s1 * s2 * s2 * 10, nm<dim>("chain of tensors"));
    }
    // Intervals: over a box, the transformed interval encloses the transformed points.
    using Itv = ::algoim::Interval<dim>;
    const auto xc = rp<dim>(g);
    Point<dim> dl;
    for (int i = 0; i < dim; ++i) Itv::delta(i) = dl(i) = g.uni(0.01, 1);
    Vector<Itv, dim> xi;
    Point<dim> rad;
    for (int i = 0; i < dim; ++i) {
      Point<dim> e;
      for (int j = 0; j < dim; ++j) e(j) = i == j;
      rad(i) = g.chance(0.5) ? 0.0 : g.uni(0, 0.2);
      xi(i) = Itv(xc(i), e, rad(i));
    }
    const auto pi = T.transform_point(xi);
    const auto vi = T.transform_vector(xi);
    for (int k = 0; k < 8; ++k) {
      Point<dim> dx, x;
      for (int i = 0; i < dim; ++i) dx(i) = dl(i) * (g.chance(0.3) ? g.sgn() : g.uni(-1, 1)), x(i) = xc(i) + dx(i) + rad(i) * (g.chance(0.3) ? g.sgn() : g.uni(-1, 1));
      const auto y = T.transform_point(x);
      const auto v = T.transform_vector(x);
      for (int i = 0; i < dim; ++i) {
        double lp = pi(i).alpha, lv = vi(i).alpha;
        for (int j = 0; j < dim; ++j) lp += pi(i).beta(j) * dx(j), lv += vi(i).beta(j) * dx(j);
        chk(std::abs(y(i) - lp) <= pi(i).eps + 1e-11 * (1 + s1), nm<dim>("interval point"), str(y(i), " outside ", lp, "+-", pi(i).eps));
        chk(std::abs(v(i) - lv) <= vi(i).eps + 1e-11 * (1 + s1), nm<dim>("interval vector"), str(v(i), " outside ", lv, "+-", vi(i).eps));
      }
    }
  });
}

using V3 = std::array<double, 3>;
V3 cross(const V3 &a, const V3 &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
double nrm(const V3 &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
V3 unit(V3 a)
{
  const double n = nrm(a);
  for (auto &x : a) x /= n;
  return a;
}
template<int dim> Point<dim> axis(Rng &g)
{
  Point<dim> a;
  for (;;) {
    const int m = g.pick(4);
    for (int i = 0; i < dim; ++i) a(i) = g.uni(-1, 1);
    if (m == 0) {// along a Cartesian direction, perhaps nearly
      const int k = g.pick(dim);
      const double e = g.chance(0.5) ? 0.0 : std::pow(10.0, g.uni(-9, -1));
      for (int i = 0; i < dim; ++i) a(i) = i == k ? g.sgn() : e * a(i);
    }
    const double s = g.chance(0.3) ? std::pow(10.0, g.uni(-6, 6)) : 1;
    double n = 0;
    for (int i = 0; i < dim; ++i) n += a(i) * a(i);
    if (n < 1e-2) continue;
    for (int i = 0; i < dim; ++i) a(i) *= s;
    return a;
  }
}

//! The map built from origin, axes and scales is origin + sum_i scale_i x_i e_i.
void built(Rng &g)
{
  const auto o2 = rp<2>(g), x2 = axis<2>(g);
  const double sx = std::pow(10.0, g.uni(-2, 2)), sy = std::pow(10.0, g.uni(-2, 2)), sz = std::pow(10.0, g.uni(-2, 2));
  mon::run_case("built2", str(vec(x2, 2), sx, " ", sy), [&] {
    const double n = std::hypot(x2(0), x2(1)), c = x2(0) / n, s = x2(1) / n;
    auto cmp = [&](const AffineTransf<2> &T, double a00, double a01, double a10, double a11, const Point<2> &o, const char *k) {
      for (int i = 0; i < 5; ++i) {
        const auto p = rp<2>(g);
        near<2>(T.transform_point(p), Point<2>(a00 * p(0) + a01 * p(1) + o(0), a10 * p(0) + a11 * p(1) + o(1)), 1e-12 * (1 + sx + sy), k);
      }
    };
    cmp(AffineTransf<2>(o2, x2, sx, sy), c * sx, -s * sy, s * sx, c * sy, o2, "built axes scales 2d");
    cmp(AffineTransf<2>(o2, x2), c, -s, s, c, o2, "built axes 2d");
    cmp(AffineTransf<2>(o2, sx), sx, 0, 0, sx, o2, "built scale 2d");
    cmp(AffineTransf<2>(o2), 1, 0, 0, 1, o2, "built origin 2d");
    cmp(AffineTransf<2>(), 1, 0, 0, 1, Point<2>(0.0, 0.0), "built identity 2d");
  });
  Point<3> o3 = rp<3>(g), ax, ay;
  V3 cr;
  do {
    ax = axis<3>(g), ay = axis<3>(g);
    cr = cross(unit({ ax(0), ax(1), ax(2) }), unit({ ay(0), ay(1), ay(2) }));
  } while (nrm(cr) < 1e-3);
  mon::run_case("built3", str(vec(ax, 3), vec(ay, 3), sx, " ", sy, " ", sz), [&] {
    const V3 e0 = unit({ ax(0), ax(1), ax(2) }), e2 = unit(cr), e1 = cross(e2, e0);
    auto cmp = [&](const AffineTransf<3> &T, double s0, double s1, double s2, const V3 &f0, const V3 &f1, const V3 &f2, const Point<3> &o, const char *k) {
      for (int i = 0; i < 5; ++i) {
        const auto p = rp<3>(g);
        Point<3> w;
        for (int d = 0; d < 3; ++d) w(d) = o(d) + s0 * p(0) * f0[d] + s1 * p(1) * f1[d] + s2 * p(2) * f2[d];
        near<3>(T.transform_point(p), w, 1e-10 * (1 + s0 + s1 + s2), k);
      }
    };
    const V3 X{ 1, 0, 0 }, Y{ 0, 1, 0 }, Z{ 0, 0, 1 };
    cmp(AffineTransf<3>(o3, ax, ay, sx, sy, sz), sx, sy, sz, e0, e1, e2, o3, "built axes scales 3d");
    cmp(AffineTransf<3>(o3, ax, ay), 1, 1, 1, e0, e1, e2, o3, "built axes 3d");
    cmp(AffineTransf<3>(o3, sx), sx, sx, sx, X, Y, Z, o3, "built scale 3d");
    cmp(AffineTransf<3>(o3), 1, 1, 1, X, Y, Z, o3, "built origin 3d");
    cmp(AffineTransf<3>(), 1, 1, 1, X, Y, Z, Point<3>(0.0, 0.0, 0.0), "built identity 3d");
  });
}

V3 v3(const Point<3> &p) { return { p(0), p(1), p(2) }; }
template<int dim> void ortho(const std::array<Point<dim>, dim> &b, const char *k)
{
  for (int i = 0; i < dim; ++i)
    for (int j = 0; j < dim; ++j) {
      double s = 0;
      for (int d = 0; d < dim; ++d) s += b[i](d) * b[j](d);
      mon::close(s, i == j, 1e-12, nm<dim>(k), str("axes ", i, ",", j));
    }
  if constexpr (dim == 2) mon::close(b[0](0) * b[1](1) - b[0](1) * b[1](0), 1, 1e-12, str("right-handed ", nm<dim>(k)));
  if constexpr (dim == 3) {
    const auto c = cross(v3(b[0]), v3(b[1]));
    mon::close(c[0] * b[2](0) + c[1] * b[2](1) + c[2] * b[2](2), 1, 1e-12, str("right-handed ", nm<dim>(k)));
  }
}
template<int dim> void along(const Point<dim> &e, const Point<dim> &a, const char *k)
{
  double n = 0;
  for (int d = 0; d < dim; ++d) n += a(d) * a(d);
  n = std::sqrt(n);
  Point<dim> u;
  for (int d = 0; d < dim; ++d) u(d) = a(d) / n;
  near<dim>(e, u, 1e-12, nm<dim>(k));
}
template<int dim> void systems(Rng &g)
{
  const auto o = rp<dim>(g), a = axis<dim>(g);
  mon::run_case(nm<dim>("systems"), str(vec(a, dim)), [&] {
    const RefSystem<dim> D, O(o), R(o, a);
    for (int i = 0; i < dim; ++i) chk(D.get_origin()(i) == 0 && O.get_origin()(i) == o(i) && R.get_origin()(i) == o(i), nm<dim>("origin"));
    for (auto *r : { &D, &O })
      for (int i = 0; i < dim; ++i)
        for (int j = 0; j < dim; ++j) chk(r->get_basis()[i](j) == (i == j), nm<dim>("Cartesian basis"));
    ortho<dim>(R.get_basis(), "basis");
    along<dim>(R.get_basis()[dim == 3 ? 2 : 0], a, "aligned");
    auto cart = [](const RefSystem<dim> &r) {
      double e = 0;
      for (int i = 0; i < dim; ++i) e = std::max(e, std::abs(r.get_basis()[i](i) - 1));
      return e;
    };
    chk(D.is_Cartesian_oriented() && O.is_Cartesian_oriented(), nm<dim>("Cartesian yes"));
    const double e = cart(R);
    if (e > 1e-12 || e == 0) chk(R.is_Cartesian_oriented() == (e == 0), nm<dim>(e == 0 ? "Cartesian detected" : "not Cartesian"));
    if constexpr (dim == 3) {
      Point<3> b;
      V3 cr;
      do {
        b = axis<3>(g);
        cr = cross(unit(v3(a)), unit(v3(b)));
      } while (nrm(cr) < 1e-3);
      const RefSystem<3> Q(o, a, b);
      ortho<3>(Q.get_basis(), "basis from two axes");
      along<3>(Q.get_basis()[0], a, "first axis aligned");
      const auto z = unit(cr);
      near<3>(Q.get_basis()[2], Point<3>(z[0], z[1], z[2]), 1e-9, "third axis normal to both");
      const auto p = create_reference_system_around_axis(a);
      const auto u = unit(v3(a));
      ortho<3>({ p.first, p.second, Point<3>(u[0], u[1], u[2]) }, "system around axis");
    }
  });
}

int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string s = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int n = std::atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    if (s == "map") maps<2>(g), maps<3>(g);
    else if (s == "built") built(g);
    else if (s == "sys") systems<1>(g), systems<2>(g), systems<3>(g);
    else return 9;
  }
  mon::count("cases", n);
  mon::finish();
}
