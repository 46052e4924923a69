// C05: built-in quadrature rules against independently computed ones.
//   geo_quad SECTION SEED N
#include "mon.hpp"
#include <qugar/bbox.hpp>
#include <qugar/quadrature.hpp>
#include <array>
using namespace qugar;
using mon::chk, mon::str, mon::vec, mon::Rng;
using ld = long double;

template<int dim> std::string nm(const char *s) { return str(s, dim, "d"); }

//! Gauss-Legendre nodes and weights in [0,1] by Newton's iteration.
void gauss(int n, std::vector<ld> &x, std::vector<ld> &w)
{
  x.resize(n), w.resize(n);
  const ld pi = std::acos((ld)-1);
  for (int i = 0; i < n; ++i) {
    ld z = -std::cos(pi * (i + (ld)0.75) / (n + (ld)0.5)), dp = 1;
    for (int it = 0; it < 100; ++it) {
      ld p0 = 1, p1 = z;
      for (int k = 2; k <= n; ++k) {
        const ld p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k;
        p0 = p1, p1 = p2;
      }
      if (n == 1) p0 = 1, p1 = z;
      dp = n * (z * p1 - p0) / (z * z - 1);
      const ld dz = p1 / dp;
      z -= dz;
      if (std::abs(dz) < 1e-19L) break;
    }
    x[i] = (1 + z) / 2, w[i] = 1 / ((1 - z * z) * dp * dp);
  }
}

void tables()
{
  for (int n = 1; n <= Gauss::n_max; ++n)
    mon::run_case("gauss_table", str("n=", n), [&] {
      std::vector<ld> x, w;
      gauss(n, x, w);
      ld s = 0;
      for (int i = 0; i < n; ++i) {
        const double a = Gauss::get_abscissa(n, i), b = Gauss::get_weight(n, i);
        mon::close(a, (double)x[i], 1e-15 * (double)x[i] + 1e-16, "gauss abscissa", str("n=", n, " i=", i));
        mon::close(b, (double)w[i], 1e-14 * (double)w[i], "gauss weight", str("n=", n, " i=", i));
        chk(b > 0 && a > 0 && a < 1, "gauss inside");
        s += b;
      }
      mon::close((double)s, 1, 1e-14, "gauss sum");
    });
  for (int n = 1; n <= TanhSinh::n_max; ++n)
    mon::run_case("tanh_sinh_table", str("n=", n), [&] {
      // x = (1 + tanh(pi/2 sinh t)) / 2 for equispaced t, w ~ dx/dt.
      const ld pi2 = std::acos((ld)-1) / 2;
      auto X = [&](int i) { return (ld)TanhSinh::get_abscissa(n, i); };
      auto T = [&](int i) { return std::asinh(std::log(X(i) / (1 - X(i))) / (2 * pi2)); };
      ld s = 0, e[9] = {}, tot = 0;
      const int h2 = n / 2;
      const ld h = n == 1 ? 1 : (n % 2 ? -T(h2 - 1) : -2 * T(h2 - 1));
      auto node = [&](int i) { return h * (i - (n - 1) / (ld)2); };
      auto dens = [&](int i) { const ld t = node(i), c = std::cosh(pi2 * std::sinh(t)); return std::cosh(t) / (c * c); };
      for (int i = 0; i < n; ++i) tot += dens(i);
      for (int i = 0; i < n; ++i) {
        const ld x = X(i), w = TanhSinh::get_weight(n, i);
        s += w;
        for (int k = 0; k < 9; ++k) e[k] += w * std::pow(x, k);
        chk(w > 0 && x > 0 && x <= 1, "tanh-sinh inside");
        if (i > 0) chk(x >= X(i - 1), "tanh-sinh ascending");
        mon::close((double)(x + X(n - 1 - i)), 1, 4e-16, "tanh-sinh symmetric points", str("n=", n, " i=", i));
        mon::close((double)w, TanhSinh::get_weight(n, n - 1 - i), 1e-15 * (double)w, "tanh-sinh symmetric weights", str("n=", n, " i=", i));
        if (i < h2) mon::close((double)T(i), (double)node(i), 1e-12 * (double)std::abs(node(i)), "tanh-sinh abscissa", str("n=", n, " i=", i));
        mon::close((double)w, (double)(dens(i) / tot), 1e-10 * (double)w, "tanh-sinh weight", str("n=", n, " i=", i));
      }
      mon::close((double)s, 1, 4e-15, "tanh-sinh sum");
      const double bound = std::max(1e-14, std::pow(10.0, 0.6 - 0.4 * n));
      for (int k = 0; k <= 5; ++k) mon::close((double)e[k], 1.0 / (k + 1), bound, "tanh-sinh convergence", str("n=", n, " degree ", k));
    });
}

template<int dim> void rules(Rng &g)
{
  const int kind = g.pick(6);// Gauss/tanh-sinh x {box, 01 per direction, 01 isotropic}
  const bool ts = kind >= 3;
  const int cap = dim == 1 ? 100 : dim == 2 ? 24 : 9;
  std::array<int, dim> n;
  for (auto &x : n) x = g.chance(0.3) ? g.in(1, 4) : g.in(1, cap);
  if (kind % 3 == 2) n.fill(n[0]);
  Point<dim> a, b;
  std::array<real, dim> aa, bb;
  double len[dim], vol = 1;
  for (int d = 0; d < dim; ++d) {
    const double sc = std::pow(10.0, g.uni(-3, 3));
    len[d] = sc * g.uni(0.5, 2), aa[d] = a(d) = g.chance(0.15) ? 0 : len[d] * g.uni(-6, 6), bb[d] = b(d) = a(d) + len[d];
    if (kind % 3) aa[d] = a(d) = 0, bb[d] = b(d) = 1;
    len[d] = b(d) - a(d), vol *= len[d];
  }
  mon::run_case(nm<dim>("rules"), str("kind ", kind, " n ", n[0], " ", n[dim - 1], " box ", vec(a, dim), vec(b, dim)), [&] {
    using Q = Quadrature<dim>;
    const BoundBox<dim> box(aa, bb);
    auto q = kind == 0 ? Q::create_Gauss(n, box) : kind == 1 ? Q::create_Gauss_01(n) : kind == 2 ? Q::create_Gauss_01(n[0])
             : kind == 3 ? Q::create_tanh_sinh(n, box) : kind == 4 ? Q::create_tanh_sinh_01(n) : Q::create_tanh_sinh_01(n[0]);
    const std::string fam = ts ? "tanh-sinh " : "Gauss ";
    std::size_t N = 1;
    for (auto x : n) N *= static_cast<std::size_t>(x);
    if (!chk(q->get_num_points() == N && q->points().size() == N && q->weights().size() == N, fam + nm<dim>("count"))) return;
    ld sum = 0;
    for (std::size_t k = 0; k < N; ++k) {
      std::size_t r = k;
      double w = vol;
      bool in = true;
      for (int d = 0; d < dim; ++d) {
        const int i = static_cast<int>(r % static_cast<std::size_t>(n[d]));
        r /= static_cast<std::size_t>(n[d]);
        const double x = ts ? TanhSinh::get_abscissa(n[d], i) : Gauss::get_abscissa(n[d], i);
        w *= ts ? TanhSinh::get_weight(n[d], i) : Gauss::get_weight(n[d], i);
        const double p = q->points()[k](d);
        in = in && p >= a(d) - 1e-15 * (std::abs(a(d)) + len[d]) && p <= b(d) + 1e-15 * (std::abs(a(d)) + len[d]);
        mon::close(p, a(d) + x * len[d], 1e-14 * (std::abs(a(d)) + len[d]), fam + nm<dim>("lexicographic point"), str("point ", k, " direction ", d));
      }
      chk(in, fam + nm<dim>("inside box"), str("point ", k, vec(q->points()[k], dim)));
      chk(q->weights()[k] > 0, fam + nm<dim>("positive weight"), str("weight ", q->weights()[k]));
      mon::close(q->weights()[k], w, 1e-13 * w, fam + nm<dim>("weight"), str("point ", k));
      sum += q->weights()[k];
    }
    mon::close((double)sum / vol, 1, 1e-12, fam + nm<dim>("weights sum to measure"));
    for (int rep = 0; rep < 4; ++rep) {
      int deg[dim];
      double want = vol, cnd = 1;
      for (int d = 0; d < dim; ++d) {
        deg[d] = ts ? g.in(0, 4) : (g.chance(0.4) ? 2 * n[d] - 1 : g.pick(2 * n[d]));
        want /= deg[d] + 1;
        cnd += deg[d] * (deg[d] + 1) * (1 + std::abs(a(d)) / len[d]);
      }
      ld got = 0;
      for (std::size_t k = 0; k < N; ++k) {
        ld f = q->weights()[k];
        for (int d = 0; d < dim; ++d) f *= std::pow(((ld)q->points()[k](d) - a(d)) / len[d], deg[d]);
        got += f;
      }
      double tol = 1e-14 * cnd + 1e-12;
      if (ts)
        for (auto x : n) tol += 10 * std::pow(10.0, 0.6 - 0.4 * x);
      mon::close((double)got / want, 1, tol, fam + nm<dim>("exact for polynomials"), str("degrees ", deg[0], "..", deg[dim - 1]));
    }
    const auto w0 = q->weights();
    const double ratio = g.uni(0.1, 3);
    q->scale_weights(ratio);
    bool ok = true;
    for (std::size_t k = 0; k < N; ++k) ok = ok && std::abs(q->weights()[k] - ratio * w0[k]) <= 1e-15 * ratio * w0[k];
    chk(ok, nm<dim>("scale_weights"));
  });
}

int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string s = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int n = std::atoi(argv[3]);
  if (s == "tables") tables();
  else if (s == "rules")
    for (int i = 0; i < n; ++i) rules<1>(g), rules<2>(g), rules<3>(g);
  else return 9;
  mon::count("cases", n);
  mon::finish();
}
