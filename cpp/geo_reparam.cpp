// C10: reparameterizations of random unfitted domains, and the operations on their meshes.
//   geo_reparam SECTION SEED N      SECTION = solid | surf | facet | api | lagrange
#include "dom.hpp"
#include <algoim/bernstein.hpp>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/impl_utils.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/reparam_mesh.hpp>
#include <qugar/tolerance.hpp>
#include <filesystem>
#include <fstream>
using namespace qugar;
using namespace qugar::impl;
using namespace dom;
using mon::chk;

template<int dim> using UD = UnfittedImplDomain<dim>;
template<int pd, int dim> using Mesh = ReparamMesh<pd, dim>;
template<int dim> std::string nm(const Dom<dim> &D, const std::string &s) { return str(s, D.bz ? " bezier " : " general ", dim, "d"); }

//! Nodes announced for an order: equally spaced, or Chebyshev from order 7 on.
double node(int i, int n) { return n >= 7 ? algoim::bernstein::modifiedChebyshevNode(i, n) : double(i) / (n - 1); }
//! Own Lagrange polynomials and derivatives at t for arbitrary nodes.
void lag(const std::vector<double> &x, double t, std::vector<double> &v, std::vector<double> &d)
{
  const std::size_t n = x.size();
  v.assign(n, 1), d.assign(n, 0);
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = 0; j < n; ++j) {
      if (j == i) continue;
      v[i] *= (t - x[j]) / (x[i] - x[j]);
      double p = 1 / (x[i] - x[j]);
      for (std::size_t k = 0; k < n; ++k)
        if (k != i && k != j) p *= (t - x[k]) / (x[i] - x[k]);
      d[i] += p;
    }
  }
}
std::vector<double> nodes(int n)
{
  std::vector<double> x;
  for (int i = 0; i < n; ++i) x.push_back(node(i, n));
  return x;
}
//! Position and tangents of a cell at a parametric point.
template<int pd, int dim> struct Eval
{
  Point<dim> x{};
  std::array<Point<dim>, pd> t{};
  //! Signed determinant, or the length of the normal for hypersurfaces.
  double det() const
  {
    if constexpr (pd == dim) {
      if constexpr (dim == 2) return t[0](0) * t[1](1) - t[0](1) * t[1](0);
      else return t[0](0) * (t[1](1) * t[2](2) - t[1](2) * t[2](1)) - t[0](1) * (t[1](0) * t[2](2) - t[1](2) * t[2](0)) + t[0](2) * (t[1](0) * t[2](1) - t[1](1) * t[2](0));
    } else {
      const auto n = normal();
      double s = 0;
      for (int i = 0; i < dim; ++i) s += n(i) * n(i);
      return std::sqrt(s);
    }
  }
  Point<dim> normal() const
  {
    Point<dim> n;
    if constexpr (pd == 1) n(0) = t[0](1), n(1) = -t[0](0);
    if constexpr (pd == 2 && dim == 3)
      for (int i = 0; i < 3; ++i) n(i) = t[0]((i + 1) % 3) * t[1]((i + 2) % 3) - t[0]((i + 2) % 3) * t[1]((i + 1) % 3);
    return n;
  }
};
template<int pd, int dim, class M> Eval<pd, dim> eval(const M &m, std::size_t c, const std::array<std::vector<double>, pd> &v, const std::array<std::vector<double>, pd> &d)
{
  Eval<pd, dim> e;
  for (int k = 0; k < dim; ++k) {
    e.x(k) = 0;
    for (auto &t : e.t) t(k) = 0;
  }
  const int n = m.get_order();
  const std::size_t np = m.get_num_points_per_cell();
  for (std::size_t q = 0; q < np; ++q) {
    std::array<int, pd> id;
    for (int i = 0, r = int(q); i < pd; ++i, r /= n) id[std::size_t(i)] = r % n;
    const auto &P = m.get_points()[m.get_connectivity()[c * np + q]];
    for (int a = -1; a < pd; ++a) {
      double w = 1;
      for (int i = 0; i < pd; ++i) w *= (a == i ? d : v)[std::size_t(i)][std::size_t(id[std::size_t(i)])];
      for (int k = 0; k < dim; ++k) (a < 0 ? e.x : e.t[std::size_t(a)])(k) += w * P(k);
    }
  }
  return e;
}
struct Sum
{
  double m = 0;// measure
  double mn = 1e300, mx = -1e300;// determinants
  std::array<double, 3> x{}, fl{};// first moments, flux of the normal
  double xn = 0;// flux of the position
};
//! Integrals over one cell of the mesh.
template<int pd, int dim, class M, class F> Sum integrate(const M &m, std::size_t c, F &&visit)
{
  const int n = m.get_order();
  const auto x = nodes(n);
  const int g = std::min(24, (pd * (n - 1) + 1) / 2 + 2);
  const auto &G = gauss(g);
  static thread_local std::map<int, std::vector<std::pair<std::vector<double>, std::vector<double>>>> memo;
  auto &L = memo[n];
  if (L.empty())
    for (int i = 0; i < g; ++i) {
      L.emplace_back();
      lag(x, G[std::size_t(i)].first, L.back().first, L.back().second);
    }
  Sum s;
  for (int q = 0; q < std::pow(g, pd) - 0.5; ++q) {
    std::array<std::vector<double>, pd> v, d;
    double w = 1;
    for (int i = 0, r = q; i < pd; ++i, r /= g) {
      const auto k = std::size_t(r % g);
      v[std::size_t(i)] = L[k].first, d[std::size_t(i)] = L[k].second;
      w *= G[k].second;
    }
    const auto e = eval<pd, dim>(m, c, v, d);
    const double J = e.det();
    visit(e);
    s.m += w * J;
    s.mn = std::min(s.mn, J), s.mx = std::max(s.mx, J);
    for (int k = 0; k < dim; ++k) s.x[std::size_t(k)] += w * J * e.x(k);
    if constexpr (pd < dim) {
      const auto nn = e.normal();
      for (int k = 0; k < dim; ++k) s.fl[std::size_t(k)] += w * nn(k), s.xn += w * nn(k) * e.x(k);
    }
  }
  return s;
}
template<int pd, int dim, class M> Eval<pd, dim> middle(const M &m, std::size_t c)
{
  std::array<std::vector<double>, pd> v, d;
  lag(nodes(m.get_order()), 0.5, v[0], d[0]);
  for (std::size_t i = 1; i < pd; ++i) v[i] = v[0], d[i] = d[0];
  return eval<pd, dim>(m, c, v, d);
}
//! Sizes and references, without which nothing else can be judged.
template<int pd, int dim, class M> bool wellformed(const M &m, int n, const std::string &suf, const std::string &w)
{
  const std::size_t np = std::size_t(std::lround(std::pow(n, pd)));
  bool ok = chk(m.get_order() == n, "order" + suf, w);
  ok &= chk(m.get_num_points_per_cell() == np, "points per cell" + suf, w);
  ok &= chk(m.get_connectivity().size() == m.get_num_cells() * np, "cells have the announced number of points" + suf, w);
  ok &= chk(m.get_num_points() == m.get_points().size(), "number of points" + suf, w);
  ok &= chk(m.get_wires_connectivity().size() % std::size_t(n) == 0, "wires have the announced number of points" + suf, w);
  bool in = true;
  for (const auto i : m.get_connectivity()) in = in && i < m.get_num_points();
  ok &= chk(in, "connectivity refers to existing points" + suf, w);
  in = true;
  for (const auto i : m.get_wires_connectivity()) in = in && i < m.get_num_points();
  ok &= chk(in, "wires refer to existing points" + suf, w);
  return ok;
}
using Wire = std::vector<std::size_t>;
Wire canon(Wire w)
{
  Wire r(w.rbegin(), w.rend());
  return std::min(w, r);
}
template<class M> std::vector<Wire> wires(const M &m)
{
  std::vector<Wire> r;
  const auto &w = m.get_wires_connectivity();
  const auto n = std::size_t(m.get_order());
  for (std::size_t i = 0; i + n <= w.size(); i += n) r.push_back(canon(Wire(w.begin() + std::ptrdiff_t(i), w.begin() + std::ptrdiff_t(i + n))));
  return r;
}
//! Edges of a cell as point indices.
template<int pd, class M> std::vector<Wire> edges(const M &m, std::size_t c)
{
  std::vector<Wire> r;
  const int n = m.get_order();
  const auto np = m.get_num_points_per_cell();
  for (int dir = 0; dir < pd; ++dir)
    for (int q = 0; q < (1 << (pd - 1)); ++q) {
      Wire w;
      for (int j = 0; j < n; ++j) {
        std::size_t f = 0, st = 1;
        for (int i = 0, k = 0; i < pd; ++i, st *= std::size_t(n)) f += st * std::size_t(i == dir ? j : (q >> k++ & 1) * (n - 1));
        w.push_back(m.get_connectivity()[c * np + f]);
      }
      r.push_back(canon(w));
    }
  return r;
}
template<int dim> double dist(const Point<dim> &a, const Point<dim> &b)
{
  double s = 0;
  for (int i = 0; i < dim; ++i) s = std::max(s, std::abs(a(i) - b(i)));
  return s;
}
//! Merging keeps every cell's and wire's coordinates and leaves neither duplicate nor unreferenced points.
template<int pd, int dim, class M> void merging(const M &a, const M &b, double tol, const std::string &suf, const std::string &w)
{
  if (!wellformed<pd, dim>(b, a.get_order(), suf, w + "merged ")) return;
  if (!chk(a.get_num_cells() == b.get_num_cells(), "merging keeps the cells" + suf, w)) return;
  double dm = 0;
  std::vector<char> used(b.get_num_points(), 0), ref0(a.get_num_points(), 0);
  bool func = true;
  std::vector<std::size_t> to(a.get_num_points(), std::size_t(-1));
  for (std::size_t i = 0; i < a.get_connectivity().size(); ++i) {
    const auto p = a.get_connectivity()[i], q = b.get_connectivity()[i];
    dm = std::max(dm, dist<dim>(a.get_points()[p], b.get_points()[q]));
    used[q] = 1, ref0[p] = 1;
    func = func && (to[p] == std::size_t(-1) || to[p] == q);
    to[p] = q;
  }
  chk(func, "merging is consistent" + suf, w);
  chk(dm <= 20 * tol, "merging keeps the coordinates" + suf, str(w, dm));
  bool all0 = true, all1 = true;
  for (const char c : ref0) all0 = all0 && c;
  for (const char c : used) all1 = all1 && c;
  if (all0) chk(all1, "no unreferenced points after merging" + suf, w);
  // no two points closer than the tolerance
  std::vector<std::size_t> o(b.get_num_points());
  for (std::size_t i = 0; i < o.size(); ++i) o[i] = i;
  std::sort(o.begin(), o.end(), [&](auto i, auto j) { return b.get_points()[i](0) < b.get_points()[j](0); });
  bool dup = false;
  for (std::size_t i = 0; i < o.size(); ++i)
    for (std::size_t j = i + 1; j < o.size() && b.get_points()[o[j]](0) - b.get_points()[o[i]](0) <= tol; ++j) dup = dup || dist<dim>(b.get_points()[o[i]], b.get_points()[o[j]]) <= 0.9 * tol;
  chk(!dup, "no duplicate points after merging" + suf, w);
  // wires: the images of the old ones, once
  std::set<Wire> want;
  bool known = true;
  for (auto x : wires(a)) {
    for (auto &i : x) known = known && to[i] != std::size_t(-1), i = to[i];
    want.insert(canon(x));
  }
  if (!known) return;
  const auto got = wires(b);
  const std::set<Wire> gs(got.begin(), got.end());
  chk(gs.size() == got.size(), "no duplicate wires after merging" + suf, str(w, got.size(), " wires, ", gs.size(), " distinct"));
  chk(gs == want, "merging keeps the wires" + suf, str(w, gs.size(), " expected ", want.size()));
}
template<int dim> double cut_measure(const Dom<dim> &D, Id c, bool &exact)
{
  exact = D.plane;
  if (D.plane) {
    Point<dim> a;
    double b = 0;
    for (int d = 0; d < dim; ++d) a(d) = D.nrm(d) * D.len(c, d), b += D.nrm(d) * (D.o(d) - D.lo(c, d));
    return D.vol(c) * half<dim>(a, b, [](const auto &) { return 1.0; });
  }
  return D.vol(c) * moments<dim>([&](const Point<dim> &X) { return D.at(c, X); }, dim == 2 ? 60 : 10)[0];
}
template<int dim> bool in_box(const Dom<dim> &D, Id c, const Point<dim> &p)
{
  for (int d = 0; d < dim; ++d)
    if (p(d) < D.lo(c, d) - 1e-11 || p(d) > D.lo(c, d) + D.len(c, d) + 1e-11) return false;
  return true;
}
//! A wire lies on an edge of the cell's box, on a face (maybe only its ends) and the level set, or (2D) on the level set.
template<int dim> bool wire_ok(const Dom<dim> &D, Id c, const std::vector<Point<dim>> &pts, double s, double tol = 1e-10, bool ends = false)
{
  int common = 0;
  for (int d = 0; d < dim; ++d)
    for (int e = 0; e < 2; ++e) {
      const double b = D.lo(c, d) + (e ? D.len(c, d) : 0);
      bool all = true;
      for (std::size_t i = 0; i < pts.size(); ++i) all = all && ((ends && i > 0 && i + 1 < pts.size()) || std::abs(pts[i](d) - b) <= tol);
      common += all;
    }
  bool lev = true;
  for (const auto &p : pts) lev = lev && std::abs((*D.f)(p)) <= 1e-9 * s + tol;
  return common >= dim - 1 || (lev && common >= dim - 2);
}
const int KEEP = 40;
//! Accuracy of the measures of curved pieces, as fractions of those of the cell.
double tol_n(int n, bool soft) { return soft ? (n == 2 ? 0.25 : n == 3 ? 0.05 : 0.02) : n == 2 ? 0.7 : n == 3 ? 0.3 : n == 4 ? 0.2 : 0.1; }
//! Bezier points away from gentle interfaces: the library may interpolate, rarely.
long loose_pts[2] = {};
template<int dim> bool cornered(const Dom<dim> &D) { return D.d.find("square") != std::string::npos; }
//! Whether directions spread by more than some 30 degrees around their mean.
template<int dim> bool turns(const std::vector<Point<dim>> &v)
{
  Point<dim> m;
  double s = 0, lo = 1;
  for (int i = 0; i < dim; ++i) {
    m(i) = 0;
    for (const auto &x : v) m(i) += x(i);
    s += m(i) * m(i);
  }
  s = std::max(std::sqrt(s), 1e-300);
  for (const auto &x : v) {
    double a = 0;
    for (int i = 0; i < dim; ++i) a += x(i) * m(i) / s;
    lo = std::min(lo, a);
  }
  return lo < 0.85;
}
template<int dim, bool S> void reparam(Rng &g, const Dom<dim> &D)
{
  constexpr int pd = S ? dim - 1 : dim;
  const auto K = [&](const char *s) { return nm(D, s); };
  const UD<dim> u(D.f, D.grid);
  const int n = g.chance(0.7) ? g.in(2, 6) : g.in(7, dim == 2 ? 10 : 8);
  const std::string suf = nm(D, S ? " levelset" : " solid");
  std::vector<Id> cells;
  for (Id c = 0; c < D.cells(); ++c) cells.push_back(c);
  const bool subset = g.chance(0.4);
  if (subset) {
    std::shuffle(cells.begin(), cells.end(), g.g);
    cells.resize(std::size_t(g.in(0, int(cells.size()))));
  }
  const std::string qd = str("order ", n, " ");
  const auto all = subset ? create_reparameterization<dim, S>(u, cells, n, false) : create_reparameterization<dim, S>(u, n, false);
  const auto mrg = subset ? create_reparameterization<dim, S>(u, cells, n, true) : create_reparameterization<dim, S>(u, n, true);
  if (!wellformed<pd, dim>(*all, n, suf, qd)) return;
  merging<pd, dim>(*all, *mrg, 1e4 * std::numeric_limits<double>::epsilon(), suf, qd);
  const std::set<Id> in(cells.begin(), cells.end());
  // the mesh of many cells is made of the meshes of each
  std::vector<Point<dim>> pts;
  std::vector<std::size_t> con, wir;
  double total = 0, want = 0;
  int done = 0;
  for (const int pass : { 0, 1 })
    for (const Id c : in) {
      if (u.is_empty_cell(c) || (pass == 0) != u.is_cut_cell(c)) {
        if (pass == 0 && u.is_empty_cell(c)) chk(create_reparameterization<dim, S>(u, std::vector<Id>{ c }, n, false)->get_num_cells() == 0, K("empty cells give no cells"), qd);
        continue;
      }
      const auto m = create_reparameterization<dim, S>(u, std::vector<Id>{ c }, n, false);
      const std::string w = str(qd, "cell ", c, " ");
      if (!wellformed<pd, dim>(*m, n, suf, w)) continue;
      for (const auto i : m->get_connectivity()) con.push_back(i + pts.size());
      for (const auto i : m->get_wires_connectivity()) wir.push_back(i + pts.size());
      pts.insert(pts.end(), m->get_points().begin(), m->get_points().end());
      const double s = variation(D, c);
      for (const auto &p : m->get_points()) {
        chk(in_box<dim>(D, c, p), K("points in the cell"), str(w, vec(p, dim)));
      }
      const bool soft = !cornered(D) && u.is_cut_cell(c) && gentle(D, c);
      // points strictly on the interface, but where the library has to interpolate or subdivides around corners
      const bool strict = soft || !D.bz;
      const double tp = strict ? (soft || dim == 2 ? 1e-9 : 2e-3) : 0.2;
      // wires
      std::set<Wire> es;
      for (std::size_t k = 0; k < m->get_num_cells(); ++k)
        for (const auto &e : edges<pd>(*m, k)) es.insert(e);
      const auto ws = wires(*m);
      bool sub = true;
      for (const auto &x : ws) {
        sub = sub && es.count(x);
        std::vector<Point<dim>> wp;
        for (const auto i : x) wp.push_back(m->get_points()[i]);
        chk(wire_ok<dim>(D, c, wp, s * (soft || dim == 2 ? 1 : tp / 1e-9), 1e-10, D.bz && !soft), K("wires on the boundary"), str(w, "from ", vec(wp.front(), dim), " to ", vec(wp.back(), dim)));
      }
      chk(sub, K("wires are edges of the cells"), w);
      if (pd > 1 && s < 20) {
        const std::set<Wire> have(ws.begin(), ws.end());
        for (const auto &x : es) {
          std::vector<Point<dim>> wp;
          double len = 0;
          for (const auto i : x) wp.push_back(m->get_points()[i]), len = std::max(len, dist<dim>(wp.front(), wp.back()));
          if (len > 1e-8 && wire_ok<dim>(D, c, wp, 0, 1e-13)) chk(have.count(x), K("edges on the boundary are wires"), str(w, "from ", vec(wp.front(), dim), " to ", vec(wp.back(), dim)));
        }
      }
      if (u.is_full_cell(c)) {
        if (S) {
          chk(m->get_num_cells() == 0, K("full cells have no level set"), w);
          continue;
        }
        chk(m->get_num_cells() == 1 && m->get_num_points() == m->get_num_points_per_cell(), K("full cells give one cell"), w);
        chk(ws.size() == (dim == 2 ? 4 : 12), K("full cells give all their edges"), str(w, ws.size()));
        bool lat = true;
        for (std::size_t q = 0; q < m->get_num_points(); ++q) {
          Point<dim> X;
          for (int i = 0, r = int(q); i < dim; ++i, r /= n) X(i) = node(r % n, n);
          lat = lat && dist<dim>(D.map(c, X), m->get_points()[m->get_connectivity()[q]]) < 1e-12;
        }
        chk(lat, K("full cells give a lattice"), w);
        total += D.vol(c), want += D.vol(c);
        continue;
      }
      if (done++ >= KEEP) continue;
      if (soft) mon::see(K("gently curved interface"));
      if (!cornered(D))
        for (const auto &p : m->get_points()) {
          const double v = (*D.f)(p), e = (S ? std::abs(v) : v) / s;
          if (!soft && (D.bz || dim == 3)) ++loose_pts[e > 1e-6];
          chk(e <= tp, K(S ? "points on the level set" : "points in the domain"), str(w, vec(p, dim), " value ", v, " variation ", s));
        }
      Sum t;
      bool resolved = true;// every piece follows the direction of the interface
      for (std::size_t k = 0; k < m->get_num_cells(); ++k) {
        double lo = 1, hi = -1;// cosines between normal and gradient
        std::vector<Point<dim>> grads;
        const auto e = integrate<pd, dim>(*m, k, [&](const auto &q) {
          if constexpr (S) {
            const auto nn = q.normal();
            const auto gr = D.f->grad(q.x);
            double a = 0, b = 0;
            for (int i = 0; i < dim; ++i) a += nn(i) * gr(i), b += gr(i) * gr(i);
            grads.push_back(gr * (1 / std::max(std::sqrt(b), 1e-300)));
            a /= std::max(q.det() * std::sqrt(b), 1e-300);
            lo = std::min(lo, a), hi = std::max(hi, a);
          }
        });
        if constexpr (!S) {
          if (e.mn > 0 || e.mx < 0) chk(e.mn > 0, K("cells positively oriented"), str(w, "piece ", k, " determinants ", e.mn, " to ", e.mx));
          else mon::see(K("folded cell"));
        } else if (!turns<dim>(grads) && (lo > 0.3 || hi < -0.3)) chk(lo > 0, K("level set cells oriented outwards"), str(w, "piece ", k, " cosines ", lo, " to ", hi));
        else {
          resolved = false;
          if (dim == 2 && (D.plane || soft)) chk(hi - lo < 1.3, K("level set cells do not fold"), str(w, "piece ", k, " cosines ", lo, " to ", hi));
          mon::see(K("folded level set cell"));
        }
        t.m += e.m, t.xn += e.xn;
        for (std::size_t i = 0; i < 3; ++i) t.fl[i] += e.fl[i];
      }
      const double tn = std::max(tol_n(n, soft), dim == 3 && cornered(D) ? 0.3 : 0.0);
      const char *const kind = D.plane ? "plane" : soft ? "soft" : "hard";
      const auto ebin = [&](const char *what, double e) { mon::see(str(what, " ", dim, D.bz, " ", kind, " order ", n, " 1e", std::abs(e) > 1e-15 ? int(std::floor(std::log10(std::abs(e)))) : -16)); };
      bool exact;
      const double vol = cut_measure(D, c, exact);
      if constexpr (!S) {
        total += t.m, want += vol;
        ebin("verr", (t.m - vol) / D.vol(c));
        mon::close(t.m / D.vol(c), vol / D.vol(c), D.plane ? 1e-9 : tn, K("measure"), w);
      } else {
        double xn = dim * vol;// flux of the position from the volume and the faces
        double mxa = 0;
        for (int d = 0; d < dim; ++d) {
          double fm[2];
          for (int e = 0; e < 2; ++e) {
            const auto fx = [&](const Point<dim - 1> &Y) {
              Point<dim> X;
              for (int i = 0, k = 0; i < dim; ++i) X(i) = i == d ? e : Y(k++);
              return D.at(c, X);
            };
            const double area = D.vol(c) / D.len(c, d);
            if (D.plane) {
              Point<dim - 1> a;
              double b = 0;
              for (int i = 0, k = 0; i < dim; ++i) {
                b += D.nrm(i) * (D.o(i) - D.lo(c, i));
                if (i == d) b -= D.nrm(i) * D.len(c, i) * e;
                else a(k++) = D.nrm(i) * D.len(c, i);
              }
              fm[e] = area * half<dim - 1>(a, b, [](const auto &) { return 1.0; });
            } else fm[e] = area * moments<dim - 1>(fx, 40)[0];
            xn -= (e ? 1 : -1) * fm[e] * (D.lo(c, d) + e * D.len(c, d));
          }
          const double r = fm[0] - fm[1], area = D.vol(c) / D.len(c, d);
          mxa = std::max(mxa, area);
          ebin("ferr", (t.fl[std::size_t(d)] - r) / area);
          if (D.plane || soft || resolved) mon::close(t.fl[std::size_t(d)] / area, r / area, D.plane ? 1e-9 : dim == 2 ? (soft ? 1e-9 : 0.05) : tn, K("flux"), str(w, "direction ", d));
        }
        ebin("xerr", (t.xn - xn) / mxa);
        if (D.plane || soft || resolved) mon::close(t.xn / mxa, xn / mxa, D.plane ? 1e-9 : 2 * tn, K("flux of the position"), w);
      }
    }
  bool same = pts.size() == all->get_num_points() && con == all->get_connectivity() && wir == all->get_wires_connectivity();
  for (std::size_t i = 0; same && i < pts.size(); ++i)
    for (int d = 0; d < dim; ++d) same = same && pts[i](d) == all->get_points()[i](d);
  chk(same, K("the mesh is made of those of its cells"), str(qd, pts.size(), " points expected, got ", all->get_num_points(), "; wires ", wir.size(), " ", all->get_wires_connectivity().size()));
}
// ---------------------------------------------------------------- direct calls
template<class A, class B> bool same_mesh(const A &a, const B &b)
{
  if (a.get_connectivity() != b.get_connectivity() || a.get_wires_connectivity() != b.get_wires_connectivity() || a.get_num_points() != b.get_num_points()) return false;
  for (std::size_t i = 0; i < a.get_num_points(); ++i)
    for (int d = 0; d < int(sizeof(a.get_points()[0]) / sizeof(double)); ++d)
      if (a.get_points()[i](d) != b.get_points()[i](d)) return false;
  return true;
}
//! One box at a time, whatever its state; appending to a mesh; and the facets of the box.
template<int dim, bool S> void direct(Rng &g, const Dom<dim> &D)
{
  constexpr int pd = S ? dim - 1 : dim;
  const auto K = [&](const char *s) { return nm(D, s); };
  const UD<dim> u(D.f, D.grid);
  const int n = g.chance(0.8) ? g.in(2, 5) : 7;
  const auto bz = std::dynamic_pointer_cast<const BezierTP<dim, 1>>(D.f);
  ImplReparamMesh<pd, dim> acc(n), one(n);
  int k = 0;
  for (Id c = 0; c < D.cells() && k < 12; ++c) {
    if (!u.is_cut_cell(c) && g.chance(0.5)) continue;
    ++k;
    const auto box = D.grid->get_cell_domain(c);
    std::shared_ptr<ImplReparamMesh<pd, dim>> m;
    if (bz) {
      BezierTP<dim, 1> b(*bz);
      b.rescale_domain(box);
      m = reparam_Bezier<dim, S>(b, box, n);
      reparam_Bezier<dim, S>(b, box, acc);
    } else {
      m = reparam_general<dim, S>(*D.f, box, n);
      reparam_general<dim, S>(*D.f, box, acc);
    }
    one.merge(*m);
    const std::string w = str("order ", n, " cell ", c, " ");
    if (u.is_cut_cell(c)) chk(same_mesh(*m, *create_reparameterization<dim, S>(u, std::vector<Id>{ c }, n, false)), K("direct mesh of a cut cell"), w);
    else if (u.is_empty_cell(c) || S) chk(m->get_num_cells() == 0, K("direct mesh of an uncut cell is empty"), str(w, m->get_num_cells()));
    else {
      double t = 0, mn = 1;
      for (std::size_t i = 0; i < m->get_num_cells(); ++i) {
        const auto e = integrate<pd, dim>(*m, i, [](const auto &) {});
        t += e.m, mn = std::min(mn, e.mn);
      }
      mon::close(t / D.vol(c), 1, 1e-9, K("direct mesh of a full cell"), w);
      chk(mn > 0, K("direct full cells positively oriented"), w);
      bool in = true;
      for (const auto &p : m->get_points()) in = in && in_box<dim>(D, c, p);
      chk(in, K("direct full points in the cell"), w);
    }
  }
  chk(same_mesh(acc, one), K("appending equals merging"), str("order ", n));
}
template<int dim> void facet_mesh(Rng &g, const Dom<dim> &D)
{
  const auto K = [&](const char *s) { return nm(D, s); };
  const int n = g.chance(0.8) ? g.in(2, 6) : g.in(7, 8);
  ImplReparamMesh<dim - 1, dim> acc(n), one(n);
  for (int k = 0; k < 10; ++k) {
    const Id c = g.pick(int(D.cells()));
    const int lf = g.pick(2 * dim), d = lf / 2;
    const auto box = D.grid->get_cell_domain(c);
    const auto m = reparam_general_facet<dim>(*D.f, box, lf, n);
    reparam_general_facet<dim>(*D.f, box, lf, acc);
    one.merge(*m);
    const std::string w = str("order ", n, " cell ", c, " facet ", lf, " ");
    if (!wellformed<dim - 1, dim>(*m, n, nm(D, " facet"), w)) continue;
    const double s = variation(D, c);
    const double pos = D.lo(c, d) + (lf % 2) * D.len(c, d), area = D.vol(c) / D.len(c, d);
    for (const auto &p : m->get_points()) {
      chk(in_box<dim>(D, c, p) && std::abs(p(d) - pos) < 1e-12, K("points on the facet"), str(w, vec(p, dim)));
      if (!cornered(D)) chk((*D.f)(p) <= 1e-3 * s, K("facet points in the domain"), str(w, vec(p, dim), " value ", (*D.f)(p)));
    }
    double fl = 0, lo = 1e300;
    for (std::size_t i = 0; i < m->get_num_cells(); ++i) {
      double a = 1e300, b = -1e300;
      const auto e = integrate<dim - 1, dim>(*m, i, [&](const auto &q) {
        const double z = q.normal()(d) * (lf % 2 ? 1 : -1);
        a = std::min(a, z), b = std::max(b, z);
      });
      if (a > 0 || b < 0) chk(a > 0, K("facet cells oriented outwards"), str(w, "piece ", i));
      fl += e.fl[std::size_t(d)] * (lf % 2 ? 1 : -1);
      lo = std::min(lo, a);
    }
    double ref;
    const auto fx = [&](const Point<dim - 1> &Y) {
      Point<dim> X;
      for (int i = 0, q = 0; i < dim; ++i) X(i) = i == d ? lf % 2 : Y(q++);
      return D.at(c, X);
    };
    bool soft = false;
    if (D.plane) {
      Point<dim - 1> a;
      double b = 0;
      for (int i = 0, q = 0; i < dim; ++i) {
        b += D.nrm(i) * (D.o(i) - D.lo(c, i));
        if (i == d) b -= D.nrm(i) * D.len(c, i) * (lf % 2);
        else a(q++) = D.nrm(i) * D.len(c, i);
      }
      ref = half<dim - 1>(a, b, [](const auto &) { return 1.0; });
    } else ref = moments<dim - 1>(fx, 40)[0];
    mon::see(str("facerr ", dim, " ", D.plane, " order ", n, " 1e", std::abs(fl / area - ref) > 1e-15 ? int(std::floor(std::log10(std::abs(fl / area - ref)))) : -16));
    mon::close(fl / area, ref, D.plane ? 1e-9 : dim == 2 ? 1e-6 : tol_n(n, soft), K("facet measure"), w);
    mon::see(K(ref < 1e-9 ? "empty facet" : ref > 1 - 1e-9 ? "full facet" : "cut facet"));
    for (const auto &x : wires(*m)) {
      std::vector<Point<dim>> wp;
      for (const auto i : x) wp.push_back(m->get_points()[i]);
      chk(wire_ok<dim>(D, c, wp, s), K("facet wires on the boundary"), str(w, "from ", vec(wp.front(), dim), " to ", vec(wp.back(), dim)));
    }
  }
  chk(same_mesh(acc, one), K("appending facets equals merging"), str("order ", n));
}
// ---------------------------------------------------------------- mesh operations against a model
//! Position of a lattice point in VTK's ordering (file versions below 2.1).
int vtk_pos(int pd, int n, const std::array<int, 3> &id)
{
  const int o = n - 1;
  if (pd == 1) return id[0] == 0 ? 0 : id[0] == o ? 1 : id[0] + 1;
  const int i = id[0], j = id[1], k = pd == 3 ? id[2] : 0;
  const bool ib = i == 0 || i == o, jb = j == 0 || j == o, kb = pd == 2 || k == 0 || k == o;
  if (ib && jb && kb) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (pd == 3 && k ? 4 : 0);
  int off = pd == 2 ? 4 : 8;
  if (ib + jb + kb == 2 && !(pd == 2 && !ib && !jb)) {
    if (!ib) return i - 1 + (j ? 2 * (o - 1) : 0) + (k ? 4 * (o - 1) : 0) + off;
    if (!jb) return j - 1 + (i ? o - 1 : 3 * (o - 1)) + (k ? 4 * (o - 1) : 0) + off;
    return off + 8 * (o - 1) + k - 1 + (o - 1) * (i ? (j ? 3 : 1) : (j ? 2 : 0));
  }
  const int q = (o - 1) * (o - 1);
  if (pd == 2) return off + 4 * (o - 1) + i - 1 + (o - 1) * (j - 1);
  off += 12 * (o - 1);
  if (ib + jb + kb == 1) {
    if (ib) return off + j - 1 + (o - 1) * (k - 1) + (i ? q : 0);
    if (jb) return off + 2 * q + i - 1 + (o - 1) * (k - 1) + (j ? q : 0);
    return off + 4 * q + i - 1 + (o - 1) * (j - 1) + (k ? q : 0);
  }
  return off + 6 * q + i - 1 + (o - 1) * (j - 1 + (o - 1) * (k - 1));
}
std::string attr(const std::string &t, const std::string &name, std::size_t from = 0)
{
  const auto a = t.find(" " + name + "=\"", from);
  if (a == std::string::npos) return "?";
  const auto b = t.find('"', a), e = t.find('"', b + 1);
  return t.substr(b + 1, e - b - 1);
}
std::vector<double> array(const std::string &t, const std::string &name)
{
  std::vector<double> r;
  const auto a = t.find("Name=\"" + name + "\"");
  if (a == std::string::npos) return { -1e300 };
  const auto b = t.find('>', a), e = t.find('<', b);
  std::istringstream in(t.substr(b + 1, e - b - 1));
  for (double x; in >> x;) r.push_back(x);
  return r;
}
template<int pd, int dim> void vtu(const std::string &file, const std::vector<Point<dim>> &pts, const std::vector<std::size_t> &con, int n, const std::string &suf)
{
  std::ifstream in(file);
  if (!chk(bool(in), "VTK file written" + suf, file)) return;
  std::stringstream ss;
  ss << in.rdbuf();
  const auto t = ss.str();
  const std::size_t np = std::size_t(std::lround(std::pow(n, pd))), nc = con.size() / np;
  chk(attr(t, "NumberOfPoints") == std::to_string(pts.size()) && attr(t, "NumberOfCells") == std::to_string(nc), "VTK counts" + suf, attr(t, "NumberOfPoints") + " " + attr(t, "NumberOfCells"));
  const double ver = std::strtod(attr(t, "version").c_str(), nullptr);
  const auto P = array(t, "Points"), C = array(t, "connectivity"), O = array(t, "offsets"), T = array(t, "types");
  bool ok = P.size() == 3 * pts.size();
  for (std::size_t i = 0; ok && i < pts.size(); ++i)
    for (int d = 0; d < 3; ++d) ok = ok && P[3 * i + std::size_t(d)] == (d < dim ? pts[i](d) : 0);
  chk(ok, "VTK points" + suf);
  ok = C.size() == con.size();
  for (std::size_t c = 0; ok && c < nc; ++c)
    for (std::size_t q = 0; q < np; ++q) {
      std::array<int, 3> id{};
      for (int i = 0, r = int(q); i < pd; ++i, r /= n) id[std::size_t(i)] = r % n;
      // from version 2.1 on the last two vertical edges are exchanged
      if (ver > 2.05 && pd == 3 && id[1] == n - 1 && (id[0] == 0 || id[0] == n - 1) && id[2] > 0 && id[2] < n - 1) id[0] = n - 1 - id[0];
      ok = ok && C[c * np + std::size_t(vtk_pos(pd, n, id))] == double(con[c * np + q]);
    }
  chk(ok, "VTK connectivity" + suf, str("order ", n));
  ok = O.size() == nc && T.size() == nc;
  const int type = n == 2 ? (pd == 1 ? 3 : pd == 2 ? 9 : 12) : pd == 1 ? 68 : pd == 2 ? 70 : 72;
  for (std::size_t c = 0; ok && c < nc; ++c) ok = ok && O[c] == double((c + 1) * np) && T[c] == type;
  chk(ok, "VTK cell types" + suf, str("order ", n));
}
template<int pd, int dim> struct Model
{
  std::vector<Point<dim>> p;
  std::vector<std::size_t> con;
  std::vector<Wire> wires;
};
template<int dim> BoundBox<dim> rbox(Rng &g)
{
  std::array<real, dim> a, b;
  for (std::size_t i = 0; i < dim; ++i) a[i] = g.in(-8, 7) / 8.0, b[i] = a[i] + g.in(1, 8) / 8.0;
  Point<dim> A, B;
  for (int i = 0; i < dim; ++i) A(i) = a[std::size_t(i)], B(i) = b[std::size_t(i)];
  return BoundBox<dim>(A, B);
}
template<int pd, int dim> void api(Rng &g, const std::string &dir)
{
  const int n = g.chance(0.8) ? g.in(2, 6) : g.in(7, 9);
  using M = ImplReparamMesh<pd, dim>;
  M m(n);
  Model<pd, dim> o;
  const std::size_t np = m.get_num_points_per_cell();
  const std::string suf = str(" ", pd, "/", dim);
  std::string hist = str("order ", n, ":");
  const double tol = std::pow(10, g.uni(-10, -6));
  const auto compare = [&](const char *what) {
    const std::string w = hist;
    bool ok = m.get_connectivity() == o.con && m.get_num_points() == o.p.size();
    for (std::size_t i = 0; ok && i < o.p.size(); ++i) ok = dist<dim>(m.get_points()[i], o.p[i]) <= 1e-13;
    auto a = wires(m), b = o.wires;
    std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
    ok = ok && a == b && m.get_num_cells() == o.con.size() / np;
    chk(ok, std::string(what) + suf, w);
    return ok;
  };
  const auto full = [&](Model<pd, dim> &q, const BoundBox<dim> &b, bool wb) {
    if constexpr (pd == dim) {
      M one(n);
      for (std::size_t k = 0; k < np; ++k) {
        Point<dim> x;
        for (int i = 0, r = int(k); i < dim; ++i, r /= n) x(i) = b.min(i) + b.length(i) * node(r % n, n);
        q.con.push_back(q.p.size());
        q.p.push_back(x);
      }
      if (wb) {
        struct V
        {
          const Model<pd, dim> &q;
          int n;
          std::size_t np;
          int get_order() const { return n; }
          std::size_t get_num_points_per_cell() const { return np; }
          const auto &get_connectivity() const { return q.con; }
        } v{ q, n, np };
        for (const auto &e : edges<pd>(v, q.con.size() / np - 1)) q.wires.push_back(e);
      }
    }
  };
  const int len = g.in(1, 9);
  for (int k = 0; k < len; ++k) {
    switch (g.pick(9)) {
    case 0:
      if constexpr (pd == dim) {
        const auto b = rbox<dim>(g);
        const bool wb = g.chance(0.6);
        hist += " full";
        m.template add_full_cell<dim>(b, wb);
        full(o, b, wb);
        if (!compare("add_full_cell")) return;
      }
      break;
    case 1:
      if constexpr (pd == dim) {
        Dom<dim> G;
        grid<dim>(g, G, 3, 0, 1, g.chance(0.5));
        std::vector<Id> ids;
        for (Id c = 0; c < G.cells(); ++c)
          if (g.chance(0.5)) ids.push_back(c);
        std::shuffle(ids.begin(), ids.end(), g.g);
        const bool wb = g.chance(0.6);
        hist += " fulls";
        m.template add_full_cells<dim>(*G.grid, ids, wb);
        for (const Id c : ids) full(o, G.grid->get_cell_domain(c), wb);
        if (!compare("add_full_cells")) return;
      }
      break;
    case 2:
    case 3: {
      const int nc = g.in(1, 3);
      hist += str(" allocate ", nc);
      if (g.chance(0.3)) m.reserve_cells(std::size_t(nc));
      const int first = m.allocate_cells(std::size_t(nc));
      if (!chk(first == int(o.con.size() / np), "first allocated cell" + suf, hist)) return;
      std::vector<int> ord;
      for (int i = 0; i < nc * int(np); ++i) ord.push_back(i);
      std::shuffle(ord.begin(), ord.end(), g.g);
      o.con.resize(o.con.size() + std::size_t(nc) * np);
      const bool lattice = g.chance(0.6);
      for (const int i : ord) {
        Point<dim> x;
        // points of a coarse lattice, with jitter below the merging tolerance
        for (int d = 0; d < dim; ++d) x(d) = lattice ? g.in(-3, 3) / 2.0 + g.uni(-1, 1) * 0.01 * tol : g.uni(-1, 1);
        o.con[std::size_t(first) * np + std::size_t(i)] = o.p.size();
        o.p.push_back(x);
        m.insert_cell_point(x, first + i / int(np), i % int(np));
      }
      if (!compare("insert_cell_point")) return;
      break;
    }
    case 4: {
      const auto a = rbox<dim>(g), b = rbox<dim>(g);
      std::vector<int> ids;
      const bool some = g.chance(0.5);
      for (std::size_t i = 0; i < o.p.size(); ++i)
        if (!some || g.chance(0.5)) ids.push_back(int(i));
      std::shuffle(ids.begin(), ids.end(), g.g);
      hist += some ? " scale some" : " scale";
      some ? m.scale_points(ids, a, b) : m.scale_points(a, b);
      for (const int i : ids)
        for (int d = 0; d < dim; ++d) o.p[std::size_t(i)](d) = b.min(d) + (o.p[std::size_t(i)](d) - a.min(d)) / a.length(d) * b.length(d);
      bool ok = m.get_num_points() == o.p.size();
      for (std::size_t i = 0; ok && i < o.p.size(); ++i) {
        for (int d = 0; d < dim; ++d) ok = ok && std::abs(m.get_points()[i](d) - o.p[i](d)) <= 1e-12 * (1 + std::abs(o.p[i](d)));
        o.p[i] = m.get_points()[i];
      }
      if (!chk(ok, "scale_points" + suf, hist) || !compare("scale_points")) return;
      bool big = false;
      for (const auto &x : o.p)
        for (int d = 0; d < dim; ++d) big = big || std::abs(x(d)) > 50;
      if (big) return;// several scalings
      break;
    }
    case 5: {
      if (o.con.empty()) break;
      const auto c = std::size_t(g.pick(int(o.con.size() / np)));
      hist += str(" permute ", c);
      m.permute_cell_directions(c);
      auto old = o.con;
      for (std::size_t q = 0; q < np; ++q) {
        std::array<std::size_t, 3> id{};
        std::size_t r = q;
        for (int i = 0; i < pd; ++i, r /= std::size_t(n)) id[std::size_t(i)] = r % std::size_t(n);
        if (pd == 1) id[0] = std::size_t(n) - 1 - id[0];
        else std::swap(id[0], id[1]);
        o.con[c * np + q] = old[c * np + id[0] + std::size_t(n) * (id[1] + std::size_t(n) * id[2])];
      }
      if (!compare("permute_cell_directions")) return;
      break;
    }
    case 6: {
      hist += " merge mesh";
      M b(n);
      const int nc = g.in(0, 2);
      Model<pd, dim> q;
      for (int i = 0; i < nc; ++i) {
        const int id = b.allocate_cells(1);
        for (int j = 0; j < int(np); ++j) {
          const auto x = rp<dim>(g, -1, 1);
          q.con.push_back(q.p.size());
          q.p.push_back(x);
          b.insert_cell_point(x, id, j);
        }
      }
      if constexpr (pd == dim)
        if (g.chance(0.5)) {
          const auto bb = rbox<dim>(g);
          b.template add_full_cell<dim>(bb, true);
          full(q, bb, true);
        }
      m.merge(b);
      const auto off = o.p.size();
      for (const auto i : q.con) o.con.push_back(i + off);
      for (auto x : q.wires) {
        for (auto &i : x) i += off;
        o.wires.push_back(canon(x));
      }
      o.p.insert(o.p.end(), q.p.begin(), q.p.end());
      if (!compare("merge")) return;
      break;
    }
    case 7: {
      hist += " unique";
      const M before = m;
      m.merge_coincident_points(Tolerance(tol));
      merging<pd, dim>(before, m, tol, suf, hist);
      o.p = m.get_points(), o.con = m.get_connectivity(), o.wires = wires(m);
      break;
    }
    default:
      if constexpr (pd == dim) {
        hist += " orient";
        // only cells whose orientation is clear
        std::vector<double> before;
        for (std::size_t c = 0; c < m.get_num_cells(); ++c) before.push_back(middle<pd, dim>(m, c).det());
        m.template orient_cells_positively<pd>();
        double big = 0;
        for (const double x : before) big = std::max(big, std::abs(x));
        bool ok = true;
        for (std::size_t c = 0; c < m.get_num_cells(); ++c)
          if (std::abs(before[c]) > 1e-9 * big) ok = ok && std::abs(middle<pd, dim>(m, c).det() - std::abs(before[c])) <= 1e-9 * big;
        chk(ok, "orient_cells_positively" + suf, hist);
        o.con = m.get_connectivity();
        if (!compare("orientation keeps points and wires")) return;
      } else {
        // towards the outside of a facet or away from the origin, where it is clear which way that is
        const bool sphere = g.chance(0.5);
        const int lf = g.pick(2 * dim), nc = int(m.get_num_cells());
        std::vector<int> ids;
        for (int i = 0; i < nc; ++i)
          if (g.chance(0.5)) ids.push_back(i);
        const bool every = g.chance(0.5);
        hist += str(sphere ? " orient radially" : " orient facet ", lf, every ? "" : str(" ", ids.size(), " cells"));
        const auto f = std::make_shared<funcs::Sphere<dim>>(0.7);
        const std::vector<std::reference_wrapper<const ImplicitFunc<dim>>> fs{ *f };
        const auto dots = [&] {
          std::vector<double> v;
          for (std::size_t c = 0; c < m.get_num_cells(); ++c) {
            const auto q = middle<pd, dim>(m, c);
            const auto nn = q.normal();
            double a = 0, b = 0;
            for (int i = 0; i < dim; ++i) a += nn(i) * (sphere ? q.x(i) : i == lf / 2 ? (lf % 2 ? 1.0 : -1.0) : 0.0), b += nn(i) * nn(i);
            v.push_back(b > 0 ? a / std::sqrt(b) : 0);
          }
          return v;
        };
        const auto before = dots();
        if (sphere) every ? m.template orient_levelset_cells_positively<pd>(fs) : m.template orient_levelset_cells_positively<pd>(fs, ids);
        else every ? m.template orient_facet_cells_positively<pd>(lf) : m.template orient_facet_cells_positively<pd>(lf, ids);
        const auto after = dots();
        for (int c = 0; c < nc; ++c) {
          const double x = before[std::size_t(c)];
          const bool turned = every || std::count(ids.begin(), ids.end(), c);
          if (!(std::abs(x) > 1e-6)) continue;
          chk(std::abs(after[std::size_t(c)] - (turned ? std::abs(x) : x)) < 1e-6, (sphere ? "orient_levelset_cells_positively" : "orient_facet_cells_positively") + suf, str(hist, " cell ", c, " ", x, " became ", after[std::size_t(c)]));
        }
        o.con = m.get_connectivity();
        if (!compare("orientation keeps points and wires")) return;
      }
    }
  }
  if (n <= 5 || g.chance(0.3)) {
    const bool sub = g.chance(0.3);
    std::filesystem::create_directories(dir + "/sub");
    const auto cwd = std::filesystem::current_path();
    std::filesystem::current_path(dir);
    const std::string f = sub ? "sub/mesh" : "mesh";
    m.write_VTK_file(f);
    const auto cw = [&] {
      vtu<pd, dim>(f + ".vtu", o.p, o.con, n, suf);
      if (!o.wires.empty()) {
        vtu<1, dim>(f + "_wb.vtu", o.p, m.get_wires_connectivity(), n, suf + " wires");
        std::ifstream in(f + ".vtmb");
        std::stringstream ss;
        ss << in.rdbuf();
        const auto t = ss.str();
        int k = 0;
        for (auto a = t.find("<DataSet"); a != std::string::npos; a = t.find("<DataSet", a + 1), ++k) {
          const auto ref = attr(t, "file", a);
          chk(std::filesystem::exists(std::filesystem::path(f).parent_path() / ref), "VTK multiblock refers to the files" + suf, "file " + f + ".vtmb refers to " + ref);
        }
        chk(k == 2, "VTK multiblock has two blocks" + suf);
      }
    };
    cw();
    std::filesystem::current_path(cwd);
  }
}
template<int dim> void points_unique(Rng &g)
{
  const double tol = std::pow(10, g.uni(-10, -6));
  std::vector<Point<dim>> p;
  std::vector<std::array<int, dim>> key;
  const int n = g.in(0, 60), lat = g.in(1, 4);
  for (int i = 0; i < n; ++i) {
    Point<dim> x;
    std::array<int, dim> k;
    for (int d = 0; d < dim; ++d) {
      k[std::size_t(d)] = g.in(-lat, lat);
      x(d) = k[std::size_t(d)] * 0.25 + g.uni(-0.01, 0.01) * tol;
    }
    p.push_back(x), key.push_back(k);
  }
  std::vector<std::size_t> mp{ 5 };
  find_coincident_points<dim>(p, Tolerance(tol), mp);
  if (!chk(mp.size() == p.size(), str("size of the coincidence map ", dim, "d"))) return;
  bool ok = true, idem = true;
  for (std::size_t i = 0; i < p.size(); ++i) {
    ok = ok && mp[i] < p.size();
    if (!ok) break;
    idem = idem && mp[mp[i]] == mp[i] && key[mp[i]] == key[i];
    for (std::size_t j = 0; j < p.size(); ++j) ok = ok && (mp[i] == mp[j]) == (key[i] == key[j]);
  }
  chk(ok && idem, str("coincident points ", dim, "d"), str(n, " points"));
  auto q = p;
  std::vector<std::size_t> otn{ 4 };
  make_points_unique<dim>(q, Tolerance(tol), otn);
  const std::set<std::array<int, dim>> ks(key.begin(), key.end());
  ok = otn.size() == p.size() && q.size() == ks.size();
  for (std::size_t i = 0; ok && i < p.size(); ++i) ok = otn[i] < q.size() && dist<dim>(q[otn[i]], p[i]) <= 0.1 * tol;
  chk(ok, str("unique points ", dim, "d"), str(n, " points, ", q.size(), " unique, expected ", ks.size()));
}
// ---------------------------------------------------------------- Lagrange polynomials
template<int dim> void lagrange(Rng &g)
{
  TensorSizeTP<dim> o;
  std::size_t tot = 1;
  for (int i = 0; i < dim; ++i) o(i) = g.in(2, dim == 3 ? 6 : 10), tot *= std::size_t(o(i));
  const bool ch = g.chance(0.5);
  const std::string w = str("orders ", vec(o, dim), ch ? " Chebyshev" : " equispaced"), suf = str(ch ? " Chebyshev " : " equispaced ", dim, "d");
  Point<dim> x = rp<dim>(g, 0, 1);
  std::array<std::vector<double>, dim> v, d;
  for (int i = 0; i < dim; ++i) {
    std::vector<double> nd;
    for (int k = 0; k < o(i); ++k) nd.push_back(ch ? algoim::bernstein::modifiedChebyshevNode(k, o(i)) : double(k) / (o(i) - 1));
    if (g.chance(0.3)) x(i) = nd[std::size_t(g.pick(o(i)))];
    lag(nd, x(i), v[std::size_t(i)], d[std::size_t(i)]);
  }
  std::vector<real> b{ 3.0 };
  Vector<std::vector<real>, dim> db;
  evaluate_Lagrange_basis<dim>(x, o, ch, b);
  evaluate_Lagrange_derivative<dim>(x, o, ch, db);
  if (!chk(b.size() == tot, "number of basis values" + suf, w)) return;
  double e = 0, sum = 0;
  bool sz = true;
  for (int i = 0; i < dim; ++i) sz = sz && db(i).size() == tot;
  if (!chk(sz, "number of basis derivatives" + suf, w)) return;
  double ed = 0;
  for (std::size_t q = 0; q < tot; ++q) {
    std::array<std::size_t, dim> id;
    std::size_t r = q;
    double z = 1;
    for (int i = 0; i < dim; ++i) id[std::size_t(i)] = r % std::size_t(o(i)), r /= std::size_t(o(i)), z *= v[std::size_t(i)][id[std::size_t(i)]];
    e = std::max(e, std::abs(b[q] - z));
    sum += b[q];
    for (int a = 0; a < dim; ++a) {
      double y = 1;
      for (int i = 0; i < dim; ++i) y *= (i == a ? d : v)[std::size_t(i)][id[std::size_t(i)]];
      ed = std::max(ed, std::abs(db(a)[q] - y));
    }
  }
  mon::close(e, 0, 1e-11, "Lagrange basis" + suf, w);
  mon::close(sum, 1, 1e-11, "partition of unity" + suf, w);
  mon::close(ed, 0, 1e-9, "Lagrange derivatives" + suf, w);
}
int main(int argc, char **argv)
{
  if (argc < 4) return 2;
  const std::string sec = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int N = std::atoi(argv[3]);
  std::string dir;
  if (sec == "api") {
    char t[] = "/tmp/qugar_vtk_XXXXXX";
    dir = mkdtemp(t);
  }
  for (int i = 0; i < N; ++i) {
    if (sec == "api") {
      mon::run_case("mesh operations", str("case ", i), [&] {
        switch (g.pick(4)) {
        case 0: return api<1, 2>(g, dir);
        case 1: return api<2, 2>(g, dir);
        case 2: return api<2, 3>(g, dir);
        default: return api<3, 3>(g, dir);
        }
      });
      mon::run_case("points", str("case ", i), [&] { g.chance(0.5) ? points_unique<2>(g) : points_unique<3>(g); });
      mon::run_case("Lagrange", str("case ", i), [&] {
        const int k = g.pick(3);
        k == 0 ? lagrange<1>(g) : k == 1 ? lagrange<2>(g) : lagrange<3>(g);
      });
      continue;
    }
    const auto go = [&]<int dim>() {
      const auto k = g.chance(0.4) ? PLANE : ANY;
      const auto D = make<dim>(g, k, dim == 2 ? 4 : 2);
      mon::run_case(sec + (D.bz ? " bezier" : " general"), str(dim, "d ", D.d), [&] {
        if (sec == "solid") reparam<dim, false>(g, D);
        else if (sec == "surf") reparam<dim, true>(g, D);
        else if (sec == "facet") facet_mesh<dim>(g, D);
        else if (g.chance(0.5)) direct<dim, false>(g, D);
        else direct<dim, true>(g, D);
      });
    };
    if (g.chance(0.6)) go.template operator()<2>();
    else go.template operator()<3>();
  }
  if (!dir.empty()) std::filesystem::remove_all(dir);
  if (loose_pts[0] + loose_pts[1] > 3000) chk(loose_pts[1] < 0.2 * (loose_pts[0] + loose_pts[1]), str(sec, ": few interpolated points"), str(loose_pts[1], " of ", loose_pts[0] + loose_pts[1]));
  mon::finish();
}
