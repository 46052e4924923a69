// C01-C04: classification of cells and facets, and the quadratures of random unfitted domains.
//   geo_dom SECTION SEED N      SECTION = part | vol | bnd | fac (generic position), al_* (aligned)
#include "dom.hpp"
#include <qugar/cut_quadrature.hpp>
using namespace qugar;
using namespace qugar::impl;
using namespace dom;
using mon::chk;

template<int dim> using UD = UnfittedImplDomain<dim>;
template<int dim> std::string nm(const Dom<dim> &D, const std::string &s) { return str(s, D.bz ? " bezier " : " general ", dim, "d"); }
template<class T> std::string list(const std::vector<T> &v)
{
  std::string s;
  for (std::size_t i = 0; i < v.size() && i < 12; ++i) s += str(i ? "," : "", v[i]);
  return s;
}

// ---------------------------------------------------------------- C01
enum St { CUT, FULL, EMPTY, NONE };
const char *const SN[] = { "cut", "full", "empty", "none" };
template<int dim> St cell_state(const UD<dim> &u, Id c)
{
  const int k = u.is_cut_cell(c) + u.is_full_cell(c) + u.is_empty_cell(c);
  if (k != 1) return NONE;
  return u.is_cut_cell(c) ? CUT : u.is_full_cell(c) ? FULL : EMPTY;
}
using Facets = std::vector<std::pair<Id, int>>;
template<int dim> using FGet = std::function<void(const UD<dim> &, std::vector<Id> &, std::vector<int> &)>;
template<int dim> void partition(Rng &g, const Dom<dim> &D, const UD<dim> &u, bool aligned)
{
  const auto K = [&](const char *s) { return nm(D, s); };
  std::array<std::vector<Id>, 3> want;
  for (Id c = 0; c < D.cells(); ++c) {
    const auto s = cell_state(u, c);
    if (!chk(s != NONE, K("cell has exactly one state"), str("cell ", c, " cut ", u.is_cut_cell(c), " full ", u.is_full_cell(c), " empty ", u.is_empty_cell(c)))) return;
    want[s].push_back(c);
    const auto r = range(D, c);
    const double m = 0.03 * r.s + 1e-9;
    if (s == FULL) chk(r.hi <= m, K("full cell is inside"), str("cell ", c, " positive value ", r.hi, " variation ", r.s));
    if (s == EMPTY) chk(r.lo >= -m, K("empty cell is outside"), str("cell ", c, " negative value ", r.lo, " variation ", r.s));
    if (r.lo < -m && r.hi > m) chk(s == CUT, K("cell with both signs is cut"), str("cell ", c, " is ", SN[s], " values ", r.lo, " to ", r.hi));
    chk(u.is_cell_with_unf_bdry(c) == (s == CUT || u.is_full_with_unf_bdry_cell(c)), K("cells with unfitted boundary"));
    if (u.is_full_with_unf_bdry_cell(c)) chk(s == FULL, K("full cells with unfitted boundary are full"));
  }
  chk(u.get_num_total_cells() == std::size_t(D.cells()), K("total number of cells"));
  std::vector<Id> tg;
  const int nt = g.in(0, 8);
  for (int i = 0; i < nt; ++i) tg.push_back(g.pick(int(D.cells())));
  if (g.chance(0.7)) std::sort(tg.begin(), tg.end()), tg.erase(std::unique(tg.begin(), tg.end()), tg.end());
  for (int s = 0; s < 3; ++s) {
    std::vector<Id> got{ 77 }, sub{ 77 }, wsub;
    s == CUT ? u.get_cut_cells(got) : s == FULL ? u.get_full_cells(got) : u.get_empty_cells(got);
    chk(got == want[std::size_t(s)], K("list of cells"), str(SN[s], ": ", list(got), " expected ", list(want[std::size_t(s)])));
    const auto n = s == CUT ? u.get_num_cut_cells() : s == FULL ? u.get_num_full_cells() : u.get_num_empty_cells();
    chk(n == want[std::size_t(s)].size(), K("number of cells"), str(SN[s], " ", n));
    s == CUT ? u.get_cut_cells(tg, sub) : s == FULL ? u.get_full_cells(tg, sub) : u.get_empty_cells(tg, sub);
    for (const Id c : tg)
      if (cell_state(u, c) == s) wsub.push_back(c);
    std::sort(wsub.begin(), wsub.end());
    std::sort(sub.begin(), sub.end());
    chk(sub == wsub, K("list of target cells"), str(SN[s], ": ", list(sub), " expected ", list(wsub)));
  }
  // facets
  Facets fw[5];
  bool any_unf = false;
  for (Id c = 0; c < D.cells(); ++c)
    for (int lf = 0; lf < 2 * dim; ++lf) {
      const bool st[5] = { u.is_cut_facet(c, lf), u.is_full_facet(c, lf), u.is_empty_facet(c, lf), u.is_full_unfitted_facet(c, lf), u.has_unfitted_boundary(c, lf) };
      const auto s = cell_state(u, c);
      any_unf = any_unf || st[4];
      const std::string w = str("cell ", c, " facet ", lf, " cut ", st[0], " full ", st[1], " empty ", st[2], " unfitted ", st[3], st[4]);
      chk(st[0] + st[1] + st[2] + st[3] <= 1, K("facet has at most one state"), w);
      chk(st[0] + st[1] + st[2] + st[3] + st[4] >= 1, K("facet has a state"), w);
      chk(!st[3] || st[4], K("full unfitted facets have an unfitted boundary"), w);
      for (int k = 0; k < 5; ++k)
        if (st[k]) fw[k].emplace_back(c, lf);
      if (s == EMPTY) chk(st[2] && !st[4], K("facets of empty cells are empty"), w);
      if (s == FULL) chk(st[1] || st[3] || aligned, K("facets of full cells are full"), w);
      const auto r = range(D, c, lf, dim == 2 ? 21 : 9);
      const double m = 0.03 * r.s + 1e-9;
      if (s == CUT || s == FULL) {
        if (st[1]) chk(r.hi <= m, K("full facet is inside"), str(w, " positive value ", r.hi));
        if (st[2]) chk(r.lo >= -m, K("empty facet is outside"), str(w, " negative value ", r.lo));
        if (r.lo < -m && r.hi > m) chk(st[0], K("facet with both signs is cut"), str(w, " values ", r.lo, " to ", r.hi));
        if (r.hi < -m) chk(st[1] || st[0], K("facet inside is full"), w);
        if (r.lo > m) chk(!st[1] && !st[3] && !st[4], K("facet outside is not full"), w);
      }
      chk(u.is_exterior_facet(c, lf) == (D.neighbour(c, lf) < 0), K("exterior facet"), w);
    }
  chk(u.has_facets_with_unf_bdry() == any_unf, K("domain has facets with unfitted boundary"));
  const FGet<dim> all[5] = { [](auto &v, auto &c, auto &f) { v.get_cut_facets(c, f); }, [](auto &v, auto &c, auto &f) { v.get_full_facets(c, f); }, [](auto &v, auto &c, auto &f) { v.get_empty_facets(c, f); }, [](auto &v, auto &c, auto &f) { v.get_full_unfitted_facets(c, f); }, [](auto &v, auto &c, auto &f) { v.get_unfitted_facets(c, f); } };
  std::vector<Id> tc;
  std::vector<int> tf;
  for (int i = g.in(0, 15); i > 0; --i) tc.push_back(g.pick(int(D.cells()))), tf.push_back(g.pick(2 * dim));
  for (int k = 0; k < 5; ++k) {
    std::vector<Id> c{ 9 };
    std::vector<int> f{ 9 };
    all[k](u, c, f);
    if (!chk(c.size() == f.size(), K("facet lists have the same length"))) continue;
    Facets got;
    for (std::size_t i = 0; i < c.size(); ++i) got.emplace_back(c[i], f[i]);
    std::sort(got.begin(), got.end());
    chk(got == fw[k], K("list of facets"), str("kind ", k, ": ", got.size(), " expected ", fw[k].size()));
    k == 0 ? u.get_cut_facets(tc, tf, c, f) : k == 1 ? u.get_full_facets(tc, tf, c, f) : k == 2 ? u.get_empty_facets(tc, tf, c, f) : k == 3 ? u.get_full_unfitted_facets(tc, tf, c, f) : u.get_unfitted_facets(tc, tf, c, f);
    std::vector<Id> wc;
    std::vector<int> wf;
    for (std::size_t i = 0; i < tc.size(); ++i)
      if (std::find(fw[k].begin(), fw[k].end(), std::make_pair(tc[i], tf[i])) != fw[k].end()) wc.push_back(tc[i]), wf.push_back(tf[i]);
    chk(c == wc && f == wf, K("list of target facets"), str("kind ", k));
  }
}
//! The domain of a subset of cells says the same about them, and nothing about the others.
template<int dim> void restricted(Rng &g, const Dom<dim> &D, const UD<dim> &u)
{
  const auto K = [&](const char *s) { return nm(D, s); };
  std::vector<Id> tg;
  const double p = g.u();
  for (Id c = 0; c < D.cells(); ++c)
    if (g.chance(p)) tg.push_back(c);
  if (g.chance(0.3)) std::shuffle(tg.begin(), tg.end(), g.g);
  if (g.chance(0.2) && !tg.empty()) tg.push_back(tg.front());
  const UD<dim> r(D.f, D.grid, tg);
  const std::set<Id> in(tg.begin(), tg.end());
  std::size_t n[3] = {};
  for (Id c = 0; c < D.cells(); ++c) {
    const auto a = cell_state(r, c), b = cell_state(u, c);
    if (!in.count(c)) {
      chk(!r.is_cut_cell(c) && !r.is_full_cell(c) && !r.is_empty_cell(c), K("cells out of the subset have no state"), str("cell ", c, " ", SN[a], " targets ", list(tg)));
      continue;
    }
    chk(a == b, K("restricted cell state"), str("cell ", c, " ", SN[a], " expected ", SN[b], " targets ", list(tg)));
    if (a != NONE) ++n[a];
    for (int lf = 0; lf < 2 * dim; ++lf)
      chk(r.is_cut_facet(c, lf) == u.is_cut_facet(c, lf) && r.is_full_facet(c, lf) == u.is_full_facet(c, lf) && r.is_empty_facet(c, lf) == u.is_empty_facet(c, lf) && r.has_unfitted_boundary(c, lf) == u.has_unfitted_boundary(c, lf), K("restricted facet state"), str("cell ", c, " facet ", lf));
  }
  chk(r.get_num_cut_cells() == n[CUT] && r.get_num_full_cells() == n[FULL] && r.get_num_empty_cells() == n[EMPTY], K("restricted number of cells"), str(r.get_num_cut_cells(), " ", r.get_num_full_cells(), " ", r.get_num_empty_cells(), " expected ", n[CUT], " ", n[FULL], " ", n[EMPTY], " targets ", list(tg)));
}

// ---------------------------------------------------------------- C02
template<int dim> std::vector<Id> some_cells(Rng &g, const Dom<dim> &D)
{
  std::vector<Id> v;
  for (Id c = 0; c < D.cells(); ++c) v.push_back(c);
  if (g.chance(0.5)) std::shuffle(v.begin(), v.end(), g.g);
  if (g.chance(0.3)) v.resize(std::size_t(g.in(0, int(v.size()))));
  if (g.chance(0.15) && !v.empty()) v.push_back(v.front());
  return v;
}
const int KEEP = 60;// cells compared with reference integrals per domain
//! Accuracy of an n point rule per direction on curved pieces.
double tol_n(int n) { return n <= 1 ? 0.35 : n == 2 ? 0.15 : n == 3 ? 0.06 : n <= 5 ? 0.03 : 0.015; }

template<int dim> void volume(Rng &g, const Dom<dim> &D, const UD<dim> &u)
{
  const auto K = [&](const char *s) { return nm(D, s); };
  const auto cells = some_cells(g, D);
  const int n = g.in(1, 7);
  const auto q = create_quadrature<dim>(u, cells, n);
  const std::string qd = str("n ", n, " ");
  if (!chk(q->cells == cells, K("cells of the quadrature"), qd)) return;
  if (!chk(q->n_pts_per_cell.size() == cells.size() && q->points.size() == q->weights.size(), K("sizes of the quadrature"), qd)) return;
  std::size_t tot = 0;
  for (const int k : q->n_pts_per_cell) tot += k >= 0 ? std::size_t(k) : 1u << 30;
  if (!chk(tot == q->points.size(), K("counts add up"), str(qd, tot, " ", q->points.size()))) return;
  // the domain of the negated function, for the complement
  const UD<dim> comp(D.neg, D.grid);
  const auto qc = create_quadrature<dim>(comp, cells, n);
  std::size_t p = 0, pc = 0;
  int done = 0;
  for (std::size_t i = 0; i < cells.size(); ++i) {
    const Id c = cells[i];
    const auto st = cell_state(u, c);
    const int np = q->n_pts_per_cell[i];
    const double s = variation(D, c);
    std::array<double, 4> m{};
    double sq = 0;
    for (int k = 0; k < np; ++k, ++p) {
      const auto &X = q->points[p];
      const double w = q->weights[p];
      bool in = true;
      for (int d = 0; d < dim; ++d) in = in && X(d) >= -1e-12 && X(d) <= 1 + 1e-12;
      chk(in, K("points in the unit cell"), str(qd, "cell ", c, " ", vec(X, dim)));
      chk(w > 0, K("positive weights"), str(qd, "cell ", c, " ", w));
      const double v = D.at(c, X);
      chk(v <= 1e-3 * s + 1e-12, K("points in the domain"), str(qd, "cell ", c, " ", SN[st], " at ", vec(X, dim), " value ", v, " variation ", s));
      m[0] += w;
      for (int d = 0; d < dim; ++d) m[std::size_t(d + 1)] += w * X(d);
      sq += w * X(0) * X(dim - 1);
    }
    double mc = 0;
    for (int k = 0; k < qc->n_pts_per_cell[i]; ++k, ++pc) mc += qc->weights[pc];
    if (st == EMPTY) {
      chk(np == 0, K("empty cells get no points"), str(qd, "cell ", c, " ", np));
      continue;
    }
    if (st == FULL) {
      chk(np == int(std::lround(std::pow(n, dim))), K("full cells get a Gauss rule"), str(qd, "cell ", c, " ", np));
      mon::close(m[0], 1, 1e-12, K("full cell volume"), qd);
      for (int d = 0; d < dim; ++d) mon::close(m[std::size_t(d + 1)], 0.5, 1e-12, K("full cell moment"), qd);
      if (n > 1) mon::close(sq, 0.25, 1e-12, K("full cell product moment"), qd);
      continue;
    }
    if (done++ >= KEEP) continue;
    if (D.plane) {
      Point<dim> a;
      double b = 0;
      for (int d = 0; d < dim; ++d) a(d) = D.nrm(d) * D.len(c, d), b += D.nrm(d) * (D.o(d) - D.lo(c, d));
      const int deg = 2 * n - dim;// degree integrated exactly
      if (deg >= 0) mon::close(m[0], half<dim>(a, b, [](const auto &) { return 1.0; }), 1e-9, K("planar cut volume"), str(qd, "cell ", c));
      if (deg >= 1)
        for (int d = 0; d < dim; ++d) mon::close(m[std::size_t(d + 1)], half<dim>(a, b, [d](const auto &X) { return X(d); }), 1e-9, K("planar cut moment"), str(qd, "cell ", c));
      if (deg >= 2) mon::close(sq, half<dim>(a, b, [](const auto &X) { return X(0) * X(dim - 1); }), 1e-9, K("planar cut product moment"), str(qd, "cell ", c));
      mon::close(m[0] + mc, 1, deg >= 0 ? 1e-9 : 1, K("planar complement"), str(qd, "cell ", c));
      continue;
    }
    const auto ref = moments<dim>([&](const Point<dim> &X) { return D.at(c, X); }, dim == 2 ? 60 : 10);
    const double t = tol_n(n);
    mon::close(m[0], ref[0], t, K("cut volume"), str(qd, "cell ", c));
    for (int d = 0; d < dim; ++d) mon::close(m[std::size_t(d + 1)], ref[std::size_t(d + 1)], t, K("cut moment"), str(qd, "cell ", c));
    mon::close(m[0] + mc, 1, 2 * t, K("complement"), str(qd, "cell ", c));
  }
}
// ---------------------------------------------------------------- C04
template<int dim> double facet_measure(const UD<dim> &u, const Dom<dim> &D, Id c, int lf, int n)
{
  const std::vector<Id> cc{ c };
  const std::vector<int> ff{ lf };
  const auto q = D.neighbour(c, lf) < 0 ? create_facets_quadrature_exterior_integral<dim>(u, cc, ff, n) : create_facets_quadrature_interior_integral<dim>(u, cc, ff, n);
  double s = 0;
  for (const double w : q->weights) s += w;
  return s;
}
template<int dim> Point<dim> on_facet(const Point<dim - 1> &Y, int lf)
{
  Point<dim> X;
  for (int d = 0, k = 0; d < dim; ++d) X(d) = d == lf / 2 ? lf % 2 : Y(k++);
  return X;
}
template<int dim> void facets(Rng &g, const Dom<dim> &D, const UD<dim> &u)
{
  const auto K = [&](const char *s) { return nm(D, s); };
  std::vector<std::pair<Id, int>> l;
  for (Id c = 0; c < D.cells(); ++c)
    for (int lf = 0; lf < 2 * dim; ++lf) l.emplace_back(c, lf);
  if (g.chance(0.5)) std::shuffle(l.begin(), l.end(), g.g);
  if (g.chance(0.3)) l.resize(std::size_t(g.in(0, int(l.size()))));
  if (l.size() > 240) l.resize(240);
  if (g.chance(0.15) && !l.empty()) l.push_back(l.front());
  std::vector<Id> cells;
  std::vector<int> lfs;
  for (const auto &[c, f] : l) cells.push_back(c), lfs.push_back(f);
  const int n = g.in(1, 6);
  for (const bool ext : { false, true }) {
    const auto q = ext ? create_facets_quadrature_exterior_integral<dim>(u, cells, lfs, n) : create_facets_quadrature_interior_integral<dim>(u, cells, lfs, n);
    const std::string qd = str(ext ? "exterior" : "interior", " n ", n, " ");
    if (!chk(q->cells == cells && q->local_facet_ids == lfs, K("facets of the quadrature"), qd)) return;
    if (!chk(q->n_pts_per_facet.size() == cells.size() && q->points.size() == q->weights.size(), K("sizes of the facet quadrature"), qd)) return;
    std::size_t tot = 0;
    for (const int k : q->n_pts_per_facet) tot += k >= 0 ? std::size_t(k) : 1u << 30;
    if (!chk(tot == q->points.size(), K("facet counts add up"), str(qd, tot, " ", q->points.size()))) return;
    std::size_t p = 0;
    for (std::size_t i = 0; i < l.size(); ++i) {
      const auto [c, lf] = l[i];
      const int np = q->n_pts_per_facet[i];
      const std::string w = str(qd, "cell ", c, " facet ", lf, " points ", np);
      std::array<double, 3> m{};
      const double s = variation(D, c);
      for (int k = 0; k < np; ++k, ++p) {
        const auto &Y = q->points[p];
        bool in = true;
        for (int d = 0; d < dim - 1; ++d) in = in && Y(d) >= -1e-12 && Y(d) <= 1 + 1e-12;
        chk(in, K("points in the unit facet"), str(w, " ", vec(Y, dim - 1)));
        chk(q->weights[p] > 0, K("positive facet weights"), str(w, " ", q->weights[p]));
        const double v = D.at(c, on_facet<dim>(Y, lf));
        chk(v <= 1e-3 * s + 1e-12, K("facet points in the domain"), str(w, " at ", vec(Y, dim - 1), " value ", v, " variation ", s));
        m[0] += q->weights[p];
        for (int d = 0; d < dim - 1; ++d) m[std::size_t(d + 1)] += q->weights[p] * Y(d);
      }
      const bool is_ext = D.neighbour(c, lf) < 0;
      if (is_ext != ext || u.is_empty_facet(c, lf)) {
        chk(np == 0, K(is_ext != ext ? "facets of the other kind get no points" : "empty facets get no points"), w);
        continue;
      }
      if (u.is_full_facet(c, lf)) {
        chk(np == int(std::lround(std::pow(n, dim - 1))), K("full facets get a Gauss rule"), w);
        mon::close(m[0], 1, 1e-12, K("full facet measure"), w);
        for (int d = 0; d < dim - 1; ++d) mon::close(m[std::size_t(d + 1)], 0.5, 1e-12, K("full facet moment"), w);
      } else {
        double t;
        std::array<double, 4> ref{};
        bool mom = true;
        if (D.plane) {
          Point<dim - 1> a;
          double b = 0;
          for (int d = 0, k = 0; d < dim; ++d) {
            b += D.nrm(d) * (D.o(d) - D.lo(c, d));
            if (d == lf / 2) b -= D.nrm(d) * D.len(c, d) * (lf % 2);
            else a(k++) = D.nrm(d) * D.len(c, d);
          }
          t = 1e-9;
          mom = n > 1 || dim == 2;
          ref[0] = half<dim - 1>(a, b, [](const auto &) { return 1.0; });
          for (int d = 0; d < dim - 1; ++d) ref[std::size_t(d + 1)] = half<dim - 1>(a, b, [d](const auto &Y) { return Y(d); });
        } else {
          t = dim == 2 ? 1e-5 : tol_n(n);
          ref = moments<dim - 1>([&](const Point<dim - 1> &Y) { return D.at(c, on_facet<dim>(Y, lf)); }, 40);
        }
        const std::string kd = D.plane ? "planar cut facet " : "cut facet ";
        mon::close(m[0], ref[0], t, nm(D, kd + "measure"), w);
        if (mom)
          for (int d = 0; d < dim - 1; ++d) mon::close(m[std::size_t(d + 1)], ref[std::size_t(d + 1)], t, nm(D, kd + "moment"), w);
      }
      const Id o = D.neighbour(c, lf);
      if (o >= 0) mon::close(facet_measure(u, D, o, lf ^ 1, n), m[0], dim == 2 || D.plane ? 1e-6 : tol_n(n), K("same measure from the neighbour"), str(w, " states ", SN[cell_state(u, c)], " ", SN[cell_state(u, o)], " facet ", u.is_cut_facet(c, lf), u.is_full_facet(c, lf), u.is_empty_facet(c, lf), u.has_unfitted_boundary(c, lf), " ", u.is_cut_facet(o, lf ^ 1), u.is_full_facet(o, lf ^ 1), u.is_empty_facet(o, lf ^ 1), u.has_unfitted_boundary(o, lf ^ 1)));
    }
  }
}
// ---------------------------------------------------------------- C03
template<int dim> void boundary(Rng &g, const Dom<dim> &D, const UD<dim> &u)
{
  const auto K = [&](const char *s) { return nm(D, s); };
  const auto cells = some_cells(g, D);
  const int n = g.in(1, 7);
  const bool inc = g.chance(0.5), exc = g.chance(0.5);
  const auto q = create_unfitted_bound_quadrature<dim>(u, cells, n, inc, exc);
  const auto vq = create_quadrature<dim>(u, cells, n);
  const std::string qd = str("n ", n, " include ", inc, " exclude ", exc, " ");
  if (!chk(q->cells == cells, K("cells of the boundary quadrature"), qd)) return;
  if (!chk(q->n_pts_per_cell.size() == cells.size() && q->points.size() == q->weights.size() && q->normals.size() == q->points.size(), K("sizes of the boundary quadrature"), qd)) return;
  std::size_t tot = 0;
  for (const int k : q->n_pts_per_cell) tot += k >= 0 ? std::size_t(k) : 1u << 30;
  if (!chk(tot == q->points.size(), K("boundary counts add up"), str(qd, tot, " ", q->points.size()))) return;
  std::size_t p = 0, vp = 0, near = 0;
  int done = 0;
  for (std::size_t i = 0; i < cells.size(); ++i) {
    const Id c = cells[i];
    const int np = q->n_pts_per_cell[i];
    const double s = variation(D, c);
    std::array<double, 3> fl{}, xf{};
    const std::string w = str(qd, "cell ", c, " ");
    for (int k = 0; k < np; ++k, ++p) {
      const auto &X = q->points[p];
      const auto &N = q->normals[p];
      const double wt = q->weights[p];
      bool in = true;
      for (int d = 0; d < dim; ++d) in = in && X(d) >= -1e-12 && X(d) <= 1 + 1e-12;
      chk(in, K("boundary points in the unit cell"), str(w, vec(X, dim)));
      chk(wt > 0, K("positive boundary weights"), str(w, wt));
      const double v = D.at(c, X);
      // subdivision for general functions in 3D ends in the midpoints of tiny boxes around tangencies
      chk(std::abs(v) <= (dim == 3 && !D.bz ? 1e-3 : 1e-5) * s + 1e-12, K("boundary points on the level set"), str(w, "at ", vec(X, dim), " value ", v, " variation ", s));
      near += std::abs(v) <= 1e-5 * s + 1e-12;
      const auto gr = D.f->grad(D.map(c, X));
      double nn = 0, gg = 0, gn = 0;
      for (int d = 0; d < dim; ++d) {
        const double e = gr(d) * D.len(c, d);
        nn += N(d) * N(d), gg += e * e, gn += e * N(d);
        fl[std::size_t(d)] += wt * N(d), xf[std::size_t(d)] += wt * N(d) * X(d);
      }
      mon::close(nn, 1, 1e-10, K("unit normals"), w);
      chk(gn >= (1 - 1e-7) * std::sqrt(gg), K("normals along the gradient"), str(w, "at ", vec(X, dim), " normal ", vec(N, dim), " cosine ", gn / std::sqrt(gg)));
    }
    double vol = 0;
    for (int k = 0; k < vq->n_pts_per_cell[i]; ++k, ++vp) vol += vq->weights[vp];
    if (cell_state(u, c) != CUT) {
      chk(np == 0, K("cells off the interface get no boundary points"), str(w, np));
      continue;
    }
    if (done++ >= KEEP) continue;
    const bool soft = gentle(D, c);
    double t = !soft ? (n <= 3 ? 10 : 0.6) : dim == 2 ? (n >= 4 ? 2e-3 : n == 3 ? 0.03 : 0.06) : (n >= 4 ? 0.03 : 0.06), tx = t;
    if (n == 1) t = soft ? 0.4 : 10, tx = t;
    if (soft) mon::see(K("gently curved boundary"));
    if (D.plane) t = 1e-9, tx = n > 1 ? 1e-9 : 1;
    for (int d = 0; d < dim; ++d) {
      const double a = facet_measure(u, D, c, 2 * d, n), b = facet_measure(u, D, c, 2 * d + 1, n);
      mon::close(fl[std::size_t(d)] + b - a, 0, t, nm(D, str(D.plane ? "planar " : soft ? "gentle " : "", "closed flux")), str(w, "direction ", d));
      mon::close(xf[std::size_t(d)] + b, vol, tx, nm(D, str(D.plane ? "planar " : soft ? "gentle " : "", "flux of the position")), str(w, "direction ", d));
    }
  }
  if (q->points.size() > 200) chk(double(near) >= 0.5 * double(q->points.size()), K("most boundary points precisely on the level set"), str(qd, near, " of ", q->points.size()));
}
// ---------------------------------------------------------------- aligned with the grid
//! Domains that are unions of boxes of an arrangement of axis-aligned planes: everything is known exactly.
template<int dim> struct Boxes
{
  std::array<std::vector<double>, dim> pl;// planes, with far ends
  std::function<bool(const Point<dim> &)> in;
  //! Measure over the part of a box of D dimensions where p holds, given the cut coordinates of each free direction.
  double measure(const std::array<double, 3> &lo, const std::array<double, 3> &hi, int fixed, const std::function<bool(const Point<dim> &)> &p) const
  {
    std::array<std::vector<double>, dim> x;
    for (int d = 0; d < dim; ++d) {
      auto &v = x[std::size_t(d)];
      if (d == fixed) { v = { lo[std::size_t(d)], lo[std::size_t(d)] }; continue; }
      v = { lo[std::size_t(d)] };
      for (const double t : pl[std::size_t(d)])
        if (t > lo[std::size_t(d)] && t < hi[std::size_t(d)]) v.push_back(t);
      v.push_back(hi[std::size_t(d)]);
    }
    double s = 0;
    const int m0 = int(x[0].size()) - 1, m1 = int(x[1].size()) - 1, m2 = dim == 3 ? int(x[dim - 1].size()) - 1 : 1;
    for (int i = 0; i < m0; ++i)
      for (int j = 0; j < m1; ++j)
        for (int k = 0; k < m2; ++k) {
          const int id[3] = { i, j, k };
          Point<dim> c;
          double w = 1;
          for (int d = 0; d < dim; ++d) {
            const double a = x[std::size_t(d)][std::size_t(id[d])], b = x[std::size_t(d)][std::size_t(id[d]) + 1];
            c(d) = 0.5 * (a + b);
            if (d != fixed) w *= b - a;
          }
          if (p(c)) s += w;
        }
    return s;
  }
  //! Parts of a facet: inside on the near and the far side.
  double side(const Dom<dim> &D, Id c, int lf, bool near, bool far) const
  {
    const int fd = lf / 2;
    std::array<double, 3> lo{}, hi{};
    for (int d = 0; d < dim; ++d) lo[std::size_t(d)] = D.lo(c, d), hi[std::size_t(d)] = D.lo(c, d) + D.len(c, d);
    const double at = lf % 2 ? hi[std::size_t(fd)] : lo[std::size_t(fd)], out = lf % 2 ? 1e-7 : -1e-7;
    lo[std::size_t(fd)] = hi[std::size_t(fd)] = at;
    return measure(lo, hi, fd, [&](Point<dim> q) {
      q(fd) = at - out;
      const bool n = in(q);
      q(fd) = at + out;
      return n == near && in(q) == far;
    });
  }
  double volume(const Dom<dim> &D, Id c) const
  {
    std::array<double, 3> lo{}, hi{};
    for (int d = 0; d < dim; ++d) lo[std::size_t(d)] = D.lo(c, d), hi[std::size_t(d)] = D.lo(c, d) + D.len(c, d);
    return measure(lo, hi, -1, in);
  }
  //! Area of the interface strictly inside a cell, with normals along d.
  double inner(const Dom<dim> &D, Id c, int d) const
  {
    std::array<double, 3> lo{}, hi{};
    for (int e = 0; e < dim; ++e) lo[std::size_t(e)] = D.lo(c, e), hi[std::size_t(e)] = D.lo(c, e) + D.len(c, e);
    double s = 0;
    for (const double t : pl[std::size_t(d)]) {
      if (!(t > D.lo(c, d) + 1e-9 && t < D.lo(c, d) + D.len(c, d) - 1e-9)) continue;
      auto a = lo, b = hi;
      a[std::size_t(d)] = b[std::size_t(d)] = t;
      s += measure(a, b, d, [&](Point<dim> q) {
        q(d) = t - 1e-7;
        const bool n = in(q);
        q(d) = t + 1e-7;
        return n != in(q);
      });
    }
    return s;
  }
};
//! A coordinate of the grid: a line of it, or in a cell, at a dyadic fraction (or off the planes of any subdivision).
template<int dim> double coord(Rng &g, const Dom<dim> &D, int d, bool line, bool quarters = true)
{
  const auto &b = D.br[std::size_t(d)];
  if (line) return b[std::size_t(g.pick(int(b.size())))];
  const auto k = std::size_t(g.pick(int(b.size()) - 1));
  return b[k] + (b[k + 1] - b[k]) * (quarters ? g.in(1, 3) / 4. : (2 * g.in(0, 31) + 1) / 64.);
}
template<int dim> void dyadic_grid(Rng &g, Dom<dim> &D)
{
  for (int i = 0; i < dim; ++i) {
    const int k = g.in(0, 2);// 1, 2 or 4 equal cells, or a few of them merged
    std::vector<real> b;
    for (int j = 0; j <= 1 << k; ++j)
      if (j == 0 || j == 1 << k || g.chance(0.8)) b.push_back(double(j) / (1 << k));
    D.br[std::size_t(i)] = b;
    D.n[std::size_t(i)] = int(b.size()) - 1;
    D.d += str(i ? " x " : "grid ", list(b));
  }
  D.grid = std::make_shared<CartGridTP<dim>>(D.br);
}
enum Al { AL_PLANE, AL_SLAB };
template<int dim> std::pair<Dom<dim>, Boxes<dim>> aligned(Rng &g, Al kind)
{
  Dom<dim> D;
  Boxes<dim> B;
  dyadic_grid<dim>(g, D);
  D.bz = (g.chance(0.5) || (dim == 3 && kind == AL_SLAB));// in 3D, subdivision of general functions explodes on faces where they vanish
  using namespace funcs;
  if (kind == AL_PLANE) {
    const int d = g.pick(dim);
    const double t = coord<dim>(g, D, d, g.chance(0.85)), sg = g.chance(0.5) ? 1 : -1, sc = std::ldexp(1.0, g.in(-3, 3));
    Point<dim> o(0.25), n(0.0);
    o(d) = t, n(d) = sg * sc;
    D.d += str(" plane dir ", d, " at ", t, " n ", sg * sc);
    if (D.bz) D.f = std::make_shared<PlaneBzr<dim>>(o, n);
    else D.f = std::make_shared<Plane<dim>>(o, n);
    B.pl[std::size_t(d)] = { t };
    B.in = [=](const Point<dim> &p) { return sg * (p(d) - t) < 0; };
  } else {
    // (x - a)(x - b): two parallel planes
    const int d = g.pick(dim);
    double a, b;
    do a = coord<dim>(g, D, d, g.chance(0.7), D.bz), b = coord<dim>(g, D, d, g.chance(0.7), D.bz); while (!(a + 0.1 < b));
    const double sg = g.chance(0.5) ? 1 : -1, sc = sg * std::ldexp(1.0, g.in(-2, 2));
    D.d += str(" slab dir ", d, " from ", a, " to ", b, " factor ", sc);
    TensorSizeTP<dim> o(1);
    o(d) = 3;
    // linear and constant along the other directions alike
    int m = 1;
    if (g.chance(0.4)) o((d + 1) % dim) = m = 2;
    std::vector<real> cf;
    const TensorIndexRangeTP<dim> range(o);
    const double bz3[3] = { a * b, a * b - 0.5 * (a + b), (1 - a) * (1 - b) }, mo3[3] = { a * b, -(a + b), 1 };
    for (const auto &id : range) cf.push_back(D.bz ? sc * bz3[id(d)] : m == 2 && id((d + 1) % dim) ? 0 : sc * mo3[id(d)]);
    if (D.bz) D.f = std::make_shared<BezierTP<dim, 1>>(o, cf);
    else D.f = std::make_shared<MonomialsTP<dim, 1>>(o, cf);
    B.pl[std::size_t(d)] = { a, b };
    B.in = [=](const Point<dim> &p) { return sg * (p(d) - a) * (p(d) - b) < 0; };
  }
  return { D, B };
}
template<int dim> void align_check(Rng &g, const Dom<dim> &D, const Boxes<dim> &B, bool parts)
{
  const auto K = [&](const char *s) { return nm(D, str("aligned ", s)); };
  const UD<dim> u(D.f, D.grid);
  partition<dim>(g, D, u, true);
  if (parts) return;
  std::vector<Id> cells, fc;
  std::vector<int> fl;
  for (Id c = 0; c < D.cells(); ++c) {
    cells.push_back(c);
    for (int lf = 0; lf < 2 * dim; ++lf) fc.push_back(c), fl.push_back(lf);
  }
  const int n = g.in(1, 4);
  const double T = 1e-3;
  const auto q = create_quadrature<dim>(u, cells, n);
  std::size_t p = 0;
  for (const Id c : cells) {
    double s = 0;
    for (int k = 0; k < q->n_pts_per_cell[std::size_t(c)]; ++k, ++p) s += q->weights[p];
    mon::close(s * D.vol(c), B.volume(D, c), T, K("cell volume"), str("n ", n, " cell ", c));
  }
  const auto qe = create_facets_quadrature_exterior_integral<dim>(u, fc, fl, n);
  const auto qi = create_facets_quadrature_interior_integral<dim>(u, fc, fl, n);
  std::size_t pe = 0, pi = 0;
  for (std::size_t i = 0; i < fc.size(); ++i) {
    const Id c = fc[i];
    const int lf = fl[i];
    const double area = D.vol(c) / D.len(c, lf / 2);
    double e = 0, in = 0;
    for (int k = 0; k < qe->n_pts_per_facet[i]; ++k, ++pe) e += qe->weights[pe] * area;
    for (int k = 0; k < qi->n_pts_per_facet[i]; ++k, ++pi) in += qi->weights[pi] * area;
    const bool ext = D.neighbour(c, lf) < 0;
    const double unf = B.side(D, c, lf, true, false), both = B.side(D, c, lf, true, true);
    const std::string w = str("n ", n, " cell ", c, " facet ", lf, ext ? " exterior" : " interior", " unfitted ", unf, " inside ", both, " cut ", u.is_cut_facet(c, lf), " full ", u.is_full_facet(c, lf), " unf ", u.is_full_unfitted_facet(c, lf), u.has_unfitted_boundary(c, lf));
    mon::close(e, ext ? unf + both : unf, T, K("exterior integral"), w);
    mon::close(in, ext ? 0 : both, T, K("interior integral"), w);
    chk(u.has_unfitted_boundary(c, lf) == (unf > 1e-9), K("facet with unfitted boundary"), w);
    chk(u.is_full_unfitted_facet(c, lf) == (unf > area - 1e-9), K("full unfitted facet"), w);
  }
  for (const bool inc : { false, true })
    for (const bool exc : { false, true }) {
      const auto qb = create_unfitted_bound_quadrature<dim>(u, cells, n, inc, exc);
      std::size_t pb = 0;
      for (const Id c : cells) {
        std::array<double, 2 * dim> s{}, want{};
        bool axis = true;
        for (int k = 0; k < qb->n_pts_per_cell[std::size_t(c)]; ++k, ++pb) {
          const auto &N = qb->normals[pb];
          bool one = false;
          for (int d = 0; d < dim; ++d)
            if (std::abs(N(d)) > 1 - 1e-9) {
              one = true;
              s[std::size_t(2 * d + (N(d) > 0))] += qb->weights[pb] * D.vol(c) / D.len(c, d);
            }
          axis = axis && one;
        }
        const std::string w = str("n ", n, " cell ", c, " include ", inc, " exclude ", exc);
        chk(axis, K("axis normals"), w);
        for (int d = 0; d < dim; ++d) {
          double got = s[std::size_t(2 * d)] + s[std::size_t(2 * d + 1)], exp = B.inner(D, c, d);
          for (int k = 0; k < 2; ++k) {
            const int lf = 2 * d + k;
            if (inc && !(exc && D.neighbour(c, lf) < 0)) exp += B.side(D, c, lf, true, false);
          }
          mon::close(got, exp, T, K("interface"), str(w, " direction ", d));
        }
      }
    }
}
//! Squares aligned with the grid: corners on facets and cell corners (2D). Only the signs next to each point are judged.
void box(Rng &g, bool first_case)
{
  Dom<2> D;
  dyadic_grid<2>(g, D);
  const bool free = first_case || g.chance(0.4);
  if (first_case) {// a side of the square ends in the middle of a facet
    D = Dom<2>();
    D.br[0] = { 0, 1 }, D.br[1] = { 0, 0.25, 0.75, 1 };
    D.n[0] = 1, D.n[1] = 3;
    D.grid = std::make_shared<CartGridTP<2>>(D.br);
    D.d = "grid 0,1 x 0,0.25,0.75,1";
  }
  Vector<real, 6> c(0.0);
  std::array<double, 2> lo, hi;
  for (int d = 0; d < 2; ++d) {
    if (first_case) {
      lo[std::size_t(d)] = d ? 0.25 : 0.75, hi[std::size_t(d)] = 1;
    } else if (free) {
      do lo[std::size_t(d)] = coord<2>(g, D, d, g.chance(0.7)), hi[std::size_t(d)] = coord<2>(g, D, d, g.chance(0.7));
      while (!(lo[std::size_t(d)] < hi[std::size_t(d)]));
    } else {
      // exactly representable maps
      const double h = std::ldexp(1.0, -g.in(1, 3));
      do {
        const double x = coord<2>(g, D, d, true);
        lo[std::size_t(d)] = g.chance(0.5) ? x : x - h;
        hi[std::size_t(d)] = lo[std::size_t(d)] + h;
      } while (lo[std::size_t(d)] < 0 || hi[std::size_t(d)] > 1);
    }
    c(3 * d) = 0.5 * (hi[std::size_t(d)] - lo[std::size_t(d)]);
    c(4 + d) = 0.5 * (hi[std::size_t(d)] + lo[std::size_t(d)]);
  }
  const bool neg = !first_case && g.chance(0.7);
  D.d += str(" box ", lo[0], ",", lo[1], " to ", hi[0], ",", hi[1], neg ? " outside" : "");
  const auto q = std::make_shared<funcs::Square<2>>(AffineTransf<2>(c));
  if (neg) D.f = std::make_shared<funcs::Negative<2>>(q);
  else D.f = q;
  const auto in = [&](const Point<2> &p) { return (p(0) > lo[0] && p(0) < hi[0] && p(1) > lo[1] && p(1) < hi[1]) != neg; };
  mon::run_case("box general 2d", D.d, [&] {
    const auto K = [&](const char *s) { return nm(D, str("box ", s)); };
    const UD<2> u(D.f, D.grid);
    const int n = g.in(1, 4);
    std::vector<Id> cells, fc;
    std::vector<int> fl;
    for (Id k = 0; k < D.cells(); ++k) {
      cells.push_back(k);
      for (int lf = 0; lf < 4; ++lf) fc.push_back(k), fl.push_back(lf);
    }
    for (const bool ext : { true, false }) {
      const auto f = ext ? create_facets_quadrature_exterior_integral<2>(u, fc, fl, n) : create_facets_quadrature_interior_integral<2>(u, fc, fl, n);
      std::size_t p = 0;
      double wrong = 0;
      std::string first;
      for (std::size_t i = 0; i < fc.size(); ++i) {
        const int dir = fl[i] / 2;
        double s = 0;
        for (int k = 0; k < f->n_pts_per_facet[i]; ++k, ++p) {
          Point<2> X;
          X(dir) = fl[i] % 2 ? 1 - 1e-7 : 1e-7;
          X(1 - dir) = f->points[p](0);
          s += f->weights[p];
          chk(X(1 - dir) >= -1e-12 && X(1 - dir) <= 1 + 1e-12 && f->weights[p] > 0, K("facet points"), str("cell ", fc[i], " facet ", fl[i]));
          if (!in(D.map(fc[i], X))) {
            if (wrong == 0) first = str("n ", n, ext ? " exterior" : " interior", " cell ", fc[i], " facet ", fl[i], " at ", X(1 - dir));
            wrong += f->weights[p];
          }
        }
        chk(s <= 1 + 1e-9, K("facet measure"), str("cell ", fc[i], " facet ", fl[i], " ", s));
      }
      if (neg && !free) chk(wrong < 1e-9, K("facet points next to the inside"), str(first, " total ", wrong));
    }
    for (const bool inc : { true, false }) create_unfitted_bound_quadrature<2>(u, cells, n, inc, g.chance(0.5));
  });
}
int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string s = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int n = std::atoi(argv[3]);
  const auto both = [&](auto &&f) {
    for (int i = 0; i < n; ++i) {
      if (i % 3 != 2) f(std::integral_constant<int, 2>{});
      else f(std::integral_constant<int, 3>{});
    }
  };
  if (s == "part") both([&](auto d) {
    auto D = make<d>(g, ANY);
    mon::run_case(nm(D, "partition"), D.d, [&] {
      const UD<d> u(D.f, D.grid);
      partition<d>(g, D, u, false);
      restricted<d>(g, D, u);
    });
  });
  else if (s == "vol") both([&](auto d) {
    auto D = make<d>(g, g.chance(0.35) ? PLANE : CURVED);
    mon::run_case(nm(D, "volume"), D.d, [&] {
      const UD<d> u(D.f, D.grid);
      volume<d>(g, D, u);
    });
  });
  else if (s == "bnd") both([&](auto d) {
    auto D = make<d>(g, g.chance(0.35) ? PLANE : CURVED);
    mon::run_case(nm(D, "boundary"), D.d, [&] {
      const UD<d> u(D.f, D.grid);
      boundary<d>(g, D, u);
    });
  });
  else if (s == "fac") both([&](auto d) {
    auto D = make<d>(g, g.chance(0.35) ? PLANE : CURVED);
    mon::run_case(nm(D, "facets"), D.d, [&] {
      const UD<d> u(D.f, D.grid);
      facets<d>(g, D, u);
    });
  });
  else if (s == "box") for (int i = 0; i < n; ++i) box(g, i == 0);
  else if (s.rfind("al_", 0) == 0) both([&](auto d) {
    const auto kind = s.find("slab") != s.npos ? AL_SLAB : AL_PLANE;
    const auto [D, B] = aligned<d>(g, kind);
    mon::run_case(nm(D, s), D.d, [&, &D = D, &B = B] { align_check<d>(g, D, B, s.find("part") != s.npos); });
  });
  else return 9;
  mon::finish();
}
