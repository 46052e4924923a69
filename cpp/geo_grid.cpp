// C09: tensor indices, ranges, grids, boxes and tolerances against direct models.
//   geo_grid SECTION SEED N
#include "mon.hpp"
#include <qugar/bbox.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <qugar/tolerance.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <set>
#include <unordered_set>
using namespace qugar;
using mon::chk, mon::str, mon::vec, mon::Rng;

template<int dim> TensorIndexTP<dim> mk(const std::array<int, 3> &a)
{
  TensorIndexTP<dim> t;
  for (int d = 0; d < dim; ++d) t(d) = a[d];
  return t;
}
template<int dim> TensorSizeTP<dim> mks(const std::array<int, 3> &a)
{
  TensorSizeTP<dim> t;
  for (int d = 0; d < dim; ++d) t(d) = a[d];
  return t;
}
template<int dim> long long flat_of(const std::array<int, 3> &i, const std::array<int, 3> &n)
{
  long long f = 0, s = 1;
  for (int d = 0; d < dim; ++d) f += s * i[d], s *= n[d];
  return f;
}
template<int dim> std::array<int, 3> arr(const TensorIndexTP<dim> &t)
{
  std::array<int, 3> a{ 0, 0, 0 };
  for (int d = 0; d < dim; ++d) a[d] = t(d);
  return a;
}
//! All indices of [lo,up), first direction fastest.
template<int dim> std::vector<std::array<int, 3>> box(std::array<int, 3> lo, std::array<int, 3> up)
{
  for (int d = dim; d < 3; ++d) lo[d] = 0, up[d] = 1;
  std::vector<std::array<int, 3>> r;
  for (int k = lo[2]; k < up[2]; ++k)
    for (int j = lo[1]; j < up[1]; ++j)
      for (int i = lo[0]; i < up[0]; ++i) r.push_back({ i, j, k });
  return r;
}
template<int dim> std::string nm(const char *s) { return str(s, dim, "d"); }

template<int dim> void indices(Rng &g)
{
  std::array<int, 3> n{ 1, 1, 1 };
  const bool big = g.chance(0.3);
  for (int d = 0; d < dim; ++d) n[d] = big ? g.in(1, dim == 1 ? 2000000000 : dim == 2 ? 2000000 : 100000) : g.in(1, 7);
  mon::run_case(nm<dim>(big ? "indices_big" : "indices"), str("n=", n[0], ",", n[1], ",", n[2]), [&] {
    const auto ns = mks<dim>(n);
    const TensorIndexTP<dim> ni(ns);
    std::size_t total = 1;
    for (int d = 0; d < dim; ++d) total *= static_cast<std::size_t>(n[d]);
    chk(ns.size() == total, nm<dim>("size"));
    if (!big) {
      const auto sum = ns + ns;
      bool ok = true;
      for (int d = 0; d < dim; ++d) ok = ok && sum(d) == 2 * n[d];
      chk(ok && !(sum == ns) && ns == ns, nm<dim>("size sum"));
    }
    std::vector<std::array<int, 3>> ids;
    if (!big) ids = box<dim>({ 0, 0, 0 }, n);
    else
      for (int k = 0; k < 40; ++k) {
        std::array<int, 3> a{ 0, 0, 0 };
        for (int d = 0; d < dim; ++d) a[d] = g.chance(0.2) ? n[d] - 1 : g.pick(n[d]);
        ids.push_back(a);
      }
    for (auto &a : ids) {
      const auto t = mk<dim>(a);
      const auto f = flat_of<dim>(a, n);
      chk(t.flat(ns) == f && t.flat(ni) == f, nm<dim>(big ? "flat big" : "flat"), str("index ", vec(t, dim), " flat ", t.flat(ns), " expected ", f));
      const TensorIndexTP<dim> back(f, ns), back2(f, ni);
      chk(back == t && back2 == t && !(back != t), nm<dim>(big ? "roundtrip big" : "roundtrip"), str("flat ", f, " gives ", vec(back, dim), " expected ", vec(t, dim)));
      chk(back.hash() == t.hash() && std::hash<TensorIndexTP<dim>>{}(back) == t.hash(), nm<dim>("hash of equal"));
    }
    if (ids.size() > 90) {
      std::vector<std::array<int, 3>> s;
      for (int k = 0; k < 90; ++k) s.push_back(g.of(ids));
      ids = s;
    }
    std::unordered_set<TensorIndexTP<dim>> us;
    std::set<TensorIndexTP<dim>> os;
    std::set<long long> fl;
    for (auto &a : ids) {
      us.insert(mk<dim>(a)), fl.insert(flat_of<dim>(a, n));
      for (auto &b : ids) {
        const auto x = mk<dim>(a), y = mk<dim>(b);
        const auto fa = flat_of<dim>(a, n), fb = flat_of<dim>(b, n);
        chk((x < y) == (fa < fb), nm<dim>("order"), str(vec(x, dim), "<", vec(y, dim), " gives ", x < y, " flats ", fa, ",", fb));
        chk((x == y) == (fa == fb) && (x != y) == (fa != fb), nm<dim>("equality"));
      }
    }
    for (auto &a : ids) os.insert(mk<dim>(a));
    chk(us.size() == fl.size(), nm<dim>("unordered set"));
    chk(os.size() == fl.size(), nm<dim>("ordered set"), str(os.size(), " elements of ", fl.size()));
    if (os.size() == fl.size()) {
      auto it = fl.begin();
      bool same = true;
      for (auto &t : os) same = same && t.flat(ns) == *it++;
      chk(same, nm<dim>("ordered set order"));
    }
  });
}

template<int dim> void split_all(const TensorIndexRangeTP<dim> &r, std::vector<long long> &hits, const std::array<int, 3> &n, int depth)
{
  if (r.size() == 1) {
    ++hits[static_cast<std::size_t>(flat_of<dim>(arr<dim>(r.get_lower_bound()), n))];
    return;
  }
  const auto p = r.split();
  chk(p[0].size() > 0 && p[1].size() > 0 && p[0].size() + p[1].size() == r.size(), nm<dim>("split sizes"), str(r.size(), " into ", p[0].size(), "+", p[1].size()));
  if (depth > 64 || p[0].size() == 0 || p[1].size() == 0) return;
  for (auto &q : p) split_all<dim>(q, hits, n, depth + 1);
}

template<int dim> void ranges(Rng &g)
{
  std::array<int, 3> n{ 1, 1, 1 }, lo{ 0, 0, 0 }, up{ 1, 1, 1 };
  const bool from0 = g.chance(0.25), empty = g.chance(0.12);
  for (int d = 0; d < dim; ++d) {
    n[d] = g.in(1, 8);
    lo[d] = from0 ? 0 : g.pick(n[d]);
    up[d] = g.in(lo[d] + 1, n[d]);
  }
  if (empty) {
    const int e = g.pick(dim);
    up[e] = lo[e];
  }
  mon::run_case(nm<dim>(empty ? "ranges_empty" : "ranges"), str("lo=", lo[0], ",", lo[1], ",", lo[2], " up=", up[0], ",", up[1], ",", up[2]), [&] {
    const auto L = mk<dim>(lo), U = mk<dim>(up);
    const TensorIndexRangeTP<dim> r = from0 ? (g.chance(0.5) ? TensorIndexRangeTP<dim>(U) : TensorIndexRangeTP<dim>(mks<dim>(up))) : TensorIndexRangeTP<dim>(L, U);
    const auto want = box<dim>(lo, up);
    chk(r.get_lower_bound() == L && r.get_upper_bound() == U, nm<dim>("range bounds"));
    chk(r.size() == want.size() && r.get_sizes().size() == want.size(), nm<dim>(empty ? "empty range size" : "range size"), str(r.size()));
    std::vector<std::array<int, 3>> got;
    bool flat_ok = true;
    for (auto it = r.begin(); it != r.end(); ++it) {
      got.push_back(arr<dim>(*it));
      if (got.size() > want.size()) break;
      flat_ok = flat_ok && it.flat() == flat_of<dim>(arr<dim>(*it), up) && it->flat(U) == it.flat();
    }
    chk(got == want, nm<dim>(empty ? "iteration of an empty range" : "iteration"), str("visited ", got.size(), " of ", want.size()));
    if (!empty) chk(flat_ok, nm<dim>("iterator flat"));
    std::vector<std::array<int, 3>> got2;
    for (auto it = r.cbegin(); it != r.cend() && got2.size() <= want.size();) got2.push_back(arr<dim>(*it++));
    chk(got2 == want, nm<dim>(empty ? "postfix empty" : "postfix iteration"));
    std::set<std::array<int, 3>> W(want.begin(), want.end());
    for (auto &a : box<dim>({ 0, 0, 0 }, { n[0] + 1, n[1] + 1, n[2] + 1 })) {
      chk(r.is_in_range(mk<dim>(a)) == (W.count(a) > 0), nm<dim>("is_in_range"), str(vec(mk<dim>(a), dim)));
    }
    const auto tot = mks<dim>(n);
    for (auto &a : box<dim>({ 0, 0, 0 }, n))
      chk(r.is_in_range(flat_of<dim>(a, n), tot) == (W.count(a) > 0), nm<dim>("is_in_range flat"));
    chk(!r.is_in_range(static_cast<std::int64_t>(tot.size()) + g.pick(5), tot), nm<dim>("is_in_range beyond"));
    if (!empty) {
      std::vector<long long> hits(tot.size());
      split_all<dim>(r, hits, n, 0);
      bool ok = true;
      for (auto &a : box<dim>({ 0, 0, 0 }, n)) ok = ok && hits[static_cast<std::size_t>(flat_of<dim>(a, n))] == (W.count(a) ? 1 : 0);
      chk(ok, nm<dim>("recursive split covers once"));
      if (r.size() > 1) {
        const auto p = r.split();
        bool dis = true;
        for (auto &a : want) dis = dis && (p[0].is_in_range(mk<dim>(a)) != p[1].is_in_range(mk<dim>(a)));
        chk(dis, nm<dim>("split disjoint"));
      }
    }
  });
}

template<int dim> std::array<std::vector<real>, dim> rnd_breaks(Rng &g, int nmax)
{
  std::array<std::vector<real>, dim> b;
  const double sc = std::pow(10.0, g.uni(-2, 2));
  for (int d = 0; d < dim; ++d) {
    const int n = g.in(1, nmax);
    double x = g.uni(-3, 3) * sc;
    b[d].push_back(x);
    for (int i = 0; i < n; ++i) b[d].push_back(x += sc * (g.chance(0.2) ? 1e-4 : g.uni(0.1, 1.0)));
  }
  return b;
}

template<int dim> void split_sub(const SubCartGridTP<dim> &s, std::vector<int> &hits, int depth)
{
  const auto &r = s.get_range();
  chk(s.get_num_cells() == r.size() && s.get_num_cells_dir() == r.get_sizes(), nm<dim>("sub sizes"));
  const auto dom = s.get_domain();
  bool ok = true;
  for (int d = 0; d < dim; ++d) {
    const auto &b = s.get_grid()->get_breaks(d);
    ok = ok && dom.min(d) == b[static_cast<std::size_t>(r.get_lower_bound()(d))] && dom.max(d) == b[static_cast<std::size_t>(r.get_upper_bound()(d))];
  }
  chk(ok, nm<dim>("sub domain"));
  chk(s.is_full() == (s.get_num_cells() == s.get_grid()->get_num_cells()), nm<dim>("sub is_full"));
  for (const auto t : r) chk(s.to_flat(t) == t.flat(s.get_grid()->get_num_cells_dir()), nm<dim>("sub to_flat"));
  chk(s.is_unique_cell() == (r.size() == 1), nm<dim>("sub unique"));
  if (r.size() == 1) {
    ++hits.at(static_cast<std::size_t>(s.get_single_cell()));
    const auto c = s.get_grid()->get_cell_domain(s.get_single_cell());
    bool eq = true;
    for (int d = 0; d < dim; ++d) eq = eq && c.min(d) == dom.min(d) && c.max(d) == dom.max(d);
    chk(eq, nm<dim>("single cell domain"));
    return;
  }
  const auto p = s.split();
  chk(p[0]->get_grid() == s.get_grid() && p[1]->get_grid() == s.get_grid(), nm<dim>("sub parent"));
  if (depth < 64)
    for (auto &q : p) split_sub<dim>(*q, hits, depth + 1);
}

template<int dim> void grids(Rng &g)
{
  std::array<std::vector<real>, dim> brk = rnd_breaks<dim>(g, dim == 2 ? 7 : 5);
  const int kind = g.pick(3);
  std::string desc = str("kind=", kind);
  for (auto &b : brk) {
    desc += " [";
    for (auto x : b) desc += str(x, " ");
    desc += "]";
  }
  mon::run_case(nm<dim>("grids"), desc, [&] {
    std::shared_ptr<const CartGridTP<dim>> gp;
    std::array<std::size_t, dim> ni;
    Point<dim> mn, mx;
    for (int d = 0; d < dim; ++d) ni[d] = brk[d].size() - 1, mn(d) = brk[d].front(), mx(d) = brk[d].back();
    if (kind == 0) gp = std::make_shared<CartGridTP<dim>>(brk);
    else if (kind == 1) gp = std::make_shared<CartGridTP<dim>>(BoundBox<dim>(mn, mx), ni);
    else gp = std::make_shared<CartGridTP<dim>>(ni);
    const auto &G = *gp;
    if (kind) {
      for (int d = 0; d < dim; ++d) {
        const double a = kind == 1 ? mn(d) : 0.0, b = kind == 1 ? mx(d) : 1.0, e = 1e-13 * (std::abs(a) + std::abs(b));
        const auto n = ni[d];
        chk(G.get_breaks(d).size() == n + 1, nm<dim>("equispaced count"));
        for (std::size_t i = 0; i <= n; ++i)
          mon::close(G.get_breaks(d)[i], a + (b - a) * static_cast<double>(i) / static_cast<double>(n), e, nm<dim>("equispaced breaks"));
      }
    }
    std::array<int, 3> n{ 1, 1, 1 };
    for (int d = 0; d < dim; ++d) {
      brk[d] = G.get_breaks(d);
      n[d] = static_cast<int>(brk[d].size()) - 1;
      chk(G.get_domain().min(d) == brk[d].front() && G.get_domain().max(d) == brk[d].back(), nm<dim>("domain"));
      chk(G.get_num_cells_dir()(d) == n[d], nm<dim>("cells per dir"));
    }
    const auto all = box<dim>({ 0, 0, 0 }, n);
    chk(G.get_num_cells() == all.size(), nm<dim>("num cells"));
    double vol = 0;
    for (auto &a : all) {
      const auto t = mk<dim>(a);
      const auto f = flat_of<dim>(a, n);
      chk(G.to_flat(t) == f && G.to_tensor(f) == t, nm<dim>("grid flat/tensor"));
      const auto c = G.get_cell_domain(f);
      bool ok = true;
      for (int d = 0; d < dim; ++d) ok = ok && c.min(d) == brk[d][a[d]] && c.max(d) == brk[d][a[d] + 1];
      chk(ok, nm<dim>("cell domain"), str("cell ", f));
      vol += c.volume();
      for (int lf = 0; lf < 2 * dim; ++lf) {
        const int d = lf / 2;
        const bool want = (lf % 2) ? c.max(d) == G.get_domain().max(d) : c.min(d) == G.get_domain().min(d);
        chk(G.on_boundary(f, lf) == want, nm<dim>("on_boundary"), str("cell ", f, " facet ", lf));
      }
    }
    mon::close(vol, G.get_domain().volume(), 1e-12 * vol, nm<dim>("cells tile"));
    for (int lf = 0; lf < 2 * dim; ++lf) {
      auto cells = G.get_boundary_cells(lf);
      std::sort(cells.begin(), cells.end());
      std::vector<std::int64_t> want;
      for (auto &a : all)
        if (a[lf / 2] == (lf % 2 ? n[lf / 2] - 1 : 0)) want.push_back(flat_of<dim>(a, n));
      std::sort(want.begin(), want.end());
      chk(cells == want, nm<dim>("boundary cells"), str("facet ", lf));
    }
    const double tv = Tolerance().value();
    for (int k = 0; k < 40; ++k) {
      Point<dim> p;
      std::array<int, 3> where{};// 0 interior, 1 inner break, 2 domain end
      std::array<double, 3> off{};
      for (int d = 0; d < dim; ++d) {
        const int m = g.pick(4);
        if (m == 0) {
          const auto i = static_cast<std::size_t>(g.pick(n[d] + 1));
          p(d) = brk[d][i];
          where[d] = (i == 0 || static_cast<int>(i) == n[d]) ? 2 : 1;
        } else {
          const auto i = static_cast<std::size_t>(g.pick(n[d]));
          p(d) = brk[d][i] + (brk[d][i + 1] - brk[d][i]) * g.uni(0.05, 0.95);
        }
      }
      const auto f = G.get_cell_id(p);
      if (!chk(f >= 0 && f < static_cast<std::int64_t>(G.get_num_cells()), nm<dim>("cell id range"))) continue;
      const auto c = G.get_cell_domain(f);
      bool in = true;
      for (int d = 0; d < dim; ++d) in = in && p(d) >= c.min(d) - 2 * tv && p(d) <= c.max(d) + 2 * tv;
      chk(in, nm<dim>("located cell contains"), str("point ", vec(p, dim), " cell ", f));
      const auto b = G.at_cells_boundary(p);
      bool any = false;
      for (int d = 0; d < dim; ++d) any = any || where[d] == 1;
      chk(b.has_value() == any && (!any || (*b >= 0 && *b < dim && where[*b] == 1)), nm<dim>(any ? "at_cells_boundary yes" : "at_cells_boundary no"), str("point ", vec(p, dim), " says ", b.value_or(-1)));
    }
    // coarse tolerance
    const Tolerance T(1e-6);
    for (int k = 0; k < 10; ++k) {
      Point<dim> p;
      bool any = false;
      for (int d = 0; d < dim; ++d) {
        const auto i = static_cast<std::size_t>(g.pick(n[d] + 1));
        p(d) = brk[d][i];
        const double e = 0.5e-6 * g.uni(-1, 1);
        if (i > 0 && static_cast<int>(i) < n[d]) any = true, p(d) += e;
        else if (i == 0) p(d) += std::abs(e);
        else p(d) -= std::abs(e);
      }
      if (brk[0].back() - brk[0].front() < 1e-3) continue;
      double mind = 1;
      for (int d = 0; d < dim; ++d)
        for (int i = 0; i < n[d]; ++i) mind = std::min(mind, brk[d][i + 1] - brk[d][i]);
      if (mind < 5e-6) continue;
      const auto b = G.at_cells_boundary(p, T);
      chk(b.has_value() == any, nm<dim>("at_cells_boundary tol"), str("point ", vec(p, dim)));
      const auto c = G.get_cell_domain(G.get_cell_id(p, T));
      bool in = true;
      for (int d = 0; d < dim; ++d) in = in && p(d) >= c.min(d) - 2e-6 && p(d) <= c.max(d) + 2e-6;
      chk(in, nm<dim>("located cell contains tol"));
    }
    std::vector<int> hits(G.get_num_cells());
    split_sub<dim>(SubCartGridTP<dim>(gp), hits, 0);
    chk(std::all_of(hits.begin(), hits.end(), [](int h) { return h == 1; }), nm<dim>("sub split covers once"));
    std::array<int, 3> lo{ 0, 0, 0 }, up{ 1, 1, 1 };
    for (int d = 0; d < dim; ++d) lo[d] = g.pick(n[d]), up[d] = g.in(lo[d] + 1, n[d]);
    std::fill(hits.begin(), hits.end(), 0);
    split_sub<dim>(SubCartGridTP<dim>(gp, mk<dim>(lo), mk<dim>(up)), hits, 0);
    bool ok = true;
    for (auto &a : all) {
      bool in = true;
      for (int d = 0; d < dim; ++d) in = in && a[d] >= lo[d] && a[d] < up[d];
      ok = ok && hits[static_cast<std::size_t>(flat_of<dim>(a, n))] == (in ? 1 : 0);
    }
    chk(ok, nm<dim>("sub range split covers once"));
  });
}

template<int dim> void biggrid(Rng &g)
{
  // Grids with more cells than a 32-bit counter holds.
  std::array<std::size_t, dim> ni;
  std::array<int, 3> n{ 1, 1, 1 };
  for (int d = 0; d < dim; ++d) ni[d] = static_cast<std::size_t>(n[d] = dim == 2 ? g.in(50000, 70000) : g.in(1400, 2000));
  mon::run_case(nm<dim>("biggrid"), str(n[0], ",", n[1], ",", n[2]), [&] {
    const CartGridTP<dim> G(ni);
    unsigned long long tot = 1;
    for (int d = 0; d < dim; ++d) tot *= ni[d];
    chk(G.get_num_cells() == tot, nm<dim>("big num cells"));
    for (int k = 0; k < 20; ++k) {
      std::array<int, 3> a{};
      Point<dim> p;
      for (int d = 0; d < dim; ++d) a[d] = g.chance(0.2) ? n[d] - 1 : g.pick(n[d]), p(d) = (a[d] + 0.5) / n[d];
      const auto f = flat_of<dim>(a, n);
      chk(G.get_cell_id(p) == f, nm<dim>("big cell id"));
      chk(G.to_tensor(f) == mk<dim>(a), nm<dim>("big to_tensor"));
      const auto c = G.get_cell_domain(f);
      bool in = true;
      for (int d = 0; d < dim; ++d) in = in && c.min(d) < p(d) && p(d) < c.max(d);
      chk(in, nm<dim>("big cell domain"));
      for (int lf = 0; lf < 2 * dim; ++lf)
        chk(G.on_boundary(f, lf) == (a[lf / 2] == (lf % 2 ? n[lf / 2] - 1 : 0)), nm<dim>("big on_boundary"));
    }
    // Two long directions and, in 3D, a short one: a facet across a long direction is small.
    std::array<int, 3> m{ 1, 1, 1 }, a{};
    const int shrt = dim == 3 ? g.pick(3) : -1;
    std::array<std::size_t, dim> mi;
    for (int d = 0; d < dim; ++d) mi[d] = static_cast<std::size_t>(m[d] = d == shrt ? g.in(1, 3) : g.in(47000, 60000));
    const CartGridTP<dim> H(mi);
    int lf = g.pick(2 * dim);
    if (lf / 2 == shrt) lf = (lf + 2) % (2 * dim);
    auto ids = H.get_boundary_cells(lf);
    std::sort(ids.begin(), ids.end());
    a[lf / 2] = lf % 2 ? m[lf / 2] - 1 : 0;
    const int d0 = lf / 2 == 0 ? 1 : 0, d1 = dim == 3 ? 3 - lf / 2 - d0 : -1;
    const std::size_t n1 = dim == 3 ? m[d1] : 1;
    bool ok = ids.size() == m[d0] * n1;
    for (std::size_t k = 0; ok && k < ids.size(); ++k) {
      a[d0] = static_cast<int>(k % m[d0]);
      if (dim == 3) a[d1] = static_cast<int>(k / m[d0]);
      const auto f = flat_of<dim>(a, m);
      if (ids[k] != f) {
        chk(false, nm<dim>("big boundary cells"), str("facet ", lf, " cell ", k, " has id ", ids[k], " expected ", f));
        break;
      }
    }
    chk(ok, nm<dim>("big boundary cells count"));
  });
}

template<int dim> void boxes(Rng &g)
{
  const double sc = std::pow(10.0, g.uni(-3, 3));
  Point<dim> a, b;
  std::array<real, dim> aa, bb;
  for (int d = 0; d < dim; ++d) {
    a(d) = sc * g.uni(-2, 2), b(d) = a(d) + sc * (g.chance(0.1) ? 1e-3 : g.uni(0.1, 2));
    aa[d] = a(d), bb[d] = b(d);
  }
  mon::run_case(nm<dim>("boxes"), str(vec(a, dim), vec(b, dim)), [&] {
    const double e = 1e-12 * sc;
    const BoundBox<dim> B(a, b), B2(aa, bb), B3(::algoim::HyperRectangle<real, dim>(a, b)), D;
    double vol = 1;
    for (int d = 0; d < dim; ++d) {
      chk(B.min(d) == a(d) && B.max(d) == b(d) && B2.min(d) == a(d) && B2.max(d) == b(d) && B3.min(d) == a(d) && B3.max(d) == b(d), nm<dim>("box bounds"));
      chk(B.min_corner()(d) == a(d) && B.max_corner()(d) == b(d), nm<dim>("box corners"));
      chk(D.min(d) == 0 && D.max(d) == 1, nm<dim>("box default"));
      mon::close(B.length(d), b(d) - a(d), e, nm<dim>("box length"));
      mon::close(B.get_lengths()(d), b(d) - a(d), e, nm<dim>("box lengths"));
      mon::close(B.mid_point()(d), 0.5 * (a(d) + b(d)), e, nm<dim>("box mid"));
      vol *= b(d) - a(d);
      const auto h = B.to_hyperrectangle();
      chk(h.min(d) == a(d) && h.max(d) == b(d), nm<dim>("box hyperrectangle"));
    }
    mon::close(B.volume(), vol, 1e-12 * vol, nm<dim>("box volume"));
    if constexpr (dim == 1) chk(B.min() == a(0) && B.max() == b(0) && B.length() == B.length(0), "box 1D accessors");
    const BoundBox<dim> C(g.uni(-2, -1), g.uni(1, 2));
    for (int k = 0; k < 12; ++k) {
      Point<dim> t, p;
      for (int d = 0; d < dim; ++d) {
        t(d) = k == 0 ? 0.0 : k == 1 ? 1.0 : g.uni(-0.5, 1.5);
        p(d) = a(d) + t(d) * (b(d) - a(d));
      }
      const auto u = B.scale_to_0_1(p), q = B.scale_from_0_1(t), w = B.scale_to_new_domain(C, p), z = C.scale_to_new_domain(B, w);
      for (int d = 0; d < dim; ++d) {
        // conditioning of the normalisation: the origin over the length
        const double cnd = 1 + std::abs(a(d)) / (b(d) - a(d));
        mon::close(u(d), t(d), 1e-12 * cnd, nm<dim>("box scale_to_0_1"));
        mon::close(q(d), p(d), e, nm<dim>("box scale_from_0_1"));
        mon::close(w(d), C.min(d) + t(d) * (C.max(d) - C.min(d)), 1e-11 * cnd, nm<dim>("box scale_to_new"));
        mon::close(z(d), p(d), 10 * e * cnd, nm<dim>("box scale roundtrip"));
      }
    }
    auto X = B;
    Point<dim> lo = a, hi = b;
    for (int k = 0; k < 6; ++k) {
      Point<dim> p;
      for (int d = 0; d < dim; ++d) p(d) = a(d) + sc * g.uni(-4, 4), lo(d) = std::min(lo(d), p(d)), hi(d) = std::max(hi(d), p(d));
      X.extend(p);
      bool ok = true;
      for (int d = 0; d < dim; ++d) ok = ok && X.min(d) == lo(d) && X.max(d) == hi(d);
      chk(ok, nm<dim>("box extend point"), str(vec(p, dim)));
    }
    const double dl = sc * g.uni(0.01, 1);
    const auto E = B.extend(dl);
    for (int d = 0; d < dim; ++d) {
      mon::close(E.min(d), a(d) - dl, e, nm<dim>("box extend delta"));
      mon::close(E.max(d), b(d) + dl, e, nm<dim>("box extend delta"));
      chk(B.min(d) == a(d), nm<dim>("box unchanged"));
    }
    if constexpr (dim > 1) {
      for (int cd = 0; cd < dim; ++cd) {
        const auto S = B.template slice<dim>(cd);
        for (int d = 0, k = 0; d < dim; ++d)
          if (d != cd) {
            chk(S.min(k) == a(d) && S.max(k) == b(d), nm<dim>("box slice"));
            ++k;
          }
      }
    }
    auto Y = D;
    Y.set(a, b);
    chk(Y.min(0) == a(0) && Y.max(dim - 1) == b(dim - 1), nm<dim>("box set"));
  });
}

void tolerances(Rng &g)
{
  const double t = std::pow(10.0, g.uni(-14, -1)), t2 = std::pow(10.0, g.uni(-14, -1));
  mon::run_case("tolerance", str(t, " ", t2), [&] {
    const Tolerance T(t), M(t, t2), M2(Tolerance(t2), T);
    chk(T.value() == t && M.value() == std::max(t, t2) && M2.value() == std::max(t, t2), "tol value");
    Tolerance U(t);
    U.update(t2);
    chk(U.value() == std::max(t, t2), "tol update");
    for (int k = 0; k < 20; ++k) {
      const double x = g.uni(-3, 3), f = g.sgn() * (g.chance(0.5) ? g.uni(0, 0.9) : g.uni(1.1, 3)), y = x + f * t, d = x - y;
      if (std::abs(std::abs(d) - t) < 1e-3 * t || t < 1e-13) continue;
      const bool eq = std::abs(d) <= t;
      chk(T.equal(x, y) == eq && T.equal(y, x) == eq, "tol equal");
      chk(T.is_zero(d) == eq && T.is_negative(d) == (!eq && d < 0) && T.is_positive(d) == (!eq && d > 0), "tol sign");
      chk(T.greater_than(x, y) == (!eq && x > y) && T.smaller_than(x, y) == (!eq && x < y), "tol greater/smaller");
      chk(T.greater_equal_than(x, y) == (eq || x > y) && T.smaller_equal_than(x, y) == (eq || x < y), "tol greater/smaller equal");
      const double m = std::max(std::abs(x), std::abs(y));
      if (std::abs(std::abs(d) - t * m) > 1e-3 * t * m) {
        const bool er = std::abs(d) <= t * m;
        chk(T.equal_rel(x, y) == er, "tol equal_rel");
        chk(T.greater_than_rel(x, y) == (!er && x > y) && T.smaller_than_rel(x, y) == (!er && x < y), "tol rel");
      }
      if (std::abs(std::abs(d) - t - t2 * m) > 1e-3 * t) chk(T.equal_rel(x, y, Tolerance(t2)) == (std::abs(d) <= t + t2 * m), "tol equal_rel2");
    }
    std::vector<real> v;
    for (int k = 0, n = g.pick(20); k < n; ++k) v.push_back(v.empty() || g.chance(0.4) ? g.uni(-1, 1) : g.of(v) + t * g.uni(-2, 2));
    const auto o = v;
    T.unique(v);
    bool s = true, near = true;
    for (std::size_t i = 1; i < v.size(); ++i) s = s && v[i] - v[i - 1] > t;
    for (auto x : o) near = near && std::any_of(v.begin(), v.end(), [&](double y) { return std::abs(x - y) <= t; });
    for (auto y : v) near = near && std::find(o.begin(), o.end(), y) != o.end();
    chk(s && near, "tol unique");
    Point<2> p(g.uni(-1, 1), g.uni(-1, 1)), q = p;
    const int d = g.pick(2);
    const bool apart = g.chance(0.5);
    q(d) += apart ? 1.5 * t : 0.5 * t;
    if (t > 1e-13) chk((T.coincident<2, real>(p, q)) == !apart, "tol coincident");
  });
}

int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string s = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int n = std::atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    if (s == "idx") indices<1>(g), indices<2>(g), indices<3>(g);
    else if (s == "rng") ranges<1>(g), ranges<2>(g), ranges<3>(g);
    else if (s == "grid") grids<2>(g), grids<3>(g);
    else if (s == "big") biggrid<2>(g), biggrid<3>(g);
    else if (s == "box") boxes<1>(g), boxes<2>(g), boxes<3>(g), tolerances(g);
    else return 9;
  }
  mon::count("cases", n);
  mon::finish();
}
