// C11: the same calls give bitwise the same results, whatever happened before, in whatever
// order, on copies, after everything they were built from is gone, and in parallel threads.
//   geo_seq SECTION SEED N      SECTION = repeat | threads | tree
#include "dom.hpp"
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/tolerance.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
#include <atomic>
#include <bit>
#include <thread>
using namespace qugar;
using namespace qugar::impl;
using namespace dom;
using mon::chk;

struct Dig
{
  std::vector<std::uint64_t> v;
  void operator()(double x) { v.push_back(std::bit_cast<std::uint64_t>(x)); }
  template<class I> requires std::is_integral_v<I> void operator()(I x) { v.push_back(std::uint64_t(x)); }
  template<class T, int n> void operator()(const Vector<T, n> &p)
  {
    for (int i = 0; i < n; ++i) (*this)(p(i));
  }
  template<int n> void operator()(const Point<n> &p)
  {
    for (int i = 0; i < n; ++i) (*this)(double(p(i)));
  }
  template<class T> void operator()(const std::vector<T> &x)
  {
    v.push_back(x.size());
    for (const auto &y : x) (*this)(y);
  }
  bool operator==(const Dig &o) const { return v == o.v; }
};
//! Something that can be asked questions; the answers depend only on the seed and the question.
struct Thing
{
  virtual ~Thing() = default;
  virtual int questions() const = 0;
  virtual Dig ask(int q) const = 0;
  virtual std::shared_ptr<Thing> copy() const = 0;
};
template<class M> void mesh(Dig &d, const M &m)
{
  d(m.get_points()), d(m.get_connectivity()), d(m.get_wires_connectivity()), d(m.get_order());
}
template<int dim> struct Domain final : Thing
{
  using U = UnfittedImplDomain<dim>;
  std::shared_ptr<U> u;
  std::uint64_t seed;
  explicit Domain(std::uint64_t s) : seed(s)
  {
    Rng g(s);
    const auto D = make<dim>(g, g.chance(0.3) ? PLANE : ANY, dim == 2 ? 4 : 2);
    if (g.chance(0.3)) {
      std::vector<Id> ids;
      for (Id c = 0; c < D.cells(); ++c)
        if (g.chance(0.6)) ids.push_back(c);
      u = std::make_shared<U>(D.f, D.grid, ids);
    } else u = std::make_shared<U>(D.f, D.grid);
    // the domain has to keep whatever it needs: D goes away
  }
  Domain(std::shared_ptr<U> w, std::uint64_t s) : u(std::move(w)), seed(s) {}
  std::shared_ptr<Thing> copy() const override
  {
    if (seed % 3 == 0) return std::make_shared<Domain>(std::make_shared<U>(*u), seed);
    if (seed % 3 == 1) {
      U t(*u);
      return std::make_shared<Domain>(std::make_shared<U>(std::move(t)), seed);
    }
    // assignment over another domain
    Domain<dim> other(seed + 17);
    *other.u = *u;
    return std::make_shared<Domain>(other.u, seed);
  }
  int questions() const override { return 9; }
  Dig ask(int q) const override
  {
    Dig d;
    Rng g(seed * 31 + std::uint64_t(q));
    const auto grid = u->get_grid();
    const Id nc = Id(grid->get_num_cells());
    const auto cells = [&] {
      std::vector<Id> r;
      if (g.chance(0.1)) return r;
      const bool all = g.chance(0.3);
      std::vector<Id> known;
      for (const auto f : { &U::get_full_cells, static_cast<void (UnfittedDomain<dim>::*)(std::vector<Id> &) const>(&U::get_cut_cells), static_cast<void (UnfittedDomain<dim>::*)(std::vector<Id> &) const>(&U::get_empty_cells) }) {
        std::vector<Id> x;
        ((*u).*static_cast<void (UnfittedDomain<dim>::*)(std::vector<Id> &) const>(f))(x);
        known.insert(known.end(), x.begin(), x.end());
      }
      std::sort(known.begin(), known.end());
      for (const Id c : known)
        if (all || g.chance(0.7)) r.push_back(c);
      return r;
    };
    const int n = g.in(1, dim == 2 ? 6 : 3);
    switch (q) {
    case 0: {
      std::vector<Id> a;
      std::vector<int> b;
      u->get_full_cells(a), d(a);
      u->get_empty_cells(a), d(a);
      u->get_cut_cells(a), d(a);
      u->get_empty_facets(a, b), d(a), d(b);
      u->get_full_facets(a, b), d(a), d(b);
      u->get_cut_facets(a, b), d(a), d(b);
      u->get_unfitted_facets(a, b), d(a), d(b);
      u->get_full_unfitted_facets(a, b), d(a), d(b);
      d(u->get_num_full_cells()), d(u->get_num_cut_cells()), d(u->get_num_empty_cells()), d(u->get_num_total_cells());
      d(u->has_facets_with_unf_bdry());
      std::sort(d.v.begin(), d.v.end());// facets are listed in the order of a hash table
      break;
    }
    case 1:
      for (const Id c : cells()) {
        d(u->is_full_cell(c)), d(u->is_empty_cell(c)), d(u->is_cut_cell(c)), d(u->is_full_with_unf_bdry_cell(c)), d(u->is_cell_with_unf_bdry(c));
        for (int f = 0; f < 2 * dim; ++f) {
          d(u->is_full_facet(c, f)), d(u->is_empty_facet(c, f)), d(u->is_cut_facet(c, f)), d(u->is_full_unfitted_facet(c, f));
          d(u->has_unfitted_boundary(c, f)), d(u->has_external_boundary(c, f)), d(u->is_exterior_facet(c, f));
        }
      }
      break;
    case 2: {
      const auto r = create_quadrature<dim>(*u, cells(), n);
      d(r->cells), d(r->n_pts_per_cell), d(r->points), d(r->weights);
      break;
    }
    case 3: {
      const bool a = g.chance(0.5), b = g.chance(0.5);
      const auto r = create_unfitted_bound_quadrature<dim>(*u, cells(), n, a, b);
      d(r->cells), d(r->n_pts_per_cell), d(r->points), d(r->weights), d(r->normals);
      break;
    }
    case 4:
    case 5: {
      std::vector<Id> cs;
      std::vector<int> fs;
      for (const Id c : cells())
        for (int f = 0; f < 2 * dim; ++f)
          if (g.chance(0.5) && !(q == 5 && !u->is_exterior_facet(c, f))) cs.push_back(c), fs.push_back(f);
      const auto r = q == 4 ? create_facets_quadrature_interior_integral<dim>(*u, cs, fs, n) : create_facets_quadrature_exterior_integral<dim>(*u, cs, fs, n);
      d(r->cells), d(r->local_facet_ids), d(r->n_pts_per_facet), d(r->points), d(r->weights);
      break;
    }
    case 6: {
      const int o = g.chance(0.8) ? g.in(2, 5) : g.in(7, 8);
      const bool m = g.chance(0.5);
      const auto cs = cells();
      if (g.chance(0.5)) mesh(d, *create_reparameterization<dim, false>(*u, cs, o, m));
      else mesh(d, *create_reparameterization<dim, true>(*u, cs, o, m));
      break;
    }
    case 7: {
      const auto f = u->get_impl_func();
      for (int i = 0; i < 3; ++i) mesh(d, *reparam_general_facet<dim>(*f, grid->get_cell_domain(g.pick(int(nc))), g.pick(2 * dim), g.in(2, 5)));
      break;
    }
    default: {
      const auto f = u->get_impl_func();
      for (int i = 0; i < 20; ++i) {
        const auto x = rp<dim>(g, 0, 1);
        d((*f)(x)), d(f->grad(x)), d(f->hessian(x));
      }
    }
    }
    return d;
  }
};
template<int dim> struct Poly final : Thing
{
  std::shared_ptr<BezierTP<dim, 1>> b;
  std::shared_ptr<MonomialsTP<dim, 1>> m;
  std::uint64_t seed;
  explicit Poly(std::uint64_t s) : seed(s)
  {
    Rng g(s);
    TensorSizeTP<dim> o;
    int tot = 1;
    for (int i = 0; i < dim; ++i) o(i) = g.in(1, dim == 3 ? 4 : 6), tot *= o(i);
    std::vector<real> cf;
    for (int i = 0; i < tot; ++i) cf.push_back(g.uni(-1, 1));
    m = std::make_shared<MonomialsTP<dim, 1>>(o, cf);
    if (g.chance(0.5)) b = std::make_shared<BezierTP<dim, 1>>(o, cf);
    else b = std::make_shared<BezierTP<dim, 1>>(*m);
  }
  std::shared_ptr<Thing> copy() const override
  {
    const auto p = std::make_shared<Poly>(seed + 5);
    if (seed % 2) {
      p->b = std::make_shared<BezierTP<dim, 1>>(*b);
      p->m = std::make_shared<MonomialsTP<dim, 1>>(*m);
    } else {
      *p->b = *b;
      p->m = std::make_shared<MonomialsTP<dim, 1>>(*m);
    }
    p->seed = seed;
    return p;
  }
  int questions() const override { return 7; }
  static void show(Dig &d, const BezierTP<dim, 1> &x)
  {
    d(x.get_coefs()), d(x.get_order()), d(int(x.sign()));
    const auto &a = x.get_xarray();
    for (int i = 0; i < a.size(); ++i) d(a[i]);
  }
  Dig ask(int q) const override
  {
    Dig d;
    Rng g(seed * 37 + std::uint64_t(q));
    const Poly other(seed + 1);
    switch (q) {
    case 0: show(d, *b), d(m->get_coefs()); break;
    case 1:
      for (int i = 0; i < 10; ++i) {
        const auto x = rp<dim>(g, 0, 1);
        d((*b)(x)), d((*m)(x));
        for (int k = 0; k < dim; ++k) d(b->grad(x)(k)), d(m->grad(x)(k));
        d(b->hessian(x)), d(m->hessian(x));
      }
      break;
    case 2: show(d, *(*b * *other.b)), show(d, *(*b + *other.b)), show(d, *(*b - *other.b)), show(d, *b->negate()); break;
    case 3: {
      TensorSizeTP<dim> o;
      for (int i = 0; i < dim; ++i) o(i) = b->get_order()(i) + g.in(0, 3);
      show(d, *b->raise_order(o));
      break;
    }
    case 4: {
      BezierTP<dim, 1> c(*b);
      Point<dim> lo = rp<dim>(g, 0, 0.4), hi = rp<dim>(g, 0.6, 1);
      c.rescale_domain(BoundBox<dim>(lo, hi));
      show(d, c);
      break;
    }
    case 5:
      if constexpr (dim > 1) {
        for (int f = 0; f < 2 * dim; ++f) d(b->extract_facet(f)->get_coefs()), d(m->extract_facet(f)->get_coefs());
      }
      for (int f = 0; f < dim; ++f) d(m->create_derivative(f)->get_coefs());
      break;
    default: {
      std::vector<real> v;
      TensorSizeTP<dim> o;
      for (int i = 0; i < dim; ++i) o(i) = g.in(2, 8);
      evaluate_Lagrange_basis<dim>(rp<dim>(g, 0, 1), o, g.chance(0.5), v), d(v);
    }
    }
    return d;
  }
};
struct Rules final : Thing
{
  std::uint64_t seed;
  explicit Rules(std::uint64_t s) : seed(s) {}
  std::shared_ptr<Thing> copy() const override { return std::make_shared<Rules>(seed); }
  int questions() const override { return 6; }
  template<int dim> static void go(Dig &d, Rng &g, bool gauss)
  {
    const auto r = gauss ? Quadrature<dim>::create_Gauss_01(g.in(1, dim == 1 ? 40 : 9)) : Quadrature<dim>::create_tanh_sinh_01(g.in(1, dim == 1 ? 40 : 9));
    d(r->points()), d(r->weights());
  }
  Dig ask(int q) const override
  {
    Dig d;
    Rng g(seed * 41 + std::uint64_t(q));
    if (q % 3 == 0) go<1>(d, g, q < 3);
    if (q % 3 == 1) go<2>(d, g, q < 3);
    if (q % 3 == 2) go<3>(d, g, q < 3);
    return d;
  }
};
std::shared_ptr<Thing> build(std::uint64_t s)
{
  Rng g(s);
  switch (g.pick(10)) {
  case 0: return std::make_shared<Poly<1>>(s);
  case 1: return std::make_shared<Poly<2>>(s);
  case 2: return std::make_shared<Poly<3>>(s);
  case 3: return std::make_shared<Rules>(s);
  case 4:
  case 5: return std::make_shared<Domain<3>>(s);
  default: return std::make_shared<Domain<2>>(s);
  }
}
const char *kind(const Thing &t)
{
  return dynamic_cast<const Domain<2> *>(&t) ? "2d domain" : dynamic_cast<const Domain<3> *>(&t) ? "3d domain" : dynamic_cast<const Rules *>(&t) ? "rules" : "polynomial";
}
void repeat(Rng &g, int size)
{
  std::vector<std::uint64_t> seeds;
  std::vector<std::shared_ptr<Thing>> things;
  std::map<std::pair<int, int>, Dig> first;
  for (int i = 0; i < size; ++i) {
    seeds.push_back(g.g() % 1000000007);
    things.push_back(build(seeds.back()));
  }
  std::vector<std::pair<int, int>> todo;
  for (int i = 0; i < size; ++i)
    for (int q = 0; q < things[std::size_t(i)]->questions(); ++q) todo.emplace_back(i, q);
  std::shuffle(todo.begin(), todo.end(), g.g);
  for (const auto &[i, q] : todo) {
    mon::cur_case = str("seed ", seeds[std::size_t(i)], " question ", q);
    first[{ i, q }] = things[std::size_t(i)]->ask(q);
  }
  std::shuffle(todo.begin(), todo.end(), g.g);
  for (const auto &[i, q] : todo) {
    auto &t = *things[std::size_t(i)];
    const std::string w = str("seed ", seeds[std::size_t(i)], " question ", q), k = str(" ", kind(t), " question ", q);
    mon::cur_case = w;
    const auto &f = first[{ i, q }];
    switch (g.pick(3)) {
    case 0: chk(t.ask(q) == f, "asking again" + k, w); break;
    case 1: chk(t.copy()->ask(q) == f, "asking a copy" + k, w); break;
    default: chk(build(seeds[std::size_t(i)])->ask(q) == f, "asking one built again" + k, w);
    }
    if (f.v.size() > 1) mon::see("answer" + k);
  }
}
void threads(Rng &g)
{
  const int T = g.in(2, 6), size = g.in(2, 4);
  std::vector<std::vector<std::uint64_t>> seeds{ std::size_t(T), std::vector<std::uint64_t>{} };
  const bool common = g.chance(0.4);// the same calls at once, on objects of their own
  for (auto &s : seeds)
    for (int i = 0; i < size; ++i) s.push_back(common && &s != &seeds[0] ? seeds[0][std::size_t(i)] : g.g() % 1000000007);
  std::vector<std::vector<Dig>> got{ std::size_t(T), std::vector<Dig>{} };
  std::atomic<int> ready{ 0 };
  const auto work = [](const std::vector<std::uint64_t> &ss, std::vector<Dig> &out) {
    for (const auto s : ss) {
      const auto t = build(s);
      for (int q = 0; q < t->questions(); ++q) out.push_back(t->ask(q));
    }
  };
  std::vector<std::thread> th;
  for (std::size_t i = 0; i < std::size_t(T); ++i)
    th.emplace_back([&, i] {
      ++ready;
      while (ready < T) {}
      work(seeds[i], got[i]);
    });
  for (auto &t : th) t.join();
  for (std::size_t i = 0; i < std::size_t(T); ++i) {
    std::vector<Dig> alone;
    work(seeds[i], alone);
    if (!chk(alone.size() == got[i].size(), "number of answers in threads")) continue;
    for (std::size_t k = 0; k < alone.size(); ++k) chk(alone[k] == got[i][k], str("answer in parallel, ", T, " threads", common ? ", same calls" : ""), str("thread ", i, " answer ", k));
  }
}
//! Random decompositions of a grid against a model.
template<int dim> void tree(Rng &g)
{
  using T = UnfittedBinarySpacePart<dim>;
  std::shared_ptr<T> root;
  std::array<int, 3> n{ 1, 1, 1 };
  {
    Dom<dim> D;
    grid<dim>(g, D, 6, 0, 1);
    root = std::make_shared<T>(std::shared_ptr<const CartGridTP<dim>>(D.grid));
    n = D.n;
  }
  const Id nc = Id(n[0]) * n[1] * n[2];
  std::vector<std::shared_ptr<T>> leaves{ root };
  const int len = g.in(0, 30);
  const std::string w = str(dim, "d ", n[0], "x", n[1], "x", n[2]);
  std::map<T *, ImmersedCellStatus> st;
  for (int i = 0; i < len; ++i) {
    const auto k = std::size_t(g.pick(int(leaves.size())));
    auto l = leaves[k];
    if (st.count(l.get())) continue;
    if (!l->get_subgrid()->is_unique_cell() && g.chance(0.7)) {
      l->branch();
      leaves[k] = l->get_child(0);
      leaves.push_back(l->get_child(1));
      chk(!l->is_leaf(), "branched leaf", w);
    } else {
      const auto s = l->get_subgrid()->is_unique_cell() && g.chance(0.4) ? ImmersedCellStatus::cut : g.chance(0.5) ? ImmersedCellStatus::full : ImmersedCellStatus::empty;
      l->set_status(s);
      st[l.get()] = s;
    }
  }
  std::map<ImmersedCellStatus, std::vector<Id>> want;
  std::map<ImmersedCellStatus, std::size_t> nl;
  std::vector<int> seen(std::size_t(nc), 0);
  std::vector<ImmersedCellStatus> of(std::size_t(nc), ImmersedCellStatus::unknown);
  for (const auto &l : leaves) {
    const auto s = st.count(l.get()) ? st[l.get()] : ImmersedCellStatus::unknown;
    chk(l->is_leaf() && l->get_status() == s, "status of a leaf", w);
    ++nl[s];
    const auto size = l->get_grid()->get_num_cells_dir();
    std::size_t m = 0;
    for (const auto &it : l->get_subgrid()->get_range()) {
      const Id c = it.flat(size);
      if (!chk(c >= 0 && c < nc, "cells of a leaf are of the grid", w)) return;
      ++seen[std::size_t(c)], ++m;
      want[s].push_back(c);
      of[std::size_t(c)] = s;
      chk(l->is_in_tree(c) && root->is_in_tree(c) && root->find_leaf(c) == l, "leaf of a cell", w);
    }
    chk(m == l->get_subgrid()->get_num_cells() && m > 0, "number of cells of a leaf", w);
  }
  bool once = true;
  for (const int x : seen) once = once && x == 1;
  chk(once, "leaves partition the grid", w);
  for (const auto s : { ImmersedCellStatus::cut, ImmersedCellStatus::full, ImmersedCellStatus::empty, ImmersedCellStatus::unknown }) {
    std::sort(want[s].begin(), want[s].end());
    std::vector<Id> got{ 3 }, some, tgt;
    root->get_cell_ids(s, got);
    chk(got == want[s], "cells by status", w);
    chk(root->get_num_cells(s) == want[s].size(), "number of cells by status", w);
    chk(root->get_num_leaves(s) == nl[s], "number of leaves by status", w);
    std::vector<std::shared_ptr<const T>> ls;
    root->get_leaves(s, ls);
    bool ok = ls.size() == nl[s];
    for (const auto &l : ls) ok = ok && l->get_status() == s;
    chk(ok, "leaves by status", w);
    for (Id c = 0; c < nc; ++c) {
      if (g.chance(0.5)) tgt.push_back(c);
      chk(root->is_cell(s, c) == (of[std::size_t(c)] == s), "status of a cell", w);
    }
    std::shuffle(tgt.begin(), tgt.end(), g.g);
    root->get_cell_ids(s, tgt, some);
    std::vector<Id> exp;
    for (const Id c : tgt)
      if (of[std::size_t(c)] == s) exp.push_back(c);
    std::sort(exp.begin(), exp.end());
    chk(some == exp, "some cells by status", w);
  }
}
int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string sec = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int N = std::atoi(argv[3]);
  for (int i = 0; i < N; ++i)
    mon::run_case(sec, str("case ", i), [&] {
      if (sec == "repeat") repeat(g, g.in(3, 8));
      else if (sec == "threads") threads(g);
      else g.chance(0.5) ? tree<2>(g) : tree<3>(g);
    });
  mon::finish();
}
