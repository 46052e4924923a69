// C07: tensor-product polynomials (monomial and Bezier form) against sums over a basis in long double.
//   geo_poly SECTION SEED N
#include "mon.hpp"
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <algoim/interval.hpp>
#include <array>
#include <memory>
#include <optional>
using namespace qugar;
using namespace qugar::impl;
using mon::chk, mon::str, mon::vec, mon::Rng;
using ld = long double;

template<int dim, int range> std::string nm(const char *s) { return str(s, " ", dim, "->", range); }
template<class V> auto comp(const V &v, int r)
{
  if constexpr (requires { v(r); } && !requires { v.alpha; }) return v(r);
  else return (void)r, v;
}
//! A coefficient of the same type, all components v.
template<class C> C CoefsOf(const C &like, double v)
{
  if constexpr (std::is_arithmetic_v<C>) return (void)like, v;
  else {
    C c = like;
    c = v;
    return c;
  }
}
enum Kind { mono, bern };
ld binom(int n, int k)
{
  ld r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
//! k-th basis function of degree n, der-th derivative.
ld basis(Kind kind, int n, int k, int der, ld x)
{
  if (k < 0 || k > n) return 0;
  if (kind == mono) {
    ld c = 1;
    for (int j = 0; j < der; ++j) c *= k - j;
    return c == 0 ? 0 : c * std::pow(x, static_cast<ld>(k - der));
  }
  if (der > 0) return n == 0 ? 0 : n * (basis(kind, n - 1, k - 1, der - 1, x) - basis(kind, n - 1, k, der - 1, x));
  ld v = binom(n, k);
  for (int i = 0; i < k; ++i) v *= x;
  for (int i = k; i < n; ++i) v *= 1 - x;
  return v;
}
template<int dim> using Ix = std::array<int, dim>;

//! The polynomial as the test knows it.
template<int dim, int range> struct Poly
{
  Kind kind;
  Ix<dim> n;// degrees
  std::vector<std::array<double, range>> c;// first direction fastest
  ld at(const Point<dim> &x, int r, Ix<dim> der = {}, ld *mag = nullptr) const
  {
    std::array<std::vector<ld>, dim> b;
    for (int d = 0; d < dim; ++d)
      for (int k = 0; k <= n[d]; ++k) b[d].push_back(basis(kind, n[d], k, der[d], x(d)));
    ld s = 0, m = 0;
    for (std::size_t f = 0; f < c.size(); ++f) {
      ld v = c[f][r];
      std::size_t q = f;
      for (int d = 0; d < dim; ++d) v *= b[d][q % (n[d] + 1)], q /= n[d] + 1;
      s += v, m += std::abs(v);
    }
    if (mag) *mag = m;
    return s;
  }
  double maxc() const
  {
    double m = 0;
    for (auto &a : c)
      for (auto x : a) m = std::max(m, std::abs(x));
    return m;
  }
  TensorSizeTP<dim> order() const
  {
    TensorSizeTP<dim> o;
    for (int d = 0; d < dim; ++d) o(d) = n[d] + 1;
    return o;
  }
  auto coefs() const
  {
    std::vector<typename PolynomialTP<dim, range>::CoefsType> v;
    for (auto &a : c)
      if constexpr (range == 1) v.push_back(a[0]);
      else {
        Point<range> p;
        for (int r = 0; r < range; ++r) p(r) = a[r];
        v.push_back(p);
      }
    return v;
  }
  std::string desc() const
  {
    std::string s = kind == mono ? "mono deg" : "bezier deg";
    for (auto k : n) s += str(" ", k);
    s += " c";
    for (std::size_t i = 0; i < c.size() && i < 12; ++i) s += str(" ", c[i][0]);
    return s;
  }
};
template<int dim, int range> Poly<dim, range> rnd(Rng &g, Kind k, int maxdeg)
{
  Poly<dim, range> p;
  p.kind = k;
  std::size_t s = 1;
  for (auto &d : p.n) d = g.in(0, maxdeg), s *= d + 1;
  p.c.resize(s);
  const double sc = g.chance(0.2) ? std::pow(10.0, g.uni(-4, 4)) : 1;
  const int mode = g.pick(5);// generic, sparse, one sign, nearly one sign, constant
  for (auto &a : p.c)
    for (auto &x : a) x = sc * (mode == 1 && g.chance(0.6) ? 0 : mode == 2 ? g.uni(0.1, 1) : mode == 3 ? g.uni(-0.05, 1) : mode == 4 ? 0.7 : g.uni(-1, 1));
  if (mode == 2 && g.chance(0.5))
    for (auto &a : p.c)
      for (auto &x : a) x = -x;
  return p;
}
template<int dim> Point<dim> rp(Rng &g, double lo = -0.2, double hi = 1.2)
{
  Point<dim> p;
  for (int i = 0; i < dim; ++i) p(i) = g.chance(0.15) ? g.pick(2) : g.uni(lo, hi);
  return p;
}
template<int dim> Ix<dim> unit(int i, int j = -1)
{
  Ix<dim> a{};
  ++a[i];
  if (j >= 0) ++a[j];
  return a;
}
//! The class must agree with the test's polynomial in value, gradient and Hessian.
template<int dim, int range, class F> void same(Rng &g, const F &f, const Poly<dim, range> &p, const char *what, int pts = 4)
{
  const std::string s = what;
  for (int q = 0; q < pts; ++q) {
    const auto x = rp<dim>(g);
    const auto v = f(x);
    const auto gr = f.grad(x);
    const auto h = f.hessian(x);
    for (int r = 0; r < range; ++r) {
      ld m;
      ld w = p.at(x, r, {}, &m);
      const double t = 1e-12 * (static_cast<double>(m) + p.maxc());
      mon::close(comp(v, r), static_cast<double>(w), t, nm<dim, range>((s + " value").c_str()), str(p.desc(), " at ", vec(x, dim)));
      for (int i = 0, k = 0; i < dim; ++i) {
        w = p.at(x, r, unit<dim>(i), &m);
        mon::close(comp(gr(i), r), static_cast<double>(w), 1e-11 * (static_cast<double>(m) + 30 * p.maxc()), nm<dim, range>((s + " gradient").c_str()), str(p.desc(), " d", i, " at ", vec(x, dim)));
        for (int j = i; j < dim; ++j, ++k) {
          w = p.at(x, r, unit<dim>(i, j), &m);
          mon::close(comp(h(k), r), static_cast<double>(w), 1e-10 * (static_cast<double>(m) + 30 * p.maxc()), nm<dim, range>((s + " hessian").c_str()), str(p.desc(), " d", i, j, " at ", vec(x, dim)));
        }
      }
    }
  }
}
//! Over a box, interval values and gradients enclose the point ones.
template<int dim, int range, class F> void enclose(Rng &g, const F &f, const Poly<dim, range> &p, const char *what)
{
  using Itv = ::algoim::Interval<dim>;
  Vector<Itv, dim> X;
  Point<dim> c, dl;
  for (int i = 0; i < dim; ++i) {
    c(i) = g.uni(0, 1), dl(i) = g.chance(0.2) ? 0.0 : g.uni(0.01, 0.4);
    Itv::delta(i) = dl(i);
  }
  for (int i = 0; i < dim; ++i) {
    Point<dim> e;
    for (int j = 0; j < dim; ++j) e(j) = i == j;
    X(i) = Itv(c(i), e);
  }
  const auto V = f(X);
  const auto G = f.grad(X);
  for (int q = 0; q < 6; ++q) {
    Point<dim> d, x;
    for (int i = 0; i < dim; ++i) d(i) = dl(i) * (g.chance(0.3) ? g.sgn() : g.uni(-1, 1)), x(i) = c(i) + d(i);
    const auto in = [&](const Itv &I, ld y, const std::string &k, ld m) {
      double l = I.alpha;
      for (int j = 0; j < dim; ++j) l += I.beta(j) * d(j);
      chk(std::abs(static_cast<double>(y) - l) <= I.eps + 1e-11 * (static_cast<double>(m) + 30 * p.maxc()), k, str(p.desc(), " value ", static_cast<double>(y), " outside ", l, "+-", I.eps));
    };
    for (int r = 0; r < range; ++r) {
      ld m;
      ld y = p.at(x, r, {}, &m);
      in(comp(V, r), y, nm<dim, range>(str(what, " interval value").c_str()), m);
      for (int i = 0; i < dim; ++i) {
        y = p.at(x, r, unit<dim>(i), &m);
        in(comp(G(i), r), y, nm<dim, range>(str(what, " interval gradient").c_str()), m);
      }
    }
  }
}
template<int dim, int range> void book(Rng &, const PolynomialTP<dim, range> &f, const Poly<dim, range> &p, const char *what)
{
  const std::string k = nm<dim, range>(str(what, " bookkeeping").c_str());
  chk(f.get_num_coefs() == p.c.size() && f.get_coefs().size() == p.c.size(), k, "number of coefficients");
  Ix<dim> ix{};
  for (std::size_t q = 0; q < p.c.size(); ++q) {
    std::size_t t = q;
    TensorIndexTP<dim> tid;
    for (int d = 0; d < dim; ++d) tid(d) = static_cast<int>(t % (p.n[d] + 1)), t /= p.n[d] + 1;
    for (int r = 0; r < range; ++r)
      chk(comp(f.get_coef(static_cast<int>(q)), r) == p.c[q][r] && comp(f.get_coef(tid), r) == p.c[q][r] && comp(f.get_coefs()[q], r) == p.c[q][r], k, str("coefficient ", q));
  }
  for (int d = 0; d < dim; ++d) chk(f.get_degree(d) == p.n[d] && f.get_order(d) == p.n[d] + 1 && f.get_order()(d) == p.n[d] + 1, k, "degree");
  (void)ix;
}
//! Values of g are op(point) with a tolerance for magnitudes of size m.
template<int dim, int range, class F, class Op> void values(Rng &g, const F &f, double m, const std::string &k, Op &&op, int pts = 5, double lo = -0.1, double hi = 1.1)
{
  for (int q = 0; q < pts; ++q) {
    const auto x = rp<dim>(g, lo, hi);
    const auto v = f(x);
    for (int r = 0; r < range; ++r) mon::close(comp(v, r), static_cast<double>(op(x, r)), 1e-9 * m, k, str(" component ", r, " at ", vec(x, dim)));
  }
}
template<int dim, int range> void degrees(const PolynomialTP<dim, range> &f, const Ix<dim> &n, const std::string &k)
{
  for (int d = 0; d < dim; ++d) chk(f.get_degree(d) == n[d], k, str("degree along ", d, " is ", f.get_degree(d), " instead of ", n[d]));
}
template<int d2, int dim> Point<dim> lift(const Point<d2> &x, int dir, double v)
{
  Point<dim> y;
  for (int i = 0, j = 0; i < dim; ++i) y(i) = i == dir ? v : x(j++);
  return y;
}
template<int dim, int range, class F> void facets(Rng &g, const F &f, const Poly<dim, range> &p, const char *what)
{
  if constexpr (dim > 1)
    for (int id = 0; id < 2 * dim; ++id) {
      const auto h = f.extract_facet(id);
      const auto k = nm<dim, range>(str(what, " extract_facet side ", id % 2).c_str());
      Ix<dim - 1> n;
      for (int i = 0, j = 0; i < dim; ++i)
        if (i != id / 2) n[j++] = p.n[i];
      degrees<dim - 1, range>(*h, n, k + " degree");
      values<dim - 1, range>(g, *h, 1e-2 * p.maxc(), k, [&](const auto &x, int r) { return p.at(lift<dim - 1, dim>(x, id / 2, id % 2), r); }, 4, 0, 1);
    }
}

template<int dim, int range> void monomials(Rng &g)
{
  const auto p = rnd<dim, range>(g, mono, g.chance(0.2) ? 7 : 4);
  mon::run_case(nm<dim, range>("monomials"), p.desc(), [&] {
    const MonomialsTP<dim, range> f(p.order(), p.coefs());
    book<dim, range>(g, f, p, "monomials");
    same<dim, range>(g, f, p, "monomials");
    enclose<dim, range>(g, f, p, "monomials");
    facets<dim, range>(g, f, p, "monomials");
    const BezierTP<dim, range> b(f);
    degrees<dim, range>(b, p.n, nm<dim, range>("to Bezier degree"));
    values<dim, range>(g, b, p.maxc() * 10, nm<dim, range>("to Bezier"), [&](const auto &x, int r) { return p.at(x, r); });
    for (int d = 0; d < dim; ++d) {
      if (p.n[d] == 0) continue;// documented to return a clone
      const auto df = f.create_derivative(d);
      auto n = p.n;
      --n[d];
      const auto k = nm<dim, range>("create_derivative");
      degrees<dim, range>(*df, n, k + " degree");
      values<dim, range>(g, *df, p.maxc() * 10, k, [&](const auto &x, int r) { return p.at(x, r, unit<dim>(d)); });
    }
    // A copy is independent of the original, whichever changes or dies first.
    auto o = std::make_unique<MonomialsTP<dim, range>>(f);
    const MonomialsTP<dim, range> cp(*o);
    auto as = MonomialsTP<dim, range>(rnd<dim, range>(g, mono, 3).order());
    as = *o;
    for (int i = 0; i < static_cast<int>(o->get_num_coefs()); ++i) o->get_coef(i) = CoefsOf(o->get_coef(i), 99.);
    o.reset();
    book<dim, range>(g, cp, p, "monomials copied");
    same<dim, range>(g, cp, p, "monomials copied", 1);
    book<dim, range>(g, as, p, "monomials assigned");
    same<dim, range>(g, as, p, "monomials assigned", 1);
    same<dim, range>(g, f, p, "monomials after copies", 1);
  });
}
template<int dim, int range> void xview(const BezierTP<dim, range> &b, const std::string &k)
{
  const auto &xa = b.get_xarray();
  for (const auto &tid : TensorIndexRangeTP<dim>(b.get_order())) {
    ::algoim::uvector<int, dim> ix;
    for (int d = 0; d < dim; ++d) ix(d) = tid(dim - 1 - d);
    for (int r = 0; r < range; ++r) chk(comp(xa.m(ix), r) == comp(b.get_coef(tid), r), k, "array view shows another coefficient");
  }
}
template<int dim, int range> void beziers(Rng &g)
{
  const auto p = rnd<dim, range>(g, bern, g.chance(0.2) ? 7 : 4), q = rnd<dim, range>(g, bern, dim == 3 ? 3 : 4);
  const double mp = p.maxc(), mq = q.maxc();
  const auto N = [](const char *s) { return nm<dim, range>(s); };
  mon::run_case(N("bezier"), p.desc() + " | " + q.desc(), [&] {
    using B = BezierTP<dim, range>;
    const B a(p.order(), p.coefs()), b(q.order(), q.coefs());
    const auto A = [&](const auto &x, int r) { return p.at(x, r); };
    const auto Q = [&](const auto &x, int r) { return q.at(x, r); };
    book<dim, range>(g, a, p, "bezier");
    xview<dim, range>(a, N("bezier array view"));
    same<dim, range>(g, a, p, "bezier");
    enclose<dim, range>(g, a, p, "bezier");
    facets<dim, range>(g, a, p, "bezier");
    Ix<dim> sum, mx;
    for (int d = 0; d < dim; ++d) sum[d] = p.n[d] + q.n[d], mx[d] = std::max(p.n[d], q.n[d]);
    {
      const auto m = a * b;
      degrees<dim, range>(*m, sum, N("product degree"));
      values<dim, range>(g, *m, 100 * mp * mq, N("product"), [&](const auto &x, int r) { return A(x, r) * Q(x, r); });
      const auto pl = a + b, mi = a - b, mr = b - a;
      degrees<dim, range>(*pl, mx, N("sum degree"));
      degrees<dim, range>(*mi, mx, N("difference degree"));
      values<dim, range>(g, *pl, 100 * (mp + mq), N("sum"), [&](const auto &x, int r) { return A(x, r) + Q(x, r); });
      values<dim, range>(g, *mi, 100 * (mp + mq), N("difference"), [&](const auto &x, int r) { return A(x, r) - Q(x, r); });
      values<dim, range>(g, *mr, 100 * (mp + mq), N("difference"), [&](const auto &x, int r) { return Q(x, r) - A(x, r); });
      const auto ng = a.negate();
      values<dim, range>(g, *ng, mp, N("negation"), [&](const auto &x, int r) { return -A(x, r); });
    }
    {
      TensorSizeTP<dim> o;
      Ix<dim> n;
      for (int d = 0; d < dim; ++d) n[d] = p.n[d] + (g.chance(0.4) ? 0 : g.in(0, 4)), o(d) = n[d] + 1;
      const auto up = a.raise_order(o);
      degrees<dim, range>(*up, n, N("raised degree"));
      values<dim, range>(g, *up, 100 * mp, N("raise_order"), A);
    }
    {// affine maps of the image
      std::array<double, 3> s{}, t{};
      Point<range> ol, oh, nl, nh, sh;
      for (int r = 0; r < range; ++r) {
        ol(r) = g.uni(-2, 1), oh(r) = ol(r) + g.uni(0.1, 2), nl(r) = g.uni(-2, 1), nh(r) = nl(r) + g.uni(0.1, 2);
        s[r] = (nh(r) - nl(r)) / (oh(r) - ol(r)), t[r] = nl(r) - s[r] * ol(r);
        sh(r) = g.uni(-2, 2);
      }
      B im(a);
      im.transform_image(BoundBox<range>(ol, oh), BoundBox<range>(nl, nh));
      values<dim, range>(g, im, 100 * (mp + 1) * 20, N("transform_image"), [&](const auto &x, int r) { return s[r] * A(x, r) + t[r]; });
      B li(a);
      const double sc = g.uni(-3, 3);
      if constexpr (range == 1) li.coefs_linear_transform(sc, sh(0));
      else li.coefs_linear_transform(sc, sh);
      values<dim, range>(g, li, 100 * (mp + 1), N("coefs_linear_transform"), [&](const auto &x, int r) { return sc * A(x, r) + sh(r); });
    }
    if constexpr (range == 1) {
      Point<dim> lo, hi;
      for (int d = 0; d < dim; ++d) lo(d) = g.chance(0.2) ? 0 : g.uni(0, 0.8), hi(d) = g.chance(0.2) ? 1 : lo(d) + g.uni(0.05, 0.4);
      B rs(a);
      rs.rescale_domain(BoundBox<dim>(lo, hi));
      degrees<dim, range>(rs, p.n, N("rescaled degree"));
      xview<dim, range>(rs, N("rescaled array view"));
      values<dim, range>(g, rs, 1000 * mp, N("rescale_domain"), [&](const auto &x, int r) {
        Point<dim> y;
        for (int d = 0; d < dim; ++d) y(d) = lo(d) + x(d) * (hi(d) - lo(d));
        return A(y, r);
      }, 6, 0, 1);
      same<dim, range>(g, a, p, "bezier after a rescaled copy", 1);
      // The announced sign holds at every point of the unit box.
      for (const B *f : { &a, static_cast<const B *>(&rs) }) {
        const auto s = f->sign();
        mon::see(str("sign ", static_cast<int>(s), " dim ", dim));
        for (int i = 0; i < 20; ++i) {
          const auto v = (*f)(rp<dim>(g, 0, 1));
          if (s == FuncSign::positive) chk(v > -1e-13 * mp, N("sign positive"), str("value ", v));
          if (s == FuncSign::negative) chk(v < 1e-13 * mp, N("sign negative"), str("value ", v));
        }
      }
    }
    {// copies
      const auto other = rnd<dim, range>(g, bern, 4);
      auto o = std::make_unique<B>(a);
      const B cp(*o);
      B as(other.order(), other.coefs());
      as = *o;
      B like(p.order());
      like = *o;
      B mv(std::move(*std::make_unique<B>(a)));
      o->coefs_linear_transform(99., CoefsOf(o->get_coef(0), 3.));
      o.reset();
      for (const auto &[f, w] : { std::pair<const B *, const char *>{ &cp, "copied" }, { &like, "assigned to the same order" }, { &as, "assigned to another order" }, { &mv, "moved" } }) {
        book<dim, range>(g, *f, p, str("bezier ", w).c_str());
        same<dim, range>(g, *f, p, str("bezier ", w).c_str(), 1);
        xview<dim, range>(*f, N(str("bezier ", w, " view").c_str()));
      }
      // Changing a copy through its view or its coefficients leaves the original alone.
      as.coefs_linear_transform(-7., CoefsOf(as.get_coef(0), 1.));
      xview<dim, range>(as, N("changed copy view"));
      same<dim, range>(g, a, p, "bezier after copies", 1);
      same<dim, range>(g, cp, p, "copy after other copies", 1);
    }
    // Constants.
    const B cst(p.order(), CoefsOf(a.get_coef(0), 2.5)), zero(p.order());
    values<dim, range>(g, cst, 1, N("constant"), [](const auto &, int) { return 2.5L; }, 2);
    values<dim, range>(g, zero, 1, N("zero"), [](const auto &, int) { return 0.L; }, 2);
  });
}
template<int sub, int dim, int range> void compositions(Rng &g)
{
  const int md = sub * dim >= 6 ? 2 : 3;
  const auto p = rnd<dim, range>(g, bern, md);
  const auto q = rnd<sub, dim>(g, bern, sub == 3 ? 2 : 3);
  const auto k = str("compose ", sub, "->", dim, "->", range);
  mon::run_case(k, p.desc() + " o " + q.desc(), [&] {
    // The inner polynomial is scaled into the unit box, where the outer one is well conditioned.
    auto r = q;
    for (auto &a : r.c)
      for (auto &x : a) x = 0.5 + 0.6 * x / (q.maxc() + 1e-300);
    const BezierTP<dim, range> f(p.order(), p.coefs());
    const BezierTP<sub, dim> h(r.order(), r.coefs());
    const auto c = f.template compose<sub>(h);
    Ix<sub> n{};
    for (int s = 0; s < sub; ++s)
      for (int d = 0; d < dim; ++d) n[s] += p.n[d] * r.n[s];
    degrees<sub, range>(*c, n, k + " degree");
    values<sub, range>(g, *c, 10 * p.maxc(), k, [&](const auto &x, int i) {
      Point<dim> y;
      for (int d = 0; d < dim; ++d) y(d) = static_cast<double>(r.at(x, d));
      return p.at(y, i);
    }, 5, 0, 1);
  });
}
template<int N> void bernstein(Rng &g)
{
  const int order = g.in(1, 9), der = g.in(0, 3);
  mon::run_case("Bernstein", str("order ", order, " der ", der), [&] {
    const double x = g.chance(0.2) ? g.pick(2) : g.uni(-0.5, 1.5);
    std::vector<real> v(static_cast<std::size_t>(order), 123.);
    evaluate_Bernstein<real>(x, order, der, v);
    chk(static_cast<int>(v.size()) == order, "Bernstein size");
    for (int i = 0; i < order; ++i) mon::close(v[i], static_cast<double>(basis(bern, order - 1, i, der, x)), 1e-8 * std::pow(2, order - 1), str("Bernstein der ", der), str("order ", order, " i ", i, " x ", x));
    using Itv = ::algoim::Interval<N>;
    Point<N> e;
    for (int i = 0; i < N; ++i) e(i) = i == 0, Itv::delta(i) = g.uni(0, 0.3);
    std::vector<Itv> V(static_cast<std::size_t>(order));
    evaluate_Bernstein<Itv>(Itv(x, e), order, der, V);
    for (int s = 0; s < 5; ++s) {
      const double d = Itv::delta(0) * (s == 0 ? 1 : s == 1 ? -1 : g.uni(-1, 1));
      for (int i = 0; i < order; ++i) {
        const double y = static_cast<double>(basis(bern, order - 1, i, der, x + d));
        chk(std::abs(y - V[i].alpha - V[i].beta(0) * d) <= V[i].eps + 1e-8 * std::pow(2, order - 1), str("Bernstein interval der ", der));
      }
    }
  });
}
#define ALL(F) F<1, 1>(g), F<1, 2>(g), F<1, 3>(g), F<2, 1>(g), F<2, 2>(g), F<2, 3>(g), F<3, 1>(g), F<3, 2>(g), F<3, 3>(g)
template<int s> void comp_all(Rng &g)
{
  compositions<s, 1, 1>(g), compositions<s, 1, 2>(g), compositions<s, 1, 3>(g);
  compositions<s, 2, 1>(g), compositions<s, 2, 2>(g), compositions<s, 2, 3>(g);
  compositions<s, 3, 1>(g), compositions<s, 3, 2>(g), compositions<s, 3, 3>(g);
}
int main(int argc, char **argv)
{
  if (argc < 4) return 9;
  const std::string s = argv[1];
  Rng g(std::strtoull(argv[2], nullptr, 10));
  const int n = std::atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    if (s == "mono") ALL(monomials);
    else if (s == "bezier") ALL(beziers);
    else if (s == "compose") comp_all<1>(g), comp_all<2>(g), comp_all<3>(g);
    else if (s == "basis") bernstein<1>(g), bernstein<2>(g), bernstein<3>(g);
    else return 9;
  }
  mon::finish();
}
