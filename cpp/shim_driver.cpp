// S02: the shim's C interface under sanitizers, against a model of the registries.
//   shim_driver ops  SEED N      random histories of valid and invalid calls
//   shim_driver oom  SEED N      every allocation of every call fails once
//   shim_driver thr  SEED N      threads: private scratch, concurrent tabulation
// Prints one JSON line per class of observation at the end; exits 0 always unless a
// sanitizer or an escaping exception ends it.
#include <basix/finite-element.h>
#include <atomic>
#include <barrier>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#include <limits>

extern "C" {
int qugar_register_element_f64(int, int, int, int, int, int);
int qugar_tabulate_shape_f64(int, int, int, long *);
int qugar_tabulate_f64(int, int, const double *, int, int, double *, long);
int qugar_register_element_f32(int, int, int, int, int, int);
int qugar_tabulate_shape_f32(int, int, int, long *);
int qugar_tabulate_f32(int, int, const float *, int, int, float *, long);
double *qugar_get_scratch_f64(long);
float *qugar_get_scratch_f32(long);
int qugar_registry_size_f64();
int qugar_registry_size_f32();
void qugar_shim_reset();
}

// ---- monitor ------------------------------------------------------------------
static std::mutex mtx;
static std::map<std::string, long> seen;
static std::map<std::string, std::pair<long, std::string>> bad;
static void see(const std::string &k) { std::lock_guard g(mtx); ++seen[k]; }
static void fail(const std::string &k, const std::string &m)
{
  std::lock_guard g(mtx);
  auto &b = bad[k];
  if (b.first++ == 0) b.second = m;
}
static bool chk(bool ok, const std::string &k, const std::string &m = "")
{
  if (ok) see(k); else fail(k, m);
  return ok;
}
static void report()
{
  for (auto &[k, n] : seen) std::printf("SEEN\t%ld\t%s\n", n, k.c_str());
  for (auto &[k, b] : bad) std::printf("BAD\t%s\t%ldx %s\n", k.c_str(), b.first, b.second.c_str());
  std::printf("DONE\n");
}

// ---- failing allocator ------------------------------------------------------------
static thread_local long fail_at = -1, allocs = 0;
#ifdef WITH_OOM
void *operator new(std::size_t n)
{
  if (fail_at >= 0 && allocs++ == fail_at) throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif

template<typename T> struct Api;
template<> struct Api<double>
{
  static constexpr const char *nm = "f64";
  static int reg(const std::array<int, 6> &k) { return qugar_register_element_f64(k[0], k[1], k[2], k[3], k[4], k[5]); }
  static int shape(int h, int nd, int np, long *o) { return qugar_tabulate_shape_f64(h, nd, np, o); }
  static int tab(int h, int nd, const double *x, int np, int gd, double *b, long c) { return qugar_tabulate_f64(h, nd, x, np, gd, b, c); }
  static double *scratch(long n) { return qugar_get_scratch_f64(n); }
  static int size() { return qugar_registry_size_f64(); }
};
template<> struct Api<float>
{
  static constexpr const char *nm = "f32";
  static int reg(const std::array<int, 6> &k) { return qugar_register_element_f32(k[0], k[1], k[2], k[3], k[4], k[5]); }
  static int shape(int h, int nd, int np, long *o) { return qugar_tabulate_shape_f32(h, nd, np, o); }
  static int tab(int h, int nd, const float *x, int np, int gd, float *b, long c) { return qugar_tabulate_f32(h, nd, x, np, gd, b, c); }
  static float *scratch(long n) { return qugar_get_scratch_f32(n); }
  static int size() { return qugar_registry_size_f32(); }
};

using Key = std::array<int, 6>;
using Rng = std::mt19937_64;
static int pick(Rng &g, int n) { return static_cast<int>(g() % static_cast<unsigned long>(n)); }

static int tdim_of(int cell)
{
  using namespace basix;
  switch (static_cast<cell::type>(cell)) {
  case cell::type::interval: return 1;
  case cell::type::triangle:
  case cell::type::quadrilateral: return 2;
  default: return 3;
  }
}

template<typename T> struct Model
{
  std::map<Key, int> h;// accepted
  std::vector<Key> byh;
  std::map<Key, std::unique_ptr<basix::FiniteElement<T>>> el;
};

template<typename T> const basix::FiniteElement<T> *ref_element(const Key &k)
{
  static std::map<Key, std::unique_ptr<basix::FiniteElement<T>>> cache;
  static std::mutex m;
  std::lock_guard g(m);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second.get();
  std::unique_ptr<basix::FiniteElement<T>> p;
  try {
    p = std::make_unique<basix::FiniteElement<T>>(basix::create_element<T>(static_cast<basix::element::family>(k[0]),
      static_cast<basix::cell::type>(k[1]), k[2], static_cast<basix::element::lagrange_variant>(k[3]),
      static_cast<basix::element::dpc_variant>(k[4]), k[5] != 0));
  } catch (...) {
  }
  return (cache[k] = std::move(p)).get();
}

static Key valid_key(Rng &g)
{
  using namespace basix;
  static const std::vector<Key> base = [] {
    std::vector<Key> v;
    auto add = [&](element::family f, cell::type c, int d, element::lagrange_variant lv, element::dpc_variant dv, int disc) {
      v.push_back({ (int)f, (int)c, d, (int)lv, (int)dv, disc });
    };
    for (auto c : { cell::type::interval, cell::type::triangle, cell::type::quadrilateral, cell::type::tetrahedron, cell::type::hexahedron, cell::type::prism })
      for (int d : { 1, 2, 3 })
        for (int disc : { 0, 1 })
          if (!(d == 3 && tdim_of((int)c) == 3)) add(element::family::P, c, d, element::lagrange_variant::gll_warped, element::dpc_variant::unset, disc);
    for (auto c : { cell::type::triangle, cell::type::tetrahedron })
      for (auto f : { element::family::RT, element::family::N1E }) add(f, c, 1, element::lagrange_variant::legendre, element::dpc_variant::unset, 0);
    add(element::family::CR, cell::type::triangle, 1, element::lagrange_variant::unset, element::dpc_variant::unset, 0);
    add(element::family::bubble, cell::type::triangle, 3, element::lagrange_variant::unset, element::dpc_variant::unset, 0);
    return v;
  }();
  return base[g() % base.size()];
}

static Key invalid_key(Rng &g)
{
  Key k = valid_key(g);
  switch (pick(g, 6)) {
  case 0: k[2] = -1 - pick(g, 5); break;
  case 1: k[0] = 1000 + pick(g, 50); break;
  case 2: k[1] = 1000 + pick(g, 50); break;
  case 3: k[3] = 700 + pick(g, 50); break;
  case 4: k[0] = (int)basix::element::family::RT; k[1] = (int)basix::cell::type::interval; break;
  default: k[0] = -1 - pick(g, 9); break;
  }
  return k;
}

template<typename T> std::vector<T> points(Rng &g, int np, int td)
{
  std::vector<T> x(static_cast<std::size_t>(np * td));
  for (auto &v : x) v = static_cast<T>(static_cast<double>(g() % 1000) / 1000.0 / td);
  return x;
}

template<typename T> bool same(const std::vector<T> &a, const T *b)
{
  double sc = 1;
  for (auto v : a) if (std::isfinite((double)v)) sc = std::max(sc, std::abs((double)v));
  const double tol = (sizeof(T) == 8 ? 2e-12 : 2e-5) * sc;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!(std::abs((double)a[i] - (double)b[i]) <= tol) && !(std::isnan((double)a[i]) && std::isnan((double)b[i]))) return false;
  return true;
}

template<typename T> std::vector<T> ref_tab(const Key &k, int nd, const std::vector<T> &x, int np, std::array<std::size_t, 4> &s)
{
  auto *e = ref_element<T>(k);
  const std::size_t td = static_cast<std::size_t>(tdim_of(k[1]));
  s = e->tabulate_shape(static_cast<std::size_t>(nd), static_cast<std::size_t>(np));
  std::vector<T> out(s[0] * s[1] * s[2] * s[3]);
  if (np) e->tabulate(nd, std::span<const T>(x), { static_cast<std::size_t>(np), td }, std::span<T>(out));
  return out;
}

// One random call on one precision; `m` is what the registry must hold.
template<typename T> void one_op(Rng &g, Model<T> &m, bool oom)
{
  const std::string P = Api<T>::nm;
  auto arm = [&](long at) { fail_at = at; allocs = 0; };
  auto disarm = [&] { fail_at = -1; };
  long at = oom ? pick(g, 200) : -1;
  if (oom && pick(g, 3)) at = pick(g, 12);
  int op = pick(g, 12);
  if (op <= 2) {// register
    Key k = pick(g, 4) ? valid_key(g) : invalid_key(g);
    const auto *e = ref_element<T>(k);
    arm(at);
    int h = Api<T>::reg(k);
    bool hit = oom && allocs > at;
    disarm();
    auto it = m.h.find(k);
    if (it != m.h.end())
      chk(h == it->second, P + " register again", "handle " + std::to_string(h) + " instead of " + std::to_string(it->second));
    else if (hit && h < 0)
      see(P + " register refused, out of memory");
    else if (!e)
      chk(h < 0, P + " register invalid -> negative", "accepted with handle " + std::to_string(h));
    else if (chk(h >= 0, P + " register valid", "refused: " + std::to_string(h))) {
      bool fresh = true;
      for (auto &[kk, hh] : m.h) fresh = fresh && hh != h;
      chk(fresh, P + " fresh handle", "handle of another element");
      m.h[k] = h;
    }
    return;
  }
  if (op == 3 || op == 4) {// bad handles
    int n = Api<T>::size();
    int h;
    switch (pick(g, 5)) {
    case 0: h = -1; break;
    case 1: h = n; break;
    case 2: h = n + 1 + pick(g, 1000); break;
    case 3: h = std::numeric_limits<int>::max(); break;
    default: h = std::numeric_limits<int>::min() + pick(g, 3); break;
    }
    long out4[6] = { 11, 12, 13, 14, 15, 16 };
    int rc = Api<T>::shape(h, pick(g, 3), pick(g, 5), out4);
    chk(rc < 0 && out4[0] == 11 && out4[3] == 14 && out4[4] == 15, P + " shape of bad handle refused, nothing written",
      "handle " + std::to_string(h) + " of " + std::to_string(n) + ": rc=" + std::to_string(rc));
    std::vector<T> buf(64, T(3.25));
    auto x = points<T>(g, 2, 3);
    rc = Api<T>::tab(h, 0, x.data(), 2, 2, buf.data(), 64);
    bool same_ = true;
    for (auto v : buf) same_ = same_ && v == T(3.25);
    chk(rc < 0 && same_, P + " tabulate of bad handle refused, nothing written",
      "handle " + std::to_string(h) + " of " + std::to_string(n) + ": rc=" + std::to_string(rc));
    return;
  }
  if (op == 5) {// scratch
    long n = pick(g, 4) ? 1 + pick(g, 5000) : 0;
    static thread_local std::vector<T> mirror;
    arm(at);
    T *p = Api<T>::scratch(n);
    bool hit = oom && allocs > at;
    disarm();
    if (hit && !p) { see(P + " scratch refused, out of memory"); return; }
    if (n == 0) { see(P + " scratch 0"); return; }
    if (!chk(p != nullptr, P + " scratch given", "null for " + std::to_string(n))) return;
    if (n <= (long)mirror.size()) {
      bool eq = std::memcmp(p, mirror.data(), sizeof(T) * static_cast<std::size_t>(n)) == 0;
      chk(eq, P + " scratch keeps its contents", "contents changed without being written by this thread");
    }
    if (n > (long)mirror.size()) mirror.resize(static_cast<std::size_t>(n));
    for (long i = 0; i < (long)n; ++i) p[i] = mirror[static_cast<std::size_t>(i)] = static_cast<T>(g() % 100000);
    // whole of the requested room is ours: reread
    for (long i = 0; i < n; ++i)
      if (p[i] != mirror[static_cast<std::size_t>(i)]) { fail(P + " scratch usable", "reread differs"); break; }
    // what lies behind stays as it was
    return;
  }
  if (op == 6 && !oom && pick(g, 6) == 0) {// too large a scratch
    T *p = Api<T>::scratch(std::numeric_limits<long>::max() - pick(g, 100));
    chk(p == nullptr, P + " scratch too large -> null", "gave a pointer");
    return;
  }
  if (m.h.empty()) return;
  auto it = m.h.begin();
  std::advance(it, pick(g, (int)m.h.size()));
  const Key k = it->first;
  const int h = it->second;
  const int td = tdim_of(k[1]);
  const int nd = pick(g, 3), np = pick(g, 7);
  auto x = points<T>(g, np, td);
  std::array<std::size_t, 4> s;
  auto ref = ref_tab<T>(k, nd, x, np, s);
  long out4[6] = { 11, 12, 13, 14, 15, 16 };
  arm(at);
  int rc = Api<T>::shape(h, nd, np, out4);
  bool hit = oom && allocs > at;
  disarm();
  if (!(hit && rc < 0))
    chk(rc == 0 && out4[0] == (long)s[0] && out4[1] == (long)s[1] && out4[2] == (long)s[2] && out4[3] == (long)s[3]
          && out4[4] == 15, P + " shape", "wrong shape or rc " + std::to_string(rc));
  const long need = (long)ref.size();
  if (op <= 8) {// undersized buffer of exactly that many values: ASan guards its end
    if (need == 0) return;
    long cap = pick(g, 2) ? need - 1 : pick(g, (int)need);
    if (pick(g, 8) == 0) cap = -pick(g, 5);
    std::vector<T> buf(static_cast<std::size_t>(std::max(cap, 1L)), T(3.25));
    rc = Api<T>::tab(h, nd, x.data(), np, td, buf.data(), cap);
    bool un = true;
    for (auto v : buf) un = un && v == T(3.25);
    chk(rc < 0, P + " undersized buffer refused", "capacity " + std::to_string(cap) + " of " + std::to_string(need) + ": rc=" + std::to_string(rc));
    chk(un, P + " undersized buffer untouched", "written although refused");
    return;
  }
  if (op == 9 && np > 0) {// wrong geometric dimension: either way no stray write
    int gd = td == 3 ? 2 : td + 1;
    auto xx = points<T>(g, np, gd);
    std::vector<T> buf(ref.size() + 8, T(3.25));
    rc = Api<T>::tab(h, nd, xx.data(), np, gd, buf.data(), need);
    bool un = true;
    for (std::size_t i = ref.size(); i < buf.size(); ++i) un = un && buf[i] == T(3.25);
    chk(rc < 0 && un, P + " wrong point dimension refused", "rc=" + std::to_string(rc));
    return;
  }
  std::vector<T> buf(ref.size() + (size_t)(pick(g, 2) ? 0 : 5), T(3.25));
  arm(at);
  rc = Api<T>::tab(h, nd, x.data(), np, td, buf.data(), (long)buf.size());
  hit = oom && allocs > at;
  disarm();
  bool tail = true;
  for (std::size_t i = ref.size(); i < buf.size(); ++i) tail = tail && buf[i] == T(3.25);
  chk(tail, P + " nothing beyond the table", "wrote past the table");
  if (hit && rc < 0) { see(P + " tabulate refused, out of memory"); return; }
  if (chk(rc == 0, P + " tabulate valid", "rc=" + std::to_string(rc)))
    chk(same(ref, buf.data()), P + (hit ? " values after recovered fault" : " values"), "differs from basix");
}

template<typename T> void sizes(Model<T> &m, bool exact)
{
  int n = Api<T>::size();
  if (exact) chk(n == (int)m.h.size(), std::string(Api<T>::nm) + " registry size", std::to_string(n) + " instead of " + std::to_string(m.h.size()));
  else chk(n >= (int)m.h.size(), std::string(Api<T>::nm) + " registry holds all", std::to_string(n) + " < " + std::to_string(m.h.size()));
}

static void history(Rng &g, long n, bool oom)
{
  Model<double> md;
  Model<float> mf;
  for (long i = 0; i < n; ++i) {
    if (pick(g, 2)) one_op<double>(g, md, oom); else one_op<float>(g, mf, oom);
    if (i % 16 == 0) { sizes(md, !oom); sizes(mf, !oom); }
    if (pick(g, 150) == 0) {
      qugar_shim_reset();
      md = {}; mf = {};
      chk(qugar_registry_size_f64() == 0 && qugar_registry_size_f32() == 0, "reset empties both", "registry not empty");
      // every handle is stale now
      long o[4] = { 11, 12, 13, 14 };
      chk(qugar_tabulate_shape_f64(0, 0, 1, o) < 0 && o[0] == 11 && qugar_tabulate_shape_f32(0, 0, 1, o) < 0 && o[0] == 11,
        "stale handle refused after reset", "accepted");
    }
  }
  sizes(md, !oom); sizes(mf, !oom);
}

// ---- threads -----------------------------------------------------------------------
template<typename T> void scratch_worker(unsigned seed, int id, std::barrier<> &b, std::vector<std::pair<const char *, const char *>> &ranges)
{
  Rng g(seed * 977u + (unsigned)id);
  std::vector<T> mirror;
  for (int round = 0; round < 20; ++round) {
    long n = 1 + pick(g, 2000);
    T *p = Api<T>::scratch(n);
    if (!p) { fail("thread scratch given", "null"); n = 0; }
    std::size_t k = std::min<std::size_t>(mirror.size(), (size_t)n);
    bool eq = k == 0 || std::memcmp(p, mirror.data(), k * sizeof(T)) == 0;
    chk(eq, std::string("thread scratch private ") + Api<T>::nm, "contents changed by another thread");
    if (mirror.size() < (size_t)n) mirror.resize((size_t)n);
    for (long i = 0; i < n; ++i) p[i] = mirror[(size_t)i] = (T)(id * 10000 + round * 100 + i % 100);
    ranges[(size_t)id] = { (const char *)p, (const char *)(p + n) };
    b.arrive_and_wait();
    if (id == 0) {
      bool disjoint = true;
      for (size_t i = 0; i < ranges.size(); ++i)
        for (size_t j = 0; j < i; ++j)
          disjoint = disjoint && (ranges[i].second <= ranges[j].first || ranges[j].second <= ranges[i].first);
      chk(disjoint, std::string("thread scratch disjoint ") + Api<T>::nm, "two threads share memory");
    }
    b.arrive_and_wait();
    T *q = Api<T>::scratch(n);
    chk(q == p, std::string("thread scratch stable ") + Api<T>::nm, "moved without growth");
  }
}

template<typename T> void tab_worker(unsigned seed, int id, const std::vector<std::pair<Key, int>> &els)
{
  Rng g(seed * 31u + (unsigned)id);
  for (int r = 0; r < 60; ++r) {
    auto &[k, h] = els[g() % els.size()];
    int nd = pick(g, 2), np = 1 + pick(g, 5);
    auto x = points<T>(g, np, tdim_of(k[1]));
    std::array<std::size_t, 4> s;
    auto ref = ref_tab<T>(k, nd, x, np, s);
    T *buf = Api<T>::scratch((long)ref.size());
    int rc = Api<T>::tab(h, nd, x.data(), np, tdim_of(k[1]), buf, (long)ref.size());
    chk(rc == 0 && same(ref, buf), std::string("threads tabulate ") + Api<T>::nm, "wrong values or rc " + std::to_string(rc));
  }
}

template<typename F> void spawn(int n, F f)
{
  std::vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([=] { f(i); });
  for (auto &x : t) x.join();
}

static void threads(unsigned seed, long n)
{
  for (long r = 0; r < n; ++r) {
    const int nt = 2 + (int)((seed + (unsigned)r) % 7);
    {
      std::barrier b(nt);
      std::vector<std::pair<const char *, const char *>> rg((size_t)nt);
      spawn(nt, [&](int i) { scratch_worker<double>(seed + (unsigned)r, i, b, rg); });
    }
    {
      std::barrier b(nt);
      std::vector<std::pair<const char *, const char *>> rg((size_t)nt);
      spawn(nt, [&](int i) { scratch_worker<float>(seed + (unsigned)r, i, b, rg); });
    }
    Rng g(seed + (unsigned)r);
    std::vector<std::pair<Key, int>> ed, ef;
    for (int i = 0; i < 6; ++i) {
      Key k = valid_key(g);
      ed.emplace_back(k, qugar_register_element_f64(k[0], k[1], k[2], k[3], k[4], k[5]));
      ef.emplace_back(k, qugar_register_element_f32(k[0], k[1], k[2], k[3], k[4], k[5]));
      (void)ref_element<double>(k);
      (void)ref_element<float>(k);
    }
    spawn(nt, [&](int i) { if (i % 2) tab_worker<double>(seed, i, ed); else tab_worker<float>(seed, i, ef); });
    qugar_shim_reset();
  }
}

int main(int c, char **v)
{
  if (c < 4) return 9;
  const std::string mode = v[1];
  const unsigned long seed = std::strtoul(v[2], nullptr, 10);
  const long n = std::atol(v[3]);
  Rng g(seed);
  if (mode == "ops") history(g, n, false);
  else if (mode == "oom") history(g, n, true);
  else if (mode == "thr") threads((unsigned)seed, n);
  else return 9;
  qugar_shim_reset();
  report();
  return 0;
}
