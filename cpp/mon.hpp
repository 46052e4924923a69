// Monitor used by the native drivers: counts what was observed by class, keeps the
// first witness per kind of violation, and reports both also when an assertion of the
// code under test aborts the process.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

namespace mon {
inline std::mutex mtx;
inline std::map<std::string, long> seen, counts;
inline std::map<std::string, std::pair<long, std::string>> bad;
inline std::string cur_class = "start", cur_case;// what runs now (for aborts)

inline void see(const std::string &k) { std::lock_guard g(mtx); ++seen[k]; }
inline void count(const std::string &k, long n = 1) { std::lock_guard g(mtx); counts[k] += n; }
inline std::string oneline(std::string s)
{
  for (auto &c : s)
    if (c == '\n' || c == '\t') c = ' ';
  return s;
}
//! Where only memory errors, undefined behaviour, aborts and exceptions are judged.
inline const bool crash_only = std::getenv("MON_CRASH_ONLY") != nullptr;
inline void fail(const std::string &k, const std::string &m)
{
  if (crash_only && k.rfind("exception:", 0) != 0) return;
  std::lock_guard g(mtx);
  auto &b = bad[k];
  if (b.first++ == 0) b.second = oneline(m + " {" + cur_case + "}").substr(0, 700);
}
inline bool chk(bool ok, const std::string &k, const std::string &m = "")
{
  if (ok) see(k);
  else fail(k, m);
  return ok;
}
//! |a-b| <= tol (NaN fails).
inline bool close(double a, double b, double tol, const std::string &k, const std::string &m = "")
{
  if (std::abs(a - b) <= tol) { see(k); return true; }
  char s[160];
  std::snprintf(s, sizeof s, " got %.17g expected %.17g tol %.3g", a, b, tol);
  fail(k, m + s);
  return false;
}
inline void report()
{
  for (auto &[k, n] : seen) std::printf("SEEN\t%ld\t%s\n", n, k.c_str());
  for (auto &[k, n] : counts) std::printf("COUNT\t%ld\t%s\n", n, k.c_str());
  for (auto &[k, b] : bad) std::printf("BAD\t%s\t%ldx %s\n", k.c_str(), b.first, b.second.c_str());
  std::fflush(stdout);
}
inline void on_abort(int)
{
  std::signal(SIGABRT, SIG_DFL);
  report();
  std::printf("BAD\tabort:%s\t1x the code under test aborted in {%s}\n", cur_class.c_str(), oneline(cur_case).c_str());
  std::fflush(stdout);
  std::_Exit(70);
}
//! A sanitizer ends the process: what was seen so far still counts.
inline void on_death()
{
  report();
  std::printf("BAD\tsanitizer:%s\t1x a sanitizer ended the process in {%s}\n", cur_class.c_str(), oneline(cur_case).c_str());
  std::fflush(stdout);
}
inline void finish()
{
  report();
  std::printf("DONE\n");
  std::fflush(stdout);
}

struct Rng
{
  std::mt19937_64 g;
  explicit Rng(std::uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {}
  int pick(int n) { return static_cast<int>(g() % static_cast<std::uint64_t>(n)); }
  int in(int a, int b) { return a + pick(b - a + 1); }
  double u() { return static_cast<double>(g() >> 11) * 0x1p-53; }
  double uni(double a, double b) { return a + (b - a) * u(); }
  bool chance(double p) { return u() < p; }
  double sgn() { return chance(0.5) ? 1.0 : -1.0; }
  template<class C> auto &of(C &c) { return c[static_cast<std::size_t>(pick(static_cast<int>(c.size())))]; }
};

template<class... A> std::string str(const A &...a)
{
  std::ostringstream o;
  o.precision(17);
  ((o << a), ...);
  return o.str();
}
template<class V> std::string vec(const V &v, int n)
{
  std::ostringstream o;
  o.precision(17);
  o << '(';
  for (int i = 0; i < n; ++i) o << (i ? "," : "") << v(i);
  o << ')';
  return o.str();
}

//! Runs one case; an exception the case does not expect is a violation.
template<class F> void run_case(const std::string &cls, const std::string &desc, F &&f)
{
  cur_class = cls;
  cur_case = desc;
  try {
    f();
  } catch (const std::exception &e) {
    fail("exception:" + cls, e.what());
  } catch (...) {
    fail("exception:" + cls, "unknown exception");
  }
}
struct Init
{
  Init()
  {
    std::signal(SIGABRT, on_abort);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  }
};
inline Init init;
}// namespace mon
