// One-dimensional rules on [0,1] for the stand-in.
#ifndef ALGOIM_GAUSSQUAD_HPP
#define ALGOIM_GAUSSQUAD_HPP

#include "uvector.hpp"

#include <map>
#include <numbers>
#include <utility>
#include <vector>

namespace algoim {

using Rule1 = std::vector<std::pair<real, real>>;// node, weight

inline const Rule1 &gaussRule(int n)
{
  assert(0 < n);
  static thread_local std::map<int, Rule1> rules;
  auto &rule = rules[n];
  if (rule.empty()) {
    rule.resize(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) {
      long double x = std::cos(std::numbers::pi_v<long double> * (i + 0.75L) / (n + 0.5L));
      long double d = 1.0L;
      for (int it = 0; it < 100; ++it) {
        long double p0 = 1.0L;
        long double p1 = x;
        for (int k = 2; k <= n; ++k) {
          const long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
          p0 = p1;
          p1 = p2;
        }
        d = n * (x * p1 - p0) / (x * x - 1.0L);
        const long double dx = p1 / d;
        x -= dx;
        if (std::abs(dx) < 1.0e-19L) break;
      }
      rule[static_cast<std::size_t>(n - 1 - i)] = { static_cast<real>(0.5L * (1.0L + x)),
        static_cast<real>(1.0L / ((1.0L - x * x) * d * d)) };
    }
  }
  return rule;
}

inline const Rule1 &tanhSinhRule(int n)
{
  assert(0 < n);
  static thread_local std::map<int, Rule1> rules;
  auto &rule = rules[n];
  if (rule.empty()) {
    // The step that balances truncation and discretisation, judged by a polynomial and by end singularities.
    const real hi = 2.0 / n * std::log(2.0 * std::numbers::pi * std::max(1, n)) + 0.05;
    real best = -1.0;
    Rule1 cand(static_cast<std::size_t>(n));
    for (int c = 20; c <= 200; ++c) {
      const real h = hi * c / 200.0;
      real sum = 0.0;
      for (int i = 0; i < n; ++i) {
        const real t = (i - 0.5 * (n - 1)) * h;
        const real s = 0.5 * std::numbers::pi * std::sinh(t);
        const real w = std::cosh(t) / (std::cosh(s) * std::cosh(s));
        cand[static_cast<std::size_t>(i)] = { 1.0 / (1.0 + std::exp(-2.0 * s)), w };
        sum += w;
      }
      real e0 = -std::numbers::pi / 8.0;
      real e1 = -1.0 / 3.0;
      for (auto &[x, w] : cand) {
        w /= sum;
        e0 += w * std::sqrt(x * (1.0 - x));
        e1 += w * x * x;
      }
      const real e = std::max(std::abs(e0), std::abs(e1));
      if (!(e >= best) || best < 0.0) {
        best = e;
        rule = cand;
      }
    }
  }
  return rule;
}

}// namespace algoim
#endif
