// Stand-in for Algoim's first-order interval arithmetic: f(x) = alpha + beta.(x-xc) + [-eps,eps],
// for |x_i - xc_i| <= delta(i).
#ifndef ALGOIM_INTERVAL_HPP
#define ALGOIM_INTERVAL_HPP

#include "uvector.hpp"

#include <stdexcept>

namespace algoim {

template<int N> class Interval
{
public:
  real alpha{ 0.0 };
  uvector<real, N> beta;
  real eps{ 0.0 };

  Interval() = default;
  Interval(real val) : alpha(val) {}// NOLINT
  Interval(real val, const uvector<real, N> &b) : alpha(val), beta(b) {}
  Interval(real val, const uvector<real, N> &b, real e) : alpha(val), beta(b), eps(e) {}

  static uvector<real, N> &delta()
  {
    static thread_local uvector<real, N> d;
    return d;
  }
  static real &delta(int dim) { return delta()(dim); }

  // Bound of the linear part
  real linearDeviation() const
  {
    real b = 0.0;
    for (int i = 0; i < N; ++i) b += std::abs(beta(i)) * delta(i);
    return b;
  }
  real maxDeviation() const { return linearDeviation() + eps; }
  bool uniformSign() const { return std::abs(alpha) > maxDeviation(); }
  int sign() const { return uniformSign() ? (alpha > 0.0 ? 1 : -1) : 0; }

  Interval &operator+=(const Interval &o)
  {
    alpha += o.alpha;
    beta += o.beta;
    eps += o.eps;
    return *this;
  }
  Interval &operator-=(const Interval &o)
  {
    alpha -= o.alpha;
    beta -= o.beta;
    eps += o.eps;
    return *this;
  }
  Interval &operator*=(const Interval &o)
  {
    *this = *this * o;
    return *this;
  }
  Interval &operator/=(const Interval &o)
  {
    *this = *this / o;
    return *this;
  }

  friend Interval operator+(Interval a, const Interval &b) { return a += b; }
  friend Interval operator-(Interval a, const Interval &b) { return a -= b; }
  friend Interval operator-(const Interval &a) { return Interval(-a.alpha, -a.beta, a.eps); }
  friend Interval operator*(const Interval &a, const Interval &b)
  {
    const real la = a.linearDeviation();
    const real lb = b.linearDeviation();
    // (A + la + ea)(B + lb + eb) - (A B + A lb + B la)
    const real e =
      std::abs(a.alpha) * b.eps + std::abs(b.alpha) * a.eps + (la + a.eps) * (lb + b.eps);
    return Interval(a.alpha * b.alpha, a.alpha * b.beta + b.alpha * a.beta, e);
  }
  // f(alpha) + f'(alpha)(x-alpha) +- c2/2 (x-alpha)^2
  static Interval taylor(const Interval &a, real f, real df, real c2)
  {
    const real d = a.maxDeviation();
    return Interval(f, df * a.beta, std::abs(df) * a.eps + 0.5 * c2 * d * d);
  }
  friend Interval inv(const Interval &a)
  {
    const real lo = std::abs(a.alpha) - a.maxDeviation();
    if (!(lo > 0.0)) throw std::domain_error("interval division by an interval containing zero");
    return taylor(a, 1.0 / a.alpha, -1.0 / (a.alpha * a.alpha), 2.0 / (lo * lo * lo));
  }
  friend Interval operator/(const Interval &a, const Interval &b) { return a * inv(b); }
  friend Interval sin(const Interval &a) { return taylor(a, std::sin(a.alpha), std::cos(a.alpha), 1.0); }
  friend Interval cos(const Interval &a) { return taylor(a, std::cos(a.alpha), -std::sin(a.alpha), 1.0); }
  friend Interval exp(const Interval &a)
  {
    return taylor(a, std::exp(a.alpha), std::exp(a.alpha), std::exp(a.alpha + a.maxDeviation()));
  }
  friend Interval sqrt(const Interval &a)
  {
    const real lo = a.alpha - a.maxDeviation();
    if (!(lo > 0.0)) throw std::domain_error("interval square root of an interval containing zero");
    return taylor(a, std::sqrt(a.alpha), 0.5 / std::sqrt(a.alpha), 0.25 / (lo * std::sqrt(lo)));
  }

#define ALGOIM_INTERVAL_SCALAR(S)                                                              \
  friend Interval operator+(const Interval &a, S b) { return a + Interval(real(b)); }         \
  friend Interval operator+(S b, const Interval &a) { return Interval(real(b)) + a; }         \
  friend Interval operator-(const Interval &a, S b) { return a - Interval(real(b)); }         \
  friend Interval operator-(S b, const Interval &a) { return Interval(real(b)) - a; }         \
  friend Interval operator*(const Interval &a, S b)                                           \
  {                                                                                           \
    return Interval(a.alpha * real(b), a.beta * real(b), a.eps * std::abs(real(b)));          \
  }                                                                                           \
  friend Interval operator*(S b, const Interval &a) { return a * b; }                         \
  friend Interval operator/(const Interval &a, S b)                                           \
  {                                                                                           \
    return Interval(a.alpha / real(b), a.beta / real(b), a.eps / std::abs(real(b)));          \
  }                                                                                           \
  friend Interval operator/(S b, const Interval &a) { return Interval(real(b)) / a; }
  ALGOIM_INTERVAL_SCALAR(real)
  ALGOIM_INTERVAL_SCALAR(int)
#undef ALGOIM_INTERVAL_SCALAR
};

}// namespace algoim
#endif
