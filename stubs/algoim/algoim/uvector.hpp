// Stand-in for Algoim's fixed-length vectors (the library itself is not installed here).
// Written from the interface QUGaR uses; see DESIGN.md, "Algoim stand-in".
#ifndef ALGOIM_UVECTOR_HPP
#define ALGOIM_UVECTOR_HPP

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstddef>
#include <type_traits>

#ifndef ALGOIM_M
#define ALGOIM_M 8
#endif

namespace algoim {

using real = double;
using std::abs;

template<int N> class Interval;

template<typename T, int N> class uvector;

template<typename T> struct is_uvector : std::false_type
{
};
template<typename T, int N> struct is_uvector<uvector<T, N>> : std::true_type
{
};

template<typename T, int N> class uvector
{
  static constexpr int store = N > 0 ? N : 1;
  T data_[static_cast<std::size_t>(store)]{};

public:
  static constexpr int extent = N;

  uvector() = default;
  // Every component set to the same value.
  uvector(const T &val)// NOLINT: implicit on purpose
  {
    for (int i = 0; i < N; ++i) data_[i] = val;
  }
  template<typename U,
    typename = std::enable_if_t<!std::is_same_v<U, T> && !is_uvector<U>::value && std::is_convertible_v<U, T>>,
    typename = void>
  uvector(const U &val) : uvector(static_cast<T>(val))// NOLINT
  {}
  template<typename A,
    typename... R,
    typename = std::enable_if_t<(sizeof...(R) + 1 == static_cast<std::size_t>(N)) && (N > 1)
                                && std::is_convertible_v<A, T> && (std::is_convertible_v<R, T> && ...)>>
  uvector(const A &first, const R &...rest) : data_{ static_cast<T>(first), static_cast<T>(rest)... }
  {}
  template<typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U, T>>>
  explicit(N == 1) uvector(const uvector<U, N> &other)
  {
    for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(other(i));
  }

  T &operator()(int i)
  {
    assert(0 <= i && i < N);
    return data_[i];
  }
  const T &operator()(int i) const
  {
    assert(0 <= i && i < N);
    return data_[i];
  }
  T &operator[](int i) { return (*this)(i); }
  const T &operator[](int i) const { return (*this)(i); }
  T *data() { return data_; }
  const T *data() const { return data_; }

#define ALGOIM_UV_COMPOUND(op)                                                                    \
  template<typename U> uvector &operator op(const uvector<U, N> &o)                               \
  {                                                                                               \
    for (int i = 0; i < N; ++i) data_[i] op o(i);                                                 \
    return *this;                                                                                 \
  }                                                                                               \
  template<typename U, typename = std::enable_if_t<std::is_convertible_v<U, T>>> uvector &operator op(const U &o) \
  {                                                                                               \
    const U val = o;                                                                              \
    for (int i = 0; i < N; ++i) data_[i] op val;                                                  \
    return *this;                                                                                 \
  }
  ALGOIM_UV_COMPOUND(+=)
  ALGOIM_UV_COMPOUND(-=)
  ALGOIM_UV_COMPOUND(*=)
  ALGOIM_UV_COMPOUND(/=)
#undef ALGOIM_UV_COMPOUND
};

#define ALGOIM_UV_BINARY(op)                                                                                \
  template<typename A, typename B, int N, typename R = std::decay_t<decltype(std::declval<A>() op std::declval<B>())>> \
  uvector<R, N> operator op(const uvector<A, N> &a, const uvector<B, N> &b)                                 \
  {                                                                                                         \
    uvector<R, N> r;                                                                                        \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b(i);                                                        \
    return r;                                                                                               \
  }                                                                                                         \
  template<typename A,                                                                                      \
    typename B,                                                                                             \
    int N,                                                                                                  \
    typename = std::enable_if_t<!is_uvector<B>::value>,                                                     \
    typename R = std::decay_t<decltype(std::declval<A>() op std::declval<B>())>>                            \
  uvector<R, N> operator op(const uvector<A, N> &a, const B &b)                                             \
  {                                                                                                         \
    uvector<R, N> r;                                                                                        \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b;                                                           \
    return r;                                                                                               \
  }                                                                                                         \
  template<typename A,                                                                                      \
    typename B,                                                                                             \
    int N,                                                                                                  \
    typename = std::enable_if_t<!is_uvector<A>::value>,                                                     \
    typename R = std::decay_t<decltype(std::declval<A>() op std::declval<B>())>>                            \
  uvector<R, N> operator op(const A &a, const uvector<B, N> &b)                                             \
  {                                                                                                         \
    uvector<R, N> r;                                                                                        \
    for (int i = 0; i < N; ++i) r(i) = a op b(i);                                                           \
    return r;                                                                                               \
  }
ALGOIM_UV_BINARY(+)
ALGOIM_UV_BINARY(-)
ALGOIM_UV_BINARY(*)
ALGOIM_UV_BINARY(/)
#undef ALGOIM_UV_BINARY

template<typename T, int N> uvector<T, N> operator-(const uvector<T, N> &a)
{
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = -a(i);
  return r;
}
#define ALGOIM_UV_COMPARE(op)                                                       \
  template<typename T, int N> uvector<bool, N> operator op(const uvector<T, N> &a, const uvector<T, N> &b) \
  {                                                                                 \
    uvector<bool, N> r;                                                             \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b(i);                                \
    return r;                                                                       \
  }
ALGOIM_UV_COMPARE(<)
ALGOIM_UV_COMPARE(<=)
ALGOIM_UV_COMPARE(>)
ALGOIM_UV_COMPARE(>=)
ALGOIM_UV_COMPARE(==)
ALGOIM_UV_COMPARE(!=)
#undef ALGOIM_UV_COMPARE

template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a)
{
  using std::abs;
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = abs(a(i));
  return r;
}
template<typename T, int N> T prod(const uvector<T, N> &a)
{
  T r = T(1);
  for (int i = 0; i < N; ++i) r *= a(i);
  return r;
}
template<typename T, int N> T sum(const uvector<T, N> &a)
{
  T r = T(0);
  for (int i = 0; i < N; ++i) r += a(i);
  return r;
}
template<typename A, typename B, int N, typename R = std::decay_t<decltype(std::declval<A>() * std::declval<B>())>>
R dot(const uvector<A, N> &a, const uvector<B, N> &b)
{
  R r = a(0) * b(0);
  for (int i = 1; i < N; ++i) r += a(i) * b(i);
  return r;
}
template<typename T, int N> T sqrnorm(const uvector<T, N> &a)
{
  T r = a(0) * a(0);
  for (int i = 1; i < N; ++i) r += a(i) * a(i);
  return r;
}
template<typename T, int N> T norm(const uvector<T, N> &a)
{
  using std::sqrt;
  return sqrt(sqrnorm(a));
}
template<typename T, int N> T max(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) r = std::max(r, a(i));
  return r;
}
template<typename T, int N> T min(const uvector<T, N> &a)
{
  T r = a(0);
  for (int i = 1; i < N; ++i) r = std::min(r, a(i));
  return r;
}
template<typename T, int N> int argmax(const uvector<T, N> &a)
{
  int j = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) > a(j)) j = i;
  return j;
}
template<typename T, int N> int argmin(const uvector<T, N> &a)
{
  int j = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) < a(j)) j = i;
  return j;
}
template<int N> bool all(const uvector<bool, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (!a(i)) return false;
  return true;
}
template<int N> bool any(const uvector<bool, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (a(i)) return true;
  return false;
}

// The vector without component dim.
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &a, int dim)
{
  assert(0 <= dim && dim < N);
  uvector<T, N - 1> r;
  for (int i = 0, j = 0; i < N; ++i)
    if (i != dim) r(j++) = a(i);
  return r;
}
// The vector with component dim replaced.
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &a, int dim, T val)
{
  assert(0 <= dim && dim < N);
  uvector<T, N> r = a;
  r(dim) = val;
  return r;
}
// The vector with one more component, inserted at position dim.
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &a, int dim, T val)
{
  assert(0 <= dim && dim <= N);
  uvector<T, N + 1> r;
  for (int i = 0, j = 0; i < N + 1; ++i) r(i) = i == dim ? val : a(j++);
  return r;
}

}// namespace algoim
#endif
