// Stand-in for Algoim's view of a user-owned block as an N-dimensional array (last index fastest).
#ifndef ALGOIM_XARRAY_HPP
#define ALGOIM_XARRAY_HPP

#include "uvector.hpp"

#include <cstdlib>
#include <type_traits>
#include <vector>

namespace algoim {

template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext) : data_(data), ext_(ext) {}
  xarray(const xarray &) = default;
  // Assignment copies the elements, not the view.
  xarray &operator=(const xarray &o)
  {
    assert(all(ext_ == o.ext_));
    if (this != &o)
      for (int i = 0; i < size(); ++i) data_[i] = o.data_[i];
    return *this;
  }

  T *data() { return data_; }
  const T *data() const { return data_; }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int i) const { return ext_(i); }
  int size() const { return prod(ext_); }
  T &operator[](int i)
  {
    assert(0 <= i && i < size());
    return data_[i];
  }
  const T &operator[](int i) const
  {
    assert(0 <= i && i < size());
    return data_[i];
  }
  int index(const uvector<int, N> &i) const
  {
    int k = 0;
    for (int d = 0; d < N; ++d) {
      assert(0 <= i(d) && i(d) < ext_(d));
      k = k * ext_(d) + i(d);
    }
    return k;
  }
  T &m(const uvector<int, N> &i) { return data_[index(i)]; }
  const T &m(const uvector<int, N> &i) const { return data_[index(i)]; }
};

// Visits every multi-index below ext, last index fastest.
template<int N, typename F> void for_each_index(const uvector<int, N> &ext, const F &f)
{
  for (int d = 0; d < N; ++d)
    if (ext(d) <= 0) return;
  uvector<int, N> i(0);
  while (true) {
    f(i);
    int d = N - 1;
    for (; d >= 0; --d) {
      if (++i(d) < ext(d)) break;
      i(d) = 0;
    }
    if (d < 0) return;
  }
}

// Scratch memory released at the end of the scope.
template<typename T> class SparkStack
{
  static_assert(std::is_trivially_copyable_v<T>);
  std::vector<std::vector<T>> own_;
  void alloc() {}
  template<typename... R> void alloc(T **p, std::size_t n, R &&...rest)
  {
    own_.emplace_back(n > 0 ? n : 1);
    *p = own_.back().data();
    alloc(std::forward<R>(rest)...);
  }

public:
  template<typename... R> explicit SparkStack(T **p, std::size_t n, R &&...rest)
  {
    own_.reserve(1 + sizeof...(R) / 2);
    alloc(p, n, std::forward<R>(rest)...);
  }
  SparkStack(const SparkStack &) = delete;
};

}// namespace algoim

#define ALGOIM_CAT2(a, b) a##b
#define ALGOIM_CAT(a, b) ALGOIM_CAT2(a, b)
#define algoim_spark_alloc(T, ...) SparkStack<T> ALGOIM_CAT(algoim_spark_, __LINE__)(__VA_ARGS__)

#endif
