#ifndef ALGOIM_BOOLUARRAY_HPP
#define ALGOIM_BOOLUARRAY_HPP

#include "uvector.hpp"
#include "xarray.hpp"

#include <vector>

namespace algoim {

// E^N flags, one per subcell of the unit hypercube.
template<int N, int E> class booluarray
{
  static constexpr int size()
  {
    int n = 1;
    for (int i = 0; i < N; ++i) n *= E;
    return n;
  }
  std::array<bool, static_cast<std::size_t>(size())> data_{};

public:
  booluarray() : booluarray(false) {}
  explicit booluarray(bool val) { data_.fill(val); }
  bool &operator()(const uvector<int, N> &i) { return data_[static_cast<std::size_t>(at(i))]; }
  bool operator()(const uvector<int, N> &i) const { return data_[static_cast<std::size_t>(at(i))]; }
  static int at(const uvector<int, N> &i)
  {
    int k = 0;
    for (int d = 0; d < N; ++d) {
      assert(0 <= i(d) && i(d) < E);
      k = k * E + i(d);
    }
    return k;
  }
};

}// namespace algoim
#endif
