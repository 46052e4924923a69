#ifndef ALGOIM_HYPERRECTANGLE_HPP
#define ALGOIM_HYPERRECTANGLE_HPP

#include "uvector.hpp"

namespace algoim {

template<typename T, int N> class HyperRectangle
{
  uvector<T, N> range_[2];

public:
  HyperRectangle(const uvector<T, N> &min, const uvector<T, N> &max) : range_{ min, max } {}

  const uvector<T, N> &side(int s) const { return range_[s == 0 ? 0 : 1]; }
  const uvector<T, N> &min() const { return range_[0]; }
  const uvector<T, N> &max() const { return range_[1]; }
  uvector<T, N> &min() { return range_[0]; }
  uvector<T, N> &max() { return range_[1]; }
  T &min(int i) { return range_[0](i); }
  T &max(int i) { return range_[1](i); }
  T min(int i) const { return range_[0](i); }
  T max(int i) const { return range_[1](i); }
  uvector<T, N> extent() const { return range_[1] - range_[0]; }
  T extent(int i) const { return range_[1](i) - range_[0](i); }
  uvector<T, N> midpoint() const { return (range_[0] + range_[1]) * T(0.5); }
  T midpoint(int i) const { return (range_[0](i) + range_[1](i)) * T(0.5); }
};

}// namespace algoim
#endif
