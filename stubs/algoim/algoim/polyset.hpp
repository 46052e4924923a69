#ifndef ALGOIM_POLYSET_HPP
#define ALGOIM_POLYSET_HPP

#include "booluarray.hpp"
#include "xarray.hpp"

#include <vector>

namespace algoim {

// Polynomials in Bernstein form on the unit hypercube, each with the mask of the subcells that matter.
template<int N, int E> class PolySet
{
  struct Item
  {
    std::vector<real> coefs;
    uvector<int, N> ext;
    booluarray<N, E> mask;
  };
  std::vector<Item> items_;

public:
  void push_back(const xarray<real, N> &poly, const booluarray<N, E> &mask)
  {
    items_.push_back({ std::vector<real>(poly.data(), poly.data() + poly.size()), poly.ext(), mask });
  }
  std::size_t count() const { return items_.size(); }
  xarray<real, N> poly(std::size_t i) { return { items_.at(i).coefs.data(), items_.at(i).ext }; }
  xarray<real, N> poly(std::size_t i) const
  {
    return { const_cast<real *>(items_.at(i).coefs.data()), items_.at(i).ext };
  }
  booluarray<N, E> &mask(std::size_t i) { return items_.at(i).mask; }
  const booluarray<N, E> &mask(std::size_t i) const { return items_.at(i).mask; }
};

}// namespace algoim
#endif
