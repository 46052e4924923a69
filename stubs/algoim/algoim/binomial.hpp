#ifndef ALGOIM_BINOMIAL_HPP
#define ALGOIM_BINOMIAL_HPP

#include "uvector.hpp"

#include <map>
#include <memory>
#include <vector>

namespace algoim {

struct Binomial
{
  // Binomial coefficients C(n,0..n). The pointer stays valid for the life of the thread.
  static const real *row(int n)
  {
    assert(0 <= n);
    static thread_local std::vector<std::unique_ptr<std::vector<real>>> rows;
    while (static_cast<int>(rows.size()) <= n) {
      const auto m = rows.size();
      auto r = std::make_unique<std::vector<real>>(m + 1, 1.0);
      for (std::size_t k = 1; k < m; ++k) (*r)[k] = (*rows[m - 1])[k - 1] + (*rows[m - 1])[k];
      rows.push_back(std::move(r));
    }
    return rows[static_cast<std::size_t>(n)]->data();
  }
  static real c(int n, int k) { return row(n)[k]; }
};

}// namespace algoim
#endif
