// random sparse matrices for the sparse-utility monitors
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "vh.hpp"

namespace sp {
using vh::Rng;
using Eigen::Index;
using Eigen::MatrixXd;

inline double val(Rng & r)
{
  switch (r.ri(0, 11)) {
    case 0: return 0.;
    case 1: return r.nrm() * 1e8;
    case 2: return r.nrm() * 1e-9;
    case 3: return static_cast<double>(r.ri(-3, 3));
    default: return r.nrm();
  }
}

/// random sparse matrix with explicit zeros; compressed or with spare capacity
template<int O>
Eigen::SparseMatrix<double, O> rand_sparse(Rng & r, Index rows, Index cols, double density, bool compressed)
{
  Eigen::SparseMatrix<double, O> m(rows, cols);
  const Index no = O == Eigen::RowMajor ? rows : cols, ni = O == Eigen::RowMajor ? cols : rows;
  if (no == 0 || ni == 0) return m;
  m.reserve(Eigen::VectorXi::Constant(no, static_cast<int>(std::max<Index>(1, ni / (compressed ? 1 : r.ri(1, 3))))));
  for (Index o = 0; o < no; ++o)
    for (Index i = 0; i < ni; ++i)
      if (r.coin(density)) m.insert(O == Eigen::RowMajor ? o : i, O == Eigen::RowMajor ? i : o) = val(r);
  if (compressed) m.makeCompressed();
  return m;
}

/// all stored entries, in storage order
template<typename S>
std::vector<std::tuple<Index, Index, double>> entries(const S & m)
{
  std::vector<std::tuple<Index, Index, double>> e;
  for (Index k = 0; k < m.outerSize(); ++k)
    for (typename S::InnerIterator it(m, k); it; ++it) e.emplace_back(it.row(), it.col(), it.value());
  return e;
}
/// structural invariants of a sparse matrix
template<int O>
bool well_formed(const Eigen::SparseMatrix<double, O> & m)
{
  for (Index k = 0; k < m.outerSize(); ++k) {
    Index prev = -1;
    for (typename Eigen::SparseMatrix<double, O>::InnerIterator it(m, k); it; ++it) {
      if (it.index() <= prev || it.index() >= m.innerSize()) return false;
      prev = it.index();
    }
  }
  return true;
}
}  // namespace sp
