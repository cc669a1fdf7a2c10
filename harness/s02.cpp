// S02: set_zero on matrices and row/column blocks; explicit zero counting and marking.
#include <smooth/feedback/utils/sparse.hpp>
#include "spgen.hpp"
using namespace sp;
namespace sf = smooth::feedback;

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

template<int O>
static void one(Rng & r)
{
  const Index R = r.ri(1, 12), C = r.ri(1, 12);
  auto s = rand_sparse<O>(r, R, C, r.pick({0., 0.2, 0.5, 1.}), r.coin());
  const bool comp0 = s.isCompressed();
  const bool special = r.coin(0.15);  // contents that do not vanish when multiplied by zero
  if (special)
    for (Index k = 0; k < s.outerSize(); ++k)
      for (typename decltype(s)::InnerIterator it(s, k); it; ++it)
        if (r.coin(0.3)) it.valueRef() = r.pick({std::nan(""), 1. / 0., -1. / 0., 5e-324, -0.});
  const auto e0    = entries(s);
  const MatrixXd d0(s);
  const Index cap0 = s.data().allocatedSize();
  const double * p0 = s.valuePtr();
  const Index no = s.outerSize();
  const int k    = r.ri(0, 6);
  Index b = 0, n = no;
  std::string tag;
  if (k == 0) {
    tag = "matrix";
  } else {
    b = r.ri(0, static_cast<int>(no));
    n = r.ri(0, static_cast<int>(no - b));
    if (k == 1) b = 0;
    if (k == 1) n = r.ri(0, static_cast<int>(no));
    if (k == 2) n = no - b;
    tag = vh::fmt("outer block [%ld,%ld) of %ld", b, b + n, no);
  }
  tag += vh::fmt(" %s %s %ldx%ld nnz=%zu", O == Eigen::RowMajor ? "row-major" : "col-major", comp0 ? "compressed" : "uncompressed", R, C, e0.size());
  vh::detail(tag);
  // counting before
  long z0 = 0;
  for (auto & [i, j, v] : e0) z0 += v == 0;
  vh::check("count", sf::count_explicit_zeros(s) == static_cast<uint64_t>(z0), tag);
  if (k == 0) {
    if (comp0 && r.coin(0.3)) {
      Eigen::Map<Eigen::SparseMatrix<double, O>> map(R, C, s.nonZeros(), s.outerIndexPtr(), s.innerIndexPtr(), s.valuePtr());
      sf::set_zero(map);
      vh::count("maps");
    } else if (r.coin()) sf::set_zero(s);
    else {
      auto & ref = s;
      sf::set_zero(ref);
    }
  } else if constexpr (O == Eigen::RowMajor) {
    sf::set_zero(s.middleRows(b, n));
  } else {
    sf::set_zero(s.middleCols(b, n));
  }
  vh::count("zeroed");
  const auto e1 = entries(s);
  bool pattern  = e1.size() == e0.size();
  for (size_t i = 0; pattern && i < e0.size(); ++i)
    pattern = std::get<0>(e0[i]) == std::get<0>(e1[i]) && std::get<1>(e0[i]) == std::get<1>(e1[i]);
  vh::check("pattern-changed", pattern, tag);
  vh::check("allocation-changed", s.data().allocatedSize() == cap0 && s.valuePtr() == p0 && s.isCompressed() == comp0, tag);
  if (pattern)
    for (size_t i = 0; i < e0.size(); ++i) {
      auto [ri, ci, v] = e0[i];
      const Index o    = O == Eigen::RowMajor ? ri : ci;
      const bool in    = o >= b && o < b + n;
      const double w   = std::get<2>(e1[i]);
      if (in && w != 0) {
        vh::violation("not-zeroed", tag + vh::fmt(": (%ld,%ld) is %g", ri, ci, w));
        break;
      }
      if (!in && !same(w, v)) {
        vh::violation("outside-changed", tag + vh::fmt(": (%ld,%ld) was %g is %g", ri, ci, v, w));
        break;
      }
    }
  // counting in the zeroed part alone
  {
    long zb = 0;
    for (auto & [i, j, v] : e1) zb += v == 0 && (O == Eigen::RowMajor ? i : j) >= b && (O == Eigen::RowMajor ? i : j) < b + n;
    uint64_t got = 0;
    if constexpr (O == Eigen::RowMajor) got = sf::count_explicit_zeros(s.middleRows(b, n));
    else got = sf::count_explicit_zeros(s.middleCols(b, n));
    vh::check("count-block", got == static_cast<uint64_t>(zb), tag);
  }
  // counting and marking after
  long z1 = 0;
  MatrixXd mark = MatrixXd::Zero(R, C);
  for (auto & [i, j, v] : e1) {
    z1 += v == 0;
    mark(i, j) = v == 0 ? 9 : 1;
  }
  vh::check("count", sf::count_explicit_zeros(s) == static_cast<uint64_t>(z1), tag);
  const MatrixXd got = sf::mark_explicit_zeros(s);
  vh::check("mark", got.rows() == R && got.cols() == C && (got.array() == mark.array()).all(), tag);
  if (e0.size() > 1 && n > 0 && n < no) vh::nontrivial(tag);
  vh::sample(tag);
  // usable afterwards: writing back restores the old values without allocation
  if (!special && r.coin(0.3)) {
    for (auto & [i, j, v] : e0) s.coeffRef(i, j) = v;
    vh::check("rewrite", (MatrixXd(s).array() == d0.array()).all() && s.valuePtr() == p0, tag);
  }
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("col-major", 500, 100000, 0.5, [](Rng & r, long) { one<Eigen::ColMajor>(r); });
  vh::group("row-major", 500, 100000, 0.5, [](Rng & r, long) { one<Eigen::RowMajor>(r); });
  return vh::finish();
}
