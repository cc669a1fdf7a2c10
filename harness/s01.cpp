// S01: block_add / block_write (and identity variants) against dense arithmetic, over sequences of operations.
#include <smooth/feedback/utils/sparse.hpp>
#include "spgen.hpp"
using namespace sp;
namespace sf = smooth::feedback;

template<int O>
struct Model
{
  Eigen::SparseMatrix<double, O> s;
  MatrixXd d;      // expected values
  MatrixXd pat;    // 1 where an entry is stored
};

template<int O>
static void compare(Model<O> & m, const std::string & op)
{
  const MatrixXd got(m.s);
  vh::count("ops");
  vh::check("malformed", well_formed(m.s), op);
  for (Index i = 0; i < got.rows(); ++i)
    for (Index j = 0; j < got.cols(); ++j)
      if (!(std::fabs(got(i, j) - m.d(i, j)) <= 4e-16 * std::fabs(m.d(i, j))) && got(i, j) != m.d(i, j)) {
        vh::violation("value", op + vh::fmt(" coefficient (%ld,%ld): got %.17g expected %.17g", i, j, got(i, j), m.d(i, j)));
        m.d = got;
        return;
      }
  // entries that were stored stay stored
  MatrixXd pat = MatrixXd::Zero(got.rows(), got.cols());
  for (auto & [i, j, v] : entries(m.s)) pat(i, j) = 1;
  if (!vh::check("entry-dropped", ((pat - m.pat).array() >= 0).all(), op)) {}
  m.pat = pat;
  m.d   = got;
}

// apply one operation with source S (any expression); dsrc: its dense value; spat: which entries are stored
template<int O, typename Source>
static void op(Rng & r, Model<O> & m, const Source & src, const MatrixXd & dsrc, const MatrixXd & spat, const char * what)
{
  const Index R = dsrc.rows(), C = dsrc.cols();
  if (R > m.d.rows() || C > m.d.cols()) return;
  const Index r0 = r.ri(0, static_cast<int>(m.d.rows() - R)), c0 = r.ri(0, static_cast<int>(m.d.cols() - C));
  const bool add  = r.coin();
  const int variant = r.ri(0, 3);
  const double sc = variant == 0 ? 1 : r.pick({1., -1., 0.5, 2., 0., -0.37, 1e6});
  const bool up   = variant >= 2 && r.coin(0.7);
  const std::string tag = vh::fmt("%s %s %ldx%ld at (%ld,%ld) scale=%g upper=%d dest %ldx%ld %s%s", add ? "add" : "write", what, R, C, r0, c0, sc, up,
    m.d.rows(), m.d.cols(), O == Eigen::RowMajor ? "row-major" : "col-major", m.s.isCompressed() ? "" : " uncompressed");
  vh::detail(tag);
  if (variant == 0) {
    add ? sf::block_add(m.s, r0, c0, src) : sf::block_write(m.s, r0, c0, src);
  } else if (variant == 1) {
    add ? sf::block_add(m.s, r0, c0, src, sc) : sf::block_write(m.s, r0, c0, src, sc);
  } else {
    add ? sf::block_add(m.s, r0, c0, src, sc, up) : sf::block_write(m.s, r0, c0, src, sc, up);
  }
  for (Index i = 0; i < R; ++i)
    for (Index j = 0; j < C; ++j) {
      if (up && r0 + i > c0 + j) continue;
      if (!spat(i, j)) continue;  // coefficients a sparse source does not store are not part of it
      double & t = m.d(r0 + i, c0 + j);
      t          = (add ? t : 0.) + sc * dsrc(i, j);
    }
  compare(m, tag);
  vh::count(std::string("source:") + what);
  if (R * C > 1) vh::nontrivial(tag);
  vh::sample(tag);
}

template<int O>
static void sequence(Rng & r)
{
  Model<O> m;
  const Index R = r.ri(1, 14), C = r.ri(1, 14);
  m.s = rand_sparse<O>(r, R, C, r.pick({0., 0.2, 0.6, 1.}), r.coin());
  m.d = MatrixXd(m.s);
  m.pat = MatrixXd::Zero(R, C);
  for (auto & [i, j, v] : entries(m.s)) m.pat(i, j) = 1;
  for (int k = 0; k < 8; ++k) {
    const Index a = r.ri(0, static_cast<int>(std::min<Index>(R, 6))), b = r.ri(0, static_cast<int>(std::min<Index>(C, 6)));
    MatrixXd D = MatrixXd::NullaryExpr(a, b, [&] { return val(r); });
    const MatrixXd ones = MatrixXd::Ones(a, b);
    auto stored = [](const auto & s) {
      MatrixXd p = MatrixXd::Zero(s.rows(), s.cols());
      for (Index o = 0; o < s.outerSize(); ++o)
        for (typename std::decay_t<decltype(s)>::InnerIterator it(s, o); it; ++it) p(it.row(), it.col()) = 1;
      return p;
    };
    switch (r.ri(0, 12)) {
      case 0: op(r, m, D, D, ones, "dense"); break;
      case 1: op(r, m, D.transpose().eval(), D.transpose(), ones.transpose(), "dense-transposed"); break;
      case 2: {
        Eigen::Matrix<double, -1, -1, Eigen::RowMajor> E = D;
        op(r, m, E, D, ones, "dense-rowmajor");
        break;
      }
      case 3: {
        if (a > 1 && b > 1) {
          const MatrixXd E = D.block(1, 1, a - 1, b - 1);
          op(r, m, D.block(1, 1, a - 1, b - 1), E, MatrixXd::Ones(a - 1, b - 1), "dense-block");
        }
        break;
      }
      case 4: {
        auto S = rand_sparse<Eigen::ColMajor>(r, a, b, 0.5, r.coin());
        op(r, m, S, MatrixXd(S), stored(S), "sparse-col");
        break;
      }
      case 5: {
        auto S = rand_sparse<Eigen::RowMajor>(r, a, b, 0.5, r.coin());
        op(r, m, S, MatrixXd(S), stored(S), "sparse-row");
        break;
      }
      case 6: {
        auto S = rand_sparse<Eigen::ColMajor>(r, b, a, 0.5, true);
        Eigen::SparseMatrix<double> T = S.transpose();
        op(r, m, S.transpose(), MatrixXd(T), stored(T), "sparse-transposed");
        break;
      }
      case 7: {
        if (a == 0 || b == 0) break;
        auto S        = rand_sparse<Eigen::ColMajor>(r, a, b + 2, 0.5, r.coin());
        const MatrixXd E = MatrixXd(S).middleCols(1, b);
        MatrixXd p    = stored(S).middleCols(1, b);
        op(r, m, S.middleCols(1, b), E, p, "sparse-middleCols");
        break;
      }
      case 8: {
        if (a == 0 || b == 0) break;
        auto S        = rand_sparse<Eigen::RowMajor>(r, a + 2, b, 0.5, r.coin());
        const MatrixXd E = MatrixXd(S).middleRows(1, a);
        MatrixXd p    = stored(S).middleRows(1, a);
        op(r, m, S.middleRows(1, a), E, p, "sparse-middleRows");
        break;
      }
      case 9: {
        const Eigen::Matrix<double, 2, 3> F = Eigen::Matrix<double, 2, 3>::NullaryExpr([&] { return val(r); });
        op(r, m, F, F, MatrixXd::Ones(2, 3), "fixed");
        break;
      }
      case 10:
      case 11: {
        const Index n  = r.ri(0, static_cast<int>(std::min(R, C)));
        const Index r0 = r.ri(0, static_cast<int>(R - n)), c0 = r.ri(0, static_cast<int>(C - n));
        const bool add = r.coin(), dflt = r.coin(0.4);
        const double sc = dflt ? 1 : r.pick({-1., 0.25, 3., 0., 1e-7});
        const std::string tag = vh::fmt("%s identity(%ld) at (%ld,%ld) scale=%g", add ? "add" : "write", n, r0, c0, sc);
        vh::detail(tag);
        if (dflt) add ? sf::block_add_identity(m.s, r0, c0, n) : sf::block_write_identity(m.s, r0, c0, n);
        else add ? sf::block_add_identity(m.s, r0, c0, n, sc) : sf::block_write_identity(m.s, r0, c0, n, sc);
        for (Index i = 0; i < n; ++i) m.d(r0 + i, c0 + i) = (add ? m.d(r0 + i, c0 + i) : 0) + sc;
        compare(m, tag);
        vh::count("source:identity");
        if (n > 1) vh::nontrivial(tag);
        break;
      }
      case 12:
        if (r.coin()) m.s.makeCompressed();
        else m.s.uncompress();
        break;
    }
  }
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("col-major", 500, 60000, 0.5, [](Rng & r, long) { sequence<Eigen::ColMajor>(r); });
  vh::group("row-major", 500, 60000, 0.5, [](Rng & r, long) { sequence<Eigen::RowMajor>(r); });
  return vh::finish();
}
