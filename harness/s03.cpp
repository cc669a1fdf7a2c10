// S03: d2r_fog against a direct evaluation of the second order chain rule.
#include <smooth/feedback/utils/sparse.hpp>
#include "spgen.hpp"
using namespace sp;
namespace sf = smooth::feedback;
using SpC = Eigen::SparseMatrix<double>;
using SpR = Eigen::SparseMatrix<double, Eigen::RowMajor>;

static void one(Rng & r)
{
  const Index No = r.ri(1, 4), Ny = r.ri(1, 4), Nx = r.ri(1, 5);
  auto mk = [&](Index a, Index b) { return rand_sparse<Eigen::ColMajor>(r, a, b, r.pick({0.3, 0.7, 1.}), true); };
  SpC Jf = mk(No, Ny), Hf = mk(Ny, No * Ny), Jg = mk(Ny, Nx), Hg = mk(Nx, Ny * Nx);
  // scale to order one so that the tolerance is meaningful
  for (auto * s : {&Jf, &Hf, &Jg, &Hg})
    for (Index i = 0; i < s->nonZeros(); ++i) s->valuePtr()[i] = std::clamp(s->valuePtr()[i], -3., 3.);
  const MatrixXd jf(Jf), hf(Hf), jg(Jg), hg(Hg);
  const Index r0 = r.ri(0, 3), c0 = r.ri(0, 3), er = r.ri(0, 2), ec = r.ri(0, 2);
  SpC out = rand_sparse<Eigen::ColMajor>(r, r0 + Nx + er, c0 + No * Nx + ec, r.pick({0., 0.3, 1.}), r.coin());
  for (auto k = 0; k < out.outerSize(); ++k)
    for (SpC::InnerIterator it(out, k); it; ++it) it.valueRef() = std::clamp(it.value(), -3., 3.);
  MatrixXd exp(out);
  // d^2/dx_a dx_b (f_o o g) = sum_ij Hf_o(i,j) Jg(i,a) Jg(j,b) + sum_k Jf(o,k) Hg_k(a,b)
  for (Index o = 0; o < No; ++o)
    for (Index a = 0; a < Nx; ++a)
      for (Index b = 0; b < Nx; ++b) {
        double v = 0;
        for (Index i = 0; i < Ny; ++i)
          for (Index j = 0; j < Ny; ++j) v += hf(i, o * Ny + j) * jg(i, a) * jg(j, b);
        for (Index k = 0; k < Ny; ++k) v += jf(o, k) * hg(a, k * Nx + b);
        exp(r0 + a, c0 + o * Nx + b) += v;
      }
  const int kind = r.ri(0, 4);
  const bool defaults = r0 == 0 && c0 == 0 && r.coin();
  const std::string tag = vh::fmt("No=%ld Ny=%ld Nx=%ld at (%ld,%ld) kind=%d dest %ldx%ld", No, Ny, Nx, r0, c0, kind, out.rows(), out.cols());
  vh::detail(tag);
  auto call = [&](const auto & a, const auto & b, const auto & c, const auto & d) {
    if (defaults) sf::d2r_fog(out, a, b, c, d);
    else sf::d2r_fog(out, a, b, c, d, r0, c0);
  };
  switch (kind) {
    case 0: call(Jf, Hf, Jg, Hg); break;
    case 1: call(jf, hf, jg, hg); break;
    case 2: call(SpR(Jf), Hf, Jg, Hg); break;
    case 3: call(jf, Hf, Jg, hg); break;
    case 4: call(Jf, hf, jg, Hg); break;
  }
  vh::count("compositions");
  vh::check("malformed", well_formed(out), tag);
  vh::check_le("chain-rule", (MatrixXd(out) - exp).cwiseAbs().maxCoeff(), 1e-11 * (1 + exp.cwiseAbs().maxCoeff()), tag);
  if (No * Ny * Nx > 1) vh::nontrivial(tag + vh::fmt("%.6g", exp.sum()));
  vh::sample(tag);
}

// analytic compositions: f(y) = quadratic, g(x) = quadratic; Hessian of the composition by expansion
static void analytic(Rng & r)
{
  const Index Ny = r.ri(1, 3), Nx = r.ri(1, 3), No = r.ri(1, 3);
  std::vector<MatrixXd> Qg(Ny), Qf(No);
  for (auto & q : Qg) {
    q = MatrixXd::NullaryExpr(Nx, Nx, [&] { return r.nrm(); });
    q = (q + q.transpose()).eval();
  }
  for (auto & q : Qf) {
    q = MatrixXd::NullaryExpr(Ny, Ny, [&] { return r.nrm(); });
    q = (q + q.transpose()).eval();
  }
  const MatrixXd Lg = MatrixXd::NullaryExpr(Ny, Nx, [&] { return r.nrm(); }), Lf = MatrixXd::NullaryExpr(No, Ny, [&] { return r.nrm(); });
  auto g = [&](const Eigen::VectorXd & x) {
    Eigen::VectorXd y = Lg * x;
    for (Index i = 0; i < Ny; ++i) y(i) += 0.5 * x.dot(Qg[i] * x);
    return y;
  };
  auto f = [&](const Eigen::VectorXd & y) {
    Eigen::VectorXd z = Lf * y;
    for (Index i = 0; i < No; ++i) z(i) += 0.5 * y.dot(Qf[i] * y);
    return z;
  };
  const Eigen::VectorXd x = Eigen::VectorXd::NullaryExpr(Nx, [&] { return r.uni(-1, 1); });
  const Eigen::VectorXd y = g(x);
  MatrixXd Jg = Lg, Jf = Lf, Hg(Nx, Ny * Nx), Hf(Ny, No * Ny);
  for (Index i = 0; i < Ny; ++i) Jg.row(i) += (Qg[i] * x).transpose(), Hg.middleCols(i * Nx, Nx) = Qg[i];
  for (Index i = 0; i < No; ++i) Jf.row(i) += (Qf[i] * y).transpose(), Hf.middleCols(i * Ny, Ny) = Qf[i];
  SpC out(Nx, No * Nx);
  sf::d2r_fog(out, Jf, Hf, Jg, Hg);
  const double h = 1e-3;
  double err     = 0;
  for (Index o = 0; o < No; ++o)
    for (Index a = 0; a < Nx; ++a)
      for (Index b = 0; b < Nx; ++b) {
        auto F = [&](double s, double t) {
          Eigen::VectorXd z = x;
          z(a) += s;
          z(b) += t;
          return f(g(z))(o);
        };
        const double fd = (F(h, h) - F(h, -h) - F(-h, h) + F(-h, -h)) / (4 * h * h);
        err = std::max(err, std::fabs(fd - out.coeff(a, o * Nx + b)) / (1 + std::fabs(fd)));
      }
  vh::count("analytic_compositions");
  vh::check_le("finite-difference", err, 1e-3, vh::fmt("No=%ld Ny=%ld Nx=%ld", No, Ny, Nx));
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("chain-rule", 500, 40000, 0.8, [](Rng & r, long) { one(r); });
  vh::group("analytic", 100, 2000, 0.2, [](Rng & r, long) { analytic(r); });
  return vh::finish();
}
