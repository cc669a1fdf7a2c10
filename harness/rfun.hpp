// Random smooth vector functions, generic in the scalar type, with analytic derivatives.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <functional>
#include <vector>
#include "vh.hpp"

namespace rf {
using vh::Rng;

/// F_j(z) = c + b.z + z'Qz/2 + a sin(w.z + p), derivative blocks optionally structurally zero
template<int NF, int NZ>
struct Base
{
  struct Row
  {
    double c{0}, a{0}, p{0};
    Eigen::Vector<double, NZ> b = Eigen::Vector<double, NZ>::Zero(), w = Eigen::Vector<double, NZ>::Zero();
    Eigen::Matrix<double, NZ, NZ> Q = Eigen::Matrix<double, NZ, NZ>::Zero();
  };
  std::vector<Row> rows = std::vector<Row>(NF);

  void randomize(Rng & r, double scale = 1)
  {
    const int kind = r.ri(0, 5);  // 0: linear, 1: quadratic, else general
    std::vector<bool> uses(NZ);
    for (int i = 0; i < NZ; ++i) uses[std::size_t(i)] = !r.coin(0.15);
    for (auto & w : rows) {
      w   = Row{};
      w.c = scale * r.uni(-1, 1);
      for (int i = 0; i < NZ; ++i) {
        if (!uses[std::size_t(i)] || r.coin(0.15)) continue;
        w.b(i) = scale * r.uni(-1, 1);
        if (kind > 0)
          for (int j = 0; j <= i; ++j)
            if (uses[std::size_t(j)] && r.coin(0.6)) w.Q(i, j) = w.Q(j, i) = scale * r.uni(-1, 1);
        if (kind > 1) w.w(i) = r.uni(-1.5, 1.5);
      }
      if (kind > 1) w.a = scale * r.uni(-1, 1), w.p = r.uni(-3, 3);
    }
  }
  template<typename T>
  Eigen::Vector<T, NF> value(const Eigen::Vector<T, NZ> & z) const
  {
    using std::sin;
    Eigen::Vector<T, NF> o;
    for (int j = 0; j < NF; ++j) {
      const Row & w = rows[std::size_t(j)];
      T v(w.c), ph(w.p);
      for (int i = 0; i < NZ; ++i) {
        T s(0.);
        for (int k = 0; k < NZ; ++k)
          if (w.Q(i, k) != 0) s += z(k) * T(w.Q(i, k));
        v += z(i) * (T(w.b(i)) + T(0.5) * s);
        ph += z(i) * T(w.w(i));
      }
      if (w.a != 0) v += T(w.a) * sin(ph);
      o(j) = v;
    }
    return o;
  }
  Eigen::Matrix<double, NF, NZ, (NF == 1 && NZ > 1) ? Eigen::RowMajor : Eigen::ColMajor> jac(const Eigen::Vector<double, NZ> & z) const
  {
    Eigen::Matrix<double, NF, NZ, (NF == 1 && NZ > 1) ? Eigen::RowMajor : Eigen::ColMajor> J;
    for (int j = 0; j < NF; ++j) {
      const Row & w = rows[std::size_t(j)];
      J.row(j)      = (w.b + w.Q * z + w.a * std::cos(w.w.dot(z) + w.p) * w.w).transpose();
    }
    return J;
  }
  /// horizontally stacked second derivatives
  Eigen::Matrix<double, NZ, NF * NZ> hes(const Eigen::Vector<double, NZ> & z) const
  {
    Eigen::Matrix<double, NZ, NF * NZ> H;
    for (int j = 0; j < NF; ++j) {
      const Row & w                            = rows[std::size_t(j)];
      H.template middleCols<NZ>(j * NZ) = w.Q - w.a * std::sin(w.w.dot(z) + w.p) * w.w * w.w.transpose();
    }
    return H;
  }
};

/// sparse copy whose pattern depends on the structure of the function only (never on values)
template<int Opt, int NF, int NZ>
Eigen::SparseMatrix<double, Opt> sparse_jac(const Base<NF, NZ> & f, const Eigen::MatrixXd & J)
{
  std::vector<Eigen::Triplet<double>> t;
  for (int j = 0; j < NF; ++j) {
    const auto & w = f.rows[std::size_t(j)];
    for (int i = 0; i < NZ; ++i)
      if (w.b(i) != 0 || !w.Q.row(i).isZero(0) || (w.a != 0 && w.w(i) != 0)) t.emplace_back(j, i, J(j, i));
  }
  Eigen::SparseMatrix<double, Opt> s(NF, NZ);
  s.setFromTriplets(t.begin(), t.end());
  return s;
}
template<int Opt, int NF, int NZ>
Eigen::SparseMatrix<double, Opt> sparse_hes(const Base<NF, NZ> & f, const Eigen::MatrixXd & H)
{
  std::vector<Eigen::Triplet<double>> t;
  for (int j = 0; j < NF; ++j) {
    const auto & w = f.rows[std::size_t(j)];
    for (int i = 0; i < NZ; ++i)
      for (int k = 0; k < NZ; ++k)
        if (w.Q(i, k) != 0 || (w.a != 0 && w.w(i) != 0 && w.w(k) != 0)) t.emplace_back(i, j * NZ + k, H(i, j * NZ + k));
  }
  Eigen::SparseMatrix<double, Opt> s(NZ, NF * NZ);
  s.setFromTriplets(t.begin(), t.end());
  return s;
}

template<typename T>
using scalar_of = typename Eigen::DenseBase<T>::Scalar;

/// Concatenate the argument list (scalars and vectors) of a call
template<typename T, int NZ, typename... A>
Eigen::Vector<T, NZ> cat(const A &... a)
{
  Eigen::Vector<T, NZ> z;
  int k    = 0;
  auto put = [&](const auto & v) {
    if constexpr (requires { v.size(); }) {
      for (Eigen::Index i = 0; i < v.size(); ++i) z(k++) = v(i);
    } else
      z(k++) = v;
  };
  (put(a), ...);
  return z;
}

/// Plain function: derivatives only by automatic or numerical differentiation.  First argument is a scalar.
template<int NF, int NZ>
struct Plain
{
  Base<NF, NZ> f;
  template<typename T, typename... A>
  Eigen::Vector<T, NF> operator()(const T & t, const A &... a) const
  {
    return f.template value<T>(cat<T, NZ>(t, a...));
  }
};
/// Scalar valued version
template<int NZ>
struct PlainS
{
  Base<1, NZ> f;
  template<typename T, typename... A>
  T operator()(const T & t, const A &... a) const
  {
    return f.template value<T>(cat<T, NZ>(t, a...))(0);
  }
};
/// Analytic, dense derivatives
template<int NF, int NZ>
struct Dense : Plain<NF, NZ>
{
  template<typename... A>
  auto jacobian(double t, const A &... a) const
  {
    return this->f.jac(cat<double, NZ>(t, a...));
  }
  template<typename... A>
  auto hessian(double t, const A &... a) const
  {
    return this->f.hes(cat<double, NZ>(t, a...));
  }
};
template<int NZ>
struct DenseS : PlainS<NZ>
{
  template<typename... A>
  auto jacobian(double t, const A &... a) const
  {
    return this->f.jac(cat<double, NZ>(t, a...));
  }
  template<typename... A>
  auto hessian(double t, const A &... a) const
  {
    return this->f.hes(cat<double, NZ>(t, a...));
  }
};
/// Analytic, sparse derivatives by value, structure only where the function has derivatives
template<int NF, int NZ, int Opt = Eigen::ColMajor, bool Ref = false>
struct Sparse : Plain<NF, NZ>
{
  mutable Eigen::SparseMatrix<double, Opt> J, H;
  template<typename... A>
  std::conditional_t<Ref, std::reference_wrapper<const Eigen::SparseMatrix<double, Opt>>, Eigen::SparseMatrix<double, Opt>>
  jacobian(double t, const A &... a) const
  {
    J = sparse_jac<Opt>(this->f, this->f.jac(cat<double, NZ>(t, a...)));
    return J;
  }
  template<typename... A>
  std::conditional_t<Ref, std::reference_wrapper<const Eigen::SparseMatrix<double, Opt>>, Eigen::SparseMatrix<double, Opt>>
  hessian(double t, const A &... a) const
  {
    H = sparse_hes<Opt>(this->f, this->f.hes(cat<double, NZ>(t, a...)));
    return H;
  }
};
}  // namespace rf
