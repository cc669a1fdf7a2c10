// First and second (right) derivatives of functions of manifold elements by dual numbers.
#pragma once
#include "lierf.hpp"
using D  = lrf::Dual<double>;
using DD = lrf::Dual<D>;
using Sp = Eigen::SparseMatrix<double>;

/// derivatives of an arbitrary function of manifold elements in dual arithmetic; F takes a tuple
template<int R, typename F, typename... A>
static void derivatives(const F & f, const std::tuple<A...> & x, Eigen::MatrixXd * J, Eigen::MatrixXd * H)
{
  constexpr int n = (0 + ... + int(smooth::Dof<A>));
  auto plus = [&]<typename T, typename Tup>(const Tup & z, const Eigen::Vector<T, n> & e) {
    int b = 0;
    return std::apply(
      [&](const auto &... zi) {
        auto one = [&](const auto & q) {
          constexpr int m                   = int(smooth::Dof<std::decay_t<decltype(q)>>);
          const Eigen::Vector<T, m> s = e.template segment<m>(b);
          b += m;
          auto r = lrf::bump<T>(q, s);
          if constexpr (requires { r.eval(); }) return r.eval();
          else return r;
        };
        return std::tuple<decltype(one(zi))...>{one(zi)...};
      },
      z);
  };
  if (J) J->resize(R, n);
  if (H) H->resize(n, n * R);
  for (int k = 0; k < n; ++k) {
    Eigen::Vector<D, n> ek = Eigen::Vector<D, n>::Constant(D(0.));
    ek(k)                  = D(0., 1.);
    const auto xk          = plus.template operator()<D>(x, ek);
    if (J) {
      const Eigen::Vector<D, R> y = std::apply(f, xk);
      for (int j = 0; j < R; ++j) (*J)(j, k) = y(j).d;
    }
    if (!H) continue;
    for (int i = 0; i < n; ++i) {
      Eigen::Vector<DD, n> ei = Eigen::Vector<DD, n>::Constant(DD(D(0.)));
      ei(i)                   = DD(D(0.), D(1.));
      const Eigen::Vector<DD, R> y = std::apply(f, plus.template operator()<DD>(xk, ei));
      for (int j = 0; j < R; ++j) (*H)(i, j * n + k) = y(j).d.d;
    }
  }
}
static Sp sparse(const Eigen::MatrixXd & m, bool all)
{
  Sp s(m.rows(), m.cols());
  for (long j = 0; j < m.cols(); ++j)
    for (long i = 0; i < m.rows(); ++i)
      if (all || m(i, j) != 0) s.insert(i, j) = m(i, j);
  s.makeCompressed();
  return s;
}

template<typename T>
struct Num { using type = typename T::Scalar; };

