// Random functions and trajectories on Lie groups and vector spaces, generic in the scalar type.
#pragma once
#include <smooth/compat/autodiff.hpp>
#include <smooth/bundle.hpp>
#include <smooth/se2.hpp>
#include <smooth/so3.hpp>
#include "rfun.hpp"

namespace lrf {
using vh::Rng;
using smooth::shim::Dual;

// smooth coordinates of a group element (features), so that random functions can be composed with them
template<typename T, int N>
Eigen::Vector<T, N> feat(const Eigen::Vector<T, N> & v) { return v; }
template<typename T>
Eigen::Vector<T, 2> feat(const smooth::SO2<T> & g) { return {g.s, g.c}; }
template<typename T>
Eigen::Vector<T, 9> feat(const smooth::SO3<T> & g)
{
  Eigen::Matrix<T, 3, 3> m = g.matrix();
  return Eigen::Map<Eigen::Vector<T, 9>>(m.data());
}
template<typename T>
Eigen::Vector<T, 4> feat(const smooth::SE2<T> & g) { return {g.rot_.s, g.rot_.c, g.pos_(0), g.pos_(1)}; }
template<typename T>
Eigen::Vector<T, 1> feat(const T & s) { return Eigen::Vector<T, 1>(s); }
template<typename T, typename A, typename B>
auto join(const A & a, const B & b)
{
  Eigen::Vector<T, A::SizeAtCompileTime + B::SizeAtCompileTime> r;
  r << a, b;
  return r;
}
template<typename A, typename B>
auto feat(const smooth::Bundle<A, B> & g)
{
  using T = typename smooth::Bundle<A, B>::Scalar;
  return join<T>(feat(g.template part<0>()), feat(g.template part<1>()));
}
template<typename X>
constexpr int NF = int(decltype(feat(std::declval<const X &>()))::SizeAtCompileTime);

/// F(t, args...) with automatic derivatives only
template<int R, int NZ>
struct Fun
{
  rf::Base<R, NZ> f;
  template<typename T, typename... A>
  Eigen::Vector<T, R> operator()(const T & t, const A &... a) const
  {
    return f.template value<T>(rf::cat<T, NZ>(t, feat(a)...));
  }
};
template<int NZ>
struct FunS
{
  rf::Base<1, NZ> f;
  template<typename T, typename... A>
  T operator()(const T & t, const A &... a) const
  {
    return f.template value<T>(rf::cat<T, NZ>(t, feat(a)...))(0);
  }
};

/// X0 * exp(v * s(t)) with s(t) = t + c sin(w t)
template<typename X>
struct Traj
{
  static constexpr int N = int(smooth::Dof<X>);
  X x0;
  Eigen::Vector<double, N> v;
  double c{0}, w{1};
  template<typename T>
  auto operator()(const T & t) const
  {
    using std::sin;
    const T s = t + T(c) * sin(T(w) * t);
    Eigen::Vector<T, N> e;
    for (int i = 0; i < N; ++i) e(i) = T(v(i)) * s;
    return smooth::rplus(smooth::cast<T>(x0), e);
  }
  Eigen::Vector<double, N> vel(double t) const { return v * (1 + c * w * std::cos(w * t)); }
  void randomize(Rng & r)
  {
    x0 = smooth::Identity<X>();
    Eigen::Vector<double, N> a;
    for (auto & e : a) e = r.uni(-1, 1);
    x0 = smooth::rplus(x0, a);
    for (auto & e : v) e = r.uni(-0.5, 0.5);
    c = r.coin(0.4) ? 0 : r.uni(-0.5, 0.5), w = r.uni(0.2, 2);
    if (r.coin(0.2)) v.setZero();
  }
};

/// x (+) e with dual numbers: e given as dual tangent
template<typename T, typename X, typename E>
auto bump(const X & x, const E & e) { return smooth::rplus(smooth::cast<T>(x), Eigen::Vector<T, int(smooth::Dof<X>)>(e)); }
/// [a, b] by differentiating the adjoint action (Zero for vector spaces)
template<typename X>
Eigen::Matrix<double, int(smooth::Dof<X>), int(smooth::Dof<X>)> bracket(const Eigen::Vector<double, int(smooth::Dof<X>)> & a)
{
  using M = Eigen::Matrix<double, int(smooth::Dof<X>), int(smooth::Dof<X>)>;
  if constexpr (smooth::IsCommutative<X>) return M::Zero();
  else {
    const double h = 2e-5, s = a.norm();
    if (s == 0) return M::Zero();
    const Eigen::Vector<double, int(smooth::Dof<X>)> e = a * (h / s);
    const M p = smooth::Ad(smooth::exp<X>(e)), m = smooth::Ad(smooth::exp<X>(-e));
    return s * (p - m) / (2 * h);
  }
}
}  // namespace lrf
