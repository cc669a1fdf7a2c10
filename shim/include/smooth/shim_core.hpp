// Stand-in for the parts of the `smooth` library (Lie groups for robotics) that smooth_feedback uses.
// The real library is not installed in this sandbox; this one is written from the mathematics
// (generic matrix-series formulas), favouring plain correctness over speed.
#pragma once

#include <array>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstdlib>
#include <functional>
#include <limits>
#include <ranges>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/Sparse>

// ---------------------------------------------------------------- forward-mode dual numbers
namespace smooth::shim {

template<typename S>
struct Dual
{
  S v{0}, d{0};

  constexpr Dual() = default;
  constexpr Dual(const S & a, const S & b) : v(a), d(b) {}
  template<typename A>
    requires(std::is_arithmetic_v<A>)
  constexpr Dual(A a) : v(static_cast<double>(a))
  {}
  constexpr Dual(const S & a) requires(!std::is_arithmetic_v<S>) : v(a) {}
  explicit operator double() const { return static_cast<double>(v); }
  explicit operator float() const { return static_cast<float>(static_cast<double>(v)); }
  explicit operator int() const { return static_cast<int>(static_cast<double>(v)); }

  Dual operator-() const { return {-v, -d}; }
  Dual operator+() const { return *this; }
  Dual & operator+=(const Dual & o) { return v += o.v, d += o.d, *this; }
  Dual & operator-=(const Dual & o) { return v -= o.v, d -= o.d, *this; }
  Dual & operator*=(const Dual & o) { return *this = *this * o; }
  Dual & operator/=(const Dual & o) { return *this = *this / o; }
  friend Dual operator+(const Dual & a, const Dual & b) { return {a.v + b.v, a.d + b.d}; }
  friend Dual operator-(const Dual & a, const Dual & b) { return {a.v - b.v, a.d - b.d}; }
  friend Dual operator*(const Dual & a, const Dual & b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
  friend Dual operator/(const Dual & a, const Dual & b)
  {
    const S q = a.v / b.v;
    return {q, (a.d - q * b.d) / b.v};
  }
  friend bool operator<(const Dual & a, const Dual & b) { return a.v < b.v; }
  friend bool operator>(const Dual & a, const Dual & b) { return b.v < a.v; }
  friend bool operator<=(const Dual & a, const Dual & b) { return !(b.v < a.v); }
  friend bool operator>=(const Dual & a, const Dual & b) { return !(a.v < b.v); }
  friend bool operator==(const Dual & a, const Dual & b) { return a.v == b.v; }
  friend bool operator!=(const Dual & a, const Dual & b) { return !(a.v == b.v); }
};

#define VH_CHAIN(FUN, VAL, DER) \
  template<typename S>          \
  Dual<S> FUN(const Dual<S> & a) \
  {                             \
    using std::sin, std::cos, std::exp, std::log, std::sqrt, std::tan, std::atan, std::tanh; \
    const S x = a.v;            \
    const S f = VAL;            \
    return {f, (DER) * a.d};    \
  }
VH_CHAIN(sin, sin(x), cos(x))
VH_CHAIN(cos, cos(x), -sin(x))
VH_CHAIN(tan, tan(x), S(1) + f * f)
VH_CHAIN(exp, exp(x), f)
VH_CHAIN(log, log(x), S(1) / x)
VH_CHAIN(sqrt, sqrt(x), S(0.5) / f)
VH_CHAIN(atan, atan(x), S(1) / (S(1) + x * x))
VH_CHAIN(tanh, tanh(x), S(1) - f * f)
#undef VH_CHAIN
template<typename S>
Dual<S> abs(const Dual<S> & a)
{
  return a.v < S(0) ? -a : a;
}
template<typename S>
Dual<S> fabs(const Dual<S> & a)
{
  return abs(a);
}
template<typename S>
Dual<S> pow(const Dual<S> & a, int n)
{
  Dual<S> r(1.);
  for (int i = 0; i < n; ++i) r *= a;
  return r;
}
template<typename S>
Dual<S> atan2(const Dual<S> & y, const Dual<S> & x)
{
  using std::atan2;
  const S n2 = x.v * x.v + y.v * y.v;
  return {atan2(y.v, x.v), (x.v * y.d - y.v * x.d) / n2};
}
template<typename S>
bool isfinite(const Dual<S> & a)
{
  using std::isfinite;
  return isfinite(a.v) && isfinite(a.d);
}
inline double val(double x) { return x; }
inline double val(float x) { return x; }
template<typename S>
double val(const Dual<S> & x)
{
  return val(x.v);
}

template<typename T>
inline constexpr bool is_dual = false;
template<typename S>
inline constexpr bool is_dual<Dual<S>> = true;
template<typename T>
concept ScalarType = std::is_floating_point_v<T> || is_dual<T>;

}  // namespace smooth::shim

namespace Eigen {
template<typename S>
struct NumTraits<smooth::shim::Dual<S>> : NumTraits<double>
{
  using Real       = smooth::shim::Dual<S>;
  using NonInteger = Real;
  using Nested     = Real;
  using Literal    = Real;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 2, AddCost = 2, MulCost = 6 };
};
template<typename S, typename B>
struct ScalarBinaryOpTraits<smooth::shim::Dual<S>, double, B>
{
  using ReturnType = smooth::shim::Dual<S>;
};
template<typename S, typename B>
struct ScalarBinaryOpTraits<double, smooth::shim::Dual<S>, B>
{
  using ReturnType = smooth::shim::Dual<S>;
};
}  // namespace Eigen

namespace smooth {

// ---------------------------------------------------------------- manifold traits
namespace traits {
template<typename M>
struct man;  // Scalar, PlainObject, CastT<NS>, Dof, dof, Default, cast, rplus, rminus; group models also Identity, Random, exp, log, Ad, ad, mul, inv
}  // namespace traits

template<typename M>
using Scalar = typename traits::man<std::remove_cvref_t<M>>::Scalar;
template<typename M>
using PlainObject = typename traits::man<std::remove_cvref_t<M>>::PlainObject;
template<typename NS, typename M>
using CastT = typename traits::man<M>::template CastT<NS>;
template<typename M>
inline constexpr Eigen::Index Dof = traits::man<std::remove_cvref_t<M>>::Dof;
template<typename M>
using Tangent = Eigen::Matrix<typename traits::man<M>::Scalar, static_cast<int>(traits::man<M>::Dof), 1>;
template<typename M>
using TangentMap =
  Eigen::Matrix<typename traits::man<M>::Scalar, static_cast<int>(traits::man<M>::Dof), static_cast<int>(traits::man<M>::Dof)>;
template<typename M>
using Hessian = Eigen::Matrix<
  typename traits::man<M>::Scalar,
  static_cast<int>(traits::man<M>::Dof),
  static_cast<int>(traits::man<M>::Dof > 0 ? traits::man<M>::Dof * traits::man<M>::Dof : -1)>;

template<typename M>
concept Manifold = requires { typename traits::man<std::remove_cvref_t<M>>::PlainObject; };
template<typename M>
concept LieGroup = Manifold<M> && requires { requires traits::man<std::remove_cvref_t<M>>::is_group; };

namespace shim {
template<typename T>
concept EigenDense = std::is_base_of_v<Eigen::DenseBase<std::remove_cvref_t<T>>, std::remove_cvref_t<T>>;
template<typename T>
concept EigenVec = EigenDense<T> && (std::remove_cvref_t<T>::ColsAtCompileTime == 1);
inline double rnd() { return 2. * static_cast<double>(std::rand()) / RAND_MAX - 1.; }
}  // namespace shim

template<typename M>
concept RnType = shim::EigenVec<M>;

// scalars
template<shim::ScalarType S>
struct traits::man<S>
{
  using Scalar      = S;
  using PlainObject = S;
  template<typename NS>
  using CastT                            = NS;
  static constexpr Eigen::Index Dof      = 1;
  static constexpr bool is_group         = true;
  static constexpr bool commutative      = true;
  using T1                               = Eigen::Matrix<S, 1, 1>;
  static Eigen::Index dof(const S &) { return 1; }
  static S Default(Eigen::Index = 1) { return S(0.); }
  template<typename NS>
  static NS cast(const S & s)
  {
    return NS(s);
  }
  template<typename D>
  static S rplus(const S & m, const Eigen::MatrixBase<D> & a)
  {
    return m + a.derived().eval()(0);
  }
  static T1 rminus(const S & a, const S & b) { return T1{a - b}; }
  static S Identity() { return S(0.); }
  static S Random() { return S(shim::rnd()); }
  template<typename D>
  static S exp(const Eigen::MatrixBase<D> & a)
  {
    return a.derived().eval()(0);
  }
  static T1 log(const S & g) { return T1{g}; }
  static T1 Ad(const S &) { return T1::Identity(); }
  template<typename D>
  static T1 ad(const Eigen::MatrixBase<D> &)
  {
    return T1::Zero();
  }
  static S mul(const S & a, const S & b) { return a + b; }
  static S inv(const S & a) { return -a; }
};

// Eigen column vectors, including expressions
template<shim::EigenVec V>
struct traits::man<V>
{
  using Scalar                       = typename V::Scalar;
  static constexpr Eigen::Index Dof  = V::SizeAtCompileTime;
  static constexpr int N             = static_cast<int>(Dof);
  using PlainObject                  = Eigen::Matrix<Scalar, N, 1>;
  template<typename NS>
  using CastT                       = Eigen::Matrix<NS, V::SizeAtCompileTime, 1>;
  static constexpr bool is_group    = true;
  static constexpr bool commutative = true;
  using TM                          = Eigen::Matrix<Scalar, N, N>;
  static Eigen::Index dof(const auto & m) { return m.size(); }
  static PlainObject Default(Eigen::Index n = Dof) { return PlainObject::Zero(n); }
  template<typename NS>
  static CastT<NS> cast(const auto & m)
  {
    return m.template cast<NS>();
  }
  template<typename D>
  static PlainObject rplus(const auto & m, const Eigen::MatrixBase<D> & a)
  {
    return m + a;
  }
  static PlainObject rminus(const auto & a, const auto & b) { return a - b; }
  static PlainObject Identity() { return PlainObject::Zero(); }
  static PlainObject Random()
  {
    PlainObject p;
    for (int i = 0; i < N; ++i) p(i) = shim::rnd();
    return p;
  }
  template<typename D>
  static PlainObject exp(const Eigen::MatrixBase<D> & a)
  {
    return a;
  }
  static PlainObject log(const auto & g) { return g; }
  static TM Ad(const auto &) { return TM::Identity(); }
  template<typename D>
  static TM ad(const Eigen::MatrixBase<D> &)
  {
    return TM::Zero();
  }
  static PlainObject mul(const auto & a, const auto & b) { return a + b; }
  static PlainObject inv(const auto & a) { return -a; }
};

// ---------------------------------------------------------------- groups
namespace shim {

template<typename S>
Eigen::Matrix<S, 3, 3> hat3(const Eigen::Matrix<S, 3, 1> & w)
{
  Eigen::Matrix<S, 3, 3> m;
  m << S(0.), -w(2), w(1), w(2), S(0.), -w(0), -w(1), w(0), S(0.);
  return m;
}

template<typename D>
struct LieGroupBase
{
  const D & derived() const { return static_cast<const D &>(*this); }
  D & derived() { return static_cast<D &>(*this); }

  friend D operator*(const D & a, const D & b) { return D::mul(a, b); }
  friend auto operator-(const D & a, const D & b) { return D::mul(b.inverse(), a).log(); }
  template<typename A>
  friend D operator+(const D & a, const Eigen::MatrixBase<A> & b)
  {
    return D::mul(a, D::exp(b));
  }
  template<typename A>
  D & operator+=(const Eigen::MatrixBase<A> & b)
  {
    return derived() = D::mul(derived(), D::exp(b));
  }
  D & operator*=(const D & b) { return derived() = D::mul(derived(), b); }
  bool isApprox(const D & o, double eps = 1e-8) const
  {
    const auto e = derived() - o;
    double m     = 0;
    for (int i = 0; i < e.size(); ++i) {
      const double v = val(e(i));
      if (!(std::fabs(v) <= eps)) return false;
      m = std::max(m, std::fabs(v));
    }
    return m <= eps;
  }
};

}  // namespace shim

template<typename S>
struct SO2 : shim::LieGroupBase<SO2<S>>
{
  using Scalar             = S;
  using Tangent            = Eigen::Matrix<S, 1, 1>;
  using TM                 = Eigen::Matrix<S, 1, 1>;
  static constexpr int DOF = 1;
  static constexpr bool commutative = true;
  template<typename NS>
  using CastT = SO2<NS>;

  S s{0.}, c{1.};
  SO2() = default;
  explicit SO2(const S & angle)
  {
    using std::sin, std::cos;
    s = sin(angle), c = cos(angle);
  }
  SO2(const S & sn, const S & cs) : s(sn), c(cs) {}
  static SO2 Identity() { return SO2(); }
  static SO2 Random() { return SO2(S(3.14159 * shim::rnd())); }
  S angle() const
  {
    using std::atan2;
    return atan2(s, c);
  }
  SO2 inverse() const { return SO2(-s, c); }
  static SO2 mul(const SO2 & a, const SO2 & b)
  {
    SO2 r(a.s * b.c + a.c * b.s, a.c * b.c - a.s * b.s);
    using std::sqrt;
    const S n = sqrt(r.s * r.s + r.c * r.c);  // keep on the circle
    r.s /= n, r.c /= n;
    return r;
  }
  template<typename A>
  static SO2 exp(const Eigen::MatrixBase<A> & a)
  {
    return SO2(a.derived().eval()(0));
  }
  Tangent log() const { return Tangent{angle()}; }
  TM Ad() const { return TM::Identity(); }
  template<typename A>
  static TM ad(const Eigen::MatrixBase<A> &)
  {
    return TM::Zero();
  }
  template<typename NS>
  SO2<NS> cast() const
  {
    return SO2<NS>(NS(s), NS(c));
  }
  Eigen::Matrix<S, 2, 2> matrix() const { return Eigen::Matrix<S, 2, 2>{{c, -s}, {s, c}}; }
  template<typename A>
  Eigen::Matrix<S, 2, 1> operator*(const Eigen::MatrixBase<A> & v) const
  {
    return matrix() * v;
  }
  using shim::LieGroupBase<SO2<S>>::derived;
};

template<typename S>
struct SO3 : shim::LieGroupBase<SO3<S>>
{
  using Scalar             = S;
  using Tangent            = Eigen::Matrix<S, 3, 1>;
  using TM                 = Eigen::Matrix<S, 3, 3>;
  static constexpr int DOF = 3;
  static constexpr bool commutative = false;
  template<typename NS>
  using CastT = SO3<NS>;

  Eigen::Matrix<S, 4, 1> q{S(0.), S(0.), S(0.), S(1.)};  // x y z w
  SO3() = default;
  template<typename A>
  explicit SO3(const Eigen::QuaternionBase<A> & qq)
  {
    const auto n = qq.normalized();
    q << n.x(), n.y(), n.z(), n.w();
  }
  static SO3 Identity() { return SO3(); }
  static SO3 Random()
  {
    Tangent t{S(shim::rnd()), S(shim::rnd()), S(shim::rnd())};
    return exp(t * S(1.7));
  }
  Eigen::Quaternion<S> quat() const { return Eigen::Quaternion<S>(q(3), q(0), q(1), q(2)); }
  SO3 inverse() const
  {
    SO3 r;
    r.q << -q(0), -q(1), -q(2), q(3);
    return r;
  }
  static SO3 mul(const SO3 & a, const SO3 & b)
  {
    SO3 r;
    const Tangent va = a.q.template head<3>(), vb = b.q.template head<3>();
    const S wa = a.q(3), wb = b.q(3);
    const Tangent v = vb * wa + va * wb + va.cross(vb);
    const S w       = wa * wb - va.dot(vb);
    using std::sqrt;
    const S n = sqrt(v.squaredNorm() + w * w);
    r.q << v / n, w / n;
    return r;
  }
  template<typename A>
  static SO3 exp(const Eigen::MatrixBase<A> & aa)
  {
    using std::sqrt, std::sin, std::cos;
    const Tangent a = aa;
    const S th2     = a.squaredNorm();
    SO3 r;
    if (shim::val(th2) < 0.25) {
      // series: derivatives of the closed form cancel for small angles
      const S h = th2 * S(0.25);
      S sn(1.), cs(1.);
      for (int k = 8; k > 0; --k) sn = S(1.) - h * sn / S(2. * k * (2. * k + 1.)), cs = S(1.) - h * cs / S(2. * k * (2. * k - 1.));
      r.q << a * (S(0.5) * sn), cs;
    } else {
      const S th = sqrt(th2);
      r.q << a * (sin(th * S(0.5)) / th), cos(th * S(0.5));
    }
    return r;
  }
  Tangent log() const
  {
    using std::sqrt, std::atan2;
    Tangent v = q.template head<3>();
    S w       = q(3);
    if (shim::val(w) < 0) v = -v, w = -w;
    const S n2 = v.squaredNorm();
    const S z = n2 / (w * w);
    if (shim::val(w) != 0 && shim::val(z) < 0.01) {
      // series: derivatives of the closed form cancel for small angles
      S at(0.);
      for (int k = 9; k >= 0; --k) at = S(1. / (2. * k + 1.)) - z * at;
      return v * (S(2.) * at / w);
    }
    const S n = sqrt(n2);
    return v * (S(2.) * atan2(n, w) / n);
  }
  Eigen::Matrix<S, 3, 3> matrix() const
  {
    const Tangent v = q.template head<3>();
    const S w       = q(3);
    const Eigen::Matrix<S, 3, 3> h = shim::hat3<S>(v);
    return Eigen::Matrix<S, 3, 3>::Identity() + S(2.) * w * h + S(2.) * h * h;
  }
  TM Ad() const { return matrix(); }
  template<typename A>
  static TM ad(const Eigen::MatrixBase<A> & a)
  {
    return shim::hat3<S>(Tangent(a));
  }
  template<typename NS>
  SO3<NS> cast() const
  {
    SO3<NS> r;
    r.q = q.template cast<NS>();
    return r;
  }
  template<typename A>
    requires(A::ColsAtCompileTime == 1)
  Tangent operator*(const Eigen::MatrixBase<A> & v) const
  {
    return matrix() * v;
  }
};

template<typename S>
struct SE2 : shim::LieGroupBase<SE2<S>>
{
  using Scalar             = S;
  using Tangent            = Eigen::Matrix<S, 3, 1>;  // vx vy w
  using TM                 = Eigen::Matrix<S, 3, 3>;
  static constexpr int DOF = 3;
  static constexpr bool commutative = false;
  template<typename NS>
  using CastT = SE2<NS>;

  SO2<S> rot_;
  Eigen::Matrix<S, 2, 1> pos_{S(0.), S(0.)};
  SE2() = default;
  template<typename A>
  SE2(const SO2<S> & r, const Eigen::MatrixBase<A> & p) : rot_(r), pos_(p)
  {}
  static SE2 Identity() { return SE2(); }
  static SE2 Random() { return SE2(SO2<S>::Random(), Eigen::Matrix<S, 2, 1>(S(shim::rnd()), S(shim::rnd()))); }
  const SO2<S> & so2() const { return rot_; }
  SO2<S> & so2() { return rot_; }
  const Eigen::Matrix<S, 2, 1> & r2() const { return pos_; }
  Eigen::Matrix<S, 2, 1> & r2() { return pos_; }
  SE2 inverse() const { return SE2(rot_.inverse(), Eigen::Matrix<S, 2, 1>(-(rot_.inverse() * pos_))); }
  static SE2 mul(const SE2 & a, const SE2 & b)
  {
    return SE2(SO2<S>::mul(a.rot_, b.rot_), Eigen::Matrix<S, 2, 1>(a.pos_ + a.rot_ * b.pos_));
  }
  // V(th) = [A -B; B A] with A = sin(th)/th, B = (1-cos(th))/th
  static std::pair<S, S> ab(const S & th)
  {
    using std::sin, std::cos;
    if (std::fabs(shim::val(th)) < 0.5) {
      // series: derivatives of the closed form cancel for small angles
      const S t2 = th * th;
      S A(1.), B(1.);
      for (int k = 8; k > 0; --k) A = S(1.) - t2 * A / S(2. * k * (2. * k + 1.)), B = S(1.) - t2 * B / S((2. * k + 1.) * (2. * k + 2.));
      return {A, S(0.5) * th * B};
    }
    return {sin(th) / th, (S(1.) - cos(th)) / th};
  }
  template<typename X>
  static SE2 exp(const Eigen::MatrixBase<X> & aa)
  {
    const Tangent a    = aa;
    const auto [A, B] = ab(a(2));
    return SE2(SO2<S>(a(2)), Eigen::Matrix<S, 2, 1>(A * a(0) - B * a(1), B * a(0) + A * a(1)));
  }
  Tangent log() const
  {
    const S th        = rot_.angle();
    const auto [A, B] = ab(th);
    const S det       = A * A + B * B;
    return Tangent((A * pos_(0) + B * pos_(1)) / det, (-B * pos_(0) + A * pos_(1)) / det, th);
  }
  TM Ad() const
  {
    TM m;
    m << rot_.c, -rot_.s, pos_(1), rot_.s, rot_.c, -pos_(0), S(0.), S(0.), S(1.);
    return m;
  }
  template<typename A>
  static TM ad(const Eigen::MatrixBase<A> & aa)
  {
    const Tangent a = aa;
    TM m;
    m << S(0.), -a(2), a(1), a(2), S(0.), -a(0), S(0.), S(0.), S(0.);
    return m;
  }
  template<typename NS>
  SE2<NS> cast() const
  {
    return SE2<NS>(rot_.template cast<NS>(), pos_.template cast<NS>());
  }
  template<typename A>
    requires(A::ColsAtCompileTime == 1)
  Eigen::Matrix<S, 2, 1> operator*(const Eigen::MatrixBase<A> & v) const
  {
    return rot_ * v + pos_;
  }
};

template<typename S>
struct SE3 : shim::LieGroupBase<SE3<S>>
{
  using Scalar             = S;
  using V3                 = Eigen::Matrix<S, 3, 1>;
  using Tangent            = Eigen::Matrix<S, 6, 1>;  // v w
  using TM                 = Eigen::Matrix<S, 6, 6>;
  static constexpr int DOF = 6;
  static constexpr bool commutative = false;
  template<typename NS>
  using CastT = SE3<NS>;

  SO3<S> rot_;
  V3 pos_{S(0.), S(0.), S(0.)};
  SE3() = default;
  template<typename A>
  SE3(const SO3<S> & r, const Eigen::MatrixBase<A> & p) : rot_(r), pos_(p)
  {}
  static SE3 Identity() { return SE3(); }
  static SE3 Random() { return SE3(SO3<S>::Random(), V3(S(shim::rnd()), S(shim::rnd()), S(shim::rnd()))); }
  const SO3<S> & so3() const { return rot_; }
  SO3<S> & so3() { return rot_; }
  const V3 & r3() const { return pos_; }
  V3 & r3() { return pos_; }
  SE3 inverse() const { return SE3(rot_.inverse(), V3(-(rot_.inverse() * pos_))); }
  static SE3 mul(const SE3 & a, const SE3 & b) { return SE3(SO3<S>::mul(a.rot_, b.rot_), V3(a.pos_ + a.rot_ * b.pos_)); }
  static Eigen::Matrix<S, 3, 3> Vmat(const V3 & w)
  {
    // sum hat(w)^n / (n+1)!
    const Eigen::Matrix<S, 3, 3> h = shim::hat3<S>(w);
    Eigen::Matrix<S, 3, 3> t = Eigen::Matrix<S, 3, 3>::Identity(), r = t;
    for (int n = 1; n < 40; ++n) {
      t = Eigen::Matrix<S, 3, 3>(t * h) / S(n + 1.);
      r += t;
    }
    return r;
  }
  template<typename A>
  static SE3 exp(const Eigen::MatrixBase<A> & aa)
  {
    const Tangent a = aa;
    const V3 v = a.template head<3>(), w = a.template tail<3>();
    return SE3(SO3<S>::exp(w), V3(Vmat(w) * v));
  }
  Tangent log() const
  {
    const V3 w = rot_.log();
    Tangent r;
    const Eigen::Matrix<S, 3, 3> V = Vmat(w);
    r << V.inverse() * pos_, w;
    return r;
  }
  TM Ad() const
  {
    const Eigen::Matrix<S, 3, 3> R = rot_.matrix();
    TM m                           = TM::Zero();
    m.template topLeftCorner<3, 3>()     = R;
    m.template bottomRightCorner<3, 3>() = R;
    m.template topRightCorner<3, 3>()    = shim::hat3<S>(pos_) * R;
    return m;
  }
  template<typename A>
  static TM ad(const Eigen::MatrixBase<A> & aa)
  {
    const Tangent a = aa;
    TM m            = TM::Zero();
    const Eigen::Matrix<S, 3, 3> hw = shim::hat3<S>(V3(a.template tail<3>()));
    m.template topLeftCorner<3, 3>()     = hw;
    m.template bottomRightCorner<3, 3>() = hw;
    m.template topRightCorner<3, 3>()    = shim::hat3<S>(V3(a.template head<3>()));
    return m;
  }
  template<typename NS>
  SE3<NS> cast() const
  {
    return SE3<NS>(rot_.template cast<NS>(), pos_.template cast<NS>());
  }
};

using SO2d = SO2<double>;
using SO3d = SO3<double>;
using SE2d = SE2<double>;
using SE3d = SE3<double>;

template<typename... P>
struct Bundle : shim::LieGroupBase<Bundle<P...>>
{
  static constexpr std::size_t NP = sizeof...(P);
  template<std::size_t I>
  using Part     = std::tuple_element_t<I, std::tuple<P...>>;
  using Scalar   = typename traits::man<Part<0>>::Scalar;
  static constexpr int DOF          = static_cast<int>((0 + ... + traits::man<P>::Dof));
  static constexpr bool commutative = (true && ... && traits::man<P>::commutative);
  using Tangent = Eigen::Matrix<Scalar, DOF, 1>;
  using TM      = Eigen::Matrix<Scalar, DOF, DOF>;
  template<typename NS>
  using CastT = Bundle<typename traits::man<P>::template CastT<NS>...>;
  static constexpr std::array<int, NP + 1> B = [] {
    std::array<int, NP + 1> r{};
    std::array<int, NP> d{static_cast<int>(traits::man<P>::Dof)...};
    for (std::size_t i = 0; i < NP; ++i) r[i + 1] = r[i] + d[i];
    return r;
  }();

  std::tuple<P...> parts_{traits::man<P>::Identity()...};
  Bundle() = default;
  template<typename... A>
    requires(sizeof...(A) == sizeof...(P) && (true && ... && std::is_convertible_v<A, P>))
  explicit Bundle(A &&... a) : parts_(std::forward<A>(a)...)
  {}
  template<std::size_t I>
  const auto & part() const
  {
    return std::get<I>(parts_);
  }
  template<std::size_t I>
  auto & part()
  {
    return std::get<I>(parts_);
  }
  template<typename F>
  static void each(F && f)
  {
    [&]<std::size_t... I>(std::index_sequence<I...>) { (f.template operator()<I>(), ...); }(std::make_index_sequence<NP>{});
  }
  static Bundle Identity() { return Bundle(); }
  static Bundle Random()
  {
    Bundle r;
    each([&]<std::size_t I>() { r.template part<I>() = traits::man<Part<I>>::Random(); });
    return r;
  }
  Bundle inverse() const
  {
    Bundle r;
    each([&]<std::size_t I>() { r.template part<I>() = traits::man<Part<I>>::inv(part<I>()); });
    return r;
  }
  static Bundle mul(const Bundle & a, const Bundle & b)
  {
    Bundle r;
    each([&]<std::size_t I>() { r.template part<I>() = traits::man<Part<I>>::mul(a.template part<I>(), b.template part<I>()); });
    return r;
  }
  template<typename A>
  static Bundle exp(const Eigen::MatrixBase<A> & aa)
  {
    const Tangent a = aa;
    Bundle r;
    each([&]<std::size_t I>() { r.template part<I>() = traits::man<Part<I>>::exp(a.template segment<B[I + 1] - B[I]>(B[I])); });
    return r;
  }
  Tangent log() const
  {
    Tangent a;
    each([&]<std::size_t I>() { a.template segment<B[I + 1] - B[I]>(B[I]) = traits::man<Part<I>>::log(part<I>()); });
    return a;
  }
  TM Ad() const
  {
    TM m = TM::Zero();
    each([&]<std::size_t I>() { m.template block<B[I + 1] - B[I], B[I + 1] - B[I]>(B[I], B[I]) = traits::man<Part<I>>::Ad(part<I>()); });
    return m;
  }
  template<typename A>
  static TM ad(const Eigen::MatrixBase<A> & aa)
  {
    const Tangent a = aa;
    TM m            = TM::Zero();
    each([&]<std::size_t I>() { m.template block<B[I + 1] - B[I], B[I + 1] - B[I]>(B[I], B[I]) = traits::man<Part<I>>::ad(a.template segment<B[I + 1] - B[I]>(B[I])); });
    return m;
  }
  template<typename NS>
  CastT<NS> cast() const
  {
    CastT<NS> r;
    each([&]<std::size_t I>() { r.template part<I>() = traits::man<Part<I>>::template cast<NS>(part<I>()); });
    return r;
  }
};

template<typename G>
  requires(std::is_base_of_v<shim::LieGroupBase<G>, G>)
struct traits::man<G>
{
  using Scalar                      = typename G::Scalar;
  using PlainObject                 = G;
  template<typename NS>
  using CastT                       = typename G::template CastT<NS>;
  static constexpr Eigen::Index Dof = G::DOF;
  static constexpr bool is_group    = true;
  static constexpr bool commutative = G::commutative;
  static Eigen::Index dof(const G &) { return Dof; }
  static G Default(Eigen::Index = Dof) { return G::Identity(); }
  template<typename NS>
  static CastT<NS> cast(const G & g)
  {
    return g.template cast<NS>();
  }
  template<typename D>
  static G rplus(const G & m, const Eigen::MatrixBase<D> & a)
  {
    return G::mul(m, G::exp(a));
  }
  static typename G::Tangent rminus(const G & a, const G & b) { return G::mul(b.inverse(), a).log(); }
  static G Identity() { return G::Identity(); }
  static G Random() { return G::Random(); }
  template<typename D>
  static G exp(const Eigen::MatrixBase<D> & a)
  {
    return G::exp(a);
  }
  static typename G::Tangent log(const G & g) { return g.log(); }
  static typename G::TM Ad(const G & g) { return g.Ad(); }
  template<typename D>
  static typename G::TM ad(const Eigen::MatrixBase<D> & a)
  {
    return G::ad(a);
  }
  static G mul(const G & a, const G & b) { return G::mul(a, b); }
  static G inv(const G & a) { return a.inverse(); }
};
// families deduce their scalar through a transparent alias
template<typename S>
struct traits_family;

// ---------------------------------------------------------------- free functions
template<LieGroup G>
inline constexpr bool IsCommutative = traits::man<G>::commutative;

template<Manifold M>
PlainObject<M> Default(Eigen::Index n)
{
  return traits::man<M>::Default(n);
}
template<Manifold M>
PlainObject<M> Default()
{
  return traits::man<M>::Default();
}
template<LieGroup G>
PlainObject<G> Identity()
{
  return traits::man<G>::Identity();
}
template<Manifold G>
PlainObject<G> Random()
{
  return traits::man<G>::Random();
}
template<Manifold M>
Eigen::Index dof(const M & m)
{
  return traits::man<M>::dof(m);
}
template<typename NS, Manifold M>
auto cast(const M & m)
{
  return traits::man<M>::template cast<NS>(m);
}
template<Manifold M, typename D>
PlainObject<M> rplus(const M & m, const Eigen::MatrixBase<D> & a)
{
  return traits::man<M>::rplus(m, a);
}
template<Manifold M1, Manifold M2>
auto rminus(const M1 & a, const M2 & b)
{
  return traits::man<M1>::rminus(a, b);
}
template<LieGroup G, typename D>
PlainObject<G> exp(const Eigen::MatrixBase<D> & a)
{
  return traits::man<G>::exp(a);
}
template<LieGroup G>
auto log(const G & g)
{
  return traits::man<G>::log(g);
}
template<LieGroup G>
auto Ad(const G & g)
{
  return traits::man<G>::Ad(g);
}
template<LieGroup G, typename D>
auto ad(const Eigen::MatrixBase<D> & a)
{
  return traits::man<G>::ad(a);
}
template<LieGroup G>
auto composition(const G & a, const G & b)
{
  return traits::man<G>::mul(a, b);
}
template<LieGroup G>
auto inverse(const G & a)
{
  return traits::man<G>::inv(a);
}

namespace shim {
template<typename M>
M inv_mat(M a)
{
  // Gauss-Jordan, pivoting on values only (works for dual numbers)
  using S     = typename M::Scalar;
  const int n = static_cast<int>(a.rows());
  M b         = M::Identity(n, n);
  for (int k = 0; k < n; ++k) {
    int p = k;
    for (int i = k + 1; i < n; ++i)
      if (std::fabs(val(a(i, k))) > std::fabs(val(a(p, k)))) p = i;
    if (p != k) a.row(p).swap(a.row(k)), b.row(p).swap(b.row(k));
    const S d = S(1.) / a(k, k);
    a.row(k) *= d, b.row(k) *= d;
    for (int i = 0; i < n; ++i)
      if (i != k) {
        const S f = a(i, k);
        a.row(i) -= f * a.row(k);
        b.row(i) -= f * b.row(k);
      }
  }
  return b;
}
inline constexpr int n_terms = 45;
}  // namespace shim

/// dr_exp(a) = sum_n (-1)^n / (n+1)! ad_a^n
template<LieGroup G, typename D>
TangentMap<G> dr_exp(const Eigen::MatrixBase<D> & a)
{
  using TM   = TangentMap<G>;
  using S    = Scalar<G>;
  const TM A = ad<G>(a);
  TM t = TM::Identity(A.rows(), A.cols()), r = t;
  if (traits::man<G>::commutative) return r;
  for (int n = 1; n < shim::n_terms; ++n) {
    t = TM(t * A) * S(-1. / (n + 1.));
    r += t;
  }
  return r;
}
template<LieGroup G, typename D>
TangentMap<G> dr_expinv(const Eigen::MatrixBase<D> & a)
{
  return shim::inv_mat(dr_exp<G>(a));
}
template<LieGroup G, typename D>
TangentMap<G> dl_exp(const Eigen::MatrixBase<D> & a)
{
  return dr_exp<G>(-a);
}
template<LieGroup G, typename D>
TangentMap<G> dl_expinv(const Eigen::MatrixBase<D> & a)
{
  return dr_expinv<G>(-a);
}
/// second derivative: block j (Nx x Nx) holds entry (r, i) = d J(j, r) / d a_i, differentiated in the vector a
namespace shim {
template<LieGroup G, typename D>
std::vector<TangentMap<G>> partials_dr_exp(const Eigen::MatrixBase<D> & a)
{
  using TM    = TangentMap<G>;
  using S     = Scalar<G>;
  const TM A  = ad<G>(a);
  const int N = static_cast<int>(A.rows());
  std::vector<TM> r(static_cast<size_t>(N), TM::Zero(N, N));
  if (traits::man<G>::commutative) return r;
  for (int i = 0; i < N; ++i) {
    const TM Gi = ad<G>(Tangent<G>(Tangent<G>::Unit(N, i)));
    TM P = TM::Identity(N, N), dP = TM::Zero(N, N);  // A^n / ((n+1)! (-1)^n) and its derivative
    for (int n = 1; n < n_terms; ++n) {
      const S c(-1. / (n + 1.));
      dP = TM(dP * A + P * Gi) * c;
      P  = TM(P * A) * c;
      r[static_cast<size_t>(i)] += dP;
    }
  }
  return r;
}
}  // namespace shim
// Convention (right derivatives): d2r_exp is the derivative of dr_exp w.r.t. its (vector) argument
template<LieGroup G, typename D>
Hessian<G> d2r_exp(const Eigen::MatrixBase<D> & a)
{
  const auto dJ = shim::partials_dr_exp<G>(a);
  const int N   = static_cast<int>(dJ.size());
  Hessian<G> H  = Hessian<G>::Zero(N, N * N);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j)
      for (int r = 0; r < N; ++r) H(r, j * N + i) = dJ[static_cast<size_t>(i)](j, r);
  return H;
}
template<LieGroup G, typename D>
Hessian<G> d2r_expinv(const Eigen::MatrixBase<D> & a)
{
  const auto dJ         = shim::partials_dr_exp<G>(a);
  const TangentMap<G> M = dr_expinv<G>(a);
  const int N           = static_cast<int>(dJ.size());
  Hessian<G> H          = Hessian<G>::Zero(N, N * N);
  for (int i = 0; i < N; ++i) {
    const TangentMap<G> d = -(M * dJ[static_cast<size_t>(i)] * M);
    for (int j = 0; j < N; ++j)
      for (int r = 0; r < N; ++r) H(r, j * N + i) = d(j, r);
  }
  return H;
}

// ---------------------------------------------------------------- derivatives of rminus
template<LieGroup G, typename D>
TangentMap<G> dr_rminus(const Eigen::MatrixBase<D> & e)
{
  return dr_expinv<G>(e);
}
template<LieGroup G, typename D>
Hessian<G> d2r_rminus(const Eigen::MatrixBase<D> & e)
{
  const TangentMap<G> J = dr_expinv<G>(e);
  Hessian<G> H          = d2r_expinv<G>(e);
  const int N           = static_cast<int>(J.rows());
  for (int j = 0; j < N; ++j) H.middleCols(j * N, N) = (H.middleCols(j * N, N) * J).eval();
  return H;
}
template<LieGroup G, typename D>
Eigen::Matrix<Scalar<G>, 1, static_cast<int>(Dof<G>)> dr_rminus_squarednorm(const Eigen::MatrixBase<D> & e)
{
  return e.transpose() * dr_expinv<G>(e);
}
template<LieGroup G, typename D>
TangentMap<G> d2r_rminus_squarednorm(const Eigen::MatrixBase<D> & e)
{
  const TangentMap<G> J = dr_expinv<G>(e);
  const Hessian<G> H    = d2r_rminus<G>(e);
  TangentMap<G> r       = J.transpose() * J;
  const int N           = static_cast<int>(J.rows());
  for (int j = 0; j < N; ++j) r += e(j) * H.middleCols(j * N, N);
  return r;
}

// ---------------------------------------------------------------- sparse versions
namespace shim {
template<LieGroup G>
std::vector<Tangent<G>> probes()
{
  std::vector<Tangent<G>> r;
  for (int k = 1; k <= 4; ++k) {
    Tangent<G> a;
    for (int i = 0; i < a.size(); ++i) a(i) = 0.3 + 0.37 * std::sin(1.7 * i + 2.3 * k);
    r.push_back(a);
  }
  return r;
}
template<typename F, typename G>
auto pattern(F && f)
{
  Eigen::MatrixXd s;
  for (const auto & a : probes<G>()) {
    const Eigen::MatrixXd m = f(a).cwiseAbs();
    if (s.size() == 0)
      s = m;
    else
      s += m;
  }
  Eigen::SparseMatrix<double> r(s.rows(), s.cols());
  for (int j = 0; j < s.cols(); ++j)
    for (int i = 0; i < s.rows(); ++i)
      if (s(i, j) > 1e-13) r.insert(i, j) = 0;
  r.makeCompressed();
  return r;
}
// writes the structural non-zeros of `pat`, leaves every other coefficient alone
inline void fill(auto & sp, const Eigen::SparseMatrix<double> & pat, const Eigen::MatrixXd & m, Eigen::Index i0)
{
  for (int k = 0; k < pat.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(pat, k); it; ++it) sp.coeffRef(i0 + it.row(), i0 + it.col()) = m(it.row(), it.col());
}
}  // namespace shim

template<LieGroup G>
inline const auto ad_sparse_pattern = [] {
  auto f = [](const auto & a) { return ad<G>(a); };
  return shim::pattern<decltype(f), G>(std::move(f));
}();
template<LieGroup G>
inline const auto d_exp_sparse_pattern = [] {
  auto f = [](const auto & a) { return dr_exp<G>(a); };
  return shim::pattern<decltype(f), G>(std::move(f));
}();
template<LieGroup G>
inline const auto d2_exp_sparse_pattern = [] {
  auto f = [](const auto & a) { return (d2r_exp<G>(a).cwiseAbs() + d2r_expinv<G>(a).cwiseAbs()).eval(); };
  return shim::pattern<decltype(f), G>(std::move(f));
}();
template<LieGroup G>
inline const auto generators_sparse = [] {
  constexpr int N = static_cast<int>(traits::man<G>::Dof);
  std::array<Eigen::SparseMatrix<double, Eigen::RowMajor>, static_cast<std::size_t>(N)> r;
  for (int i = 0; i < N; ++i) {
    const Eigen::MatrixXd m = ad<G>(Tangent<G>(Tangent<G>::Unit(N, i)));
    r[static_cast<std::size_t>(i)] = m.sparseView();
    r[static_cast<std::size_t>(i)].makeCompressed();
  }
  return r;
}();

template<LieGroup G, typename D>
void ad_sparse(auto & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  shim::fill(sp, ad_sparse_pattern<G>, ad<G>(a), i0);
}
template<LieGroup G, typename D>
void dr_exp_sparse(auto & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  shim::fill(sp, d_exp_sparse_pattern<G>, dr_exp<G>(a), i0);
}
template<LieGroup G, typename D>
void dr_expinv_sparse(auto & sp, const Eigen::MatrixBase<D> & a, Eigen::Index i0 = 0)
{
  shim::fill(sp, d_exp_sparse_pattern<G>, dr_expinv<G>(a), i0);
}
template<LieGroup G, typename D>
void d2r_exp_sparse(auto & sp, const Eigen::MatrixBase<D> & a)
{
  shim::fill(sp, d2_exp_sparse_pattern<G>, d2r_exp<G>(a), 0);
}
template<LieGroup G, typename D>
void d2r_expinv_sparse(auto & sp, const Eigen::MatrixBase<D> & a)
{
  shim::fill(sp, d2_exp_sparse_pattern<G>, d2r_expinv<G>(a), 0);
}

// ---------------------------------------------------------------- differentiation
template<typename... A>
auto wrt(A &&... a)
{
  return std::tuple<A...>(std::forward<A>(a)...);
}

namespace diff {
enum class Type { Numerical, Autodiff, Ceres, Analytic, Default };

namespace detail {
template<typename F, typename T>
inline constexpr bool order1 = false;
template<typename F, typename T>
inline constexpr bool order2 = false;
template<typename F, typename... A>
inline constexpr bool order1<F, std::tuple<A...>> = requires(std::remove_reference_t<F> & f, const std::remove_cvref_t<A> &... a) { f.jacobian(a...); };
template<typename F, typename... A>
inline constexpr bool order2<F, std::tuple<A...>> = requires(std::remove_reference_t<F> & f, const std::remove_cvref_t<A> &... a) { f.hessian(a...); };

template<typename F, typename T>
concept diffable_order1 = order1<F, T>;
template<typename F, typename T>
concept diffable_order2 = order2<F, T>;

template<typename... A>
inline constexpr int total_dof = ((traits::man<std::remove_cvref_t<A>>::Dof < 0) || ... || false) ? -1 : static_cast<int>((0 + ... + traits::man<std::remove_cvref_t<A>>::Dof));

// x (+) a for a tuple of manifold elements, in scalar NS
template<typename NS, typename Tup>
auto plus(const Tup & x, const Eigen::Matrix<NS, -1, 1> & a)
{
  return std::apply(
    [&](const auto &... xs) {
      Eigen::Index b = 0;
      auto one       = [&](const auto & xi) {
        using M             = std::remove_cvref_t<decltype(xi)>;
        const auto n        = traits::man<M>::dof(xi);
        constexpr int N     = static_cast<int>(traits::man<M>::Dof);
        const Eigen::Matrix<NS, N, 1> seg = a.segment(b, n);
        b += n;
        const auto c = traits::man<M>::template cast<NS>(xi);
        return traits::man<std::remove_cvref_t<decltype(c)>>::rplus(c, seg);
      };
      using R = std::tuple<PlainObject<decltype(one(xs))>...>;
      return R{one(xs)...};  // braces: left to right
    },
    x);
}
template<typename Tup>
Eigen::Index dofs(const Tup & x)
{
  return std::apply([](const auto &... xs) { return (Eigen::Index(0) + ... + traits::man<std::remove_cvref_t<decltype(xs)>>::dof(xs)); }, x);
}
}  // namespace detail

template<int K, Type DT = Type::Default, typename F, typename... A>
auto dr(F && f, const std::tuple<A...> & x)
{
  using Tup        = std::tuple<std::remove_cvref_t<A>...>;
  constexpr bool a1 = detail::order1<F, Tup>, a2 = detail::order2<F, Tup>;
#ifdef SMOOTH_SHIM_AUTODIFF
  constexpr Type fallback = Type::Autodiff;
#else
  constexpr Type fallback = Type::Numerical;
#endif
  constexpr Type T = DT != Type::Default ? DT : (K == 1 && a1) || (K == 2 && a1 && a2) ? Type::Analytic : fallback;
  static_assert(K >= 0 && K <= 2);

  if constexpr (K == 0) {
    return std::make_tuple(std::apply(f, x));
  } else if constexpr (T == Type::Analytic) {
    auto v = std::apply(f, x);
    if constexpr (K == 1)
      return std::tuple_cat(std::make_tuple(std::move(v)), std::make_tuple(std::apply([&](const auto &... a) { return f.jacobian(a...); }, x)));
    else
      return std::tuple_cat(
        std::make_tuple(std::move(v)),
        std::make_tuple(std::apply([&](const auto &... a) { return f.jacobian(a...); }, x)),
        std::make_tuple(std::apply([&](const auto &... a) { return f.hessian(a...); }, x)));
  } else {
    using R0         = PlainObject<std::remove_cvref_t<decltype(std::apply(f, x))>>;
    const R0 val0    = std::apply(f, x);
    constexpr int Nx = detail::total_dof<A...>, Ny = static_cast<int>(traits::man<R0>::Dof);
    const auto nx = detail::dofs(x), ny = traits::man<R0>::dof(val0);
    using JT      = Eigen::Matrix<double, Ny, Nx, (Ny == 1 && Nx != 1) ? Eigen::RowMajor : Eigen::ColMajor>;
    using HT      = Eigen::Matrix<double, Nx, (Nx > 0 && Ny > 0) ? Nx * Ny : -1, (Nx == 1 && !(Nx > 0 && Ny > 0 && Nx * Ny == 1)) ? Eigen::RowMajor : Eigen::ColMajor>;
    JT J(ny, nx);
    if constexpr (T == Type::Autodiff) {
      using D = shim::Dual<double>;
      for (Eigen::Index i = 0; i < nx; ++i) {
        Eigen::Matrix<D, -1, 1> a = Eigen::Matrix<D, -1, 1>::Constant(nx, D(0.));
        a(i)                      = D(0., 1.);
        const auto y              = std::apply(f, detail::plus<D>(x, a));
        using RD                  = PlainObject<std::remove_cvref_t<decltype(y)>>;
        const auto e              = traits::man<RD>::rminus(RD(y), traits::man<R0>::template cast<D>(val0));
        for (Eigen::Index j = 0; j < ny; ++j) J(j, i) = e(j).d;
      }
    } else {
      const double h = K == 1 ? 2e-6 : 2e-6;
      for (Eigen::Index i = 0; i < nx; ++i) {
        Eigen::VectorXd a = Eigen::VectorXd::Zero(nx);
        a(i)              = h;
        const R0 yp       = std::apply(f, detail::plus<double>(x, a));
        a(i)              = -h;
        const R0 ym       = std::apply(f, detail::plus<double>(x, a));
        J.col(i) = (traits::man<R0>::rminus(yp, val0) - traits::man<R0>::rminus(ym, val0)) / (2 * h);
      }
    }
    if constexpr (K == 1) {
      return std::make_tuple(val0, J);
    } else {
      // H(i, j*Nx + k) = d_k (J(j, i)) with right derivatives in both
      HT H(nx, nx * ny);
      if constexpr (T == Type::Autodiff) {
        using D  = shim::Dual<double>;
        using DD = shim::Dual<D>;
        for (Eigen::Index k = 0; k < nx; ++k)
          for (Eigen::Index i = 0; i < nx; ++i) {
            // (x (+) k-direction) (+) i-direction : outer perturbation first
            Eigen::Matrix<D, -1, 1> ak = Eigen::Matrix<D, -1, 1>::Constant(nx, D(0.));
            ak(k)                      = D(0., 1.);
            const auto xk              = detail::plus<D>(x, ak);
            Eigen::Matrix<DD, -1, 1> ai = Eigen::Matrix<DD, -1, 1>::Constant(nx, DD(0.));
            ai(i)                       = DD(D(0.), D(1.));
            const auto yk               = std::apply(f, xk);
            using RD                    = PlainObject<std::remove_cvref_t<decltype(yk)>>;
            const auto y                = std::apply(f, detail::plus<DD>(xk, ai));
            using RDD                   = PlainObject<std::remove_cvref_t<decltype(y)>>;
            const auto e                = traits::man<RDD>::rminus(RDD(y), traits::man<RD>::template cast<DD>(RD(yk)));
            for (Eigen::Index j = 0; j < ny; ++j) H(i, j * nx + k) = e(j).d.d;
          }
      } else {
        const double h = 3e-4;
        for (Eigen::Index k = 0; k < nx; ++k) {
          Eigen::VectorXd a = Eigen::VectorXd::Zero(nx);
          auto jac          = [&](double s) {
            a.setZero();
            a(k)          = s;
            const auto xk = detail::plus<double>(x, a);
            const R0 yk   = std::apply(f, xk);
            Eigen::MatrixXd Jk(ny, nx);
            const double hh = 3e-4;
            for (Eigen::Index i = 0; i < nx; ++i) {
              Eigen::VectorXd b = Eigen::VectorXd::Zero(nx);
              b(i)              = hh;
              const R0 yp       = std::apply(f, detail::plus<double>(xk, b));
              b(i)              = -hh;
              const R0 ym       = std::apply(f, detail::plus<double>(xk, b));
              Jk.col(i)         = (traits::man<R0>::rminus(yp, yk) - traits::man<R0>::rminus(ym, yk)) / (2 * hh);
            }
            return Jk;
          };
          const Eigen::MatrixXd dJ = (jac(h) - jac(-h)) / (2 * h);
          for (Eigen::Index j = 0; j < ny; ++j)
            for (Eigen::Index i = 0; i < nx; ++i) H(i, j * nx + k) = dJ(j, i);
        }
      }
      return std::make_tuple(val0, J, H);
    }
  }
}
template<typename F, typename... A>
auto dr(F && f, const std::tuple<A...> & x)
{
  return dr<1, Type::Default>(std::forward<F>(f), x);
}
}  // namespace diff

// ---------------------------------------------------------------- utilities
namespace utils {

template<std::size_t N, typename F>
constexpr void static_for(F && f)
{
  [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<N>{});
}

template<typename R, typename T, typename WO>
constexpr auto binary_interval_search(R && r, const T & t, WO && wo)
{
  auto b = std::ranges::begin(r), e = std::ranges::end(r);
  if (b == e) return e;
  if (wo(*b, t) > 0) return e;
  auto lo = b, hi = e;  // *lo <= t, hi is end or *hi > t
  while (std::distance(lo, hi) > 1) {
    auto mid = lo + std::distance(lo, hi) / 2;
    if (wo(*mid, t) > 0)
      hi = mid;
    else
      lo = mid;
  }
  return lo;
}

template<std::ranges::view... V>
class zip_view : public std::ranges::view_interface<zip_view<V...>>
{
  std::tuple<V...> v_;

public:
  struct sentinel;
  struct iterator
  {
    using value_type        = std::tuple<std::ranges::range_value_t<V>...>;
    using reference         = std::tuple<std::ranges::range_reference_t<V>...>;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::input_iterator_tag;
    std::tuple<std::ranges::iterator_t<V>...> it;
    reference operator*() const
    {
      return std::apply([](auto &... i) { return reference{*i...}; }, const_cast<std::tuple<std::ranges::iterator_t<V>...> &>(it));
    }
    iterator & operator++()
    {
      std::apply([](auto &... i) { (++i, ...); }, it);
      return *this;
    }
    void operator++(int) { ++*this; }
  };
  struct sentinel
  {
    std::tuple<std::ranges::sentinel_t<V>...> s;
    friend bool operator==(const iterator & a, const sentinel & b)
    {
      return [&]<std::size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(a.it) == std::get<I>(b.s)) || ...); }(std::index_sequence_for<V...>{});
    }
  };
  explicit zip_view(V... v) : v_(std::move(v)...) {}
  iterator begin()
  {
    return std::apply([](auto &... v) { return iterator{{std::ranges::begin(v)...}}; }, v_);
  }
  sentinel end()
  {
    return std::apply([](auto &... v) { return sentinel{{std::ranges::end(v)...}}; }, v_);
  }
};

template<std::ranges::viewable_range... R>
auto zip(R &&... r)
{
  return zip_view<std::views::all_t<R>...>(std::views::all(std::forward<R>(r))...);
}

}  // namespace utils

// ---------------------------------------------------------------- polynomials (compile time)
template<std::size_t R, std::size_t C>
struct StaticMatrix : std::array<std::array<double, C>, R>
{
  template<std::size_t R2, std::size_t C2>
  constexpr StaticMatrix<R2, C2> block(std::size_t i0, std::size_t j0) const
  {
    StaticMatrix<R2, C2> r{};
    for (std::size_t i = 0; i < R2; ++i)
      for (std::size_t j = 0; j < C2; ++j) r[i][j] = (*this)[i0 + i][j0 + j];
    return r;
  }
  template<std::size_t C2>
  constexpr StaticMatrix<R, C2> operator*(const StaticMatrix<C, C2> & o) const
  {
    StaticMatrix<R, C2> r{};
    for (std::size_t i = 0; i < R; ++i)
      for (std::size_t j = 0; j < C2; ++j)
        for (std::size_t k = 0; k < C; ++k) r[i][j] += (*this)[i][k] * o[k][j];
    return r;
  }
};

namespace shim {
// Legendre P_n and P_n'
constexpr std::pair<long double, long double> legendre(std::size_t n, long double x)
{
  long double p0 = 1, p1 = x, d0 = 0, d1 = 1;
  if (n == 0) return {p0, d0};
  for (std::size_t k = 1; k < n; ++k) {
    const long double kk = static_cast<long double>(k);
    const long double p2 = ((2 * kk + 1) * x * p1 - kk * p0) / (kk + 1);
    const long double d2 = ((2 * kk + 1) * (p1 + x * d1) - kk * d0) / (kk + 1);
    p0 = p1, p1 = p2, d0 = d1, d1 = d2;
  }
  return {p1, d1};
}
constexpr long double cos_approx(long double x)
{
  long double t = 1, s = 1;
  for (int n = 1; n < 30; ++n) {
    t *= -x * x / ((2 * n - 1) * (2 * n));
    s += t;
  }
  return s;
}
}  // namespace shim

/// Legendre-Gauss-Radau nodes (roots of P_{K-1} + P_K, first node -1) and weights
template<std::size_t K, std::size_t I = 8>
constexpr std::pair<std::array<double, K>, std::array<double, K>> lgr_nodes()
{
  std::array<double, K> xs{}, ws{};
  std::array<long double, K> x{};
  for (std::size_t i = 0; i < K; ++i) {
    long double z = -shim::cos_approx(2 * 3.14159265358979323846264338L * static_cast<long double>(i) / static_cast<long double>(2 * K - 1));
    if (i == 0)
      z = -1;
    else
      for (int k = 0; k < 40; ++k) {
        const auto a = shim::legendre(K, z), b = shim::legendre(K - 1, z);
        // deflate the root at -1 and those already found
        long double f = a.first + b.first, df = a.second + b.second, s = 0;
        for (std::size_t j = 0; j < i; ++j) s += 1 / (z - x[j]);
        const long double step = f / (df - f * s);
        z -= step;
        if (step < 1e-20L && step > -1e-20L) break;
      }
    x[i]                = z;
    xs[i]               = static_cast<double>(z);
    const long double p = shim::legendre(K - 1, z).first, kk = static_cast<long double>(K * K);
    ws[i]               = static_cast<double>(i == 0 ? 2 / kk : (1 - z) / (kk * p * p));
  }
  return {xs, ws};
}

/// B[i][j]: coefficient of t^i in the j-th Lagrange polynomial of the nodes
template<std::size_t K>
constexpr StaticMatrix<K + 1, K + 1> lagrange_basis(const std::array<double, K + 1> & ts)
{
  StaticMatrix<K + 1, K + 1> B{};
  for (std::size_t j = 0; j <= K; ++j) {
    std::array<long double, K + 1> c{};
    c[0]            = 1;
    std::size_t deg = 0;
    for (std::size_t m = 0; m <= K; ++m) {
      if (m == j) continue;
      const long double den = static_cast<long double>(ts[j]) - ts[m];
      ++deg;
      for (std::size_t k = deg + 1; k-- > 0;) c[k] = ((k > 0 ? c[k - 1] : 0.L) - static_cast<long double>(ts[m]) * (k < deg ? c[k] : 0.L)) / den;
    }
    for (std::size_t k = 0; k <= K; ++k) B[k][j] = static_cast<double>(c[k]);
  }
  return B;
}
/// p-th derivative of [1 u u^2 ... u^K]
template<std::size_t K>
constexpr StaticMatrix<1, K + 1> monomial_derivative(double u, std::size_t p = 0)
{
  StaticMatrix<1, K + 1> r{};
  for (std::size_t k = p; k <= K; ++k) {
    double c = 1;
    for (std::size_t i = 0; i < p; ++i) c *= static_cast<double>(k - i);
    for (std::size_t i = 0; i < k - p; ++i) c *= u;
    r[0][k] = c;
  }
  return r;
}
/// D[i][j] = p_i'(t_j)
template<std::size_t K, std::size_t N>
constexpr StaticMatrix<K + 1, N> polynomial_basis_derivatives(const StaticMatrix<K + 1, K + 1> & B, const std::array<double, N> & ts)
{
  StaticMatrix<K + 1, N> D{};
  for (std::size_t j = 0; j < N; ++j) {
    for (std::size_t i = 0; i <= K; ++i) {
      long double s = 0, pw = 1;
      for (std::size_t k = 1; k <= K; ++k) {
        s += static_cast<long double>(B[k][i]) * static_cast<long double>(k) * pw;
        pw *= static_cast<long double>(ts[j]);
      }
      D[i][j] = static_cast<double>(s);
    }
  }
  return D;
}

// ---------------------------------------------------------------- cubic splines
/// piecewise: on each segment g_i * exp(a tau + b tau^2 + ...) is replaced by constant-velocity plus polynomial in the tangent space
template<int K, LieGroup G>
class Spline
{
  std::vector<double> t_;
  std::vector<G> g_;
  std::vector<std::vector<Tangent<G>>> c_;  // per segment: coefficients of tau^1..tau^K in the tangent space at g_i

public:
  Spline() = default;
  Spline(std::vector<double> t, std::vector<G> g, std::vector<std::vector<Tangent<G>>> c) : t_(std::move(t)), g_(std::move(g)), c_(std::move(c)) {}
  static Spline ConstantVelocity(const Tangent<G> & v, double T = 1, const G & g0 = traits::man<G>::Identity())
  {
    return Spline({0., T}, {g0, traits::man<G>::rplus(g0, T * v)}, {{v}});
  }
  double t_min() const { return 0; }
  double t_max() const { return t_.empty() ? 0 : t_.back(); }
  G operator()(double t, std::optional<std::reference_wrapper<Tangent<G>>> vel = {}, std::optional<std::reference_wrapper<Tangent<G>>> acc = {}) const
  {
    if (t_.empty() || t < t_.front() || t > t_.back()) {
      if (vel) vel->get().setZero();
      if (acc) acc->get().setZero();
      return t_.empty() ? traits::man<G>::Identity() : t < t_.front() ? g_.front() : g_.back();
    }
    std::size_t i = 0;
    while (i + 2 < t_.size() && t >= t_[i + 1]) ++i;
    const double u = t - t_[i];
    Tangent<G> p = Tangent<G>::Zero(), dp = p, ddp = p;
    double pw = 1;
    for (std::size_t k = 0; k < c_[i].size(); ++k) {
      const double n = static_cast<double>(k + 1);
      p += c_[i][k] * pw * u;
      dp += c_[i][k] * n * pw;
      if (k >= 1) ddp += c_[i][k] * n * (n - 1) * (u == 0 ? (k == 1 ? 1. : 0.) : pw / u);
      pw *= u;
    }
    const TangentMap<G> J = dr_exp<G>(p);
    if (vel) vel->get() = J * dp;
    if (acc) {
      Tangent<G> a = J * ddp;
      const auto dJ = shim::partials_dr_exp<G>(p);
      for (std::size_t k = 0; k < dJ.size(); ++k) a += dJ[k] * dp * dp(static_cast<Eigen::Index>(k));
      acc->get() = a;
    }
    return traits::man<G>::rplus(g_[i], p);
  }
};
template<LieGroup G>
using CubicSpline = Spline<3, G>;

/// interpolating: Catmull-Rom style in the tangent spaces
template<std::ranges::range TR, std::ranges::range GR>
auto fit_spline_cubic(const TR & tt, const GR & gg)
{
  using G = std::ranges::range_value_t<GR>;
  std::vector<double> t;
  for (auto x : tt) t.push_back(static_cast<double>(x));
  std::vector<G> g(std::ranges::begin(gg), std::ranges::end(gg));
  std::vector<std::vector<Tangent<G>>> c;
  for (std::size_t i = 0; i + 1 < g.size(); ++i) c.push_back({traits::man<G>::rminus(g[i + 1], g[i]) / (t[i + 1] - t[i])});
  return Spline<3, G>(t, g, c);
}

}  // namespace smooth
