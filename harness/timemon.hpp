// Monitor for time traits (T01, R01): exact-arithmetic oracle, any clock type.
#pragma once
#include <smooth/feedback/time.hpp>
#include <chrono>
#include <ratio>
#include "vh.hpp"
using vh::Rng;
namespace sf = smooth::feedback;
namespace ch = std::chrono;

struct sim_clock
{
  using rep                       = int64_t;
  using period                    = std::ratio<1, 1000>;
  using duration                  = ch::duration<rep, period>;
  using time_point                = ch::time_point<sim_clock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(0)); }
};

template<typename T>
struct Info;
// rounding error allowed on a difference of the given size when T counts in floating point
template<typename R>
inline constexpr double rep_eps = std::is_floating_point_v<R> ? static_cast<double>(std::numeric_limits<R>::epsilon()) : 0.;
template<std::floating_point F>
struct Info<F>
{
  static constexpr double eps = rep_eps<F>;
  static F make(Rng & r) { return static_cast<F>(r.pick({0., 1., -1., 1000., 1e6}) * r.nrm() * r.pick({1., 1., 0.})); }
  static long double sec(F t) { return t; }
  static long double diff(F a, F b) { return static_cast<long double>(a) - static_cast<long double>(b); }
  static long double res(F t, double) { return std::numeric_limits<F>::epsilon() * (1 + std::fabs(static_cast<long double>(t))); }
};
template<typename R, typename P>
struct Info<ch::duration<R, P>>
{
  using T = ch::duration<R, P>;
  static constexpr double eps = rep_eps<R>;
  static T make(Rng & r)
  {
    const double lim = 1e8;  // seconds
    const double s   = r.pick({0., 1., 60., 1e4, lim}) * r.uni(-1, 1);
    return T(static_cast<R>(s * P::den / P::num));
  }
  static long double sec(T t) { return static_cast<long double>(t.count()) * P::num / P::den; }
  // a - b in seconds; counts are subtracted first, which is exact for integers
  static long double diff(T a, T b)
  {
    if constexpr (std::is_floating_point_v<R>)
      return (static_cast<long double>(a.count()) - static_cast<long double>(b.count())) * P::num / P::den;
    else
      return static_cast<long double>(static_cast<int64_t>(a.count()) - static_cast<int64_t>(b.count())) * P::num / P::den;
  }
  static long double res(T t, double)
  {
    const long double tick = static_cast<long double>(P::num) / P::den;
    if (std::is_floating_point_v<R>) return std::numeric_limits<R>::epsilon() * (tick + std::fabs(sec(t)));
    return tick;
  }
};
template<typename C, typename D>
struct Info<ch::time_point<C, D>>
{
  using T = ch::time_point<C, D>;
  static constexpr double eps = Info<D>::eps;
  static T make(Rng & r) { return T(Info<D>::make(r)); }
  static long double sec(T t) { return Info<D>::sec(t.time_since_epoch()); }
  static long double diff(T a, T b) { return Info<D>::diff(a.time_since_epoch(), b.time_since_epoch()); }
  static long double res(T t, double d) { return Info<D>::res(t.time_since_epoch(), d); }
};

template<typename T>
static void one(Rng & r, const char * name)
{
  static_assert(sf::Time<T>);
  using tt = sf::time_trait<T>;
  using I  = Info<T>;
  const T t = I::make(r);
  // offsets of many magnitudes, positive, negative, zero and near tick boundaries
  double d = r.pick({0., 1e-9, 1e-6, 1e-3, 0.01, 1., 1., 37., 4000., 1e6}) * r.uni(-1, 1);
  if (r.coin(0.2)) d = static_cast<double>(r.ri(-5, 5));
  if (r.coin(0.1)) d = static_cast<double>(r.ri(-50, 50)) * 0.1;
  vh::detail(vh::fmt("%s t=%.17Lg d=%.17g", name, I::sec(t), d));
  const T t2      = tt::plus(t, d);
  const double dm = tt::minus(t2, t);
  const long double res = std::max(I::res(t2, d), I::res(t, d)) * 1.001L + (2 * I::eps + 4e-16L) * (std::fabs(d) + 1e-300L);
  vh::count(std::string("type:") + name);
  vh::check("not-convertible", std::is_convertible_v<decltype(tt::plus(t, d)), T> && std::is_convertible_v<decltype(tt::minus(t, t)), double>, name);
  // plus moves time by d seconds, up to the resolution
  vh::check_le("plus-seconds", static_cast<double>(std::fabs(I::diff(t2, t) - d)), static_cast<double>(res), name);
  // minus inverts plus
  vh::check_le("minus-inverts-plus", static_cast<double>(std::fabs(static_cast<long double>(dm) - d)), static_cast<double>(res), name);
  // minus is the exact difference in seconds, to double precision of the operands
  const T s       = I::make(r);
  const double ds = tt::minus(t, s);
  const long double es = I::diff(t, s);
  // (t - s) is computed in T and rounds once if T counts in floating point
  const long double tolS = (I::eps + 1e-15L) * std::fabs(es);
  vh::check_le("minus-seconds", static_cast<double>(std::fabs(static_cast<long double>(ds) - es)), static_cast<double>(tolS), vh::fmt("%s t=%.17Lg s=%.17Lg got %.17g", name, I::sec(t), I::sec(s), ds));
  vh::check("antisymmetric", tt::minus(s, t) == -ds, name);
  vh::check("self-zero", tt::minus(t, t) == 0, name);
  if (es != 0) vh::check("sign", (ds > 0) == (es > 0) && ds != 0, name);
  // plus inverts minus
  const T back = tt::plus(s, ds);
  const long double resb = (std::max(I::res(t, 0), I::res(s, 0)) + I::res(back, 0)) * 1.001L + (2 * I::eps + 2e-16L) * (std::fabs(I::sec(t)) + std::fabs(I::sec(s)));
  vh::check_le("plus-inverts-minus", static_cast<double>(std::fabs(I::diff(back, t))), static_cast<double>(resb), name);
  // zero shift, shift invariance of differences, monotonicity
  vh::check("plus-zero", tt::plus(t, 0.) == t, name);
  const T tp = tt::plus(t, d), sp = tt::plus(s, d);
  vh::check_le("shift-invariant", static_cast<double>(std::fabs(static_cast<long double>(tt::minus(tp, sp)) - ds)),
               static_cast<double>(2 * (I::res(tp, d) + I::res(sp, d) + I::res(t, d) + I::res(s, d)) * 1.001L + (2 * I::eps + 4e-16L) * (std::fabs(es) + std::fabs(static_cast<long double>(d)))), name);
  const double d2 = d + std::fabs(r.nrm());
  vh::check("monotone", !(tt::plus(t, d2) < t2), name);
  if (d != 0) vh::nontrivial(vh::fmt("%s|%.6Lg|%.9g", name, I::sec(t), d));
  if (d != 0) vh::sample(vh::fmt("%s t=%.9Lg + %.9g -> %.9Lg, minus gives %.9g", name, I::sec(t), d, I::sec(t2), dm));
}

