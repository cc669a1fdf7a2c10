// boost::numeric::odeint steppers on Lie groups: x_{k+1} = x_k (+) (linear combination of derivatives)
#pragma once
#include <boost/numeric/odeint.hpp>
#include <smooth/shim_core.hpp>

namespace smooth::shim {
struct lie_operations
{
  template<class... F>
  struct scale_sum_base
  {
    std::tuple<F...> a;
    scale_sum_base(F... f) : a(f...) {}
    typedef void result_type;
    template<class O, class G, class... V>
    void operator()(O & out, const G & in, const V &... v) const
    {
      // the first factor multiplies the state itself and is always one
      std::tuple<const V &...> vs(v...);
      auto sum = [&]<std::size_t... I>(std::index_sequence<I...>) {
        return ((std::get<I + 1>(a) * std::get<I>(vs)) + ...).eval();
      }(std::make_index_sequence<sizeof...(V)>{});
      out = ::smooth::rplus(in, sum);
    }
  };
  template<class A = double, class B = A>
  struct scale_sum2 : scale_sum_base<A, B>
  {
    using scale_sum_base<A, B>::scale_sum_base;
  };
  template<class A = double, class B = A, class C = A>
  struct scale_sum3 : scale_sum_base<A, B, C>
  {
    using scale_sum_base<A, B, C>::scale_sum_base;
  };
  template<class A = double, class B = A, class C = A, class D = A>
  struct scale_sum4 : scale_sum_base<A, B, C, D>
  {
    using scale_sum_base<A, B, C, D>::scale_sum_base;
  };
  template<class A = double, class B = A, class C = A, class D = A, class E = A>
  struct scale_sum5 : scale_sum_base<A, B, C, D, E>
  {
    using scale_sum_base<A, B, C, D, E>::scale_sum_base;
  };
  template<class A = double, class B = A, class C = A, class D = A, class E = A, class F = A>
  struct scale_sum6 : scale_sum_base<A, B, C, D, E, F>
  {
    using scale_sum_base<A, B, C, D, E, F>::scale_sum_base;
  };
  template<class A = double, class B = A, class C = A, class D = A, class E = A, class F = A, class G = A>
  struct scale_sum7 : scale_sum_base<A, B, C, D, E, F, G>
  {
    using scale_sum_base<A, B, C, D, E, F, G>::scale_sum_base;
  };
};
}  // namespace smooth::shim

namespace boost::numeric::odeint {
template<class G>
struct operations_dispatcher_sfinae<G, typename boost::enable_if_c<std::is_base_of_v<::smooth::shim::LieGroupBase<G>, G>>::type>
{
  typedef ::smooth::shim::lie_operations operations_type;
};
template<class G>
struct is_resizeable_sfinae<G, typename boost::enable_if_c<std::is_base_of_v<::smooth::shim::LieGroupBase<G>, G>>::type> : boost::false_type
{};
}  // namespace boost::numeric::odeint
