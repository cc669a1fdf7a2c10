// O05: flattened optimal control problems against the original and against dual-number derivatives.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/ocp_flatten.hpp>
#include "dualder.hpp"
namespace sf = smooth::feedback;
using vh::Rng;
/// random function of (t, x, u) with "analytic" derivatives
template<int R, typename X, typename U, bool REF>
struct Inner
{
  lrf::Fun<R, 1 + lrf::NF<X> + lrf::NF<U>> f;
  bool all{true};
  Sp J, H;
  template<typename T>
  Eigen::Vector<T, R> operator()(const T & t, const smooth::CastT<T, X> & x, const smooth::CastT<T, U> & u) const
  {
    return f.template operator()<T>(t, x, u);
  }
  auto raw() const
  {
    return [this](const auto & t, const auto & x, const auto & u) {
      using T = typename Num<std::decay_t<decltype(t)>>::type;
      return f.template operator()<T>(t(0), x, u);
    };
  }
  Sp jac(double t, const X & x, const U & u) const
  {
    Eigen::MatrixXd m;
    derivatives<R>(raw(), std::make_tuple(Eigen::Vector<double, 1>(t), x, u), &m, nullptr);
    return sparse(m, all);
  }
  Sp hes(double t, const X & x, const U & u) const
  {
    Eigen::MatrixXd m;
    derivatives<R>(raw(), std::make_tuple(Eigen::Vector<double, 1>(t), x, u), nullptr, &m);
    return sparse(m, all);
  }
  const Sp & jacobian(double t, const X & x, const U & u) requires REF { return J = jac(t, x, u); }
  const Sp & hessian(double t, const X & x, const U & u) requires REF { return H = hes(t, x, u); }
  Sp jacobian(double t, const X & x, const U & u) const requires(!REF) { return jac(t, x, u); }
  Sp hessian(double t, const X & x, const U & u) const requires(!REF) { return hes(t, x, u); }
};
template<int R, typename X, int NQ, bool SCALAR>
struct End
{
  using Q = Eigen::Vector<double, NQ>;
  lrf::Fun<R, 1 + 2 * lrf::NF<X> + NQ> f;
  bool all{true};
  Sp J, H;
  template<typename T>
  auto operator()(const T & t, const smooth::CastT<T, X> & x0, const smooth::CastT<T, X> & xf, const smooth::CastT<T, Q> & q) const
  {
    const Eigen::Vector<T, R> y = f.template operator()<T>(t, x0, xf, q);
    if constexpr (SCALAR) return T(y(0));
    else return y;
  }
  auto raw() const
  {
    return [this](const auto & t, const auto & x0, const auto & xf, const auto & q) {
      using T = typename Num<std::decay_t<decltype(t)>>::type;
      return f.template operator()<T>(t(0), x0, xf, q);
    };
  }
  const Sp & jacobian(double t, const X & x0, const X & xf, const Q & q)
  {
    Eigen::MatrixXd m;
    derivatives<R>(raw(), std::make_tuple(Eigen::Vector<double, 1>(t), x0, xf, q), &m, nullptr);
    return J = sparse(m, all);
  }
  Sp hessian(double t, const X & x0, const X & xf, const Q & q) const
  {
    Eigen::MatrixXd m;
    derivatives<R>(raw(), std::make_tuple(Eigen::Vector<double, 1>(t), x0, xf, q), nullptr, &m);
    return sparse(m, all);
  }
};

static void near(const char * key, const Eigen::MatrixXd & got, const Eigen::MatrixXd & want, double tol, const std::string & w)
{
  if (!vh::check((std::string(key) + "_size").c_str(), got.rows() == want.rows() && got.cols() == want.cols(), w)) return;
  vh::check_le(key, (got - want).cwiseAbs().maxCoeff(), tol * (1 + want.cwiseAbs().maxCoeff()), w);
}

template<typename X, typename U>
static void one(Rng & r, const char * name)
{
  constexpr int NX = int(smooth::Dof<X>), NU = int(smooth::Dof<U>), NQ = 2, NCR = 2, NCE = 3;
  using E  = Eigen::Vector<double, NX>;
  using V  = Eigen::Vector<double, NU>;
  using Q  = Eigen::Vector<double, NQ>;
  using O  = sf::OCP<X, U, End<1, X, NQ, true>, Inner<NX, X, U, true>, Inner<NQ, X, U, false>, Inner<NCR, X, U, true>, End<NCE, X, NQ, false>>;
  O o{};
  const double sc = r.pick({1., 1., 5.});
  o.theta.f.f.randomize(r, sc), o.f.f.f.randomize(r, sc), o.g.f.f.randomize(r, sc), o.cr.f.f.randomize(r, sc), o.ce.f.f.randomize(r, sc);
  o.theta.all = r.coin(), o.f.all = r.coin(), o.g.all = r.coin(), o.cr.all = r.coin(), o.ce.all = r.coin();
  for (auto & v : o.crl) v = r.uni(-1, 0);
  for (auto & v : o.cru) v = r.uni(0, 1);
  for (auto & v : o.cel) v = r.uni(-1, 0);
  for (auto & v : o.ceu) v = r.uni(0, 1);
  lrf::Traj<X> xl;
  lrf::Traj<U> ul;
  xl.randomize(r), ul.randomize(r);
  const bool cv = xl.c == 0 && ul.c == 0;
  const auto fl0 = sf::flatten_ocp(o, xl, ul);
  auto fl        = fl0;  // (copies share nothing but the nominal trajectories)
  near("bounds", (Eigen::VectorXd(2 * (NCR + NCE)) << fl.crl, fl.cru, fl.cel, fl.ceu).finished(), (Eigen::VectorXd(2 * (NCR + NCE)) << o.crl, o.cru, o.cel, o.ceu).finished(), 0, name);
  const int points = r.ri(1, 3);
  for (int p = 0; p < points; ++p) {
    const double t = r.pick({0., r.uni(-1, 3), r.uni(0, 1)});
    const double m = r.pick({0., 1e-4, 0.3, 1., 1.});
    auto rv        = [&](auto v, double len) {
      for (auto & e : v) e = r.uni(-1, 1);
      if (v.norm() > 0) v *= len * r.uni(0.3, 1) / v.norm();
      return v;
    };
    auto mm = [&] { return r.coin(0.2) ? r.pick({0., 1e-8, 1e-4, 1.}) : m; };
    const E e = rv(E(), 2 * mm()), e0 = rv(E(), 2 * mm()), ef = rv(E(), 2 * mm());
    const V v = rv(V(), 2 * mm());
    Q q;
    for (auto & a : q) a = r.uni(-2, 2);
    const X x = smooth::rplus(xl(t), e), x0 = smooth::rplus(xl(0.), e0), xf = smooth::rplus(xl(t), ef);
    const U u = smooth::rplus(ul(t), v);
    const std::string w = vh::fmt("%s point %d t=%.9g |e|=%.3g |v|=%.3g nominal %s", name, p, t, e.norm(), v.norm(), cv ? "constant velocity" : "varying");
    // values
    const E b = xl.vel(t);
    auto xrel = smooth::cast<D>(xl(t));
    (void)xrel;
    near("objective", Eigen::VectorXd::Constant(1, fl.theta.template operator()<double>(t, e0, ef, q)), Eigen::VectorXd::Constant(1, o.theta(t, x0, xf, q)), 1e-11, w);
    near("end_constraints", fl.ce.template operator()<double>(t, e0, ef, q), o.ce(t, x0, xf, q), 1e-11, w);
    near("integrand", fl.g.template operator()<double>(t, e, v), o.g(t, x, u), 1e-11, w);
    near("running_constraints", fl.cr.template operator()<double>(t, e, v), o.cr(t, x, u), 1e-11, w);
    // the flattened velocity moves x like the dynamics of the original
    const E ed = fl.f.template operator()<double>(t, e, v);
    {
      Eigen::Vector<D, NX> es;
      for (int i = 0; i < NX; ++i) es(i) = D(e(i), ed(i));
      const auto d = smooth::rminus(smooth::rplus(xl(D(t, 1.)), es), smooth::cast<D>(x));
      E vel;
      for (int i = 0; i < NX; ++i) vel(i) = d(i).d;
      near("dynamics", vel, o.f(t, x, u), 1e-10, w);
    }
    vh::count("points");
    // derivatives
    const double tj = 1e-10, th = 1e-8;
    // (second derivatives of the nominal trajectory are documented to be left out)
    auto skip_tt = [&](Eigen::MatrixXd & h, const Eigen::MatrixXd & g, int n) {
      if (!cv)
        for (long j = 0; j < h.cols(); j += n) h(0, j) = g(0, j);
    };
    auto inner = [&](const char * jk, const char * hk, auto & ff, const auto & of, auto rr) {
      constexpr int R = decltype(rr)::value;
      Eigen::MatrixXd J, H;
      auto ref = [&](const auto & tt, const auto & ee, const auto & vv) {
        using T = typename Num<std::decay_t<decltype(tt)>>::type;
        return of.template operator()<T>(tt(0), smooth::rplus(xl(tt(0)), ee), smooth::rplus(ul(tt(0)), vv));
      };
      derivatives<R>(ref, std::make_tuple(Eigen::Vector<double, 1>(t), e, v), &J, &H);
      for (int order : {r.ri(1, 2), 1, 2}) {
        if (order == 1) near(jk, Eigen::MatrixXd(ff.jacobian(t, e, v).get()), J, tj, w);
        else {
          const Eigen::MatrixXd G(ff.hessian(t, e, v).get());
          if (G.rows() == H.rows() && G.cols() == H.cols()) skip_tt(H, G, 1 + NX + NU);
          near(hk, G, H, th, w);
        }
      }
      vh::count("inner_derivatives");
    };
    inner("integrand_jacobian", "integrand_hessian", fl.g, o.g, std::integral_constant<int, NQ>{});
    inner("running_jacobian", "running_hessian", fl.cr, o.cr, std::integral_constant<int, NCR>{});
    auto endpt = [&](const char * jk, const char * hk, auto & ff, const auto & of, auto rr) {
      constexpr int R = decltype(rr)::value;
      Eigen::MatrixXd J, H;
      auto ref = [&](const auto & tt, const auto & a, const auto & c, const auto & qq) {
        using T = typename Num<std::decay_t<decltype(tt)>>::type;
        return Eigen::Vector<T, R>(of.f.template operator()<T>(tt(0), smooth::rplus(xl(T(0.)), a), smooth::rplus(xl(tt(0)), c), qq));
      };
      derivatives<R>(ref, std::make_tuple(Eigen::Vector<double, 1>(t), e0, ef, q), &J, &H);
      for (int order : {r.ri(1, 2), 1, 2}) {
        if (order == 1) near(jk, Eigen::MatrixXd(ff.jacobian(t, e0, ef, q).get()), J, tj, w);
        else {
          const Eigen::MatrixXd G(ff.hessian(t, e0, ef, q).get());
          if (G.rows() == H.rows() && G.cols() == H.cols()) skip_tt(H, G, 1 + 2 * NX + NQ);
          near(hk, G, H, th, w);
        }
      }
      vh::count("end_derivatives");
    };
    endpt("objective_jacobian", "objective_hessian", fl.theta, o.theta, std::integral_constant<int, 1>{});
    endpt("end_jacobian", "end_hessian", fl.ce, o.ce, std::integral_constant<int, NCE>{});
    {
      Eigen::MatrixXd J, H;
      auto ref = [&](const auto & tt, const auto & ee, const auto & vv) {
        using T  = typename Num<std::decay_t<decltype(tt)>>::type;
        using XT = smooth::CastT<T, X>;
        using ET = Eigen::Vector<T, NX>;
        const ET fv = o.f.template operator()<T>(tt(0), smooth::rplus(xl(tt(0)), ee), smooth::rplus(ul(tt(0)), vv));
        ET bt;
        for (int i = 0; i < NX; ++i) bt(i) = T(b(i));
        return ET(smooth::dr_expinv<XT>(ee) * fv - smooth::dr_expinv<XT>(ET(-ee)) * bt);
      };
      derivatives<NX>(ref, std::make_tuple(Eigen::Vector<double, 1>(t), e, v), &J, &H);
      for (int order : {r.ri(1, 2), 1, 2}) {
        if (order == 1) near("dynamics_jacobian", Eigen::MatrixXd(fl.f.jacobian(t, e, v).get()), J, tj, w);
        else {
          const Eigen::MatrixXd G(fl.f.hessian(t, e, v).get());
          if (G.rows() == H.rows() && G.cols() == H.cols()) skip_tt(H, G, 1 + NX + NU);
          near("dynamics_hessian", G, H, th, w);
        }
      }
      vh::count("dynamics_derivatives");
    }
    vh::nontrivial(w + vh::fmt("%.17g", b.norm()));
  }
  // solutions of the flattened problem
  sf::OCPSolution<E, V, NQ, NCR, NCE> s{};
  const E a1 = E::Random() * 0.5, a2 = E::Random() * 0.3;
  const V b1 = V::Random() * 0.5;
  s.t0 = 0, s.tf = r.uni(0.5, 3);
  for (auto & q : s.Q) q = r.uni(-1, 1);
  for (auto & q : s.lambda_q) q = r.uni(-1, 1);
  for (auto & q : s.lambda_ce) q = r.uni(-1, 1);
  s.x = [=](double t) -> E { return a1 * std::cos(t) + a2 * t; };
  s.u = [=](double t) -> V { return b1 * std::sin(t); };
  s.lambda_dyn = [=](double t) -> Eigen::Vector<double, NX> { return a1 * t; };
  s.lambda_cr  = [=](double t) -> Eigen::Vector<double, NCR> { return Eigen::Vector<double, NCR>::Constant(t + 1); };
  const auto c = sf::unflatten_ocpsol<X, U>(s, xl, ul);
  near("solution_constants", (Eigen::VectorXd(2 + 2 * NQ + NCE) << c.t0, c.tf, c.Q, c.lambda_q, c.lambda_ce).finished(),
    (Eigen::VectorXd(2 + 2 * NQ + NCE) << s.t0, s.tf, s.Q, s.lambda_q, s.lambda_ce).finished(), 0, name);
  for (int k = 0; k < 3; ++k) {
    const double t = r.uni(0, s.tf);
    near("solution_state", smooth::rminus(c.x(t), xl(t)), s.x(t), 1e-11, name);
    near("solution_input", smooth::rminus(c.u(t), ul(t)), s.u(t), 1e-11, name);
    near("solution_multipliers", (Eigen::VectorXd(NX + NCR) << c.lambda_dyn(t), c.lambda_cr(t)).finished(), (Eigen::VectorXd(NX + NCR) << s.lambda_dyn(t), s.lambda_cr(t)).finished(), 0, name);
  }
  vh::count("solutions");
  vh::sample(vh::fmt("%s points %d %s", name, points, cv ? "constant velocity" : "varying"));
}

using V1 = Eigen::Vector<double, 1>;
void run_0(Rng &);
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
#if PART == 0
void run_0(Rng & r) { one<smooth::SE2d, Eigen::Vector2d>(r, "SE2/R2"); }
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3};
  vh::group("problems", 40, 20000, 1, [](Rng & r, long) { fs[r.ri(0, 3)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { one<smooth::SO3d, V1>(r, "SO3/R1"); }
#elif PART == 2
void run_2(Rng & r) { one<smooth::Bundle<smooth::SO2d, V1>, smooth::SO3d>(r, "SO2xR1/SO3"); }
#elif PART == 3
void run_3(Rng & r) { one<smooth::Bundle<smooth::SE2d, V1>, smooth::SO2d>(r, "SE2xR1/SO2"); }
#endif
