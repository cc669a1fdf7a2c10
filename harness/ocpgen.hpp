// Random optimal control problems on vector spaces, generic in the scalar type.
#pragma once
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/ocp.hpp>
#include "lgr.hpp"
#include "meshgen.hpp"
#include "rfun.hpp"

namespace og {
using namespace mg;
using smooth::shim::Dual;

template<int NX, int NU, int NQ, int NCR, int NCE, template<int, int> typename FN, typename Theta>
using Ocp = sf::OCP<Eigen::Vector<double, NX>, Eigen::Vector<double, NU>, Theta, FN<NX, 1 + NX + NU>, FN<NQ, 1 + NX + NU>, FN<NCR, 1 + NX + NU>, FN<NCE, 1 + 2 * NX + NQ>>;

template<typename O>
O random_ocp(Rng & r)
{
  O o{};
  const double sc = r.pick({1., 1., 10.});
  o.theta.f.randomize(r, sc);
  o.f.f.randomize(r, sc);
  o.g.f.randomize(r, sc);
  o.cr.f.randomize(r, sc);
  o.ce.f.randomize(r, sc);
  auto bounds = [&](auto & l, auto & u) {
    for (long i = 0; i < l.size(); ++i) {
      l(i) = r.uni(-2, 2);
      u(i) = r.coin(0.3) ? l(i) : l(i) + r.uni(0, 3);
      if (r.coin(0.2)) l(i) = -std::numeric_limits<double>::infinity();
      if (r.coin(0.2)) u(i) = std::numeric_limits<double>::infinity();
    }
  };
  bounds(o.crl, o.cru);
  bounds(o.cel, o.ceu);
  return o;
}

/// Reference program on an independent grid.  Variables [tf, q, x_0..x_N, u_0..u_{N-1}].
template<typename O>
struct Ref
{
  static constexpr int NX = O::Nx, NU = O::Nu, NQ = O::Nq, NCR = O::Ncr, NCE = O::Nce;
  const O & o;
  const lgr::Grid & g;
  long N, n, m, qB{1}, xB, uB, dB{0}, iB, crB, ceB;
  double ws;  // documented consistent scaling: one over the largest quadrature weight
  Ref(const O & oo, const lgr::Grid & gg) : o(oo), g(gg), N(long(gg.N()))
  {
    xB = 1 + NQ, uB = xB + NX * (N + 1), n = uB + NU * N;
    iB = NX * N, crB = iB + NQ, ceB = crB + NCR * N, m = ceB + NCE;
    lgr::ld mw = 0;
    for (auto w : g.w) mw = std::max(mw, w);
    ws = static_cast<double>(1 / mw);
  }
  template<typename T>
  T f(const Eigen::VectorX<T> & z) const
  {
    return o.theta.f.template value<T>(ends<T>(z))(0);
  }
  template<typename T>
  Eigen::Vector<T, 1 + 2 * NX + NQ> ends(const Eigen::VectorX<T> & z) const
  {
    const Eigen::VectorX<T> x0 = z.segment(xB, NX), xf = z.segment(xB + NX * N, NX), q = z.segment(qB, NQ);
    return rf::cat<T, 1 + 2 * NX + NQ>(T(z(0)), x0, xf, q);
  }
  template<typename T>
  Eigen::VectorX<T> cons(const Eigen::VectorX<T> & z) const
  {
    Eigen::VectorX<T> out = Eigen::VectorX<T>::Constant(m, T(0.));
    const T tf            = z(0);
    for (int j = 0; j < NQ; ++j) out(iB + j) = T(-ws) * z(qB + j);
    for (long i = 0; i < N; ++i) {
      const std::size_t s        = std::size_t(i);
      const Eigen::VectorX<T> x  = z.segment(xB + NX * i, NX), u = z.segment(uB + NU * i, NU);
      const T t                  = tf * T(double(g.tau[s]));
      const auto a               = rf::cat<T, 1 + NX + NU>(t, x, u);
      const T w(double(g.w[s]) * ws);
      const auto fv = o.f.f.template value<T>(a);
      const auto gv = o.g.f.template value<T>(a);
      const auto cv = o.cr.f.template value<T>(a);
      const std::size_t iv = g.ival(s), f0 = g.first[iv];
      for (int j = 0; j < NX; ++j) {
        T d(0.);
        for (std::size_t k = 0; k <= g.K[iv]; ++k) d += T(double(lgr::rule(g.K[iv]).D[k][s - f0] * 2 / g.len[iv])) * z(xB + NX * long(f0 + k) + j);
        out(NX * i + j) = w * (tf * fv(j) - d);
      }
      for (int j = 0; j < NQ; ++j) out(iB + j) += w * tf * gv(j);
      for (int j = 0; j < NCR; ++j) out(crB + NCR * i + j) = w * cv(j);
    }
    const auto ev = o.ce.f.template value<T>(ends<T>(z));
    for (int j = 0; j < NCE; ++j) out(ceB + j) = ev(j);
    return out;
  }
  Eigen::VectorXd point(Rng & r) const
  {
    Eigen::VectorXd z(n);
    for (auto & v : z) v = r.uni(-2, 2);
    z(0) = r.pick({r.uni(0, 5), r.uni(0, 1), 1., 0.});
    return z;
  }
};
}  // namespace og
