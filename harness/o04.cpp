// O04: linear-quadratic approximation of optimal control problems as quadratic programs, and back.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/ocp_to_qp.hpp>
#include "lgr.hpp"
#include "lierf.hpp"
#include "meshgen.hpp"
using namespace mg;
namespace sf = smooth::feedback;
using lrf::Dual;
constexpr double inf = std::numeric_limits<double>::infinity();

/// objective h(tf, x0, xf) + c q
template<typename X>
struct Obj
{
  lrf::FunS<1 + 2 * lrf::NF<X>> h;
  double c{1};
  template<typename T, typename XT, typename Q>
  T operator()(const T & tf, const XT & x0, const XT & xf, const Q & q) const
  {
    return h(tf, x0, xf) + T(c) * q(0);
  }
};
template<typename X, int NCE>
struct End
{
  rf::Base<NCE, 1 + 2 * lrf::NF<X>> f;
  template<typename T, typename XT, typename Q>
  Eigen::Vector<T, NCE> operator()(const T & tf, const XT & x0, const XT & xf, const Q &) const
  {
    return f.template value<T>(rf::cat<T, 1 + 2 * lrf::NF<X>>(tf, lrf::feat(x0), lrf::feat(xf)));
  }
};

template<typename Mesh, typename X, typename U, int NCR, int NCE, template<int, int> typename F>
static void one(Rng & r, const char * name)
{
  constexpr int NX = int(smooth::Dof<X>), NU = int(smooth::Dof<U>), Z = 1 + lrf::NF<X> + lrf::NF<U>;
  using O          = sf::OCP<X, U, Obj<X>, F<NX, Z>, F<1, Z>, F<NCR, Z>, End<X, NCE>>;
  static_assert(O::Nq == 1 && O::Ncr == NCR && O::Nce == NCE);
  constexpr bool vector = std::is_same_v<X, Eigen::Vector<double, NX>>;

  struct Case
  {
    O o{};
    lrf::Traj<X> xl;
    lrf::Traj<U> ul;
    double tf{1};
  };
  auto draw = [&](Case & k) {
    k.o = O{};
    k.o.theta.h.f.randomize(r), k.o.theta.c = r.pick({1., r.uni(-2, 2), 0.});
    k.o.f.f.randomize(r), k.o.g.f.randomize(r), k.o.cr.f.randomize(r), k.o.ce.f.randomize(r);
    auto bounds = [&](auto & l, auto & u) {
      for (long i = 0; i < l.size(); ++i) {
        l(i) = r.uni(-2, 2), u(i) = r.coin(0.3) ? l(i) : l(i) + r.uni(0, 3);
        if (r.coin(0.2)) l(i) = -inf;
        if (r.coin(0.2)) u(i) = inf;
      }
    };
    bounds(k.o.crl, k.o.cru), bounds(k.o.cel, k.o.ceu);
    k.xl.randomize(r), k.ul.randomize(r);
    k.tf = r.pick({1., r.uni(0.05, 1), r.uni(1, 8)});
  };
  const Mesh mesh = random_mesh<Mesh>(r, r.coin(0.2) ? 8 : 3);
  const lgr::Grid g(observe(mesh));
  const long N = long(g.N()), n = NX * (N + 1) + NU * N, m = NX * N + NCR * N + NCE, uB = NX * (N + 1), crB = NX * N, ceB = crB + NCR * N;

  auto verify = [&](const Case & k, const sf::QuadraticProgramSparse<double> & qp, const std::string & at) {
    if (!vh::check("size", qp.P.rows() == n && qp.P.cols() == n && qp.q.size() == n && qp.A.rows() == m && qp.A.cols() == n && qp.l.size() == m && qp.u.size() == m, at)) return false;
    const Eigen::MatrixXd A = qp.A, P = qp.P;
    const double tf = k.tf;
    Eigen::MatrixXd Ar = Eigen::MatrixXd::Zero(m, n);
    Eigen::VectorXd lr(m), ur(m), qr = Eigen::VectorXd::Zero(n);
    using D = Dual<double>;
    auto unit = [](auto v, int i) {
      v.setConstant(D(0.));
      if (i >= 0) v(i) = D(0., 1.);
      return v;
    };
    const Eigen::Vector<D, NX> zx;
    const Eigen::Vector<D, NU> zu;
    std::vector<X> xs;
    std::vector<U> us;
    for (long i = 0; i <= N; ++i) {
      const double t = tf * double(g.tau[std::size_t(i)]);
      xs.push_back(k.xl(t));
      if (i < N) us.push_back(k.ul(t));
    }
    for (long i = 0; i < N; ++i) {
      const std::size_t s = std::size_t(i);
      const double t      = tf * double(g.tau[s]);
      const Eigen::Vector<double, NX> dxl = k.xl.vel(t), f0 = k.o.f(t, xs[s], us[s]);
      const Eigen::Vector<double, NCR> c0 = k.o.cr(t, xs[s], us[s]);
      for (int c = 0; c < NX + NU; ++c) {
        const auto x = lrf::bump<D>(xs[s], unit(zx, c < NX ? c : -1));
        const auto u = lrf::bump<D>(us[s], unit(zu, c < NX ? -1 : c - NX));
        const long col = c < NX ? NX * i + c : uB + NU * i + c - NX;
        const auto fv = k.o.f(D(t), x, u);
        const auto cv = k.o.cr(D(t), x, u);
        const auto gv = k.o.g(D(t), x, u);
        for (int j = 0; j < NX; ++j) Ar(NX * i + j, col) += tf * fv(j).d;
        for (int j = 0; j < NCR; ++j) Ar(crB + NCR * i + j, col) += cv(j).d;
        qr(col) += k.o.theta.c * tf * double(g.w[s]) * gv(0).d;
      }
      // error dynamics on the group: d/dt e = f - dxl - [f + dxl, e] / 2 + ...
      Ar.block(NX * i, NX * i, NX, NX) -= tf / 2 * lrf::bracket<X>(f0 + dxl);
      const std::size_t iv = g.ival(s), first = g.first[iv];
      for (std::size_t q = 0; q <= g.K[iv]; ++q)
        for (int j = 0; j < NX; ++j) Ar(NX * i + j, NX * long(first + q) + j) -= double(lgr::rule(g.K[iv]).D[q][s - first] * 2 / g.len[iv]);
      lr.segment(NX * i, NX) = -tf * (f0 - dxl), ur.segment(NX * i, NX) = lr.segment(NX * i, NX);
      lr.segment(crB + NCR * i, NCR) = k.o.crl - c0, ur.segment(crB + NCR * i, NCR) = k.o.cru - c0;
    }
    const Eigen::Vector<double, 1> q1(1.);
    const Eigen::Vector<double, NCE> e0 = k.o.ce(tf, xs.front(), xs.back(), q1);
    lr.tail(NCE) = k.o.cel - e0, ur.tail(NCE) = k.o.ceu - e0;
    for (int c = 0; c < 2 * NX; ++c) {
      const auto x0 = lrf::bump<D>(xs.front(), unit(zx, c < NX ? c : -1));
      const auto xf = lrf::bump<D>(xs.back(), unit(zx, c < NX ? -1 : c - NX));
      const long col = c < NX ? c : NX * N + c - NX;
      const auto ev = k.o.ce(D(tf), x0, xf, q1.template cast<D>().eval());
      for (int j = 0; j < NCE; ++j) Ar(ceB + j, col) += ev(j).d;
      qr(col) += k.o.theta.h(D(tf), x0, xf).d;
    }
    auto name_of = [&](long i) { return i < crB ? "dynamics" : i < ceB ? "running" : "end"; };
    const double as = 1 + Ar.cwiseAbs().maxCoeff();
    for (long i = 0; i < m; ++i) {
      vh::count("rows");
      vh::check_le(std::string(name_of(i)) + "-jacobian", (A.row(i) - Ar.row(i)).cwiseAbs().maxCoeff(), 1e-8 * as, vh::fmt("row %ld of %ld ", i, m) + at);
      auto same = [](double a, double b) { return std::isinf(a) || std::isinf(b) ? a == b : std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
      vh::check(std::string(name_of(i)) + "-bounds", same(qp.l(i), lr(i)) && same(qp.u(i), ur(i)),
                vh::fmt("row %ld of %ld [%.10g, %.10g] want [%.10g, %.10g] ", i, m, qp.l(i), qp.u(i), lr(i), ur(i)) + at);
    }
    vh::check_le("cost-gradient", (qp.q - qr).cwiseAbs().maxCoeff(), 1e-9 * (1 + qr.cwiseAbs().maxCoeff()), at);
    // Hessian of the cost: upper triangular storage, second derivatives along random pairs of directions
    bool below = false;
    for (long i = 0; i < n; ++i)
      for (long j = 0; j < i; ++j) below = below || P(i, j) != 0;
    vh::check("hessian-upper", !below, at);
    const Eigen::MatrixXd Ps = Eigen::MatrixXd(P.triangularView<Eigen::Upper>()) + Eigen::MatrixXd(P.triangularView<Eigen::StrictlyUpper>()).transpose();
    const double ps = 1 + Ps.cwiseAbs().maxCoeff();
    using DD = Dual<Dual<double>>;
    for (int q = 0; q < 16; ++q) {
      Eigen::VectorXd a = Eigen::VectorXd::Zero(n), b;
      auto pick = [&] { return r.coin(0.5) ? long(r.ri(0, int(n) - 1)) : r.coin() ? long(r.ri(0, NX - 1)) : NX * N + r.ri(0, NX - 1); };
      if (vector && r.coin(0.5)) {
        for (auto & e : a) e = r.uni(-1, 1);
        b = a;
        for (auto & e : b) e = r.uni(-1, 1);
      } else {
        // second derivatives on groups depend on the coordinates unless the directions commute: equal directions, or different factors
        a(pick()) = 1, b = a;
        if (vector || r.coin(0.5)) b.setZero(), b(pick()) = 1;
        long ia, ib;
        a.maxCoeff(&ia), b.maxCoeff(&ib);
        if (!vector && ia != ib && ia < uB && ib < uB && ia / NX == ib / NX) b = a;
      }
      auto dd = [&](long i) { return DD(Dual<double>(0, a(i)), Dual<double>(b(i), 0)); };
      double want = 0;
      auto xat = [&](long i) {
        Eigen::Vector<DD, NX> e;
        for (int j = 0; j < NX; ++j) e(j) = dd(NX * i + j);
        return lrf::bump<DD>(xs[std::size_t(i)], e);
      };
      for (long i = 0; i < N; ++i) {
        Eigen::Vector<DD, NU> e;
        for (int j = 0; j < NU; ++j) e(j) = dd(uB + NU * i + j);
        want += k.o.theta.c * tf * double(g.w[std::size_t(i)]) * k.o.g(DD(tf * double(g.tau[std::size_t(i)])), xat(i), lrf::bump<DD>(us[std::size_t(i)], e))(0).d.d;
      }
      want += k.o.theta.h(DD(tf), xat(0), xat(N)).d.d;
      const double got = a.dot(Ps * b);
      vh::count("hessian_forms");
      vh::check_le("cost-hessian", std::fabs(got - want), 1e-8 * ps * (1 + a.lpNorm<1>() * b.lpNorm<1>()), vh::fmt("got %.10g want %.10g ", got, want) + at);
    }
    return true;
  };

  Case k;
  draw(k);
  const std::string desc = vh::fmt("%s Nx%d Nu%d Ncr%d Nce%d tf %.4g ", name, NX, NU, NCR, NCE, k.tf) + show(mesh);
  vh::detail(desc);
  const auto qp = sf::ocp_to_qp(k.o, mesh, k.tf, k.xl, k.ul);
  if (!verify(k, qp, "fresh")) return;
  vh::nontrivial(desc + vh::fmt("%.17g", k.o.f.f.rows[0].c));
  vh::sample(desc + vh::fmt(" n=%ld m=%ld", n, m));

  // allocate once and update repeatedly, as the model predictive controller does
  if (r.coin(0.5)) {
    sf::QuadraticProgramSparse<double> w;
    sf::detail::OcpToQpWorkmemory work;
    sf::detail::ocp_to_qp_allocate(w, work, k.o, mesh);
    for (int rep = 0; rep < 3; ++rep) {
      Case k2 = k;
      k2.xl.randomize(r), k2.ul.randomize(r);
      if (r.coin()) k2.tf = r.uni(0.1, 4);
      sf::detail::ocp_to_qp_update(w, work, k2.o, mesh, k2.tf, k2.xl, k2.ul);
      if (rep == 0 && r.coin()) w.A.makeCompressed(), w.P.makeCompressed();
      vh::count("updates");
      if (!verify(k2, w, vh::fmt("update %d", rep))) return;
    }
  }

  // back to trajectories
  sf::QPSolution<-1, -1, double> s;
  s.primal.resize(n), s.dual.resize(m);
  const double mag = r.pick({1., 0.1, 0.});
  for (auto & e : s.primal) e = mag * r.uni(-1, 1);
  for (auto & e : s.dual) e = r.uni(-1, 1);
  // an input that is a polynomial of a degree every interval can represent is specified everywhere
  const bool poly = r.coin();
  if (poly) {
    const std::size_t kmin = *std::ranges::min_element(g.K);
    for (int j = 0; j < NU; ++j) {
      std::vector<double> c(kmin);
      for (auto & e : c) e = r.uni(-1, 1);
      for (long i = 0; i < N; ++i) {
        double v = 0;
        for (std::size_t q = c.size(); q-- > 0;) v = v * double(g.tau[std::size_t(i)]) + c[q];
        s.primal(uB + NU * i + j) = mag * v;
      }
    }
  }
  const Eigen::VectorXd p = s.primal;
  auto * xl = new lrf::Traj<X>(k.xl);
  auto * ul = new lrf::Traj<U>(k.ul);
  auto sol  = [&] {
    const Mesh tmp = mesh;
    return r.coin() ? sf::qpsol_to_ocpsol(k.o, tmp, s, k.tf, *xl, *ul) : sf::qpsol_to_ocpsol(k.o, tmp, s, k.tf, lrf::Traj<X>(k.xl), lrf::Traj<U>(k.ul));
  }();
  delete xl, delete ul;
  s.primal.setConstant(1e9);  // trajectories must not refer to their sources
  vh::check("solution-type", std::is_same_v<decltype(sol), typename O::Solution>, "not the solution type of the problem");
  vh::check("solution-times", sol.t0 == 0 && sol.tf == k.tf, "");
  const auto moved = std::move(sol);
  for (int q = 0; q < 12 + N; ++q) {
    const double tau = q <= N ? double(g.tau[std::size_t(q)]) : r.u01(), t = k.tf * tau;
    // interpolating polynomial of the interval, Lagrange form
    std::size_t iv = 0;
    auto start = [&](std::size_t i) { return g.tau[g.first[i]]; };
    while (iv + 1 < g.first.size() && double(start(iv + 1)) <= tau) ++iv;
    const std::size_t K = g.K[iv], f = g.first[iv];
    Eigen::Vector<double, NX> ex = Eigen::Vector<double, NX>::Zero();
    Eigen::Vector<double, NU> eu = Eigen::Vector<double, NU>::Zero();
    for (std::size_t a = 0; a <= K; ++a) {
      lgr::ld lx = 1, lu = 1;
      for (std::size_t b = 0; b <= K; ++b)
        if (a != b) lx *= (tau - g.tau[f + b]) / (g.tau[f + a] - g.tau[f + b]), lu *= b == K ? 1 : (tau - g.tau[f + b]) / (g.tau[f + a] - g.tau[f + b]);
      ex += double(lx) * p.segment(NX * long(f + a), NX);
      if (a < K) eu += double(lu) * p.segment(uB + NU * long(f + a), NU);
    }
    const double sx = smooth::rminus(moved.x(t), smooth::rplus(k.xl(t), ex)).cwiseAbs().maxCoeff();
    const double su = smooth::rminus(moved.u(t), smooth::rplus(k.ul(t), eu)).cwiseAbs().maxCoeff();
    vh::count("trajectory_points");
    vh::check_le("state-trajectory", sx, 1e-7, vh::fmt("tau %.6g", tau));
    if (q < N || poly) vh::check_le("input-trajectory", su, 1e-7, vh::fmt("tau %.6g", tau));  // otherwise, between nodes the interpolation degree is not specified
  }
}

template<int R, int NZ>
using Sp = rf::Sparse<R, NZ>;
#if PART == 0
void run_0(Rng & r) { one<sf::Mesh<3, 5>, Eigen::Vector2d, Eigen::Vector<double, 1>, 2, 3, rf::Dense>(r, "dense"); }
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3};
  vh::group("programs", 150, 30000, 1, [](Rng & r, long) { fs[r.ri(0, 3)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { one<sf::Mesh<2, 4>, Eigen::Vector3d, Eigen::Vector2d, 1, 2, Sp>(r, "sparse"); }
#elif PART == 2
void run_2(Rng & r) { one<sf::Mesh<4, 4>, smooth::SE2d, Eigen::Vector2d, 2, 1, lrf::Fun>(r, "SE2"); }
#elif PART == 3
void run_3(Rng & r) { one<sf::Mesh<1, 3>, smooth::Bundle<smooth::SO3d, Eigen::Vector2d>, Eigen::Vector<double, 1>, 1, 2, lrf::Fun>(r, "SO3xR2"); }
#endif
