// A01 / A02 (WHAT = 1 / 2): active set invariance QP and safety filter.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/asif.hpp>
#include <set>
#include "ipm.hpp"
#include "lierf.hpp"
namespace sf = smooth::feedback;
using vh::Rng;
using D = lrf::Dual<double>;
using smooth::diff::Type;
constexpr double inf = std::numeric_limits<double>::infinity();
inline double val(double x) { return x; }
inline double val(const D & x) { return x.v; }

template<typename X>
struct ScalarOf { using type = typename X::Scalar; };
template<typename X>
using Sc = typename ScalarOf<X>::type;

template<typename X, typename U>
struct Dyn
{
  lrf::Fun<int(smooth::Dof<X>), 1 + lrf::NF<X> + lrf::NF<U>> f;
  template<typename A, typename B>
  auto operator()(const A & x, const B & u) const { return f.template operator()<Sc<A>>(Sc<A>(0.), x, u); }
};
template<typename X, int NH>
struct Bar
{
  lrf::Fun<NH, 1 + lrf::NF<X>> f;
  std::set<double> * times{nullptr};
  template<typename T, typename A>
  auto operator()(const T & t, const A & x) const
  {
    using S = Sc<A>;
    if constexpr (std::is_same_v<S, double>) if (times) times->insert(val(t));
    return Eigen::Vector<S, NH>(f.template operator()<S>(S(t), x));
  }
};
template<typename X, typename U>
struct Backup
{
  U base;
  lrf::Fun<int(smooth::Dof<U>), 1 + lrf::NF<X>> f;
  std::set<double> * times{nullptr};
  template<typename T, typename A>
  auto operator()(const T & t, const A & x) const
  {
    using S = Sc<A>;
    if (times) times->insert(val(t));
    return smooth::rplus(smooth::cast<S>(base), Eigen::Vector<S, int(smooth::Dof<U>)>(f.template operator()<S>(S(t), x)));
  }
};

template<typename X, typename U, int NH>
struct Case
{
  static constexpr int NX = int(smooth::Dof<X>), NU = int(smooth::Dof<U>);
  Dyn<X, U> f;
  Bar<X, NH> h;
  Backup<X, U> bu;
  sf::ASIFProblem<X, U> pbm;
  sf::ASIFtoQPParams prm;

  static U rand_u(Rng & r, double m)
  {
    Eigen::Vector<double, NU> e;
    for (auto & v : e) v = m * r.uni(-1, 1);
    return smooth::rplus(smooth::Identity<U>(), e);
  }
  static X rand_x(Rng & r)
  {
    Eigen::Vector<double, NX> e;
    for (auto & v : e) v = r.uni(-1, 1);
    return smooth::rplus(smooth::Identity<X>(), e);
  }
  void functions(Rng & r) { h.f.f.randomize(r, r.pick({0.3, 1.})), bu.f.f.randomize(r, 0.4), bu.base = rand_u(r, 0.7); }
  void point(Rng & r) { pbm.x0 = rand_x(r), pbm.u_des = rand_u(r, 1); }
  void draw(Rng & r, int maxK)
  {
    f.f.f.randomize(r, 0.4);
    functions(r), point(r);
    prm.K          = std::size_t(r.ri(1, maxK));
    prm.alpha      = r.pick({1., 0.1, 5., r.uni(0, 3)});
    prm.relax_cost = r.pick({100., 1., 1e3, r.uni(1, 50)});
    pbm.T          = r.pick({1., 0.5, r.uni(0.1, 2)});
    const double tau = pbm.T / double(prm.K);
    // dividing the spacing (also only up to rounding), not dividing it, longer than it
    prm.dt = r.pick({0.1, tau, tau / r.ri(2, 7), tau * r.uni(0.15, 1), tau * 3, pbm.T});
    if (r.coin(0.2)) prm = sf::ASIFtoQPParams{.K = prm.K, .relax_cost = prm.relax_cost}, pbm.T = 1;
    prm.dt = std::max(prm.dt, pbm.T / double(prm.K) / 10);
    for (auto & w : pbm.W_u) w = r.pick({1., r.uni(0.1, 4), 10.});
    bounds(r);
  }
  void bounds(Rng & r)
  {
    const int ni = r.pick({0, NU, NU, r.ri(0, 4)});
    pbm.ulim.A = Eigen::Matrix<double, -1, NU>::Zero(ni, NU);
    if (ni == NU && r.coin(0.7)) pbm.ulim.A.setIdentity();
    else for (auto & e : pbm.ulim.A.reshaped()) e = r.uni(-1, 1);
    pbm.ulim.c = rand_u(r, 0.4);
    pbm.ulim.l.resize(ni), pbm.ulim.u.resize(ni);
    for (int i = 0; i < ni; ++i) {
      pbm.ulim.l(i) = r.coin(0.15) ? -inf : -r.uni(0.05, 1.5);
      pbm.ulim.u(i) = r.coin(0.15) ? inf : r.uni(0.05, 1.5);
    }
  }

  // barrier rows [A | l] along the backup trajectory with n steps per interval
  std::vector<Eigen::Matrix<double, NH, NU + 1>> rows(int n, bool midpoint, bool late = false) const
  {
    const double tau = pbm.T / double(prm.K), hh = tau / n;
    // sensitivities: one copy of the trajectory per initial direction, in dual numbers
    using XD = std::decay_t<decltype(smooth::cast<D>(pbm.x0))>;
    std::vector<XD> xs;
    for (int i = 0; i < NX; ++i) {
      Eigen::Vector<D, NX> e = Eigen::Vector<D, NX>::Constant(D(0.));
      e(i)                   = D(0., 1.);
      xs.push_back(lrf::bump<D>(pbm.x0, e));
    }
    X x = pbm.x0;
    Eigen::Matrix<double, NX, NX> S = Eigen::Matrix<double, NX, NX>::Identity();  // late: first order variant that linearises after the step
    // dynamics and its derivative with respect to the input at the current state
    const Eigen::Vector<double, NX> f0 = f(pbm.x0, pbm.u_des);
    Eigen::Matrix<double, NX, NU> B;
    for (int i = 0; i < NU; ++i) {
      Eigen::Vector<D, NU> e = Eigen::Vector<D, NU>::Constant(D(0.));
      e(i)                   = D(0., 1.);
      const auto y           = f(smooth::cast<D>(pbm.x0), lrf::bump<D>(pbm.u_des, e));
      for (int j = 0; j < NX; ++j) B(j, i) = y(j).d;
    }
    auto step = [&](auto & z, double t) {
      using S      = Sc<std::decay_t<decltype(z)>>;
      using V      = Eigen::Vector<S, NX>;
      const V k1   = f(z, bu(S(t), z));
      if (!midpoint) { z = smooth::rplus(z, V(k1 * S(hh))); return; }
      const auto m = smooth::rplus(z, V(k1 * S(hh / 2)));
      const V k2   = f(m, bu(S(t + hh / 2), m));
      z            = smooth::rplus(z, V(k2 * S(hh)));
    };
    std::vector<Eigen::Matrix<double, NH, NU + 1>> out;
    for (std::size_t k = 0; k < prm.K; ++k) {
      const double t                    = tau * double(k);
      const Eigen::Vector<double, NH> hv = h(t, x);
      Eigen::Matrix<double, NH, NX> dh0;  // derivative of h(t, phi_t(x0)) with respect to x0
      for (int i = 0; i < NX; ++i) {
        const auto y = h(D(t), xs[std::size_t(i)]);
        for (int j = 0; j < NH; ++j) dh0(j, i) = y(j).d;
      }
      if (late) {
        Eigen::Matrix<double, NH, NX> dh;
        for (int i = 0; i < NX; ++i) {
          Eigen::Vector<D, NX> e = Eigen::Vector<D, NX>::Constant(D(0.));
          e(i)                   = D(0., 1.);
          const auto y           = h(D(t), lrf::bump<D>(x, e));
          for (int j = 0; j < NH; ++j) dh(j, i) = y(j).d;
        }
        dh0 = dh * S;
      }
      const auto ht = h(D(t, 1.), smooth::cast<D>(x));
      Eigen::Matrix<double, NH, NU + 1> o;
      o.template leftCols<NU>() = dh0 * B;
      for (int j = 0; j < NH; ++j) o(j, NU) = -ht(j).d - prm.alpha * hv(j) - dh0.row(j).dot(f0);
      out.push_back(o);
      for (int s = 0; s < n; ++s) {
        step(x, t + s * hh);
        if (!late) for (auto & z : xs) step(z, t + s * hh);
        else {
          const Eigen::Vector<double, NX> fc = f(x, bu(t + s * hh, x));
          Eigen::Matrix<double, NX, NX> J;
          for (int i = 0; i < NX; ++i) {
            Eigen::Vector<D, NX> e = Eigen::Vector<D, NX>::Constant(D(0.));
            e(i)                   = D(0., 1.);
            const auto xe          = lrf::bump<D>(x, e);
            const auto y           = f(xe, bu(D(t + s * hh), xe));
            for (int j = 0; j < NX; ++j) J(j, i) = y(j).d;
          }
          S += hh * (J - lrf::bracket<X>(fc)) * S;
        }
      }
    }
    return out;
  }
};

template<typename R>
static double dist(const R & a, const R & b)
{
  double m = 0;
  for (std::size_t k = 0; k < a.size(); ++k) m = std::max(m, (a[k] - b[k]).cwiseAbs().maxCoeff());
  return m;
}

#if WHAT == 1
template<typename X, typename U, int NH, Type DT>
static void one(Rng & r, const char * name)
{
  using C           = Case<X, U, NH>;
  constexpr int NU  = C::NU;
  const double dtol = DT == Type::Numerical ? 3e-6 : 1e-9;
  C c;
  c.draw(r, r.coin(0.1) ? 40 : 12);
  // values far from the ordinary
  if (r.coin(0.2)) c.prm.alpha = r.pick({0., 50., 1e3, 1e-3});
  if (r.coin(0.2)) c.prm.relax_cost = r.pick({0., 1e6, 1e-4, 1e12});
  if (r.coin(0.2)) for (auto & v : c.pbm.W_u) v = r.pick({0., 1e-5, 1e5});
  if constexpr (std::is_base_of_v<Eigen::MatrixBase<U>, U>) {
    if (r.coin(0.2)) c.pbm.u_des *= r.pick({15., 300., 1e5});
    if (r.coin(0.2)) c.pbm.ulim.c *= r.pick({15., 300., 1e5});
  }
  if (r.coin(0.2)) c.pbm.ulim.A *= r.pick({1e-4, 1e4}), c.pbm.ulim.l *= 100, c.pbm.ulim.u *= 1e3;
  const long K = long(c.prm.K), ni = c.pbm.ulim.A.rows(), M = K * NH + ni + 1;
  const double tau = c.pbm.T / double(K);
  std::set<double> th, tb;
  c.h.times = &th, c.bu.times = &tb;
  sf::QuadraticProgram<-1, -1, double> qp;
  const int how = r.ri(0, 2);
  if (how == 0) qp = sf::asif_to_qp<X, U, DT>(c.pbm, c.prm, c.f, c.h, c.bu);
  else {
    sf::asif_to_qp_allocate<X, U>(qp, c.prm.K, std::size_t(ni), NH);
    if (how == 2) {
      // an earlier problem of the same size in the same allocation
      C o = c;
      o.functions(r), o.point(r);
      for (auto & w : o.pbm.W_u) w = r.uni(0.1, 3);
      o.prm.alpha = r.uni(0, 2), o.prm.relax_cost = 7, o.h.times = o.bu.times = nullptr;
      for (auto & e : o.pbm.ulim.A.reshaped()) e = r.uni(-1, 1);
      sf::asif_to_qp_update<X, U, DT>(qp, o.pbm, o.prm, o.f, o.h, o.bu);
      vh::count("updates_reused");
    }
    sf::asif_to_qp_update<X, U, DT>(qp, c.pbm, c.prm, c.f, c.h, c.bu);
  }
  c.h.times = c.bu.times = nullptr;
  const std::string w = vh::fmt("%s K=%ld T=%.17g dt=%.17g inputs rows %ld how %d", name, K, c.pbm.T, c.prm.dt, ni, how);
  vh::count("problems");
  if (!vh::check("size", qp.A.rows() == M && qp.A.cols() == NU + 1 && qp.l.size() == M && qp.u.size() == M && qp.P.rows() == NU + 1 && qp.P.cols() == NU + 1 && qp.q.size() == NU + 1, w)) return;
  // constraint instants
  std::vector<bool> seen(std::size_t(K), false);
  bool stray = false;
  for (double t : th) {
    const long k = std::lround(t / tau);
    if (k < 0 || k > K || std::fabs(t - double(k) * tau) > 1e-5 * std::max(1., c.pbm.T)) stray = true;
    else if (k < K) seen[std::size_t(k)] = true;
  }
  std::string ts;
  for (double t : th) ts += vh::fmt(" %.6g", t);
  vh::check("instants", !stray && std::all_of(seen.begin(), seen.end(), [](bool b) { return b; }), w + " barrier evaluated at" + ts);
  vh::count("instants", K);
  // integration steps
  if (K > 1) {
    double prev = 0, gap = 0;
    bool inside = true;
    for (double t : tb) gap = std::max(gap, t - prev), prev = t, inside = inside && t >= -1e-5 && t <= c.pbm.T * (1 + 1e-5) + 1e-5;
    vh::check_le("integration_step", gap, c.prm.dt * (1 + 1e-9) + 1e-5, w);
    vh::check("integration_range", inside, w);
  }
  // rows that do not depend on the trajectory
  double e = 0;
  auto cmp = [](double a, double b) { return a == b ? 0. : std::isinf(a) || std::isinf(b) ? inf : std::fabs(a - b); };
  for (long i = 0; i < K * NH; ++i) e = std::max({e, cmp(qp.A(i, NU), 1), cmp(qp.u(i), inf)});
  vh::check_le("relaxation_column", e, 0, w);
  e = 0;
  const Eigen::VectorXd sh = c.pbm.ulim.A * smooth::rminus(c.pbm.u_des, c.pbm.ulim.c);
  for (long i = 0; i < ni; ++i) {
    const long k = K * NH + i;
    for (int j = 0; j < NU; ++j) e = std::max(e, cmp(qp.A(k, j), c.pbm.ulim.A(i, j)));
    e = std::max({e, cmp(qp.A(k, NU), 0), cmp(qp.l(k), c.pbm.ulim.l(i) - sh(i)), cmp(qp.u(k), c.pbm.ulim.u(i) - sh(i))});
  }
  vh::check_le("input_bounds", e, 1e-12 * (1 + sh.size() ? 1 + sh.cwiseAbs().sum() : 1), w);
  vh::count("input_rows", ni);
  e = 0;
  for (int j = 0; j < NU; ++j) e = std::max(e, cmp(qp.A(M - 1, j), 0));
  vh::check_le("relaxation_bound", std::max({e, cmp(qp.A(M - 1, NU), 1), cmp(qp.l(M - 1), 0), cmp(qp.u(M - 1), inf)}), 0, w);
  Eigen::MatrixXd P = Eigen::MatrixXd::Zero(NU + 1, NU + 1);
  P.topLeftCorner(NU, NU) = c.pbm.W_u.asDiagonal();
  P(NU, NU) = c.prm.relax_cost;
  double ce = qp.q.cwiseAbs().maxCoeff();
  for (int i = 0; i <= NU; ++i) for (int j = 0; j <= NU; ++j) ce = std::max(ce, std::fabs(qp.P(i, j) - P(i, j)) / (P(i, j) != 0 ? std::fabs(P(i, j)) : 1.));
  vh::check_le("cost", ce, 1e-12, w);

  // barrier rows
  auto got = [&](const sf::QuadraticProgram<-1, -1, double> & q) {
    std::vector<Eigen::Matrix<double, NH, NU + 1>> o;
    for (long k = 0; k < K; ++k) {
      Eigen::Matrix<double, NH, NU + 1> m;
      m.template leftCols<NU>() = q.A.block(k * NH, 0, NH, NU);
      m.col(NU)                 = q.l.segment(k * NH, NH);
      o.push_back(m);
    }
    return o;
  };
  const int m  = std::max(2, int(16 / K)), nc = std::max(1, int(std::ceil(tau / c.prm.dt - 1e-9)));
  const auto ra = c.rows(m, true), rb = c.rows(2 * m, true);
  auto ref = rb;
  double size = 1;
  for (std::size_t k = 0; k < ref.size(); ++k) ref[k] = (4 * rb[k] - ra[k]) / 3, size = std::max(size, ref[k].cwiseAbs().maxCoeff());
  if (!(size < 1e3)) { vh::count("reference_unusable"); return; }
  const double er = dist(ra, rb), floor = er + 1e-7 * size + dtol * size;
  vh::check_le("row_now", (got(qp)[0] - ref[0]).cwiseAbs().maxCoeff(), dtol * size, w);
  if (K > 1) {
    // both first order integrations of the sensitivity are acceptable
    auto first = [&](int n) { return std::max(dist(c.rows(n, false), ref), dist(c.rows(n, false, true), ref)); };
    const double ee = std::max(first(nc), 2 * first(2 * nc));
    vh::check_le("rows", dist(got(qp), ref), 4 * ee + floor, w);
    C fine = c;
    const int nf = std::max(64, 4 * nc);
    fine.prm.dt  = tau / nf;
    const auto qf = sf::asif_to_qp<X, U, DT>(fine.pbm, fine.prm, fine.f, fine.h, fine.bu);
    vh::check_le("rows_converge", dist(got(qf), ref), 4 * std::max(first(4) * 4 / nf, first(8) * 8 / nf) + floor, w + vh::fmt(" fine step %.4g", fine.prm.dt));
    vh::count("barrier_rows", (K - 1) * NH);
    vh::nontrivial(w + vh::fmt("%.17g", size));
  }
  vh::sample(w);
}
#else
template<typename X, typename U, int NH, Type DT>
static void one(Rng & r, const char * name)
{
  using C          = Case<X, U, NH>;
  constexpr int NU = C::NU;
  constexpr bool vec = std::is_base_of_v<Eigen::MatrixBase<U>, U>;
  C c;
  c.draw(r, 8);
  sf::ASIFilterParams<U> prm{.T = c.pbm.T, .nh = NH, .u_weight = c.pbm.W_u, .ulim = c.pbm.ulim, .asif = c.prm, .qp = {}};
  prm.qp.eps_abs = 1e-9, prm.qp.eps_rel = 1e-9, prm.qp.max_iter = 20000;
  if (r.coin(0.3)) prm.qp.polish = false;
  if (r.coin(0.3)) prm.qp.scaling = false;
  using F = sf::ASIFilter<X, U, Dyn<X, U>, DT>;
  auto make = [&] { return r.coin() ? F(c.f, prm) : F(Dyn<X, U>(c.f), sf::ASIFilterParams<U>(prm)); };
  std::vector<F> fs{make()};
  const int calls = r.ri(1, 6);
  const std::string w0 = vh::fmt("%s K=%zu nh=%d rows %ld", name, c.prm.K, NH, long(c.pbm.ulim.A.rows()));
  const C nominal = c;
  for (int k = 0; k < calls; ++k) {
    bool moved = false;
    if (k > 0 && r.coin(0.5)) {  // small move, as between two calls of a control loop
      moved          = true;
      const double d = r.pick({0.02, 5e-3, 1e-3});
      Eigen::Vector<double, C::NX> e;
      Eigen::Vector<double, NU> eu;
      for (auto & v : e) v = d * r.uni(-1, 1);
      for (auto & v : eu) v = d * r.uni(-1, 1);
      c.pbm.x0 = smooth::rplus(c.pbm.x0, e);
      if (r.coin()) c.pbm.u_des = smooth::rplus(c.pbm.u_des, eu);
      vh::count("small_moves");
    } else if (r.coin(0.6)) c.point(r);
    else c.point(r), c.functions(r);
    if (moved) {
    } else if (r.coin(0.3)) {  // desired input deep inside the bounds
      c.pbm.u_des = c.pbm.ulim.c;
    }
    // barrier far from zero: everything admissible; or very negative
    if (!moved && r.coin(0.3)) { const double b = r.pick({20., 5., -2.}); for (auto & row : c.h.f.f.rows) row.c = b; }
    if (r.coin(0.15)) { F q = fs[std::size_t(r.ri(0, int(fs.size()) - 1))]; fs.push_back(std::move(q)); vh::count("copies"); }
    if (r.coin(0.1)) fs.push_back(make());
    if (fs.size() > 3) fs.erase(fs.begin());
    F & a = fs[std::size_t(r.ri(0, int(fs.size()) - 1))];
    const auto [u, code] = a(c.pbm.x0, c.pbm.u_des, c.h, c.bu);
    const std::string w  = w0 + vh::fmt(" call %d code %d", k, int(code));
    vh::count("calls"), vh::count("code " + std::to_string(int(code)));
    // the problem as documented, judged separately by A01
    const auto qp = sf::asif_to_qp<X, U, DT>(c.pbm, c.prm, c.f, c.h, c.bu);
    const Eigen::MatrixXd A = qp.A, P = qp.P;
    std::vector<Eigen::RowVectorXd> G;
    std::vector<double> g;
    bool inside = true;  // is the desired input admissible with a margin
    for (long i = 0; i < A.rows(); ++i) {
      if (std::isfinite(qp.u(i))) G.push_back(A.row(i)), g.push_back(qp.u(i)), inside = inside && qp.u(i) >= 0;
      if (std::isfinite(qp.l(i))) G.push_back(-A.row(i)), g.push_back(-qp.l(i)), inside = inside && qp.l(i) <= 0;
    }
    const double big = A.cwiseAbs().maxCoeff();
    if (!(big < 1e3)) { vh::count("reference_unusable"); continue; }
    Eigen::MatrixXd Gm(long(G.size()), NU + 1);
    Eigen::VectorXd gm(long(G.size()));
    for (std::size_t i = 0; i < G.size(); ++i) Gm.row(long(i)) = G[i], gm(long(i)) = g[i];
    const Ipm ref(P, Eigen::MatrixXd(0, NU + 1), Eigen::VectorXd(0), Gm, gm);
    if (code == sf::QPSolutionStatus::MaxIterations || code == sf::QPSolutionStatus::PolishFailed) vh::count("not_converged");
    else if (ref.ok && ref.d.cwiseAbs().maxCoeff() < 1e3) {
      if (!vh::check("solved", code == sf::QPSolutionStatus::Optimal, w)) continue;
    } else { vh::count("reference_unusable"); continue; }
    if (code != sf::QPSolutionStatus::Optimal) continue;
    const Eigen::Vector<double, NU> mu = smooth::rminus(u, c.pbm.u_des), ms = ref.d.head(NU);
    if (!vec && ms.norm() > 2.5) { vh::count("wrapped"); continue; }
    const double sc = 1 + ms.cwiseAbs().maxCoeff();
    // never outside the input bounds
    const Eigen::VectorXd ub = c.pbm.ulim.A * (mu + smooth::rminus(c.pbm.u_des, c.pbm.ulim.c));
    double out = 0;
    for (long i = 0; i < ub.size(); ++i) out = std::max({out, ub(i) - c.pbm.ulim.u(i), c.pbm.ulim.l(i) - ub(i)});
    vh::check_le("input_bounds", out, 1e-6 * sc, w);
    if (inside) {
      vh::check_le("minimally_invasive", mu.cwiseAbs().maxCoeff(), 1e-6, w);
      vh::count("admissible_inputs");
    } else vh::count("corrected_inputs");
    // closest input up to the penalised relaxation: cost of u with the smallest relaxation it needs
    double delta = 0, act = 0;
    for (long i = 0; i < long(c.prm.K) * NH; ++i) delta = std::max(delta, qp.l(i) - A.row(i).head(NU).dot(mu)), act += qp.l(i) - A.row(i).dot(ref.d) > -1e-7;
    Eigen::VectorXd z(NU + 1);
    z << mu, delta;
    const double c1 = 0.5 * z.dot(P * z), c0 = 0.5 * ref.d.dot(P * ref.d);
    vh::check_le("cost", std::fabs(c1 - c0), 1e-6 * (1 + c0) * (1 + big), w + vh::fmt(" cost %.9g optimum %.9g relaxation %.4g", c1, c0, delta));
    vh::check_le("input", (mu - ms).cwiseAbs().maxCoeff(), 2e-5 * sc, w);
    if (act > 0) vh::count("active_barriers");
    if (delta > 1e-4) vh::count("relaxed");
    vh::count("optima_compared");
    {
      // the same against barrier rows of the independent flow, up to the effect of first order integration errors
      const int n0 = std::max(2, int(12 / c.prm.K)), nc = std::max(1, int(std::ceil(c.pbm.T / double(c.prm.K) / c.prm.dt - 1e-9)));
      const auto ra = c.rows(n0, true), rb = c.rows(2 * n0, true);
      auto rr = rb;
      for (std::size_t i = 0; i < rr.size(); ++i) rr[i] = (4 * rb[i] - ra[i]) / 3;
      auto first = [&](int n) { return std::max(dist(c.rows(n, false), rr), dist(c.rows(n, false, true), rr)); };
      const double eps = c.prm.K == 1 ? 0 : 4 * std::max(first(nc), 2 * first(2 * nc)) + dist(ra, rb);
      const long nb = long(c.prm.K) * NH, ni = c.pbm.ulim.A.rows();
      std::vector<Eigen::RowVectorXd> H;
      std::vector<double> hv;
      const Eigen::VectorXd shift = c.pbm.ulim.A * smooth::rminus(c.pbm.u_des, c.pbm.ulim.c);
      double margin = inf;
      for (long i = 0; i < nb; ++i) {
        const auto & m = rr[std::size_t(i / NH)];
        Eigen::RowVectorXd a(NU + 1);
        a << m.row(i % NH).template head<NU>(), 1;
        H.push_back(-a), hv.push_back(-m(i % NH, NU)), margin = std::min(margin, -m(i % NH, NU));
      }
      const std::size_t nbar = H.size();
      for (long i = 0; i < ni; ++i) {
        Eigen::RowVectorXd a(NU + 1);
        a << c.pbm.ulim.A.row(i), 0;
        if (std::isfinite(c.pbm.ulim.u(i))) H.push_back(a), hv.push_back(c.pbm.ulim.u(i) - shift(i)), margin = std::min(margin, hv.back());
        if (std::isfinite(c.pbm.ulim.l(i))) H.push_back(-a), hv.push_back(-c.pbm.ulim.l(i) + shift(i)), margin = std::min(margin, hv.back());
      }
      Eigen::RowVectorXd a = Eigen::RowVectorXd::Zero(NU + 1);
      a(NU)                = -1;
      H.push_back(a), hv.push_back(0);
      Eigen::MatrixXd Hm(long(H.size()), NU + 1), P2 = Eigen::MatrixXd::Zero(NU + 1, NU + 1);
      Eigen::VectorXd hm(long(H.size()));
      for (std::size_t i = 0; i < H.size(); ++i) Hm.row(long(i)) = H[i], hm(long(i)) = hv[i];
      P2.topLeftCorner(NU, NU) = c.pbm.W_u.asDiagonal(), P2(NU, NU) = c.prm.relax_cost;
      const double noise = DT == Type::Numerical ? 1e-5 : 1e-7;
      if (margin > eps + 10 * noise) {
        vh::check_le("unchanged_when_safe", mu.cwiseAbs().maxCoeff(), 1e-5, w);
        vh::count("safe_inputs");
      }
      const Ipm opt(P2, Eigen::MatrixXd(0, NU + 1), Eigen::VectorXd(0), Hm, hm);
      if (opt.ok && opt.d.cwiseAbs().maxCoeff() < 1e3) {
        double dl = 0;
        for (std::size_t i = 0; i < nbar; ++i) dl = std::max(dl, -hv[i] + H[i].head(NU).dot(mu));
        Eigen::VectorXd zz(NU + 1);
        zz << mu, dl;
        const double k1 = 0.5 * zz.dot(P2 * zz), k0 = 0.5 * opt.d.dot(P2 * opt.d);
        const double slip = (eps + noise * (1 + Hm.cwiseAbs().maxCoeff())) * (1 + zz.cwiseAbs().sum());
        // value change of a perturbed problem, plus what the perturbed optimum loses in the exact one
        const double tol = 4 * (opt.lam.sum() + c.prm.relax_cost * dl) * slip + 4 * c.prm.relax_cost * slip * slip;
        if (tol < 0.1 * (k0 + 0.01)) {
          vh::check_le("closest_admissible", std::fabs(k1 - k0), tol + 1e-5 * (1 + k0), w + vh::fmt(" cost %.9g optimum %.9g row accuracy %.3g", k1, k0, eps));
          vh::count("independent_optima");
        }
      }
    }
    // a fresh filter answers the same
    F fresh(c.f, prm);
    const auto [uf, cf] = fresh(c.pbm.x0, c.pbm.u_des, c.h, c.bu);
    if (cf == sf::QPSolutionStatus::Optimal) {
      vh::check_le("history", smooth::rminus(u, uf).cwiseAbs().maxCoeff(), 5e-5 * sc, w);
      vh::count("answers_compared");
    }
    vh::nontrivial(w + vh::fmt("%.17g", c0));
  }
  (void)nominal;
  vh::sample(w0 + vh::fmt(" calls %d", calls));
}
#endif

using V1 = Eigen::Vector<double, 1>;
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
void run_0(Rng &);
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
#if PART == 0
void run_0(Rng & r) { one<V2, V1, 1, Type::Default>(r, "R2/R1"); }
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3};
  vh::group(WHAT == 1 ? "problems" : "filters", 60, 30000, 1, [](Rng & r, long) { fs[r.ri(0, 3)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { one<smooth::SE2d, V2, 2, Type::Autodiff>(r, "SE2/R2"); }
#elif PART == 2
void run_2(Rng & r) { one<smooth::SO3d, V3, 3, Type::Numerical>(r, "SO3/R3-numerical"); }
#elif PART == 3
void run_3(Rng & r) { one<smooth::Bundle<smooth::SO2d, V1>, smooth::SO3d, 2, Type::Default>(r, "SO2xR1/SO3"); }
#endif
