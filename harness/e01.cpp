// E01 / E02: extended Kalman filter on Lie groups. -DWHAT=1 prediction, 2 update.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/ekf.hpp>
#include <set>
#include "lierf.hpp"
namespace sf = smooth::feedback;
using vh::Rng;
using lrf::Dual;
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();

template<typename X>
struct ScalarOf { using type = typename X::Scalar; };
template<int N>
using Mat = Eigen::Matrix<double, N, N>;

Eigen::MatrixXd spdX(Rng & r, int n, double lo, double hi, int rank);
std::pair<Eigen::VectorXd, Eigen::MatrixXd>
posterior(const Eigen::MatrixXd & P, const Eigen::MatrixXd & H, const Eigen::MatrixXd & R, const Eigen::VectorXd & innov);
double mineig(const Eigen::MatrixXd & m);
#if PART == 0
Eigen::MatrixXd spdX(Rng & r, int n, double lo, double hi, int rank)
{
  const Eigen::MatrixXd a = Eigen::MatrixXd::NullaryExpr(n, n, [&] { return r.uni(-1, 1); });
  const Eigen::MatrixXd q = Eigen::HouseholderQR<Eigen::MatrixXd>(a).householderQ();
  Eigen::VectorXd d(n);
  for (int i = 0; i < n; ++i) d(i) = i < rank ? r.logu(lo, hi) : 0;
  const Eigen::MatrixXd m = q * d.asDiagonal() * q.transpose();
  return (m + m.transpose()) / 2;
}
// Kalman posterior in extended precision
std::pair<Eigen::VectorXd, Eigen::MatrixXd>
posterior(const Eigen::MatrixXd & P, const Eigen::MatrixXd & H, const Eigen::MatrixXd & R, const Eigen::VectorXd & innov)
{
  using M   = Eigen::Matrix<long double, -1, -1>;
  const M p = P.cast<long double>(), h = H.cast<long double>(), hp = h * p, s = hp * h.transpose() + R.cast<long double>();
  const M k = s.partialPivLu().solve(hp).transpose();
  const M d = k * innov.cast<long double>(), q = p - k * hp;
  return {d.cast<double>().col(0), q.cast<double>()};
}
double mineig(const Eigen::MatrixXd & m) { return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m).eigenvalues()(0); }
#endif
template<int N>
static Mat<N> spd(Rng & r, double lo, double hi, int rank = N) { return spdX(r, N, lo, hi, rank); }
template<int N>
static Mat<N> hide_lower(const Mat<N> & m, bool on, double v)
{
  Mat<N> o = m;
  if (on)
    for (int i = 0; i < N; ++i)
      for (int j = 0; j < i; ++j) o(i, j) = v;
  return o;
}

/// dynamics with recorded evaluation times
template<typename G>
struct Dyn
{
  static constexpr int N = int(smooth::Dof<G>);
  int kind{0};  // 0: zero, 1: constant, 2: polynomial in time, 3: general, 4: linear (vector spaces)
  Eigen::Vector<double, N> v, a1, a2;
  Mat<N> A;
  lrf::Fun<N, 1 + lrf::NF<G>> f;
  std::set<double> * times{nullptr};

  template<typename X>
  auto operator()(double t, const X & x) const
  {
    using T = typename ScalarOf<X>::type;
    if (times) times->insert(t);
    Eigen::Vector<T, N> o;
    switch (kind) {
    case 0: o.setConstant(T(0.)); break;
    case 1: for (int i = 0; i < N; ++i) o(i) = T(v(i)); break;
    case 2: for (int i = 0; i < N; ++i) o(i) = T(v(i) + t * a1(i) + t * t * a2(i)); break;
    case 3: return Eigen::Vector<T, N>(f.template operator()<T>(T(t), x));
    default:
      if constexpr (std::is_base_of_v<Eigen::MatrixBase<X>, X>) {
        for (int i = 0; i < N; ++i) {
          o(i) = T(v(i));
          for (int j = 0; j < N; ++j) o(i) += T(A(i, j)) * x(j);
        }
      }
    }
    return o;
  }
};

template<int N, typename G>
static void lin(const Dyn<G> & f, double t, const G & x, Eigen::Vector<double, N> & fv, Mat<N> & A)
{
  fv = f(t, x);
  Mat<N> J;
  for (int i = 0; i < N; ++i) {
    Eigen::Vector<Dual<double>, N> e = Eigen::Vector<Dual<double>, N>::Constant(Dual<double>(0.));
    e(i)                             = Dual<double>(0., 1.);
    const auto y                     = f(t, lrf::bump<Dual<double>>(x, e));
    for (int j = 0; j < N; ++j) J(j, i) = y(j).d;
  }
  A = J - lrf::bracket<G>(fv);
}

/// bracket [a, .] as a matrix is lrf::bracket(a); midpoint rule with n steps
template<typename G, int N = int(smooth::Dof<G>)>
static void midpoint(const Dyn<G> & f, const Mat<N> & Q, double tau, int n, G & x, Mat<N> & P)
{
  const double h = tau / n;
  Eigen::Vector<double, N> fv;
  Mat<N> A;
  for (int k = 0; k < n; ++k) {
    lin<N>(f, k * h, x, fv, A);
    const G xh      = smooth::rplus(x, Eigen::Vector<double, N>(h / 2 * fv));
    const Mat<N> Ph = P + h / 2 * (A * P + P * A.transpose() + Q);
    lin<N>(f, (k + 0.5) * h, xh, fv, A);
    x = smooth::rplus(x, Eigen::Vector<double, N>(h * fv));
    P = P + h * (A * Ph + Ph * A.transpose() + Q);
  }
}
template<typename G, int N = int(smooth::Dof<G>)>
static void euler(const Dyn<G> & f, const Mat<N> & Q, const std::vector<double> & ts, G & x, Mat<N> & P, double * vx = nullptr, double * vp = nullptr)
{
  Eigen::Vector<double, N> fv, fl;
  Mat<N> A, Al, Dl;
  for (std::size_t k = 0; k + 1 < ts.size(); ++k) {
    const double h = ts[k + 1] - ts[k];
    lin<N>(f, ts[k], x, fv, A);
    if (vx) {
      // first-order error terms per step, summed in norm so that they cannot cancel
      const Mat<N> D = A * P + P * A.transpose() + Q;
      if (k) {
        *vx += h * (fv - fl).norm() * (1 + fv.norm());
        *vp += h * ((D - Dl).norm() + 2 * (A - Al).norm() * P.norm());
      }
      fl = fv, Al = A, Dl = D;
    }
    P = (P + h * (A * P + P * A.transpose() + Q)).eval();
    x = smooth::rplus(x, Eigen::Vector<double, N>(h * fv));
  }
}

template<typename G, smooth::diff::Type DT, template<typename...> typename St, bool EULER>
static void predict(Rng & r, const char * name)
{
  constexpr int N = int(smooth::Dof<G>);
  using Tn        = Eigen::Vector<double, N>;
  constexpr bool vec    = smooth::IsCommutative<G> && std::is_base_of_v<Eigen::MatrixBase<G>, G>;
  const double dtol     = DT == smooth::diff::Type::Numerical ? 1e-6 : 1e-9;
  auto rt = [&](double m) {
    Tn v;
    for (auto & e : v) e = m * r.uni(-1, 1);
    return v;
  };
  sf::EKF<G, DT, St> ekf;
  G x = smooth::rplus(smooth::Identity<G>(), rt(1));
  Mat<N> P = spd<N>(r, 1e-3, 3, r.coin(0.2) ? r.ri(0, N) : N);
  ekf.reset(x, P);
  const int calls = r.ri(1, 3);
  std::string hist;
  for (int c = 0; c < calls; ++c) {
    Dyn<G> f;
    std::set<double> times;
    f.kind = r.pick({0, 1, 2, 3, 3, 3, vec ? 4 : 3});
    f.v = rt(1), f.a1 = rt(1), f.a2 = rt(1);
    for (auto & e : f.A.reshaped()) e = r.uni(-1, 1);
    f.f.f.randomize(r, 0.4);
    const Mat<N> Q  = r.coin(0.2) ? Mat<N>(Mat<N>::Zero()) : spd<N>(r, 1e-3, 2, r.ri(1, N));
    const int garb  = r.ri(0, 2);
    const Mat<N> Qg = hide_lower<N>(Q, garb > 0, garb == 1 ? NaN : 1e7);
    const double tau = r.coin(0.06) ? 0. : r.pick({r.uni(0.05, 1), 1., 0.5, 0.3});
    // sub-steps: unset, larger than tau, dividing tau (also with rounding), arbitrary
    const int how = r.ri(0, 4);
    std::optional<double> dt;
    if (how == 1) dt = tau * r.uni(1, 3) + (tau == 0 ? 0.1 : 0);
    if (how == 2) dt = std::max(tau, 0.05) / r.ri(1, 30);
    if (how == 3) dt = r.pick({0.1, 0.01, 0.03});
    if (how == 4) dt = r.uni(0.006, 0.4);
    const double h = dt ? std::min(*dt, tau) : tau;
    f.times = &times;
    const G x0 = ekf.estimate();
    const Mat<N> P0 = ekf.covariance();
    if (dt) {
      if (r.coin()) ekf.predict(f, Qg, tau, dt);
      else ekf.predict(f, Eigen::MatrixXd(Qg), tau, *dt);
    } else ekf.predict(f, Qg, tau);
    f.times = nullptr;
    const G x1 = ekf.estimate();
    const Mat<N> P1 = ekf.covariance();
    hist += vh::fmt("%d%d", f.kind, how);
    const std::string w = vh::fmt("%s call %d kind %d tau=%.17g dt=%.17g garbage %d", name, c, f.kind, tau, dt.value_or(-1), garb);
    vh::count("predictions"), vh::count("time_evaluations", long(times.size()));
    const double sc = 1 + P1.cwiseAbs().maxCoeff() + P0.cwiseAbs().maxCoeff();
    if (!vh::check("finite", P1.allFinite(), w)) return;
    vh::check_le("symmetric", (P1 - P1.transpose()).cwiseAbs().maxCoeff(), 1e-12 * sc, w);
    // evaluation times
    if (times.empty()) { vh::violation("evaluated", "dynamics not evaluated: " + w); return; }
    vh::check("time_range", *times.begin() >= 0 && *times.rbegin() <= tau * (1 + 1e-12), w);
    double gap = *times.begin(), prev = *times.begin();
    for (double t : times) gap = std::max(gap, t - prev), prev = t;
    gap = std::max(gap, tau - prev);
    vh::check_le("substep", gap, h * (1 + 1e-9), w);
    if (tau == 0) {
      vh::check_le("zero_duration", smooth::rminus(x1, x0).cwiseAbs().maxCoeff() + (P1 - P0).cwiseAbs().maxCoeff(), 1e-12 * sc, w);
      vh::count("zero_durations");
      continue;
    }
    const double m = std::max(1., smooth::rminus(x1, x0).norm());
    if (f.kind <= 1) {
      const Tn v = f.kind == 0 ? Tn(Tn::Zero()) : f.v;
      vh::check_le("constant_twist", smooth::rminus(x1, smooth::rplus(x0, Tn(v * tau))).cwiseAbs().maxCoeff(), 1e-10 * m, w);
      vh::count("constant_twists");
    }
    if (f.kind == 0 || (f.kind <= 2 && smooth::IsCommutative<G>)) {
      vh::check_le("random_walk", (P1 - P0 - tau * Q).cwiseAbs().maxCoeff(), dtol * sc, w);
      vh::count("random_walks");
    }
    if (f.kind == 2 && vec && !EULER)
      vh::check_le("time_polynomial",
        smooth::rminus(x1, smooth::rplus(x0, Tn(f.v * tau + f.a1 * tau * tau / 2 + f.a2 * tau * tau * tau / 3))).cwiseAbs().maxCoeff(), 1e-10 * m, w);
    if constexpr (EULER) {
      std::vector<double> ts(times.begin(), times.end());
      ts.push_back(tau);
      G xe      = x0;
      Mat<N> Pe = P0;
      euler(f, Q, ts, xe, Pe);
      vh::check_le("euler_state", smooth::rminus(x1, xe).cwiseAbs().maxCoeff(), 1e-9 * m, w);
      vh::check_le("euler_covariance", (P1 - Pe).cwiseAbs().maxCoeff(), 3 * dtol * sc, w);
      vh::count("euler_comparisons");
    }
    // convergence: a fine prediction against the extrapolated midpoint rule
    if (c + 1 == calls && f.kind >= 1) {
      const int n = 24;
      G xa = x0, xb = x0, xr = x0;
      Mat<N> Pa = P0, Pb = P0, Pr = P0;
      midpoint(f, Q, tau, n, xa, Pa), midpoint(f, Q, tau, 2 * n, xb, Pb);
      Pr             = (4 * Pb - Pa) / 3;
      const Tn d     = smooth::rminus(xa, xb);
      xr             = smooth::rplus(xb, Tn(-d / 3));
      const double s = 1 + Pr.cwiseAbs().maxCoeff();
      const double ex = d.norm(), ep = (Pa - Pb).cwiseAbs().maxCoeff();
      // own Euler error at tau / 16, first order
      std::vector<double> ts;
      for (int i = 0; i <= 16; ++i) ts.push_back(tau * i / 16);
      G x16 = x0;
      Mat<N> P16 = P0;
      euler(f, Q, ts, x16, P16);
      ts.clear();
      for (int i = 0; i <= 32; ++i) ts.push_back(tau * i / 32);
      G x32 = x0;
      Mat<N> P32 = P0;
      double vx = 0, vp = 0;
      euler(f, Q, ts, x32, P32, &vx, &vp);
      const int fine = 200;
      // on groups every stepper that adds stage derivatives in one tangent space is at least first order
      const double fx = (EULER || !vec ? std::max(smooth::rminus(x16, xr).norm() * 16 / fine, smooth::rminus(x32, xr).norm() * 32 / fine) * 6 + 2 * vx * 32 / fine : 0) + ex + 1e-6;
      const double fp = std::max((P16 - Pr).cwiseAbs().maxCoeff() * 16 / fine, (P32 - Pr).cwiseAbs().maxCoeff() * 32 / fine) * 6 + 2 * vp * 32 / fine + ep + 2e-6 * s;
      sf::EKF<G, DT, St> e2;
      e2.reset(x0, P0);
      e2.predict(f, Qg, tau, tau / fine);
      if (s < 1e3 && smooth::rminus(xr, x0).norm() < 2.5) {
        vh::check_le("converges_state", smooth::rminus(e2.estimate(), xr).norm(), fx, w);
        vh::check_le("converges_covariance", (e2.covariance() - Pr).cwiseAbs().maxCoeff(), fp, w);
        vh::count("convergence_comparisons");
      }
      // splitting (time-invariant)
      if (f.kind == 1 || f.kind == 4) {
        sf::EKF<G, DT, St> e3;
        e3.reset(x0, P0);
        const double t1 = tau * r.uni(0.1, 0.9);
        e3.predict(f, Qg, t1, tau / fine), e3.predict(f, Qg, tau - t1, tau / fine);
        vh::check_le("split_state", smooth::rminus(e3.estimate(), e2.estimate()).norm(), 2 * fx, w);
        vh::check_le("split_covariance", (e3.covariance() - e2.covariance()).cwiseAbs().maxCoeff(), 2 * fp, w);
        vh::count("splits");
      }
    }
    vh::nontrivial(w);
  }
  vh::sample(vh::fmt("%s %s", name, hist.c_str()));
}

// ------------------------------------------------------------------ update
template<typename Y, typename G>
struct Meas
{
  static constexpr int NY = int(smooth::Dof<Y>), N = int(smooth::Dof<G>);
  lrf::Fun<NY, 1 + lrf::NF<G>> f;
  Y base;
  template<typename X>
  auto operator()(const X & x) const
  {
    using T = typename ScalarOf<X>::type;
    return smooth::rplus(smooth::cast<T>(base), Eigen::Vector<T, NY>(f.template operator()<T>(T(0.), x)));
  }
};
template<int NY, typename G>
struct LinMeas
{
  static constexpr int N = int(smooth::Dof<G>);
  Eigen::Matrix<double, NY, N> H;
  Eigen::Vector<double, NY> c;
  template<typename X>
  auto operator()(const X & x) const
  {
    using T = typename ScalarOf<X>::type;
    Eigen::Vector<T, NY> o;
    for (int i = 0; i < NY; ++i) {
      o(i) = T(c(i));
      for (int j = 0; j < N; ++j) o(i) += T(H(i, j)) * x(j);
    }
    return o;
  }
};

template<typename G, smooth::diff::Type DT, typename Y>
static bool one_update(Rng & r, sf::EKF<G, DT> & ekf, const char * name, int step)
{
  constexpr int N = int(smooth::Dof<G>), NY = int(smooth::Dof<Y>);
  const double dtol = DT == smooth::diff::Type::Numerical ? 1e-6 : 1e-9;
  Meas<Y, G> h;
  h.f.f.randomize(r, 0.5);
  h.base = smooth::Identity<Y>();
  Eigen::Vector<double, NY> e;
  for (auto & v : e) v = r.uni(-1, 1);
  h.base = smooth::rplus(h.base, e);
  const G x0      = ekf.estimate();
  const Mat<N> P0 = ekf.covariance();
  const Y hv      = h(x0);
  for (auto & v : e) v = r.uni(-1, 1) * r.pick({0., 0.1, 1.});
  const Y y        = smooth::rplus(hv, e);
  const double rlo = r.pick({1e-3, 1e-1, 1.});
  const Mat<NY> R  = spd<NY>(r, rlo, rlo * 30);
  const int garb   = r.ri(0, 2);
  const Mat<NY> Rg = hide_lower<NY>(R, garb > 0, garb == 1 ? NaN : -1e7);
  // linearisation of the measurement
  Eigen::Matrix<double, NY, N> H;
  for (int i = 0; i < N; ++i) {
    Eigen::Vector<Dual<double>, N> d = Eigen::Vector<Dual<double>, N>::Constant(Dual<double>(0.));
    d(i)                             = Dual<double>(0., 1.);
    const auto v = smooth::rminus(h(lrf::bump<Dual<double>>(x0, d)), smooth::cast<Dual<double>>(hv));
    for (int j = 0; j < NY; ++j) H(j, i) = v(j).d;
  }
  const auto [dxX, P1X] = posterior(P0, H, R, smooth::rminus(y, hv));
  const Eigen::Vector<double, N> dx = dxX;
  const Mat<N> P1 = P1X;
  const int form = r.ri(0, 2);
  if (form == 0) ekf.update(h, y, Rg);
  else if (form == 1) ekf.update(h, y, Eigen::MatrixXd(Rg));
  else { const auto & hc = h; ekf.update(hc, Y(y), Rg * 1.0); }
  const std::string w = vh::fmt("%s step %d ny=%d noise %.3g garbage %d", name, step, NY, rlo, garb);
  const Mat<N> Pe     = ekf.covariance();
  vh::count("updates");
  if (!vh::check("finite", Pe.allFinite(), w)) return false;
  const double sc = P0.cwiseAbs().maxCoeff() + 1e-12, amp = 1 + sc * (1 + H.squaredNorm()) / rlo;
  vh::check_le("estimate", smooth::rminus(ekf.estimate(), smooth::rplus(x0, dx)).cwiseAbs().maxCoeff(), dtol * amp * (1 + dx.norm()), w);
  vh::check_le("covariance", (Pe - P1).cwiseAbs().maxCoeff(), dtol * amp * sc, w);
  vh::check_le("symmetric", (Pe - Pe.transpose()).cwiseAbs().maxCoeff(), 1e-13 * sc, w);
  vh::check_le("semidefinite", -mineig(Pe), 10 * dtol * amp * sc, w);
  vh::check_le("no_larger", -mineig(Eigen::MatrixXd(P0 - Pe)), 10 * dtol * amp * sc, w);
  vh::nontrivial(vh::fmt("%s%.17g%.17g", w.c_str(), sc, dx.norm()));
  return true;
}

template<typename G, smooth::diff::Type DT>
static void update(Rng & r, const char * name)
{
  constexpr int N = int(smooth::Dof<G>);
  sf::EKF<G, DT> ekf;
  Eigen::Vector<double, N> e;
  for (auto & v : e) v = r.uni(-1, 1);
  const double s = r.pick({1e-2, 1., 1.});
  ekf.reset(smooth::rplus(smooth::Identity<G>(), e), spd<N>(r, s * 0.01, s, r.coin(0.2) ? r.ri(0, N) : N));
  const int steps = r.ri(1, 6);
  std::string hist;
  for (int k = 0; k < steps; ++k) {
    const int op = r.ri(0, 6);
    hist += char('a' + op);
    bool ok = true;
    switch (op) {
    case 0: {
      const Mat<N> Q = spd<N>(r, 1e-2, 0.2);
      const Mat<N> P = ekf.covariance();
      ekf.predict([](double, const auto & x) { using T = typename ScalarOf<std::remove_cvref_t<decltype(x)>>::type; return Eigen::Vector<T, N>(Eigen::Vector<T, N>::Constant(T(0.))); }, Q, 0.5);
      vh::check_le("interleaved_prediction", (ekf.covariance() - P - 0.5 * Q).cwiseAbs().maxCoeff(), 1e-6, name);
      vh::count("predictions");
      break;
    }
    case 1: ok = one_update<G, DT, Eigen::Vector<double, 1>>(r, ekf, name, k); break;
    case 2: ok = one_update<G, DT, Eigen::Vector<double, 2>>(r, ekf, name, k); break;
    case 3: ok = one_update<G, DT, Eigen::Vector<double, 7>>(r, ekf, name, k); break;
    case 4: ok = one_update<G, DT, smooth::SO3d>(r, ekf, name, k); break;
    case 5: ok = one_update<G, DT, smooth::SO2d>(r, ekf, name, k); break;
    default: { sf::EKF<G, DT> o = ekf; o.reset(smooth::Identity<G>(), Mat<N>::Identity()); ok = one_update<G, DT, Eigen::Vector<double, 3>>(r, ekf, name, k); vh::count("copies"); }
    }
    if (!ok) return;
  }
  vh::sample(vh::fmt("%s %s", name, hist.c_str()));
}

template<int N, int A, int B>
static void order(Rng & r)
{
  using G = Eigen::Vector<double, N>;
  LinMeas<A, G> h1;
  LinMeas<B, G> h2;
  for (auto & v : h1.H.reshaped()) v = r.uni(-1, 1);
  for (auto & v : h1.c) v = r.uni(-1, 1);
  for (auto & v : h2.H.reshaped()) v = r.uni(-1, 1);
  for (auto & v : h2.c) v = r.uni(-1, 1);
  const Mat<A> R1 = spd<A>(r, 1e-2, 1);
  const Mat<B> R2 = spd<B>(r, 1e-2, 1);
  const Mat<N> P = spd<N>(r, 1e-2, 1, r.coin(0.2) ? r.ri(0, N) : N);
  G x, z;
  for (auto & v : x) v = r.uni(-1, 1);
  for (auto & v : z) v = r.uni(-1, 1);
  Eigen::Vector<double, A> y1 = h1(z);
  Eigen::Vector<double, B> y2 = h2(z);
  for (auto & v : y1) v += 0.3 * r.uni(-1, 1);
  for (auto & v : y2) v += 0.3 * r.uni(-1, 1);
  sf::EKF<G, smooth::diff::Type::Autodiff> a, b, c;
  a.reset(x, P), b.reset(x, P), c.reset(x, P);
  a.update(h1, y1, R1), a.update(h2, y2, R2);
  b.update(h2, y2, R2), b.update(h1, y1, R1);
  // both at once
  LinMeas<A + B, G> h;
  h.H << h1.H, h2.H;
  h.c << h1.c, h2.c;
  Eigen::Vector<double, A + B> y;
  y << y1, y2;
  Mat<A + B> R = Mat<A + B>::Zero();
  R.template topLeftCorner<A, A>() = R1, R.template bottomRightCorner<B, B>() = R2;
  c.update(h, y, R);
  const std::string w = vh::fmt("n=%d measurements %d %d", N, A, B);
  vh::check_le("order_estimate", (a.estimate() - b.estimate()).cwiseAbs().maxCoeff(), 1e-8, w);
  vh::check_le("order_covariance", (a.covariance() - b.covariance()).cwiseAbs().maxCoeff(), 1e-9, w);
  vh::check_le("joint_estimate", (a.estimate() - c.estimate()).cwiseAbs().maxCoeff(), 1e-8, w);
  vh::check_le("joint_covariance", (a.covariance() - c.covariance()).cwiseAbs().maxCoeff(), 1e-9, w);
  vh::count("orders_compared");
  vh::nontrivial(vh::fmt("order %s %.17g", w.c_str(), x.norm()));
}

// The same history in two systems of units: every state coordinate, every measurement coordinate and time are rescaled by
// powers of two, which is exact, so the two filters have to agree coordinate by coordinate whatever the orders of magnitude.
template<int N, int NY, smooth::diff::Type DT, template<typename...> typename St>
static void units(Rng & r, const char * name)
{
  using G = Eigen::Vector<double, N>;
  using V = Eigen::Vector<double, N>;
  auto p2 = [&](int m) { return std::ldexp(1., r.ri(-m, m)); };
  const int span = r.pick({0, 4, 20, 40});
  const double base = p2(span);
  V d;
  Eigen::Vector<double, NY> e;
  for (auto & v : d) v = base * p2(std::min(span, 8));
  const double ebase = p2(span);
  for (auto & v : e) v = ebase * p2(std::min(span, 8));
  const double T = p2(r.pick({0, 10, 30}));
  sf::EKF<G, DT, St> a, b;
  V x;
  for (auto & v : x) v = r.uni(-1, 1) * r.pick({1., 1., 1e4});
  const Mat<N> P = spd<N>(r, 1e-2, 3, r.coin(0.2) ? r.ri(1, N) : N);
  const auto D = d.asDiagonal();
  a.reset(x, P), b.reset(D * x, D * P * D);
  const int steps = r.ri(1, 5);
  for (int k = 0; k < steps; ++k) {
    const bool pred = WHAT == 1 ? !r.coin(0.25) : r.coin(0.25);
    const std::string w = vh::fmt("%s step %d %s span %d units %.3g/%.3g time %.3g", name, k, pred ? "predict" : "update", span, base, ebase, T);
    double loose = 1;
    const V xb = a.estimate();
    const Mat<N> Pb = a.covariance();
    if (pred) {
      Mat<N> A;
      V c;
      for (auto & v : A.reshaped()) v = r.uni(-1, 1);
      for (auto & v : c) v = r.uni(-1, 1);
      const Mat<N> Q = spd<N>(r, 1e-3, 1, r.ri(1, N));
      const double tau = r.uni(0.05, 1);
      std::optional<double> da, db;
      if (r.coin(0.7)) da = tau * r.pick({0.03, 0.25, 0.5, 1., 2., r.uni(0.05, 1.1)}), db = *da * T;
      const V ct = c;
      long na = 0, nb = 0;
      auto fa = [&](double t, const auto & z) {
        using S = typename ScalarOf<std::remove_cvref_t<decltype(z)>>::type;
        ++na;
        Eigen::Vector<S, N> o;
        for (int i = 0; i < N; ++i) {
          o(i) = S(ct(i) * (1 + t));
          for (int j = 0; j < N; ++j) o(i) += S(A(i, j)) * z(j);
        }
        return o;
      };
      auto fb = [&](double t, const auto & z) {
        using S = typename ScalarOf<std::remove_cvref_t<decltype(z)>>::type;
        ++nb;
        Eigen::Vector<S, N> o;
        for (int i = 0; i < N; ++i) {
          o(i) = S(ct(i) * (1 + t / T) * d(i) / T);
          for (int j = 0; j < N; ++j) o(i) += S(A(i, j) * (d(i) / d(j) / T)) * z(j);
        }
        return o;
      };
      a.predict(fa, Q, tau, da), b.predict(fb, Mat<N>(D * Q * D / T), tau * T, db);
      vh::check("unit_evaluations", na == nb, w + vh::fmt(" %ld and %ld evaluations of the dynamics", na, nb));
      vh::count("unit_predictions");
    } else {
      LinMeas<NY, G> h, hb;
      for (auto & v : h.H.reshaped()) v = r.uni(-1, 1);
      for (auto & v : h.c) v = r.uni(-1, 1);
      hb.c = h.c.cwiseProduct(e);
      for (int i = 0; i < NY; ++i)
        for (int j = 0; j < N; ++j) hb.H(i, j) = h.H(i, j) * (e(i) / d(j));
      const double noise = r.pick({1e-4, 1e-1, 1., 1e4});
      const Mat<NY> R = spd<NY>(r, noise, 10 * noise);
      Eigen::Vector<double, NY> dy;
      const double inn = r.pick({0., 1., 1., 1e3, 1e6});
      for (auto & v : dy) v = inn * r.uni(-1, 1);
      const Eigen::Vector<double, NY> y = h(V(xb)) + dy, hx = h(V(xb));
      const auto E = e.asDiagonal();
      a.update(h, y, R), b.update(hb, Eigen::Vector<double, NY>(E * y), Mat<NY>(E * R * E));
      const auto [dxX, P1X] = posterior(Pb, h.H, R, Eigen::VectorXd(y - hx));
      loose = 1 + Pb.cwiseAbs().maxCoeff() * (1 + h.H.squaredNorm()) / noise;
      vh::check_le("magnitude_estimate", (a.estimate() - xb - dxX).cwiseAbs().maxCoeff(), 1e-10 * loose * (1 + xb.cwiseAbs().maxCoeff() + dxX.cwiseAbs().maxCoeff() + inn), w);
      vh::check_le("magnitude_covariance", (a.covariance() - P1X).cwiseAbs().maxCoeff(), 1e-10 * loose * Pb.cwiseAbs().maxCoeff(), w);
      vh::count("unit_updates");
    }
    const V za = a.estimate(), zb = D.inverse() * b.estimate();
    const Mat<N> Za = a.covariance(), Zb = D.inverse() * b.covariance() * D.inverse();
    if (!vh::check("unit_finite", za.allFinite() && zb.allFinite() && Za.allFinite() && Zb.allFinite(), w)) return;
    const double mx = 1 + xb.cwiseAbs().maxCoeff() + za.cwiseAbs().maxCoeff();
    vh::check_le("unit_estimate", (za - zb).cwiseAbs().maxCoeff(), 1e-10 * loose * mx, w);
    vh::check_le("unit_covariance", (Za - Zb).cwiseAbs().maxCoeff(), 1e-10 * loose * (Pb.cwiseAbs().maxCoeff() + Za.cwiseAbs().maxCoeff()), w);
    // stay on the same history
    a.reset(za, Za), b.reset(D * za, D * Za * D);
    vh::nontrivial(vh::fmt("%s%.17g", w.c_str(), za.norm()));
  }
}

using smooth::diff::Type;
namespace od = boost::numeric::odeint;
using R2 = Eigen::Vector2d;
using R3 = Eigen::Vector3d;
using B  = smooth::Bundle<smooth::SO2d, Eigen::Vector2d>;
void run_0(Rng &);
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
void run_4(Rng &);
void run_5(Rng &);
#if PART == 0
void run_0(Rng & r)
{
#if WHAT == 1
  predict<R3, Type::Default, od::euler, true>(r, "R3-default-euler");
#else
  update<R3, Type::Default>(r, "R3-default");
#endif
}
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3, run_4, run_5};
  vh::group(WHAT == 1 ? "predictions" : "updates", 90, 40000, 1, [](Rng & r, long) { fs[r.ri(0, 5)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r)
{
#if WHAT == 1
  predict<smooth::SO3d, Type::Autodiff, od::runge_kutta4, false>(r, "SO3-autodiff-rk4");
#else
  update<smooth::SO3d, Type::Autodiff>(r, "SO3-autodiff");
#endif
}
#elif PART == 2
void run_2(Rng & r)
{
#if WHAT == 1
  predict<smooth::SE2d, Type::Numerical, od::euler, true>(r, "SE2-numerical-euler");
#else
  update<smooth::SE2d, Type::Numerical>(r, "SE2-numerical");
#endif
}
#elif PART == 3
void run_3(Rng & r)
{
#if WHAT == 1
  if (r.coin()) predict<R2, Type::Default, od::runge_kutta4, false>(r, "R2-default-rk4");
  else if (r.coin()) units<3, 2, Type::Autodiff, od::runge_kutta4>(r, "units R3 rk4");
  else units<2, 3, Type::Autodiff, od::euler>(r, "units R2 euler");
#else
  const int k = r.ri(0, 3);
  if (k == 0) order<4, 2, 3>(r);
  else if (k == 1) order<2, 1, 5>(r);
  else if (k == 2) units<3, 2, Type::Autodiff, od::euler>(r, "units R3");
  else units<2, 4, Type::Autodiff, od::euler>(r, "units R2");
#endif
}
#elif PART == 4
void run_4(Rng & r)
{
#if WHAT == 1
  predict<smooth::SO3d, Type::Default, od::euler, true>(r, "SO3-default-euler");
#else
  update<Eigen::Vector<double, 5>, Type::Numerical>(r, "R5-numerical");
#endif
}
#elif PART == 5
void run_5(Rng & r)
{
#if WHAT == 1
  predict<B, Type::Autodiff, od::runge_kutta4, false>(r, "SO2xR2-autodiff-rk4");
#else
  update<B, Type::Autodiff>(r, "SO2xR2-autodiff");
#endif
}
#endif
