// C01 / C02 (WHAT = 1 / 2): model predictive control against an independent solution of the documented tracking problem.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/mpc.hpp>
#include <chrono>
#include "lgr.hpp"
#include "ipm.hpp"
#include "lierf.hpp"
#include "meshgen.hpp"
using namespace mg;
namespace sf = smooth::feedback;
using lrf::Dual;
using smooth::diff::Type;
constexpr double inf = std::numeric_limits<double>::infinity();

template<typename T>
double secs(const T & t)
{
  if constexpr (std::is_arithmetic_v<T>) return t;
  else if constexpr (requires { t.time_since_epoch(); }) return std::chrono::duration<double>(t.time_since_epoch()).count();
  else return std::chrono::duration<double>(t).count();
}
template<typename T>
T at(double s)
{
  if constexpr (std::is_arithmetic_v<T>) return s;
  else if constexpr (requires(T t) { t.time_since_epoch(); }) return T(std::chrono::duration_cast<typename T::duration>(std::chrono::duration<double>(s)));
  else return std::chrono::duration_cast<T>(std::chrono::duration<double>(s));
}

/// function of (time, state, input) where the time is set from outside, or not at all
template<int R, typename X, typename U, typename T, bool Timed>
struct Fn
{
  static constexpr int Z = 1 + lrf::NF<X> + lrf::NF<U>;
  rf::Base<R, Z> f;
  double tm{0};
  template<typename A, typename B>
  auto operator()(const A & x, const B & u) const
  {
    const auto fx = lrf::feat(x);
    using S       = typename decltype(fx)::Scalar;
    return f.template value<S>(rf::cat<S, Z>(S(Timed ? tm : 0), fx, lrf::feat(u)));
  }
  void set_time(T t)
    requires(Timed)
  {
    tm = secs(t);
  }
};

template<typename T, typename X, typename U, std::size_t Kmesh, bool Timed, Type DT>
struct Setup
{
  static constexpr int NX = int(smooth::Dof<X>), NU = int(smooth::Dof<U>);
  using F   = Fn<NX, X, U, T, Timed>;
  using CR  = Fn<NU, X, U, T, Timed>;
  using MPC = sf::MPC<T, X, U, F, CR, Kmesh, DT>;

  F f;
  CR cr;
  Eigen::Vector<double, NU> crl, cru;
  sf::MPCParams prm;
  lrf::Traj<X> xd;
  lrf::Traj<U> ud;
  bool has_x{true}, has_u{true};
  double t0x{0}, t0u{0};
  sf::MPCWeights<X, U> w;
  bool has_w{true};

  void draw_weights(Rng & r)
  {
    auto spd = [&](auto & M, double reg) {
      const int kind = r.ri(0, 3);
      if (kind == 0) M.setIdentity();
      else if (kind == 1) { M.setZero(); for (auto & e : M.diagonal()) e = r.uni(0.1, 3); }
      else { auto B = M; for (auto & e : B.reshaped()) e = r.coin(0.3) ? 0 : r.uni(-1, 1); M = B * B.transpose(); M.diagonal().array() += reg; }
    };
    spd(w.Q, r.pick({0., 0.1, 1.}));
    spd(w.Qtf, r.pick({0., 1.}));
    if (r.coin(0.2)) w.Qtf *= 10;
    if (r.coin(0.15)) w.Qtf.setZero();
    if (r.coin(0.1)) w.Q.setZero();
    spd(w.R, 0.2);
    has_w = true;
  }
  void draw_trajs(Rng & r)
  {
    has_x = r.coin(0.85), has_u = r.coin(0.85);
    if (has_x) xd.randomize(r);
    else xd = lrf::Traj<X>{smooth::Default<X>(), Eigen::Vector<double, NX>::Zero(), 0, 1};
    if (has_u) ud.randomize(r);
    else ud = lrf::Traj<U>{smooth::Default<U>(), Eigen::Vector<double, NU>::Zero(), 0, 1};
    t0x = r.coin() ? 0 : 0.25 * r.ri(-8, 8), t0u = r.coin() ? 0 : 0.25 * r.ri(-8, 8);
  }
  void draw(Rng & r)
  {
    f.f.randomize(r, std::is_same_v<X, Eigen::Vector<double, NX>> ? 0.7 : 0.25);
    cr.f.randomize(r, 0.2);
    // input dependence dominated by an invertible diagonal: the constraints are always feasible
    for (int j = 0; j < NU; ++j) {
      auto & row = cr.f.rows[std::size_t(j)];
      for (int i = F::Z - lrf::NF<U>; i < F::Z; ++i) row.w(i) = 0, row.Q.row(i).setZero(), row.Q.col(i).setZero(), row.b(i) = 0;
      row.b(F::Z - lrf::NF<U> + j) = r.pick({1., -1., 0.5, 2.});
      const double c = r.uni(-0.5, 0.5), wd = r.pick({0.1, 0.5, 2., 20.});
      crl(j) = r.coin(0.15) ? -inf : c - wd * r.u01(), cru(j) = r.coin(0.15) ? inf : c + wd * r.u01();
      if (r.coin(0.05)) crl(j) = cru(j) = c;
    }
    prm.K  = std::size_t(r.ri(1, 9));
    prm.tf = r.pick({1., r.uni(0.1, 1), r.uni(1, 3)});
    prm.warmstart = r.coin(0.7);
    prm.qp.eps_abs = 1e-9, prm.qp.eps_rel = 1e-9, prm.qp.max_iter = 40000;
    prm.qp.polish = true;
    prm.qp.scaling = r.coin(0.8);
    draw_trajs(r);
    draw_weights(r);
    if (r.coin(0.1)) has_w = false, w = {};
  }
  MPC make(Rng & r) const
  {
    if (r.coin()) return MPC(f, cr, crl, cru, prm);
    return MPC(F(f), CR(cr), Eigen::Vector<double, NU>(crl), Eigen::Vector<double, NU>(cru), sf::MPCParams(prm));
  }
  void give_x(Rng & r, MPC & m, double shift = 0) const
  {
    const double tz = t0x + shift;
    if (r.coin()) m.set_xdes([tr = xd, tz](T t) -> X { return tr(secs(t) - tz); }, [tr = xd, tz](T t) -> smooth::Tangent<X> { return tr.vel(secs(t) - tz); });
    else if (r.coin()) {
      const std::function<X(T)> a = [tr = xd, tz](T t) -> X { return tr(secs(t) - tz); };
      const std::function<smooth::Tangent<X>(T)> b = [tr = xd, tz](T t) -> smooth::Tangent<X> { return tr.vel(secs(t) - tz); };
      m.set_xdes(a, b);
    } else m.set_xdes_rel(xd, at<T>(tz));
  }
  void give_u(Rng & r, MPC & m, double shift = 0) const
  {
    const double tz = t0u + shift;
    if (r.coin()) m.set_udes([tr = ud, tz](T t) -> U { return tr(secs(t) - tz); });
    else if (r.coin()) {
      const std::function<U(T)> a = [tr = ud, tz](T t) -> U { return tr(secs(t) - tz); };
      m.set_udes(a);
    } else m.set_udes_rel(ud, at<T>(tz));
  }
  void configure(Rng & r, MPC & m, double shift = 0) const
  {
    const int order = r.ri(0, 2);
    for (int k = 0; k < 3; ++k) switch ((k + order) % 3) {
      case 0: if (has_w) m.set_weights(w); break;
      case 1: if (has_x) give_x(r, m, shift); break;
      default: if (has_u) give_u(r, m, shift);
      }
  }
  X state(Rng & r, double t) const
  {
    Eigen::Vector<double, NX> e;
    const double mag = r.pick({0.05, 0.5, 1., 0.});
    for (auto & v : e) v = mag * r.uni(-1, 1);
    return smooth::rplus(xd(t - t0x), e);
  }
};

#if WHAT == 1
template<typename S, typename T, typename X, typename U, std::size_t Kmesh>
static void solve_and_compare(Rng & r, const S & s, typename S::MPC & mpc, double t, const std::string & where)
{
  constexpr int NX = S::NX, NU = S::NU;
  constexpr bool vector = std::is_same_v<X, Eigen::Vector<double, NX>>;
  const X x = s.state(r, t);
  std::vector<U> us;
  std::vector<X> xs;
  if (r.coin(0.3)) us.resize(3), xs.resize(40);
  const auto [u, code] = mpc(at<T>(t), x, us, xs);

  // reference
  Model md{Kmesh, Kmesh, {}};
  const std::size_t ni = (s.prm.K + Kmesh - 1) / Kmesh;
  for (std::size_t i = 0; i < ni; ++i) md.v.push_back({Kmesh, double(i) / double(ni)});
  const lgr::Grid g(md);
  const long N = long(g.N()), n = NX * (N + 1) + NU * N, uB = NX * (N + 1);
  if (!vh::check("sizes", long(us.size()) == N && long(xs.size()) == N + 1, vh::fmt("%zu inputs %zu states for N=%ld %s", us.size(), xs.size(), N, where.c_str()))) return;
  const double tf = s.prm.tf;
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n), E = Eigen::MatrixXd::Zero(NX * (N + 1), n), C = Eigen::MatrixXd::Zero(NU * N, n);
  Eigen::VectorXd e = Eigen::VectorXd::Zero(NX * (N + 1)), cl(NU * N), cu(NU * N);
  using D = Dual<double>;
  std::vector<X> xd;
  std::vector<U> ud;
  for (long i = 0; i <= N; ++i) {
    const double ti = t + tf * double(g.tau[std::size_t(i)]);
    xd.push_back(s.xd(ti - s.t0x));
    if (i < N) ud.push_back(s.ud(ti - s.t0u));
  }
  for (long i = 0; i < N; ++i) {
    const std::size_t k = std::size_t(i);
    const double ti     = t + tf * double(g.tau[k]);
    auto f  = s.f;
    auto cr = s.cr;
    f.tm = cr.tm = ti;
    const Eigen::Vector<double, NX> f0 = f(xd[k], ud[k]), v = s.xd.vel(ti - s.t0x);
    const Eigen::Vector<double, NU> c0 = cr(xd[k], ud[k]);
    for (int c = 0; c < NX + NU; ++c) {
      Eigen::Vector<D, NX> ex;
      Eigen::Vector<D, NU> eu;
      for (int j = 0; j < NX; ++j) ex(j) = D(0., c == j ? 1. : 0.);
      for (int j = 0; j < NU; ++j) eu(j) = D(0., c - NX == j ? 1. : 0.);
      const auto xx = lrf::bump<D>(xd[k], ex);
      const auto uu = lrf::bump<D>(ud[k], eu);
      const long col = c < NX ? NX * i + c : uB + NU * i + c - NX;
      const auto fv = f(xx, uu);
      const auto cv = cr(xx, uu);
      for (int j = 0; j < NX; ++j) E(NX * i + j, col) += tf * fv(j).d;
      for (int j = 0; j < NU; ++j) C(NU * i + j, col) += cv(j).d;
    }
    E.block(NX * i, NX * i, NX, NX) -= tf / 2 * lrf::bracket<X>(f0 + v);
    const std::size_t iv = g.ival(k), first = g.first[iv];
    for (std::size_t q = 0; q <= g.K[iv]; ++q)
      for (int j = 0; j < NX; ++j) E(NX * i + j, NX * long(first + q) + j) -= double(lgr::rule(g.K[iv]).D[q][k - first] * 2 / g.len[iv]);
    e.segment(NX * i, NX) = -tf * (f0 - v);
    cl.segment(NU * i, NU) = s.crl - c0, cu.segment(NU * i, NU) = s.cru - c0;
    H.block(NX * i, NX * i, NX, NX)           = double(g.w[k]) * tf * s.w.Q;
    H.block(uB + NU * i, uB + NU * i, NU, NU) = double(g.w[k]) * tf * s.w.R;
  }
  H.block(NX * N, NX * N, NX, NX) += s.w.Qtf;
  E.block(NX * N, 0, NX, NX).setIdentity();
  e.tail(NX) = smooth::rminus(x, xd.front());
  std::vector<Eigen::RowVectorXd> G;
  std::vector<double> h;
  Eigen::MatrixXd Ex = E;
  Eigen::VectorXd ex = e;
  for (long i = 0; i < NU * N; ++i) {
    if (cl(i) == cu(i)) {
      Ex.conservativeResize(Ex.rows() + 1, n), ex.conservativeResize(ex.size() + 1);
      Ex.bottomRows(1) = C.row(i), ex(ex.size() - 1) = cl(i);
      continue;
    }
    if (!std::isinf(cl(i))) G.push_back(-C.row(i)), h.push_back(-cl(i));
    if (!std::isinf(cu(i))) G.push_back(C.row(i)), h.push_back(cu(i));
  }
  Eigen::MatrixXd Gm(long(G.size()), n);
  Eigen::VectorXd hm(long(G.size()));
  for (std::size_t i = 0; i < G.size(); ++i) Gm.row(long(i)) = G[i], hm(long(i)) = h[i];
  const Ipm ref(H, Ex, ex, Gm, hm);
  if (!ref.ok || ref.d.cwiseAbs().maxCoeff() > 1e3 || (!vector && ref.d.head(uB).cwiseAbs().maxCoeff() > 2)) { vh::count("reference_unusable"); return; }
  if (code == sf::QPSolutionStatus::MaxIterations || code == sf::QPSolutionStatus::PolishFailed) { vh::count("not_converged"); return; }
  if (!vh::check("optimal", code == sf::QPSolutionStatus::Optimal, vh::fmt("code %d for a feasible problem, %s", int(code), where.c_str()))) return;
  vh::count("optima_compared");
  Eigen::VectorXd d(n);
  for (long i = 0; i <= N; ++i) {
    d.segment(NX * i, NX) = smooth::rminus(xs[std::size_t(i)], xd[std::size_t(i)]);
    if (i < N) d.segment(uB + NU * i, NU) = smooth::rminus(us[std::size_t(i)], ud[std::size_t(i)]);
  }
  const double sc = 1 + ref.d.cwiseAbs().maxCoeff();
  bool active = false;
  for (std::size_t i = 0; i < G.size(); ++i) active = active || hm(long(i)) - Gm.row(long(i)).dot(ref.d) < 1e-7;
  if (active) vh::count("active_constraints");
  const std::string at = where + vh::fmt(" N=%ld tf=%.4g t=%.4g%s", N, tf, t, active ? " active" : "");
  vh::check_le("first-input", smooth::rminus(u, us[0]).cwiseAbs().maxCoeff(), 1e-12 * sc, at);
  vh::check_le("starts-at-state", smooth::rminus(xs[0], x).cwiseAbs().maxCoeff(), 1e-6 * sc, at);
  const double es = 1 + E.cwiseAbs().maxCoeff();
  vh::check_le("dynamics", (E * d - e).cwiseAbs().maxCoeff(), 1e-6 * sc * es, at);
  const Eigen::VectorXd cd = C * d;
  double worst = 0;
  for (long i = 0; i < NU * N; ++i) worst = std::max({worst, cl(i) - cd(i), cd(i) - cu(i)});
  vh::check_le("constraints", worst, 1e-6 * sc, at);
  const double c1 = 0.5 * d.dot(H * d), c0 = 0.5 * ref.d.dot(H * ref.d);
  vh::check_le("cost", std::fabs(c1 - c0), 1e-6 * (1 + c0), at + vh::fmt(" cost %.10g optimum %.10g", c1, c0));
  vh::check_le("inputs", (d - ref.d).tail(NU * N).cwiseAbs().maxCoeff(), 2e-4 * sc, at);
}
#endif

template<typename T, typename X, typename U, std::size_t Kmesh, bool Timed, Type DT>
static void one(Rng & r, const char * name)
{
  using S = Setup<T, X, U, Kmesh, Timed, DT>;
  S s;
  s.draw(r);
  auto mpc = s.make(r);
  vh::detail(vh::fmt("%s Nx%d Nu%d Kmesh%zu K%zu tf %.4g timed %d", name, S::NX, S::NU, Kmesh, s.prm.K, s.prm.tf, int(Timed)));
  auto time = [&] { return 0.125 * r.ri(-40, 80); };
#if WHAT == 1
  s.configure(r, mpc);
  const int calls = r.ri(1, 3);
  for (int c = 0; c < calls; ++c) {
    if (c > 0 && r.coin(0.5)) {
      if (r.coin()) s.draw_weights(r), mpc.set_weights(s.w);
      else {
        s.draw_trajs(r);
        s.has_x = s.has_u = true;
        s.give_x(r, mpc), s.give_u(r, mpc);
      }
    }
    solve_and_compare<S, T, X, U, Kmesh>(r, s, mpc, time(), vh::fmt("%s call %d", name, c));
  }
#else
  // an arbitrary history on the controller and on its copies; every controller is followed by the configuration it has
  s.configure(r, mpc);
  struct Other { typename S::MPC m; S cfg; };
  std::vector<Other> others;
  auto alter = [&](S & q, typename S::MPC & m) {  // change part of the configuration
    const int what = r.ri(0, 5);
    S n = q;
    n.draw_trajs(r), n.draw_weights(r);
    if (what == 0 || what == 5) {
      // everything, or just one of the weights
      const int one = r.ri(0, 4);
      if (one != 1 && one != 2) q.w.Qtf = n.w.Qtf;
      if (one != 0 && one != 2) q.w.Q = n.w.Q;
      if (one != 0 && one != 1) q.w.R = n.w.R;
      q.has_w = true, m.set_weights(q.w);
    }
    if (what == 1 || what == 3 || what == 5) q.xd = n.xd, q.t0x = n.t0x, q.has_x = true, q.give_x(r, m);
    if (what == 2 || what == 3 || what == 5) q.ud = n.ud, q.t0u = n.t0u, q.has_u = true, q.give_u(r, m);
    if (what == 4) m.reset_warmstart();
  };
  const int steps = r.ri(1, 10);
  std::string hist;
  for (int k = 0; k < steps; ++k) {
    const int op = r.ri(0, 9);
    hist += char('0' + op);
    switch (op) {
    case 0: case 1: { const double t = time(); (void) mpc(at<T>(t), s.state(r, t)); vh::count("calls"); break; }
    case 2: case 3: case 4: alter(s, mpc); break;
    case 5: others.push_back({mpc, s}); break;
    case 6: { typename S::MPC tmp(std::move(mpc)); mpc = std::move(tmp); break; }
    case 7: { typename S::MPC tmp; tmp = mpc; std::swap(tmp, mpc); others.push_back({std::move(tmp), s}); break; }
    case 8: if (!others.empty()) { auto & o = others[std::size_t(r.ri(0, int(others.size()) - 1))]; mpc = o.m, s = o.cfg; } break;
    default: mpc = *&mpc; break;  // self assignment
    }
  }
  if (r.coin(0.3)) s.has_x = s.has_u = s.has_w = true, s.configure(r, mpc), hist += 'c';
  vh::count("histories");
  // changes to copies must not reach the controller
  typename S::MPC last = mpc;
  others.push_back({last, s});
  for (auto & [o, cfg] : others) {
    if (r.coin(0.8)) alter(cfg, o);
    if (r.coin(0.5)) { const double t = time(); (void) o(at<T>(t), cfg.state(r, t)); }
    vh::count("copies_changed");
  }
  const double t = time();
  const X x = s.state(r, t);
  auto fresh = s.make(r);
  s.configure(r, fresh);
  std::vector<U> ua, ub;
  std::vector<X> xa, xb;
  const auto [u0, c0] = fresh(at<T>(t), x, ua, xa);
  const auto [u1, c1] = mpc(at<T>(t), x, ub, xb);
  auto same = [&](const char * what, const U & a, sf::QPSolutionStatus ca, const U & b, sf::QPSolutionStatus cb) {
    auto soft = [](auto c) { return c == sf::QPSolutionStatus::MaxIterations || c == sf::QPSolutionStatus::PolishFailed; };
    if (soft(ca) || soft(cb)) { vh::count("not_converged"); return; }
    const Eigen::VectorXd diff = smooth::rminus(a, b);
    vh::count("answers_compared");
    if (!vh::check(std::string(what) + "-code", ca == cb, vh::fmt("codes %d and %d, history %s", int(ca), int(cb), hist.c_str()))) return;
    if (ca != sf::QPSolutionStatus::Optimal) return;
    vh::check_le(what, diff.cwiseAbs().maxCoeff(), 2e-3 * (1 + smooth::rminus(a, smooth::Default<U>()).cwiseAbs().maxCoeff()), "history " + hist);
  };
  same("history", u0, c0, u1, c1);
  vh::check("history-trajectories", ua.size() == ub.size() && xa.size() == xb.size(), "");
  const auto [u2, c2] = mpc(at<T>(t), x);
  same("repeated", u1, c1, u2, c2);
  const auto [u3, c3] = last(at<T>(t), x);  // configured before its source was used, never changed afterwards
  same("copy", u1, c1, u3, c3);
  if constexpr (!Timed) {
    const double shift = 0.5 * r.ri(-2000, 2000);
    auto moved = s.make(r);
    s.configure(r, moved, shift);
    const auto [u4, c4] = moved(at<T>(t + shift), x);
    same("time-shift", u0, c0, u4, c4);
    vh::count("shifts");
  }
#endif
  vh::nontrivial(vh::fmt("%s%zu%.17g%.17g", name, s.prm.K, s.prm.tf, s.f.f.rows[0].c));
  vh::sample(vh::fmt("%s K%zu tf %.4g crl(0) %.4g cru(0) %.4g", name, s.prm.K, s.prm.tf, s.crl(0), s.cru(0)));
}

using V1 = Eigen::Vector<double, 1>;
#if PART == 0
void run_0(Rng & r) { one<double, Eigen::Vector2d, V1, 4, false, Type::Autodiff>(r, "R2"); }
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3};
  vh::group("controllers", 60, 30000, 1, [](Rng & r, long) { fs[r.ri(0, 3)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { one<std::chrono::nanoseconds, Eigen::Vector2d, Eigen::Vector3d, 2, true, Type::Numerical>(r, "R2-3in-timed"); }
#elif PART == 2
void run_2(Rng & r) { one<std::chrono::time_point<std::chrono::steady_clock, std::chrono::nanoseconds>, smooth::SE2d, Eigen::Vector2d, 3, false, Type::Default>(r, "SE2"); }
#elif PART == 3
void run_3(Rng & r) { one<double, smooth::Bundle<smooth::SO3d, Eigen::Vector2d>, Eigen::Vector2d, 5, true, Type::Default>(r, "SO3xR2-timed"); }
#endif
