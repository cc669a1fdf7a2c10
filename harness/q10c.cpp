// Q10 (everything but the QP solver): controllers, filters, transcriptions and mesh functions used from several
// threads.  Every job is a deterministic function of its own objects and of shared constants; it is run once
// alone and once together with others, in either order, and must give the same bits.
#include <smooth/compat/autodiff.hpp>
#if PART == 1 || PART == 2
#include <smooth/feedback/mpc.hpp>
#include "lierf.hpp"
#elif PART == 3
#include <smooth/feedback/collocation/dyn_error.hpp>
#include <smooth/feedback/ocp_to_nlp.hpp>
#include <smooth/feedback/ocp_to_qp.hpp>
#include <smooth/feedback/ocp_flatten.hpp>
#include <smooth/feedback/utils/sparse.hpp>
#include "ocpgen.hpp"
#include "lierf.hpp"
#else
#include <smooth/feedback/asif.hpp>
#include <smooth/feedback/ekf.hpp>
#include <smooth/feedback/pid.hpp>
#include "lierf.hpp"
#endif
#include <barrier>
#include <thread>
#include "vh.hpp"
namespace sf = smooth::feedback;
using vh::Rng;
using Out = std::vector<double>;
using Job = std::function<void(Out &)>;

static void put(Out & o, const auto & v)
{
  if constexpr (std::is_arithmetic_v<std::decay_t<decltype(v)>>) o.push_back(double(v));
  else if constexpr (requires { v.nonZeros(); v.outerSize(); v.valuePtr(); }) {
    for (int k = 0; k < v.outerSize(); ++k)
      for (typename std::decay_t<decltype(v)>::InnerIterator it(v, k); it; ++it) o.push_back(double(it.row())), o.push_back(double(it.col())), o.push_back(it.value());
  } else
    for (Eigen::Index i = 0; i < v.size(); ++i) o.push_back(v.reshaped()(i));
}

/// make(t) gives a fresh job for thread t, the same at every call
static void twice(Rng & r, const char * name, int T, const std::function<Job(int)> & make, const std::string & sig)
{
  vh::detail(vh::fmt("%s threads=%d %s", name, T, sig.c_str()));
  std::vector<Out> seq(std::size_t(T), Out{}), par = seq;
  auto alone = [&] {
    for (int t = 0; t < T; ++t) make(t)(seq[std::size_t(t)]);
  };
  const bool first = r.coin();
  if (first) alone();
  std::vector<Job> js;
  std::vector<uint64_t> jit;
  for (int t = 0; t < T; ++t) js.push_back(make(t)), jit.push_back(r.next());
  std::barrier bar(T);
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      vh::tl_worker = true;
      bar.arrive_and_wait();
      for (uint64_t z = jit[std::size_t(t)] % 2000; z; --z) asm volatile("");  // injected delay
      js[std::size_t(t)](par[std::size_t(t)]);
    });
  for (auto & x : th) x.join();
  if (!first) alone();
  for (int t = 0; t < T; ++t) {
    const Out &a = seq[std::size_t(t)], &b = par[std::size_t(t)];
    vh::count(std::string("parallel:") + name);
    vh::check("parallel-differs", a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0), vh::fmt("%s thread %d of %d", name, t, T));
  }
  vh::nontrivial(std::string(name) + sig + vh::fmt("%d%llx", T, static_cast<unsigned long long>(jit[0])));
  vh::sample(vh::fmt("%s %d threads %s", name, T, sig.c_str()));
}

#if PART == 1 || PART == 2
using lrf::Traj;
template<typename X, typename U, bool Timed>
struct DynF
{
  lrf::Fun<int(smooth::Dof<X>), 1 + lrf::NF<X> + lrf::NF<U>> f;
  double tm{0};
  template<typename A, typename B>
  auto operator()(const A & x, const B & u) const
  {
    using S = typename A::Scalar;
    return f.template operator()<S>(S(Timed ? tm : 0.), x, u);
  }
  void set_time(double t)
    requires(Timed)
  { tm = t; }
};
template<typename U>
struct BoundF
{
  template<typename A, typename B>
  auto operator()(const A &, const B & u) const { return Eigen::Vector<typename B::Scalar, int(smooth::Dof<U>)>(u); }
};
template<typename X, typename U, std::size_t Kmesh, smooth::diff::Type DT, bool Timed>
static void mpcs(Rng & r, const char * name)
{
  constexpr int NX = int(smooth::Dof<X>), NU = int(smooth::Dof<U>);
  using F  = DynF<X, U, Timed>;
  using CR = BoundF<U>;
  using MPC = sf::MPC<double, X, U, F, CR, Kmesh, DT>;
  F f;
  f.f.f.randomize(r, 0.3);
  sf::MPCParams prm{.K = std::size_t(r.ri(1, 5)), .tf = r.uni(0.5, 2), .warmstart = r.coin(0.7)};
  prm.qp.max_iter = 400;
  const Eigen::Vector<double, NU> cu = Eigen::Vector<double, NU>::Constant(r.uni(0.1, 1));
  MPC anc(f, CR{}, -cu, cu, prm);
  std::vector<Traj<X>> xd(8);
  std::vector<Traj<U>> ud(8);
  for (auto & t : xd) t.randomize(r);
  for (auto & t : ud) t.randomize(r);
  auto setx = [&xd](MPC & m, int i, bool rel) {
    const auto & tr = xd[std::size_t(i)];
    if (rel) m.set_xdes_rel(tr, 0.5);
    else m.set_xdes([tr](double t) -> X { return tr(t); }, [tr](double t) -> smooth::Tangent<X> { return tr.vel(t); });
  };
  auto setu = [&ud](MPC & m, int i, bool rel) {
    const auto & tr = ud[std::size_t(i)];
    if (rel) m.set_udes_rel(tr, 0.5);
    else m.set_udes([tr](double t) -> U { return tr(t); });
  };
  if (r.coin(0.8)) setx(anc, 7, r.coin()), setu(anc, 7, r.coin());
  if (r.coin()) { std::vector<U> us; (void) anc(0.1, xd[7](0.1)); }
  const int T = r.ri(2, 5);
  std::vector<int> mode;
  std::vector<uint64_t> seed;
  std::string sig = name;
  for (int t = 0; t < T; ++t) mode.push_back(r.ri(0, 3)), seed.push_back(r.next()), sig += char('0' + mode.back());
  const MPC & canc = anc;
  twice(r, "mpc", T, [&](int t) -> Job {
    std::shared_ptr<MPC> m;
    if (mode[std::size_t(t)] <= 1) m = std::make_shared<MPC>(canc);
    return [&, m, t](Out & o) {
      Rng q(seed[std::size_t(t)]);
      std::shared_ptr<MPC> c = m;
      if (mode[std::size_t(t)] == 2) c = std::make_shared<MPC>(canc);  // copies the shared ancestor concurrently
      if (mode[std::size_t(t)] == 3) c = std::make_shared<MPC>(f, CR{}, -cu, cu, prm);
      for (int k = 0; k < 4; ++k) {
        if (mode[std::size_t(t)] != 1 || k == 2) switch (q.ri(0, 3)) {
          case 0: setx(*c, q.ri(0, 6), q.coin()); break;
          case 1: setu(*c, q.ri(0, 6), q.coin()); break;
          case 2: { sf::MPCWeights<X, U> w; w.R *= q.uni(0.1, 3), c->set_weights(w); break; }
          default: c->reset_warmstart();
          }
        std::vector<U> us;
        std::vector<X> xs;
        const double tt     = q.uni(0, 3);
        const auto [u, cd] = (*c)(tt, xd[std::size_t(t)](tt), us, xs);
        put(o, double(int(cd))), put(o, smooth::rminus(u, smooth::Default<U>()));
        for (auto & v : xs) put(o, smooth::rminus(v, smooth::Identity<X>()));
      }
    };
  }, sig);
}
#if PART == 1
void q10c_1(Rng & r) { mpcs<Eigen::Vector2d, Eigen::Vector<double, 1>, 3, smooth::diff::Type::Numerical, true>(r, "R2"); }
#else
void q10c_2(Rng & r) { mpcs<smooth::SE2d, Eigen::Vector2d, 2, smooth::diff::Type::Default, false>(r, "SE2"); }
#endif

#elif PART == 3
using namespace og;
template<int A, int B>
using DenseV = rf::Dense<A, B>;
template<typename Mesh>
static void transcriptions(Rng & r)
{
  using O = og::Ocp<2, 1, 1, 1, 2, DenseV, rf::DenseS<1 + 2 * 2 + 1>>;
  O raw      = random_ocp<O>(r);
  const O & o = raw;
  const Mesh mesh = random_mesh<Mesh>(r, 5);
  const int T = r.ri(2, 5);
  std::vector<int> mode;
  std::vector<uint64_t> seed;
  std::string sig;
  for (int t = 0; t < T; ++t) mode.push_back(r.ri(0, 5)), seed.push_back(r.next()), sig += char('0' + mode.back());
  const auto proto = sf::ocp_to_nlp(o, mesh);
  twice(r, "transcription", T, [&](int t) -> Job {
    return [&, t](Out & out) {
      Rng q(seed[std::size_t(t)]);
      const long N = long(mesh.N_colloc());
      lrf::Traj<Eigen::Vector2d> xl;
      lrf::Traj<Eigen::Vector<double, 1>> ul;
      xl.randomize(q), ul.randomize(q);
      switch (mode[std::size_t(t)]) {
      case 0: {  // queries of the shared mesh
        for (double v : mesh.all_nodes()) put(out, v);
        for (double v : mesh.all_weights()) put(out, v);
        for (std::size_t i = 0; i < mesh.N_ivals(); ++i) {
          put(out, mesh.interval_diffmat(i)), put(out, mesh.interval_intmat(i));
          const auto [al, D] = mesh.interval_diffmat_unscaled(i);
          put(out, al), put(out, Eigen::MatrixXd(D));
          for (double v : mesh.interval_nodes(i)) put(out, v);
          for (double v : mesh.interval_weights(i)) put(out, v);
        }
        std::vector<Eigen::Vector2d> xs;
        for (long i = 0; i <= N; ++i) xs.push_back({q.uni(-1, 1), q.uni(-1, 1)});
        for (int k = 0; k < 10; ++k) {
          const double tt = q.uni(0, 1);
          put(out, double(mesh.interval_find(tt))), put(out, mesh.template eval<Eigen::Vector2d>(tt, xs)), put(out, mesh.template eval<Eigen::Vector2d>(tt, xs, 1));
        }
        break;
      }
      case 1: {  // mesh functions
        auto f = o.f;
        Eigen::Matrix<double, 2, -1> X(2, N + 1);
        Eigen::Matrix<double, 1, -1> U(1, N);
        for (auto & v : X.reshaped()) v = q.uni(-1, 1);
        for (auto & v : U.reshaped()) v = q.uni(-1, 1);
        sf::MeshValue<2> mv;
        mv.lambda.resize(2 * N);
        for (auto & v : mv.lambda) v = q.uni(-1, 1);
        for (int k = 0; k < 2; ++k) {
          sf::mesh_dyn<2>(mv, mesh, f, 0, 1 + k, X.colwise(), U.colwise());
          put(out, mv.F), put(out, mv.dF), put(out, mv.d2F);
          sf::MeshValue<1> m1;
          sf::mesh_eval<1>(m1, mesh, f, 0, 1 + k, X.colwise(), U.colwise());
          put(out, m1.F), put(out, m1.dF);
          sf::MeshValue<2> m2;
          m2.lambda.setConstant(2, q.uni(-1, 1));
          sf::mesh_integrate<2>(m2, mesh, f, 0, 1 + k, X.colwise(), U.colwise());
          put(out, m2.F), put(out, m2.dF), put(out, m2.d2F);
        }
        put(out, sf::mesh_dyn_error(f, mesh, 0., 2., [&](double s) { return Eigen::Vector2d(xl(s)); }, [&](double s) { return Eigen::Vector<double, 1>(ul(s)); }));
        break;
      }
      case 2:
      case 3: {  // programs, from the shared problem or copied from a shared program
        auto nlp = mode[std::size_t(t)] == 2 ? sf::ocp_to_nlp(o, mesh) : proto;
        for (int k = 0; k < 2; ++k) {
          Eigen::VectorXd z(nlp.n()), la(nlp.m());
          for (auto & v : z) v = q.uni(-1, 1);
          for (auto & v : la) v = q.uni(-1, 1);
          put(out, nlp.f(z)), put(out, nlp.df_dx(z)), put(out, nlp.g(z)), put(out, nlp.dg_dx(z)), put(out, nlp.d2f_dx2(z)), put(out, nlp.d2g_dx2(z, la));
          put(out, nlp.gl()), put(out, nlp.xu());
          sf::NLPSolution ns;
          ns.x = z, ns.x(0) = 1.5, ns.lambda = la, ns.zl = ns.zu = z.cwiseAbs();
          const auto os = sf::nlpsol_to_ocpsol(o, mesh, ns);
          put(out, os.x(0.7)), put(out, os.u(0.2)), put(out, os.lambda_dyn(0.4)), put(out, os.lambda_cr(0.4));
          const auto bk = sf::ocpsol_to_nlpsol(o, mesh, os);
          put(out, bk.x), put(out, bk.lambda);
        }
        break;
      }
      case 4: {  // linearisation
        const auto qp = sf::ocp_to_qp(o, mesh, 1.5, xl, ul);
        put(out, qp.P), put(out, qp.A), put(out, qp.q), put(out, qp.l), put(out, qp.u);
        break;
      }
      default: {  // sparse utilities
        Eigen::SparseMatrix<double> a(6, 6), b(3, 3);
        for (int i = 0; i < 6; ++i)
          for (int j = 0; j < 6; ++j) a.insert(i, j) = q.uni(-1, 1);
        a.makeCompressed();
        b.insert(0, 1) = q.uni(-1, 1), b.insert(2, 0) = 2;
        sf::block_add(a, 1, 2, b, 0.5), sf::block_write(a, 0, 0, b), sf::block_add_identity(a, 2, 2, 3, 1.5);
        put(out, a);
        sf::set_zero(a.middleCols(2, 2));
        put(out, a), put(out, double(sf::count_explicit_zeros(a)));
      }
      }
    };
  }, sig);
}
void q10c_3(Rng & r) { r.coin() ? transcriptions<sf::Mesh<2, 4>>(r) : transcriptions<sf::Mesh<5, 10>>(r); }

#else
template<typename X, typename U>
struct AF
{
  lrf::Fun<int(smooth::Dof<X>), 1 + lrf::NF<X> + lrf::NF<U>> f;
  template<typename A, typename B>
  auto operator()(const A & x, const B & u) const
  {
    using S = typename A::Scalar;
    return f.template operator()<S>(S(0.), x, u);
  }
};
template<typename X, typename U>
static void filters(Rng & r, const char * name)
{
  constexpr int NX = int(smooth::Dof<X>), NU = int(smooth::Dof<U>);
  using Tn = Eigen::Vector<double, NX>;
  AF<X, U> f;
  f.f.f.randomize(r, 0.3);
  lrf::Fun<1, 1 + lrf::NF<X>> h;
  h.f.randomize(r, 0.5);
  auto hf = [&h](const auto & t, const auto & x) {
    using S = typename std::decay_t<decltype(x)>::Scalar;
    return Eigen::Vector<S, 1>(h.template operator()<S>(S(t), x));
  };
  auto bf = [](const auto &, const auto & x) {
    using S = typename std::decay_t<decltype(x)>::Scalar;
    return Eigen::Vector<S, NU>(Eigen::Vector<S, NU>::Constant(S(0.1)));
  };
  sf::ASIFilterParams<U> prm;
  prm.T = 0.5, prm.asif.K = std::size_t(r.ri(1, 6)), prm.asif.dt = 0.1;
  prm.qp.max_iter = 400;
  prm.ulim.A = Eigen::Matrix<double, -1, NU>::Identity(NU, NU);
  prm.ulim.l = Eigen::VectorXd::Constant(NU, -1), prm.ulim.u = Eigen::VectorXd::Constant(NU, 1);
  const sf::ASIFilter<X, U, AF<X, U>> flt(f, prm);
  using Sp = smooth::Spline<3, X>;
  auto rt = [](Rng & q, double m) {
    Tn v;
    for (auto & e : v) e = m * q.uni(-1, 1);
    return v;
  };
  auto rg = [&](Rng & q) -> X { return smooth::rplus(smooth::Identity<X>(), rt(q, 0.6)); };
  const Sp sp({0, 1, 2}, {rg(r), rg(r), rg(r)}, {{rt(r, 0.4), rt(r, 0.2), rt(r, 0.1)}, {rt(r, 0.4), rt(r, 0.2), rt(r, 0.1)}});
  sf::PID<double, X> pid0(sf::PIDParams{.windup_limit = 0.5});
  pid0.set_ki(0.5), pid0.set_xdes(0.1, sp);
  const sf::PID<double, X> & cpid = pid0;
  sf::EKF<X, smooth::diff::Type::Autodiff> ekf0;
  ekf0.reset(rg(r), Eigen::Matrix<double, NX, NX>::Identity());
  const auto & cekf = ekf0;
  const int T = r.ri(2, 6);
  std::vector<int> mode;
  std::vector<uint64_t> seed;
  std::string sig = name;
  for (int t = 0; t < T; ++t) mode.push_back(r.ri(0, 5)), seed.push_back(r.next()), sig += char('0' + mode.back());
  auto run_flt = [&](Out & o, Rng & q, auto & c) {
    for (int k = 0; k < 3; ++k) {
      Eigen::Vector<double, NU> u;
      for (auto & v : u) v = q.uni(-2, 2);
      const auto [uf, cd] = c(rg(q), u, hf, bf);
      put(o, uf), put(o, double(int(cd)));
    }
  };
  auto run_pid = [&](Out & o, Rng & q, auto & c) {
    for (int k = 0; k < 8; ++k) {
      if (q.coin(0.2)) c.set_kp(q.uni(0, 2));
      if (q.coin(0.1)) c.reset_integral();
      put(o, c(0.2 * k, rg(q), rt(q, 1)));
    }
  };
  auto run_ekf = [&](Out & o, Rng & q, auto & c) {
    for (int k = 0; k < 3; ++k) {
      U u;
      for (auto & v : u) v = q.uni(-1, 1);
      c.predict([&](double, const auto & x) {
        using S = typename std::decay_t<decltype(x)>::Scalar;
        return f(x, Eigen::Vector<S, NU>(u.template cast<S>()));
      }, Eigen::Matrix<double, NX, NX>::Identity(), 0.3, 0.1);
      Eigen::Vector<double, 1> y(q.uni(-1, 1));
      c.update([&](const auto & x) { return hf(0., x); }, y, Eigen::Matrix<double, 1, 1>::Identity());
      put(o, smooth::rminus(c.estimate(), smooth::Identity<X>())), put(o, c.covariance());
    }
  };
  twice(r, "filters", T, [&](int t) -> Job {
    const int md = mode[std::size_t(t)];
    const uint64_t sd = seed[std::size_t(t)];
    switch (md) {
    case 0: { auto c = std::make_shared<sf::ASIFilter<X, U, AF<X, U>>>(flt); return [&, c, sd](Out & o) { Rng q(sd); run_flt(o, q, *c); }; }
    case 1: return [&, sd](Out & o) { Rng q(sd); auto c = flt; run_flt(o, q, c); };
    case 2: { auto c = std::make_shared<sf::PID<double, X>>(cpid); return [&, c, sd](Out & o) { Rng q(sd); run_pid(o, q, *c); }; }
    case 3: return [&, sd](Out & o) { Rng q(sd); auto c = cpid; run_pid(o, q, c); };
    case 4: { auto c = std::make_shared<std::decay_t<decltype(cekf)>>(cekf); return [&, c, sd](Out & o) { Rng q(sd); run_ekf(o, q, *c); }; }
    default: return [&, sd](Out & o) { Rng q(sd); auto c = cekf; run_ekf(o, q, c); };
    }
  }, sig);
}
void q10c_4(Rng & r) { r.coin() ? filters<Eigen::Vector2d, Eigen::Vector<double, 1>>(r, "R2") : filters<smooth::SE2d, Eigen::Vector2d>(r, "SE2"); }
#endif
