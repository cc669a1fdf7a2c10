// M05: the mesh dynamics error is the relative collocation defect of each interval.
#include <smooth/feedback/collocation/dyn_error.hpp>
#include "lgr.hpp"
#include "meshgen.hpp"
#include "rfun.hpp"
using namespace mg;
using ld = long double;

// documented defect of one interval, independent grid: integrate the right-hand side with the inverse of D
template<int NX>
static double defect(const Model & o, std::size_t i, double t0, double tf, auto && f, auto && xf, auto && uf)
{
  const std::size_t K     = o.v[i].K;
  const lgr::Rule & R     = lgr::rule(K);
  const ld a = o.v[i].t0, len = o.end(i) - a;
  Eigen::Matrix<ld, NX, -1> X(NX, long(K) + 1), F(NX, long(K));
  for (std::size_t j = 0; j <= K; ++j) {
    const double t = static_cast<double>(t0 + (tf - t0) * (a + len * ((j < K ? R.x[j] : ld(1)) + 1) / 2));
    const Eigen::Vector<double, NX> x = xf(t);
    X.col(long(j))                    = x.template cast<ld>();
    if (j < K) F.col(long(j)) = f(t, x, uf(t)).template cast<ld>();
  }
  Eigen::Matrix<ld, -1, -1> D{long(K), long(K)};  // rows 1..K of D
  for (std::size_t k = 1; k <= K; ++k)
    for (std::size_t j = 0; j < K; ++j) D(long(k) - 1, long(j)) = R.D[k][j] * 2 / len;
  // (X_1..K - x0 1) D = (tf - t0) F
  const Eigen::Matrix<ld, NX, -1> E =
    D.transpose().fullPivLu().solve((ld(tf - t0) * F).transpose()).transpose() + X.col(0).replicate(1, long(K)) - X.rightCols(long(K));
  return static_cast<double>(E.colwise().norm().maxCoeff() / (1 + X.rightCols(long(K)).colwise().norm().maxCoeff()));
}

template<typename M, int NX, int NU>
static void one(Rng & r, const char * name)
{
  M m           = random_mesh<M>(r, 12);
  const Model o = observe(m);
  const double t0 = r.pick({0., r.uni(-3, 3)}), tf = t0 + r.logu(0.1, 10);
  rf::Plain<NX, 1 + NX + NU> F;
  F.f.randomize(r);
  rf::Base<NX, 1> xt;
  rf::Base<NU, 1> ut;
  xt.randomize(r), ut.randomize(r);
  auto f  = [&](double t, const Eigen::Vector<double, NX> & x, const Eigen::Vector<double, NU> & u) { return F(t, x, u); };
  auto xf = [&](double t) -> Eigen::Vector<double, NX> { return xt.template value<double>(Eigen::Vector<double, 1>((t - t0) / (tf - t0))); };
  auto uf = [&](double t) -> Eigen::Vector<double, NU> { return ut.template value<double>(Eigen::Vector<double, 1>((t - t0) / (tf - t0))); };
  vh::detail(vh::fmt("%s t0=%.4g tf=%.4g ", name, t0, tf) + show(m));
  const Eigen::VectorXd e = sf::mesh_dyn_error(f, m, t0, tf, xf, uf);
  if (!vh::check("size", e.size() == long(o.v.size()), vh::fmt("%ld errors, %zu intervals", long(e.size()), o.v.size()))) return;
  for (std::size_t i = 0; i < o.v.size(); ++i) {
    const double w = defect<NX>(o, i, t0, tf, f, xf, uf);
    vh::check_le("defect", std::fabs(e(long(i)) - w), 1e-10 * (1 + w), vh::fmt("interval %zu of %zu K=%zu: %.12g want %.12g", i, o.v.size(), o.v[i].K, e(long(i)), w));
    vh::count("defects");
  }
  // depends only on the trajectory inside the interval
  if (o.v.size() > 1) {
    const auto i    = static_cast<std::size_t>(r.ri(0, int(o.v.size()) - 1));
    const double lo = t0 + (tf - t0) * o.v[i].t0, hi = t0 + (tf - t0) * o.end(i), sl = 1e-9 * (tf - t0);
    auto xg         = [&](double t) -> Eigen::Vector<double, NX> {
      Eigen::Vector<double, NX> x = xf(t);
      if (t < lo - sl || t > hi + sl) x.array() += 1e3 * (1 + t);
      return x;
    };
    auto ug = [&](double t) -> Eigen::Vector<double, NU> {
      Eigen::Vector<double, NU> u = uf(t);
      if (t < lo - sl || t > hi + sl) u.array() -= 77;
      return u;
    };
    const Eigen::VectorXd e2 = sf::mesh_dyn_error(f, m, t0, tf, xg, ug);
    vh::check_le("local", std::fabs(e2(long(i)) - e(long(i))), 1e-13 * (1 + e(long(i))), vh::fmt("interval %zu: %.12g, elsewhere disturbed %.12g", i, e(long(i)), e2(long(i))));
    vh::count("locality");
  }
  // zero exactly when polynomial of the interval degree solves the dynamics
  {
    std::size_t Kmin = 100;
    for (auto & v : o.v) Kmin = std::min(Kmin, v.K);
    Eigen::Matrix<double, NX, -1> c(NX, long(Kmin) + 1);
    for (auto & v : c.reshaped()) v = r.uni(-1, 1);
    const double A = r.uni(-1, 1);
    auto p         = [&](double t, int d) -> Eigen::Vector<double, NX> {
      const double s = (t - t0) / (tf - t0);
      Eigen::Vector<double, NX> v = Eigen::Vector<double, NX>::Zero();
      for (long k = c.cols() - 1; k >= d; --k) v = v * s + c.col(k) * (d ? double(k) : 1.);
      return d ? Eigen::Vector<double, NX>(v / (tf - t0)) : v;
    };
    auto fp = [&](double t, const Eigen::Vector<double, NX> & x, const Eigen::Vector<double, NU> & u) -> Eigen::Vector<double, NX> {
      return p(t, 1) + A * (x - p(t, 0)) + Eigen::Vector<double, NX>::Constant(u(0) - uf(t)(0));
    };
    const Eigen::VectorXd ez = sf::mesh_dyn_error(fp, m, t0, tf, [&](double t) { return p(t, 0); }, uf);
    vh::check_le("zero-on-solution", ez.cwiseAbs().maxCoeff(), 1e-12, "");
    // ... and not when the right-hand side is off by a constant on one interval
    const auto i     = static_cast<std::size_t>(r.ri(0, int(o.v.size()) - 1));
    const double lo = t0 + (tf - t0) * o.v[i].t0, hi = t0 + (tf - t0) * o.end(i), del = 0.1;
    auto fq = [&](double t, const Eigen::Vector<double, NX> & x, const Eigen::Vector<double, NU> & u) -> Eigen::Vector<double, NX> {
      Eigen::Vector<double, NX> v = fp(t, x, u);
      if (t >= lo - 1e-9 * (tf - t0) && t < hi - 1e-9 * (tf - t0)) v(0) += del;
      return v;
    };
    const Eigen::VectorXd eq = sf::mesh_dyn_error(fq, m, t0, tf, [&](double t) { return p(t, 0); }, uf);
    for (std::size_t k = 0; k < o.v.size(); ++k) {
      if (k != i)
        vh::check_le("zero-elsewhere", eq(long(k)), 1e-12, vh::fmt("interval %zu disturbed, %zu reports", i, k));
      else
        vh::check("reports-defect", eq(long(k)) > 1e-3 * del * (hi - lo) / (1 + c.cwiseAbs().sum()), vh::fmt("interval %zu: %.3g", k, eq(long(k))));
    }
  }
  vh::nontrivial(show(m) + vh::fmt("%.6g%.6g", t0, tf));
  vh::sample(show(m));
}

// refine until the target is met on the exact solution of a smooth ODE
template<typename M>
static void loop(Rng & r, const char * name)
{
  const double om = r.uni(0.5, 12), g = r.uni(0, 2), target = std::pow(10., r.uni(-9, -2)), tf = r.uni(0.5, 3);
  auto f = [&](double t, const Eigen::Vector2d & x, const Eigen::Vector<double, 1> & u) -> Eigen::Vector2d {
    return Eigen::Vector2d(-g * x(0) - om * x(1) + u(0), om * x(0) - g * x(1)) - Eigen::Vector2d(std::sin(t), 0);
  };
  auto xf = [&](double t) -> Eigen::Vector2d { return std::exp(-g * t) * Eigen::Vector2d(std::cos(om * t), std::sin(om * t)); };
  auto uf = [&](double t) -> Eigen::Vector<double, 1> { return Eigen::Vector<double, 1>(std::sin(t)); };
  M m;
  vh::detail(vh::fmt("refine %s om=%.3g g=%.3g tf=%.3g target=%.3g", name, om, g, tf, target));
  int it = 0;
  for (; it < 30; ++it) {
    const Eigen::VectorXd e = sf::mesh_dyn_error(f, m, 0, tf, xf, uf);
    if (e.maxCoeff() <= target) break;
    m.refine_errors(e, target);
    if (!vh::check("refinement-size", m.N_ivals() < 20000, vh::fmt("%zu intervals after %d rounds", m.N_ivals(), it))) return;
  }
  vh::count("refinement_loops");
  vh::check("refinement-converges", it < 30, vh::fmt("not below target after %d rounds, %zu intervals", it, m.N_ivals()));
  vh::nontrivial(vh::fmt("loop%s%.6g%.6g", name, om, target));
}

#if PART == 0
void run_0(Rng & r) { r.coin(0.15) ? loop<sf::Mesh<5, 10>>(r, "<5,10>") : one<sf::Mesh<5, 10>, 3, 1>(r, "<5,10>"); }
void run_1(Rng &);
void run_2(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2};
  vh::group("errors", 300, 20000, 1, [](Rng & r, long) { fs[r.ri(0, 2)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { r.coin(0.15) ? loop<sf::Mesh<3, 4>>(r, "<3,4>") : one<sf::Mesh<1, 4>, 1, 1>(r, "<1,4>"); }
#else
void run_2(Rng & r) { r.coin(0.15) ? loop<sf::Mesh<4, 8>>(r, "<4,8>") : one<sf::Mesh<2, 6>, 2, 2>(r, "<2,6>"); }
#endif
