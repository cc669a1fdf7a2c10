// M02: quadrature, differentiation, integration and interpolation on a mesh are exact for polynomials.
#include <cfloat>
#include <list>
#include "lgr.hpp"
#include "meshgen.hpp"
using namespace mg;

// polynomial in the local coordinate s = (t - a) / (b - a) in [0, 1], coefficients in extended precision
struct Poly
{
  std::vector<long double> c;
  long double a, w;
  long double operator()(long double t, int p = 0) const
  {
    const long double s = (t - a) / w;
    long double v       = 0;
    for (int k = static_cast<int>(c.size()) - 1; k >= p; --k) {
      long double f = c[static_cast<std::size_t>(k)];
      for (int q = 0; q < p; ++q) f *= (k - q);
      v = v * s + f;
    }
    return v / std::pow(w, static_cast<long double>(p));
  }
  long double integral(long double t) const
  {
    const long double s = (t - a) / w;
    long double v       = 0;
    for (int k = static_cast<int>(c.size()) - 1; k >= 0; --k) v = v * s + c[static_cast<std::size_t>(k)] / (k + 1);
    return v * s * w;
  }
};
static Poly rpoly(Rng & r, int deg, double a, double b)
{
  Poly p{{}, a, static_cast<long double>(b) - a};
  for (int k = 0; k <= deg; ++k) p.c.push_back(r.uni(-1, 1));
  p.c.back() += p.c.back() < 0 ? -1 : 1;
  return p;
}

template<typename M>
static void one(Rng & r, const char * name)
{
  const M m     = random_mesh<M>(r, 30);
  const Model o = observe(m);
  const std::size_t n = o.v.size(), N = m.N_colloc();
  vh::detail(std::string(name) + show(m));
  vh::check("count", N == o.total(), "N_colloc");

  // ---- whole-mesh views agree with interval views
  std::vector<double> an, aw;
  for (double x : m.all_nodes()) an.push_back(x);
  for (double x : m.all_weights()) aw.push_back(x);
  if (!vh::check("all-size", an.size() == N + 1 && aw.size() == N + 1, vh::fmt("all_nodes %zu all_weights %zu N %zu", an.size(), aw.size(), N))) return;
  long double wsum = 0;
  for (std::size_t k = 0; k <= N; ++k) {
    if (k) vh::check("nodes-increase", an[k] > an[k - 1], vh::fmt("node %zu", k));
    vh::check("weight-sign", k < N ? aw[k] > 0 : aw[k] == 0, vh::fmt("weight %zu = %.17g", k, aw[k]));
    wsum += aw[k];
  }
  vh::check("first-node", an[0] == 0, vh::fmt("%.17g", an[0]));
  vh::check_le("last-node", std::fabs(an[N] - 1), 4 * DBL_EPSILON);
  const lgr::Grid grid(o);
  for (std::size_t k = 0; k <= N; ++k) {
    vh::check_le("node-position", static_cast<double>(std::fabs(an[k] - grid.tau[k])), 1e-14, vh::fmt("node %zu of %zu", k, N));
    if (k < N) vh::check_le("weight-value", static_cast<double>(std::fabs(aw[k] - grid.w[k])), 1e-14, vh::fmt("weight %zu of %zu", k, N));
  }
  vh::check_le("weights-sum", static_cast<double>(std::fabs(wsum - 1)), 1e-13 + 1e-15 * double(N));

  std::size_t before = 0;
  // one polynomial per interval, of the interval's degree, for interpolation
  std::vector<Poly> pe, pn;
  for (std::size_t i = 0; i < n; ++i) {
    const std::size_t K = o.v[i].K;
    const double a = o.v[i].t0, b = o.end(i), w = b - a;
    std::vector<double> ns, ws;
    for (double x : m.interval_nodes(i)) ns.push_back(x);
    for (double x : m.interval_weights(i)) ws.push_back(x);
    if (!vh::check("ival-size", ns.size() == K + 1 && ws.size() == K + 1, vh::fmt("%zu %zu K=%zu", ns.size(), ws.size(), K))) return;
    const double eps = 8 * DBL_EPSILON * (1 + b / w);  // resolution of a node in local coordinates
    for (std::size_t j = 0; j <= (i + 1 < n ? K - 1 : K); ++j) {
      vh::check_le("all-nodes-agree", std::fabs(an[before + j] - ns[j]), 4 * DBL_EPSILON, vh::fmt("interval %zu node %zu", i, j));
      vh::check_le("all-weights-agree", std::fabs(aw[before + j] - ws[j]), 4 * DBL_EPSILON, vh::fmt("interval %zu weight %zu", i, j));
    }
    vh::check("zero-weight-end", ws[K] == 0, "");
    vh::check_le("node-first", std::fabs(ns[0] - a), eps * w);
    vh::check_le("node-end", std::fabs(ns[K] - b), eps * w);
    const double k2 = static_cast<double>(K * K + 1);
    // ---- quadrature exact up to degree 2K-2 (and therefore at random lower degrees); not exact at 2K-1 for the nodes used
    for (int deg : {0, int(2 * K - 2), r.ri(0, int(2 * K - 2))}) {
      const Poly p = rpoly(r, deg, a, b);
      long double s = 0;
      for (std::size_t j = 0; j < K; ++j) s += static_cast<long double>(ws[j]) * p(ns[j]);
      vh::count("quadratures");
      vh::check_le("quadrature", static_cast<double>(std::fabs(s - p.integral(b)) / p.w), 1e-13 + eps * k2 * (deg + 1), vh::fmt("interval %zu K=%zu degree %d", i, K, deg));
    }
    // ---- differentiation matrices
    const Eigen::MatrixXd D = m.interval_diffmat(i), I = m.interval_intmat(i);
    const auto [alpha, Dus] = m.interval_diffmat_unscaled(i);
    vh::check("D-size", D.rows() == long(K + 1) && D.cols() == long(K) && Dus.rows() == long(K + 1) && Dus.cols() == long(K) && I.rows() == long(K) && I.cols() == long(K), vh::fmt("K=%zu", K));
    vh::check_le("D-unscaled", (alpha * Dus - D).cwiseAbs().maxCoeff(), 1e-13 * D.cwiseAbs().maxCoeff());
    const Poly p = rpoly(r, r.coin(0.7) ? int(K) : r.ri(0, int(K)), a, b);
    Eigen::RowVectorXd y(K + 1), dy(K);
    for (std::size_t j = 0; j <= K; ++j) y(long(j)) = static_cast<double>(p(ns[j]));
    for (std::size_t j = 0; j < K; ++j) dy(long(j)) = static_cast<double>(p(ns[j], 1));
    const double sd = 1 + dy.cwiseAbs().maxCoeff() + y.cwiseAbs().maxCoeff() / w;
    vh::count("differentiations");
    vh::check_le("differentiation", (y * D - dy).cwiseAbs().maxCoeff() / sd, (5e-13 + eps) * k2, vh::fmt("interval %zu K=%zu", i, K));
    vh::check_le("integration", (y.rightCols(long(K)) - y.leftCols(1).replicate(1, long(K)) - dy * I).cwiseAbs().maxCoeff() / (1 + y.cwiseAbs().maxCoeff() + dy.cwiseAbs().maxCoeff() * w),
                 (2e-13 + eps) * k2, vh::fmt("interval %zu K=%zu", i, K));
    pe.push_back(rpoly(r, int(K), a, b));
    pn.push_back(rpoly(r, i + 1 < n ? int(K) : int(K) - 1, a, b));
    before += K;
  }
  // ---- interpolation; the value at an interval's end belongs to the next interval, so make the pieces continuous
  auto chain = [&](std::vector<Poly> & ps) {
    for (std::size_t i = 1; i < n; ++i) ps[i].c[0] = ps[i - 1](o.v[i].t0);
  };
  chain(pe), chain(pn);
  auto eval = [&](const std::vector<Poly> & ps, double t, int p) {
    std::size_t i = 0;
    for (std::size_t k = 0; k < n; ++k)
      if (o.v[k].t0 <= t) i = k;
    return ps[i](t, p);
  };
  const int dim = r.ri(1, 4);
  Eigen::VectorXd dir(dim);
  for (auto & d : dir) d = r.uni(-2, 2);
  dir(0) = 1;
  Eigen::MatrixXd Ve(dim, long(N + 1)), Vn(dim, long(N));
  std::vector<Eigen::VectorXd> ve;
  std::list<Eigen::VectorXd> vn;
  for (std::size_t k = 0, i = 0, c = 0; k <= N; ++k) {
    Ve.col(long(k)) = dir * static_cast<double>(pe[i](an[k]));
    ve.push_back(Ve.col(long(k)));
    if (k < N) Vn.col(long(k)) = dir * static_cast<double>(pn[i](an[k])), vn.push_back(Vn.col(long(k)));
    if (++c == o.v[i].K && i + 1 < n) ++i, c = 0;
  }
  for (int q = 0; q < 12; ++q) {
    double t = r.u01();
    if (r.coin(0.2)) t = r.pick({0., 1., 0.5});
    if (r.coin(0.2)) t = o.v[std::size_t(r.ri(0, int(n) - 1))].t0;
    if (r.coin(0.2)) t = an[std::size_t(r.ri(0, int(N)))];
    t = std::min(1., std::max(0., t));
    std::size_t i = 0;
    for (std::size_t k = 0; k < n; ++k)
      if (o.v[k].t0 <= t) i = k;
    const std::size_t K = o.v[i].K;
    const int p         = r.coin(0.6) ? 0 : r.ri(1, std::min<int>(3, int(K)));
    const bool ext      = r.coin();
    Eigen::VectorXd got;
    switch (r.ri(0, 2)) {
    case 0: got = ext ? m.template eval<Eigen::VectorXd>(t, Ve.colwise(), std::size_t(p), true) : m.template eval<Eigen::VectorXd>(t, Vn.colwise(), std::size_t(p), false); break;
    case 1: got = ext ? m.template eval<Eigen::VectorXd>(t, ve, std::size_t(p)) : m.template eval<Eigen::VectorXd>(t, vn, std::size_t(p), false); break;
    default:
      if (dim == 2)
        got = ext ? m.template eval<Eigen::Vector2d>(t, ve, std::size_t(p)) : m.template eval<Eigen::Vector2d>(t, Vn.colwise(), std::size_t(p), false);
      else
        got = ext ? m.template eval<Eigen::VectorXd>(t, Ve.colwise(), std::size_t(p)) : m.template eval<Eigen::VectorXd>(t, vn, std::size_t(p), false);
    }
    const long double want = eval(ext ? pe : pn, t, p);
    // scale: values of the pieces around t, magnified by differentiation
    const double w = o.end(i) - o.v[i].t0, eps = 8 * DBL_EPSILON * (1 + o.end(i) / w);
    double mag = 1;
    const auto & P = ext ? pe[i] : pn[i];
    double cs = 0;
    for (auto c : P.c) cs += static_cast<double>(std::fabs(c));
    mag += cs;
    const double dm = std::pow(2. * double(K * K) / w, p);
    double err = (got - dir * static_cast<double>(want)).cwiseAbs().maxCoeff();
    // where the start of the interval is only known up to the rounding of the reported nodes, either polynomial will do
    for (std::size_t b : {i, i + 1})
      if (b > 0 && b < n && !o.exact(b) && std::fabs(t - o.v[b].t0) <= 4 * DBL_EPSILON) {
        const auto & Po = (ext ? pe : pn)[b == i ? i - 1 : i + 1];
        err             = std::min(err, (got - dir * static_cast<double>(Po(t, p))).cwiseAbs().maxCoeff());
      }
    vh::count(p ? "derivatives_evaluated" : "evaluations");
    vh::check_le(p ? "eval-derivative" : "eval", err, (1e-11 + 100 * eps) * mag * double(K * K) * dm,
                 vh::fmt("t=%.17g derivative %d interval %zu/%zu K=%zu extend=%d got %.12g want %.12Lg", t, p, i, n, K, int(ext), got(0), want));
  }
  if (N > 1) vh::nontrivial(show(m) + vh::fmt("%d", dim));
  vh::sample(show(m));
}

// one translation unit per mesh type (compile time)
#if PART == 0
void run_0(Rng & r) { one<sf::Mesh<5, 10>>(r, "<5,10>"); }
#endif
#if PART == 1
void run_1(Rng & r) { one<sf::Mesh<1, 1>>(r, "<1,1>"); }
#endif
#if PART == 2
void run_2(Rng & r) { one<sf::Mesh<2, 4>>(r, "<2,4>"); }
#endif
#if PART == 3
void run_3(Rng & r) { one<sf::Mesh<3, 3>>(r, "<3,3>"); }
#endif
#if PART == 4
void run_4(Rng & r) { one<sf::Mesh<1, 6>>(r, "<1,6>"); }
#endif
#if PART == 5
void run_5(Rng & r) { one<sf::Mesh<8, 9>>(r, "<8,9>"); }
#endif
#if PART == 6
void run_6(Rng & r) { one<sf::Mesh<4, 12>>(r, "<4,12>"); }
#endif
#if PART == 0
void run_0(Rng &);
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
void run_4(Rng &);
void run_5(Rng &);
void run_6(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3, run_4, run_5, run_6};
  vh::group("exactness", 400, 40000, 1, [](Rng & r, long) { fs[r.ri(0, 6)](r); });
  return vh::finish();
}
#endif
