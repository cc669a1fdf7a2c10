// O01 / O02 / O03 (WHAT = 1 / 2 / 3): transcription of optimal control problems into nonlinear programs.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/ocp_to_nlp.hpp>
#include "ocpgen.hpp"
using namespace og;
using smooth::diff::Type;
constexpr double inf = std::numeric_limits<double>::infinity();

static std::string pattern(const Eigen::SparseMatrix<double> & s)
{
  std::string p;
  for (int k = 0; k < s.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(s, k); it; ++it) p += vh::fmt("%d,%d;", int(it.row()), int(it.col()));
  return p;
}

#if WHAT == 1
template<typename O>
static void values(Rng & r, const O & o, const auto & mesh, const Ref<O> & R)
{
  auto nlp = r.coin() ? sf::ocp_to_nlp(o, mesh) : [&] {
    O oc = o;
    auto mc = mesh;
    return sf::ocp_to_nlp(std::move(oc), std::move(mc));
  }();
  static_assert(sf::HessianNLP<decltype(nlp)>);
  if (!vh::check("size", long(nlp.n()) == R.n && long(nlp.m()) == R.m, vh::fmt("n %zu m %zu, documented %ld %ld", nlp.n(), nlp.m(), R.n, R.m))) return;
  // variable bounds: final time non-negative, everything else free
  bool ok = nlp.xl().size() == R.n && nlp.xu().size() == R.n;
  for (long i = 0; ok && i < R.n; ++i) ok = nlp.xl()(i) == (i == 0 ? 0 : -inf) && nlp.xu()(i) == inf;
  vh::check("variable-bounds", ok, "");
  // constraint bounds
  if (!vh::check("bound-size", nlp.gl().size() == R.m && nlp.gu().size() == R.m, "")) return;
  auto same = [](double a, double b) { return std::isinf(a) || std::isinf(b) ? a == b : std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)); };
  for (long i = 0; i < R.m; ++i) {
    double l = 0, u = 0;
    if (i >= R.ceB) l = o.cel(i - R.ceB), u = o.ceu(i - R.ceB);
    else if (i >= R.crB) {
      const long k   = (i - R.crB) / O::Ncr, j = (i - R.crB) % O::Ncr;
      const double s = double(R.g.w[std::size_t(k)]) * R.ws;
      l = s * o.crl(j), u = s * o.cru(j);
    }
    vh::check("constraint-bounds", same(nlp.gl()(i), l) && same(nlp.gu()(i), u), vh::fmt("row %ld of %ld: [%.12g, %.12g] documented [%.12g, %.12g]", i, R.m, nlp.gl()(i), nlp.gu()(i), l, u));
  }
  const int calls = r.ri(1, 3);
  for (int c = 0; c < calls; ++c) {
    const Eigen::VectorXd z = R.point(r);
    const double f = nlp.f(z), fr = R.f(z);
    vh::check_le("objective", std::fabs(f - fr), 1e-12 * (1 + std::fabs(fr)) * 30, "");
    const Eigen::VectorXd g = nlp.g(z), gr = R.cons(z);
    const double sc = 1 + gr.cwiseAbs().maxCoeff();
    if (!vh::check("constraint-size", g.size() == R.m, "")) return;
    for (long i = 0; i < R.m; ++i)
      vh::check_le(i < R.iB ? "dynamics" : i < R.crB ? "integral" : i < R.ceB ? "running" : "end", std::fabs(g(i) - gr(i)), 2e-12 * sc * double(R.N + 10),
                   vh::fmt("call %d row %ld: %.12g documented %.12g", c, i, g(i), gr(i)));
    vh::count("points");
  }
  // a collocated solution is feasible: solve the dynamics rows for x given u (they are affine in x only for linear f), instead
  // take a polynomial trajectory x(t) and a right-hand side f that follows it exactly
}
#elif WHAT == 2
template<Type DT, typename O>
static void derivatives(Rng & r, const O & o, const auto & mesh, const Ref<O> & R)
{
  auto nlp  = sf::ocp_to_nlp<DT>(o, mesh);
  constexpr double tol = DT == Type::Numerical ? 3e-3 : 3e-11;
  std::string pf, pg, pff, pgg;
  const int calls = r.ri(1, 4);
  const long n = R.n;
  for (int c = 0; c < calls; ++c) {
    Eigen::VectorXd z = R.point(r);
    if (c == 0 && r.coin(0.3)) z.setZero();  // structure is often requested at zero
    Eigen::VectorXd lam(R.m);
    const double lspan = r.pick({0., 0., 6., 12.});
    for (auto & l : lam) l = r.uni(-2, 2) * r.pick({1., 1., 0., 5.}) * std::pow(10., -r.uni(0, lspan));
    if (c == 0 && r.coin(0.3)) lam.setZero();
    Eigen::SparseMatrix<double> df, dg, d2f, d2g;
    const int order = r.ri(0, 3);
    for (int k = 0; k < 4; ++k) switch ((k + order) % 4) {
      case 0: df = nlp.df_dx(z); break;
      case 1: dg = nlp.dg_dx(z); break;
      case 2: d2f = nlp.d2f_dx2(z); break;
      default: d2g = nlp.d2g_dx2(z, lam); break;
      }
    const std::string at = vh::fmt("call %d tf=%.4g N=%ld", c, z(0), R.N);
    if (!vh::check("size", df.rows() == 1 && df.cols() == n && dg.rows() == R.m && dg.cols() == n && d2f.rows() == n && d2f.cols() == n && d2g.rows() == n && d2g.cols() == n, at)) return;
    if (c == 0) pf = pattern(df), pg = pattern(dg), pff = pattern(d2f), pgg = pattern(d2g);
    else {
      vh::count("patterns_compared");
      vh::check("pattern-df", pattern(df) == pf, at);
      vh::check("pattern-dg", pattern(dg) == pg, at);
      vh::check("pattern-d2f", pattern(d2f) == pff, at);
      vh::check("pattern-d2g", pattern(d2g) == pgg, at);
    }
    // first derivatives column by column
    const Eigen::MatrixXd J = dg, jf = df;
    for (long k = 0; k < n; ++k) {
      if (k > 2 && !r.coin(0.5)) continue;
      Eigen::VectorX<Dual<double>> zd(n);
      for (long i = 0; i < n; ++i) zd(i) = Dual<double>(z(i), i == k ? 1. : 0.);
      const double fd = R.f(zd).d;
      vh::check_le("gradient", std::fabs(jf(0, k) - fd), tol * 100 * (1 + std::fabs(fd)), vh::fmt("column %ld got %.12g want %.12g ", k, jf(0, k), fd) + at);
      const auto G = R.cons(zd);
      double worst = 0, mag = 1;
      for (long i = 0; i < R.m; ++i) worst = std::max(worst, std::fabs(G(i).d - J(i, k))), mag = std::max(mag, std::fabs(G(i).d));
      vh::count("jacobian_columns");
      vh::check_le("jacobian", worst, tol * 10 * mag * double(R.N + 10), vh::fmt("column %ld of %ld ", k, n) + at);
    }
    // Hessians: upper triangular, bilinear forms
    double hs = 1;
    bool below = false;
    for (auto * h : {&d2f, &d2g})
      for (int k = 0; k < h->outerSize(); ++k)
        for (Eigen::SparseMatrix<double>::InnerIterator it(*h, k); it; ++it) hs = std::max(hs, std::fabs(it.value())), below = below || (it.row() > it.col() && it.value() != 0);
    vh::check("hessian-upper", !below, at);
    const Eigen::SparseMatrix<double> Hf = d2f.selfadjointView<Eigen::Upper>(), Hg = d2g.selfadjointView<Eigen::Upper>();
    for (int q = 0; q < 10; ++q) {
      Eigen::VectorXd a = Eigen::VectorXd::Zero(n), b = a;
      auto unit = [&](Eigen::VectorXd & v) { v(r.coin(0.5) ? r.ri(0, 1 + O::Nq + O::Nx) % n : r.coin(0.3) ? R.uB - 1 - r.ri(0, O::Nx - 1) : r.ri(0, int(n) - 1)) = 1; };
      auto ends = [&](Eigen::VectorXd & v) {
        for (long i = 0; i < n; ++i)
          if (i < R.xB + O::Nx || (i >= R.uB - O::Nx && i < R.uB)) v(i) = r.uni(-1, 1);
      };
      const int kind = r.ri(0, 3);
      if (kind == 0) for (long i = 0; i < n; ++i) a(i) = r.uni(-1, 1), b(i) = r.uni(-1, 1);
      else if (kind == 1) ends(a), ends(b);
      else if (kind == 2) unit(a), ends(b);
      else unit(a), unit(b);
      using DD = Dual<Dual<double>>;
      Eigen::VectorX<DD> zd(n);
      for (long i = 0; i < n; ++i) zd(i) = DD(Dual<double>(z(i), a(i)), Dual<double>(b(i), 0.));
      const double wf = R.f(zd).d.d;
      const auto G    = R.cons(zd);
      double wg = 0;
      for (long i = 0; i < R.m; ++i) wg += lam(i) * G(i).d.d;
      const double gf = a.dot(Hf * b), gg = a.dot(Hg * b), sc = hs * (1 + a.lpNorm<1>() * b.lpNorm<1>());
      vh::count("hessian_forms");
      vh::check_le("objective-hessian", std::fabs(gf - wf), tol * 10 * sc, vh::fmt("kind %d got %.12g want %.12g ", kind, gf, wf) + at);
      vh::check_le("constraint-hessian", std::fabs(gg - wg), tol * 10 * sc, vh::fmt("kind %d got %.12g want %.12g ", kind, gg, wg) + at);
    }
    // linear in the multipliers, whatever their magnitude
    if (r.coin(0.3)) {
      const double s = std::ldexp(1., r.ri(-60, 60));
      const Eigen::MatrixXd b = d2g, a = nlp.d2g_dx2(z, Eigen::VectorXd(s * lam));
      double e = 0;
      for (long j = 0; j < n; ++j)
        for (long i = 0; i < n; ++i)
          if (!(a(i, j) == s * b(i, j))) e = std::max(e, std::fabs(a(i, j) - s * b(i, j)) / (std::fabs(a(i, j)) + std::fabs(s * b(i, j)) + 1e-300));
      vh::check_le("homogeneous-multipliers", e, 1e-10, vh::fmt("multipliers times %g ", s) + at);
      vh::count("scaled_multipliers");
    }
    // same as a fresh program
    if (c > 0) {
      auto fresh = sf::ocp_to_nlp<DT>(o, mesh);
      const auto diff = [&](const Eigen::SparseMatrix<double> & x, const Eigen::SparseMatrix<double> & y) { return (Eigen::MatrixXd(x) - Eigen::MatrixXd(y)).cwiseAbs().maxCoeff(); };
      const double st = 1e-13 * hs * double(R.N + 10) + (DT == Type::Numerical ? 1e-9 : 0);
      vh::check_le("stale-df", diff(df, fresh.df_dx(z)), st * 10, at);
      vh::check_le("stale-dg", diff(dg, fresh.dg_dx(z)), st * 10 * (1 + J.cwiseAbs().maxCoeff()), at);
      vh::check_le("stale-d2f", diff(d2f, fresh.d2f_dx2(z)), st * 10, at);
      vh::check_le("stale-d2g", diff(d2g, fresh.d2g_dx2(z, lam)), st * 100, at);
      vh::count("fresh_compared");
    }
  }
}
#else
template<typename O>
static void roundtrip(Rng & r, const O & o, const auto & mesh, const Ref<O> & R)
{
  constexpr int NX = O::Nx, NU = O::Nu, NQ = O::Nq, NCR = O::Ncr, NCE = O::Nce;
  sf::NLPSolution s;
  s.x = R.point(r);
  s.x(0) = r.coin(0.2) ? r.logu(1e-9, 1e9) : r.logu(1e-3, 1e3);
  s.lambda.resize(R.m);
  for (auto & l : s.lambda) l = r.uni(-3, 3);
  // every block in its own units
  auto unit = [&] { return r.coin(0.3) ? std::ldexp(1., r.ri(-80, 80)) : 1.; };
  const double kx = unit(), ku = unit(), kq = unit(), kd = unit(), kc = unit(), ki = unit(), ke = unit();
  s.x.segment(R.qB, NQ) *= kq, s.x.segment(R.xB, NX * (R.N + 1)) *= kx, s.x.segment(R.uB, NU * R.N) *= ku;
  s.lambda.segment(0, NX * R.N) *= kd, s.lambda.segment(R.iB, NQ) *= ki, s.lambda.segment(R.crB, NCR * R.N) *= kc, s.lambda.segment(R.ceB, NCE) *= ke;
  s.zl = Eigen::VectorXd::Zero(R.n), s.zu = s.zl;
  s.status = r.pick({sf::NLPSolution::Status::Optimal, sf::NLPSolution::Status::Unknown, sf::NLPSolution::Status::MaxTime});
  const double tf = s.x(0);
  const sf::NLPSolution s0 = s;
  auto os = sf::nlpsol_to_ocpsol(o, mesh, s);
  static_assert(std::is_same_v<decltype(os), typename O::Solution>);
  vh::check("source-unchanged", s.x == s0.x && s.lambda == s0.lambda, "");
  s.x.setConstant(-1e9), s.lambda.setConstant(-1e9);  // the trajectories must not refer to the source
  vh::check("times", os.t0 == 0 && os.tf == tf, vh::fmt("%g %g", os.t0, os.tf));
  vh::check("integrals", os.Q == Eigen::Vector<double, NQ>(s0.x.segment(R.qB, NQ)), "");
  vh::check("integral-multipliers", os.lambda_q == Eigen::Vector<double, NQ>(s0.lambda.segment(R.iB, NQ)), "");
  vh::check("end-multipliers", os.lambda_ce == Eigen::Vector<double, NCE>(s0.lambda.segment(R.ceB, NCE)), "");
  const auto moved = std::move(os);
  const auto copy  = moved;
  for (int rep = 0; rep < 2; ++rep) {
    const auto & t = rep ? copy : moved;
    for (long i = 0; i <= R.N; ++i) {
      const double ti = tf * double(R.g.tau[std::size_t(i)]);
      vh::check_le("state-at-node", (t.x(ti) - s0.x.segment(R.xB + NX * i, NX)).cwiseAbs().maxCoeff(), 1e-9 * kx, vh::fmt("node %ld of %ld", i, R.N));
      if (i == R.N) break;
      vh::check_le("input-at-node", (t.u(ti) - s0.x.segment(R.uB + NU * i, NU)).cwiseAbs().maxCoeff(), 1e-9 * ku, vh::fmt("node %ld of %ld", i, R.N));
      vh::check_le("dyn-multiplier-at-node", (t.lambda_dyn(ti) - s0.lambda.segment(NX * i, NX)).cwiseAbs().maxCoeff(), 1e-9 * kd, vh::fmt("node %ld of %ld", i, R.N));
      vh::check_le("cr-multiplier-at-node", (t.lambda_cr(ti) - s0.lambda.segment(R.crB + NCR * i, NCR)).cwiseAbs().maxCoeff(), 1e-9 * kc, vh::fmt("node %ld of %ld", i, R.N));
      vh::count("nodes");
    }
  }
  const auto back = sf::ocpsol_to_nlpsol(o, mesh, moved);
  if (!vh::check("back-size", back.x.size() == R.n && back.lambda.size() == R.m && back.zl.size() == R.n && back.zu.size() == R.n, "")) return;
  vh::check("back-final-time", back.x(0) == tf, vh::fmt("%.17g %.17g", back.x(0), tf));
  auto blk = [&](const char * key, const Eigen::VectorXd & a, const Eigen::VectorXd & b, long at, long len, double k) { vh::check_le(key, (a - b).segment(at, len).cwiseAbs().maxCoeff(), 1e-9 * k, ""); };
  blk("back-x", back.x, s0.x, R.xB, NX * (R.N + 1), kx), blk("back-u", back.x, s0.x, R.uB, NU * R.N, ku), blk("back-q", back.x, s0.x, R.qB, NQ, 0);
  blk("back-ldyn", back.lambda, s0.lambda, 0, NX * R.N, kd), blk("back-lq", back.lambda, s0.lambda, R.iB, NQ, 0), blk("back-lcr", back.lambda, s0.lambda, R.crB, NCR * R.N, kc), blk("back-lce", back.lambda, s0.lambda, R.ceB, NCE, 0);
  vh::check("back-bound-multipliers", back.zl.isZero(0) && back.zu.isZero(0), "");
  // polynomial trajectories given as functions survive the trip through the program on any mesh of sufficient degree
  typename O::Solution p;
  std::size_t K = 99;
  for (auto k : R.g.K) K = std::min(K, k);
  Eigen::MatrixXd cx(NX, long(K) + 1), cu(NU, long(K)), cd(NX, long(K)), cc(NCR, long(K));
  for (auto * m : {&cx, &cu, &cd, &cc}) for (auto & v : m->reshaped()) v = r.uni(-1, 1);
  cx *= kx, cu *= ku, cd *= kd, cc *= kc;
  auto pol = [tf](const Eigen::MatrixXd & m, double t) -> Eigen::VectorXd {
    Eigen::VectorXd v = Eigen::VectorXd::Zero(m.rows());
    for (long k = m.cols() - 1; k >= 0; --k) v = v * (t / tf) + m.col(k);
    return v;
  };
  p.t0 = 0, p.tf = tf;
  p.Q = s0.x.segment(R.qB, NQ), p.lambda_q.setConstant(2 * ki), p.lambda_ce.setConstant(-3 * ke);
  p.x = [=](double t) -> Eigen::Vector<double, NX> { return pol(cx, t); };
  p.u = [=](double t) -> Eigen::Vector<double, NU> { return pol(cu, t); };
  p.lambda_dyn = [=](double t) -> Eigen::Vector<double, NX> { return pol(cd, t); };
  p.lambda_cr  = [=](double t) -> Eigen::Vector<double, NCR> { return pol(cc, t); };
  const auto pn = sf::ocpsol_to_nlpsol(o, mesh, p);
  const auto pb = sf::nlpsol_to_ocpsol(o, mesh, pn);
  vh::check("function-trip-constants", pb.tf == tf && pb.Q == p.Q && pb.lambda_q == p.lambda_q && pb.lambda_ce == p.lambda_ce, "");
  for (int q = 0; q < 8; ++q) {
    const double t = tf * (q == 0 ? 0. : q == 1 ? 1. : r.u01());
    vh::check_le("function-trip-x", (pb.x(t) - p.x(t)).cwiseAbs().maxCoeff(), 1e-8 * kx, vh::fmt("t/tf=%.6g", t / tf));
    vh::check_le("function-trip-u", (pb.u(t) - p.u(t)).cwiseAbs().maxCoeff(), 1e-8 * ku, vh::fmt("t/tf=%.6g", t / tf));
    vh::check_le("function-trip-ldyn", (pb.lambda_dyn(t) - p.lambda_dyn(t)).cwiseAbs().maxCoeff(), 1e-8 * kd, vh::fmt("t/tf=%.6g", t / tf));
    vh::check_le("function-trip-lcr", (pb.lambda_cr(t) - p.lambda_cr(t)).cwiseAbs().maxCoeff(), 1e-8 * kc, vh::fmt("t/tf=%.6g", t / tf));
    vh::count("trajectory_points");
  }
}
#endif

template<typename Mesh, typename O, Type DT>
static void one(Rng & r, const char * name)
{
  const O o       = random_ocp<O>(r);
  const Mesh mesh = random_mesh<Mesh>(r, r.coin(0.2) ? 10 : 4);
  const lgr::Grid g(observe(mesh));
  const Ref<O> R(o, g);
  vh::detail(vh::fmt("%s Nx%d Nu%d Nq%d Ncr%d Nce%d ", name, O::Nx, O::Nu, O::Nq, O::Ncr, O::Nce) + show(mesh));
#if WHAT == 1
  values(r, o, mesh, R);
#elif WHAT == 2
  derivatives<DT>(r, o, mesh, R);
#else
  roundtrip(r, o, mesh, R);
#endif
  vh::nontrivial(vh::fmt("%s%ld%g", name, R.n, o.f.f.rows[0].c) + show(mesh));
  vh::sample(vh::fmt("%s Nx%d Nu%d Nq%d Ncr%d Nce%d n=%ld m=%ld ", name, O::Nx, O::Nu, O::Nq, O::Ncr, O::Nce, R.n, R.m) + show(mesh));
}

template<int F, int Z>
using Sp = rf::Sparse<F, Z>;
template<int F, int Z>
using SpR = rf::Sparse<F, Z, Eigen::ColMajor, true>;
#if PART == 0
void run_0(Rng & r) { one<sf::Mesh<3, 5>, Ocp<2, 1, 1, 2, 3, rf::Dense, rf::DenseS<6>>, Type::Analytic>(r, "dense"); }
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3};
  vh::group("programs", 150, 30000, 1, [](Rng & r, long) { fs[r.ri(0, 3)](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { one<sf::Mesh<2, 4>, Ocp<3, 2, 2, 1, 2, Sp, rf::DenseS<9>>, Type::Default>(r, "sparse"); }
#elif PART == 2
void run_2(Rng & r) { one<sf::Mesh<1, 3>, Ocp<1, 2, 3, 3, 1, rf::Plain, rf::PlainS<6>>, Type::Default>(r, "autodiff"); }
#elif PART == 3
void run_3(Rng & r) { one<sf::Mesh<5, 6>, Ocp<2, 2, 1, 1, 4, SpR, rf::DenseS<6>>, Type::Default>(r, "sparse-reference"); }
#endif
