#include "qpgen.hpp"
#include <Eigen/Dense>

namespace qg {
std::vector<Kind> & kinds()
{
  static std::vector<Kind> k;
  return k;
}
const char * name(St s)
{
  switch (s) {
    case St::Optimal: return "Optimal";
    case St::PolishFailed: return "PolishFailed";
    case St::PrimalInfeasible: return "PrimalInfeasible";
    case St::DualInfeasible: return "DualInfeasible";
    case St::MaxIterations: return "MaxIterations";
    case St::MaxTime: return "MaxTime";
    case St::Unknown: return "Unknown";
  }
  return "?";
}

MatrixXd randn(Rng & r, int a, int b, double density)
{
  MatrixXd X(a, b);
  for (int j = 0; j < b; ++j)
    for (int i = 0; i < a; ++i) X(i, j) = r.coin(density) ? r.nrm() : 0.;
  return X;
}
MatrixXd randorth(Rng & r, int n)
{
  if (n == 0) return MatrixXd(0, 0);
  MatrixXd Q = randn(r, n, n).householderQr().householderQ();
  return Q;
}
/// PSD with `rank` eigenvalues in [lo, hi], others zero; optionally sparse structure (diagonal blocks)
MatrixXd randpsd(Rng & r, int n, int rank, double lo, double hi)
{
  MatrixXd P = MatrixXd::Zero(n, n);
  const int kind = r.ri(0, 3);
  if (kind == 0) {  // diagonal
    for (int i = 0; i < rank; ++i) P(i, i) = r.logu(lo, hi);
  } else if (kind == 1 && n >= 2) {  // block diagonal of 2x2
    for (int i = 0; i < rank; ++i) P(i, i) = r.logu(lo, hi);
    for (int i = 0; i + 1 < n; i += 2) {
      const double t = r.uni(0, 2 * M_PI), c = std::cos(t), s = std::sin(t);
      MatrixXd G     = MatrixXd::Identity(n, n);
      G(i, i) = G(i + 1, i + 1) = c;
      G(i, i + 1)               = -s;
      G(i + 1, i)               = s;
      P                         = G * P * G.transpose();
    }
  } else {
    VectorXd d = VectorXd::Zero(n);
    for (int i = 0; i < rank; ++i) d(i) = r.logu(lo, hi);
    MatrixXd Q = randorth(r, n);
    P          = Q * d.asDiagonal() * Q.transpose();
  }
  return ((P + P.transpose()) / 2).eval();
}

/// QP built around a known KKT point. rank(P) chosen by the caller; bounds of all kinds.
/// eqmax: max number of equality rows (made linearly independent); weak: allow weakly active rows

Qp gen_kkt(Rng & r, const KktOpts & o)
{
  Qp p;
  p.fam = "kkt";
  p.P   = randpsd(r, o.n, o.rank, o.lo, o.hi);
  p.A   = randn(r, o.m, o.n, o.density);
  p.xs  = randn(r, o.n, 1) * r.pick({0.1, 1., 3.});
  p.ys  = VectorXd::Zero(o.m);
  p.l.resize(o.m);
  p.u.resize(o.m);
  int eqleft = o.eqmax < 0 ? std::max(0, o.n / 2) : o.eqmax;
  if (o.dup && o.m >= 2)
    for (int k = 0; k < std::max(1, o.m / 3); ++k) {
      int i = r.ri(0, o.m - 1), j = r.ri(0, o.m - 1);
      p.A.row(i) = p.A.row(j) * r.pick({1., 1., -1., 2.});
    }
  const VectorXd z = p.A * p.xs;
  int nact         = 0;
  for (int i = 0; i < o.m; ++i) {
    const double gap = r.uni(0.2, 2), gap2 = r.uni(0.2, 2), y = o.ymag * r.uni(0.1, 2);
    int k = r.ri(0, 9);
    if (r.coin(o.freep)) k = 10;
    if (r.coin(o.weakp)) k = 11;
    if ((k == 0 || k == 1) && eqleft <= 0) k = 5;
    if (k >= 0 && k <= 7 && k != 5 && k != 6 && nact >= o.n && !o.dup) k = 5;
    switch (k) {
      case 0:
      case 1:
        p.l(i) = p.u(i) = z(i);
        p.ys(i)         = (r.coin() ? 1 : -1) * y;
        --eqleft;
        ++nact;
        break;
      case 2: p.l(i) = z(i), p.u(i) = INF, p.ys(i) = -y, ++nact; break;
      case 3: p.l(i) = -INF, p.u(i) = z(i), p.ys(i) = y, ++nact; break;
      case 4: p.l(i) = z(i), p.u(i) = z(i) + gap, p.ys(i) = -y, ++nact; break;
      case 7: p.l(i) = z(i) - gap, p.u(i) = z(i), p.ys(i) = y, ++nact; break;
      case 5:
      case 6: p.l(i) = z(i) - gap, p.u(i) = z(i) + gap2; break;
      case 8: p.l(i) = z(i) - gap, p.u(i) = INF; break;
      case 9: p.l(i) = -INF, p.u(i) = z(i) + gap; break;
      case 10: p.l(i) = -INF, p.u(i) = INF; break;
      case 11:
        if (r.coin())
          p.l(i) = z(i), p.u(i) = r.coin() ? INF : z(i) + gap;
        else
          p.u(i) = z(i), p.l(i) = r.coin() ? -INF : z(i) - gap;
        break;
    }
  }
  p.q = -p.P * p.xs - p.A.transpose() * p.ys;
  return p;
}

/// Linear program / low rank cost over a box plus some general rows; always feasible and bounded
Qp gen_boxlp(Rng & r, int n, int mextra, int rank)
{
  Qp p;
  p.fam = "boxlp";
  p.P   = randpsd(r, n, rank, 0.2, 3);
  p.q   = randn(r, n, 1);
  p.A.resize(n + mextra, n);
  p.A.topRows(n)         = MatrixXd::Identity(n, n);
  p.A.bottomRows(mextra) = randn(r, mextra, n, 0.7);
  p.l.resize(n + mextra);
  p.u.resize(n + mextra);
  const VectorXd x0 = randn(r, n, 1) * 0.5;
  const VectorXd z  = p.A * x0;
  for (int i = 0; i < n + mextra; ++i) {
    p.l(i) = z(i) - r.uni(0.2, 2);
    p.u(i) = z(i) + r.uni(0.2, 2);
    if (i >= n) {
      if (r.coin(0.3)) p.l(i) = -INF;
      else if (r.coin(0.4)) p.u(i) = INF;
    }
  }
  return p;
}

/// Linear-quadratic control problem in simultaneous form (states + inputs), as produced by MPC
Qp gen_mpc(Rng & r, int nx, int nu, int T)
{
  Qp p;
  p.fam       = "mpc";
  const int n = nx * (T + 1) + nu * T, md = nx * T, m = md + nx + nu * T;
  MatrixXd F = MatrixXd::Identity(nx, nx) + 0.1 * randn(r, nx, nx), B = 0.3 * randn(r, nx, nu);
  p.P = MatrixXd::Zero(n, n);
  for (int i = 0; i < nx * (T + 1); ++i) p.P(i, i) = r.uni(0.5, 2);
  for (int i = nx * (T + 1); i < n; ++i) p.P(i, i) = r.uni(0.1, 1);
  p.q = 0.3 * randn(r, n, 1);
  p.A = MatrixXd::Zero(m, n);
  p.l.resize(m);
  p.u.resize(m);
  for (int t = 0; t < T; ++t) {
    p.A.block(nx * t, nx * (t + 1), nx, nx).setIdentity();
    p.A.block(nx * t, nx * t, nx, nx)                = -F;
    p.A.block(nx * t, nx * (T + 1) + nu * t, nx, nu) = -B;
  }
  p.l.head(md).setZero();
  p.u.head(md).setZero();
  p.A.block(md, 0, nx, nx).setIdentity();
  p.l.segment(md, nx) = p.u.segment(md, nx) = randn(r, nx, 1) * 0.7;
  p.A.block(md + nx, nx * (T + 1), nu * T, nu * T).setIdentity();
  p.l.tail(nu * T).setConstant(-1);
  p.u.tail(nu * T).setConstant(1);
  return p;
}

/// rescale rows / columns / cost by powers of ten: same problem, badly scaled
void badscale(Rng & r, Qp & p, double dec)
{
  VectorXd d(p.n()), e(p.m());
  for (int i = 0; i < p.n(); ++i) d(i) = std::pow(10., r.uni(-dec, dec));
  for (int i = 0; i < p.m(); ++i) e(i) = std::pow(10., r.uni(-dec, dec));
  const double c = std::pow(10., r.uni(-dec, dec));
  p.P            = c * d.asDiagonal() * p.P * d.asDiagonal();
  p.q            = c * d.cwiseProduct(p.q);
  p.A            = e.asDiagonal() * p.A * d.asDiagonal();
  p.l            = e.cwiseProduct(p.l);
  p.u            = e.cwiseProduct(p.u);
  if (p.xs.size()) p.xs = p.xs.cwiseQuotient(d);
  if (p.ys.size()) p.ys = c * p.ys.cwiseQuotient(e);
  p.fam += "+scaled";
}


Kkt kkt(const Qp & p, const VectorXd & x, const VectorXd & y, double ytol)
{
  using Ld = long double;
  Kkt k{};
  const int n = p.n(), m = p.m();
  std::vector<Ld> Ax(m, 0), Px(n, 0), Aty(n, 0);
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < m; ++i) {
      Ax[i] += Ld(p.A(i, j)) * x(j);
      Aty[j] += Ld(p.A(i, j)) * y(i);
    }
    for (int i = 0; i < n; ++i) Px[i] += Ld(p.P(i, j)) * x(j);
  }
  auto up = [](double & w, Ld v) {  // running max that propagates NaN
    if (!(static_cast<double>(v) <= w) && !std::isnan(w)) w = static_cast<double>(v);
  };
  Ld obj = 0;
  for (int i = 0; i < n; ++i) {
    up(k.nPx, std::fabs(Px[i]));
    up(k.nAty, std::fabs(Aty[i]));
    up(k.nq, std::fabs(p.q(i)));
    up(k.dres, std::fabs(Px[i] + p.q(i) + Aty[i]));
    obj += x(i) * (Px[i] / 2 + p.q(i));
  }
  k.obj = static_cast<double>(obj);
  for (int i = 0; i < m; ++i) {
    up(k.nAx, std::fabs(Ax[i]));
    up(k.ynorm, std::fabs(y(i)));
    if (!(Ax[i] >= p.l(i))) up(k.pviol, p.l(i) - Ax[i]);
    if (!(Ax[i] <= p.u(i))) up(k.pviol, Ax[i] - p.u(i));
    if (std::isnan(y(i))) up(k.ycomp, y(i));
    if (y(i) > ytol) up(k.ycomp, std::isinf(p.u(i)) ? Ld(INF) : std::fabs(Ax[i] - p.u(i)));
    if (y(i) < -ytol) up(k.ycomp, std::isinf(p.l(i)) ? Ld(INF) : std::fabs(Ax[i] - p.l(i)));
  }
  return k;
}
double eps_p(const Kkt & k, const sf::QPSolverParams & prm)
{
  const double er = prm.eps_rel, ea = prm.eps_abs;
  // |z| <= |Ax| + |Ax-z|, and |Ax-z| <= ea + er*max(|Ax|,|z|)
  return (ea + er * k.nAx) / (1 - std::min(er, 0.5)) * 1.0001 + 1e-12 * (1 + k.nAx);
}
double eps_d(const Kkt & k, const sf::QPSolverParams & prm)
{
  const double er = prm.eps_rel, ea = prm.eps_abs, s = std::max({k.nPx, k.nq, k.nAty});
  return (ea + er * s) * 1.0001 + 1e-11 * (1 + s);
}

/// The optimality monitor. Reports violations under key prefix.
bool monitor_optimal(const Qp & p, const VectorXd & x, const VectorXd & y, double obj, const sf::QPSolverParams & prm, const std::string & tag)
{
  using namespace vh;
  if (!check("size", x.size() == p.n() && y.size() == p.m(), tag)) return false;
  bool fin = x.allFinite() && y.allFinite() && std::isfinite(obj);
  if (!check("nonfinite-optimal", fin, tag + " non-finite solution reported optimal")) return false;
  const double ynorm = y.size() ? y.cwiseAbs().maxCoeff() : 0.;
  Kkt k              = kkt(p, x, y, 1e-7 * (1 + ynorm));
  bool ok            = true;
  ok &= check_le("primal-residual", k.pviol, eps_p(k, prm), tag);
  ok &= check_le("dual-residual", k.dres, eps_d(k, prm), tag);
  ok &= check_le("complementarity", k.ycomp, eps_p(k, prm), tag + " non-zero multiplier on inactive or infinite bound");
  const double oscale = 1 + std::fabs(k.obj) + (p.n() ? (x.cwiseAbs().transpose() * (p.P.cwiseAbs() * x.cwiseAbs() + p.q.cwiseAbs())) : 0.);
  ok &= check_le("objective-value", std::fabs(obj - k.obj), 1e-9 * oscale, tag + fmt(" reported %.12g actual %.12g", obj, k.obj));
  return ok;
}

// ---------------------------------------------------------------- solver parameter diversity
sf::QPSolverParams rand_params(Rng & r)
{
  sf::QPSolverParams p;
  p.alpha           = r.pick({1.6f, 1.6f, 1.0f, 1.3f, 1.8f, 0.7f});
  p.rho             = r.pick({0.1f, 0.1f, 1.f, 0.03f, 5.f});
  p.sigma           = r.pick({1e-6f, 1e-6f, 1e-4f, 1e-2f});
  p.scaling         = r.coin(0.7);
  p.eps_abs         = r.pick({1e-3f, 1e-3f, 1e-2f, 1e-5f, 1e-7f, 0.1f});
  p.eps_rel         = r.pick({1e-3f, 1e-3f, 1e-2f, 1e-5f, 1e-7f, 0.f});
  p.stop_check_iter = r.pick<uint32_t>({25, 25, 2, 3, 7, 10, 50});
  p.polish          = r.coin(0.6);
  p.polish_iter     = r.pick<uint32_t>({5, 5, 1, 2, 10});
  p.delta           = r.pick({1e-6f, 1e-6f, 1e-7f, 1e-4f});
  return p;
}
std::string str(const sf::QPSolverParams & p)
{
  return vh::fmt(
    "alpha=%g rho=%g sigma=%g scaling=%d ea=%g er=%g sc=%u polish=%d pi=%u delta=%g",
    p.alpha, p.rho, p.sigma, p.scaling, p.eps_abs, p.eps_rel, p.stop_check_iter, p.polish, p.polish_iter, p.delta);
}
std::string str(const Qp & p)
{
  std::ostringstream o;
  o.precision(17);
  o << p.fam << " n=" << p.n() << " m=" << p.m();
  if (p.n() * std::max(1, p.m()) <= 12) {
    Eigen::IOFormat f(17, Eigen::DontAlignCols, ",", ";", "", "", "[", "]");
    o << " P=" << p.P.format(f) << " q=" << p.q.transpose().format(f) << " A=" << p.A.format(f)
      << " l=" << p.l.transpose().format(f) << " u=" << p.u.transpose().format(f);
  }
  return o.str();
}

std::string str(const Store & s)
{
  return vh::fmt("store[upper=%d compressed=%d zeros=%d garbage=%d]", s.upper, s.compressed, s.zeros, s.garbage);
}

Qp any_qp(Rng & r)
{
  Qp p;
  KktOpts o;
  switch (r.ri(0, 9)) {
    case 0: p = gen_boxlp(r, r.ri(1, 6), r.ri(0, 4), r.ri(0, 1)); break;
    case 1: p = gen_mpc(r, r.ri(1, 3), r.ri(1, 2), r.ri(2, 5)); break;
    case 2:
      o.n = r.ri(1, 8), o.m = r.ri(1, 12), o.rank = r.ri(0, o.n), o.dup = true, o.weakp = 0.2;
      p     = gen_kkt(r, o);
      p.fam = "kkt-degenerate";
      break;
    case 3:
      o.n = r.ri(10, 25), o.m = r.ri(5, 40), o.rank = r.ri(o.n / 2, o.n), o.density = r.uni(0.1, 0.5);
      p     = gen_kkt(r, o);
      p.fam = "kkt-large";
      break;
    case 4:
      o.n = r.ri(1, 3), o.m = r.ri(0, 2), o.rank = o.n;
      p     = gen_kkt(r, o);
      p.fam = "kkt-tiny";
      break;
    default:
      o.n = r.ri(1, 8), o.m = r.ri(1, 12), o.rank = r.coin(0.7) ? o.n : r.ri(0, o.n), o.weakp = r.coin(0.2) ? 0.2 : 0;
      o.ymag = r.pick({1., 1., 10., 0.05});
      p      = gen_kkt(r, o);
  }
  if (r.coin(0.2)) badscale(r, p, r.pick({1., 2.}));
  return p;
}

Qp gen_wellposed(Rng & r, int n, int m)
{
  Qp p;
  p.fam = "wellposed";
  p.P   = randpsd(r, n, n, 0.5, 5);
  p.q   = randn(r, n, 1);
  p.A   = randn(r, m, n, r.pick({1., 1., 0.5})) / std::sqrt(static_cast<double>(n));
  const VectorXd x0 = randn(r, n, 1) * r.pick({0.1, 0.5, 1.});
  p.l.resize(m);
  p.u.resize(m);
  // equality rows: orthonormal, hence full rank and well conditioned
  const MatrixXd Q = randorth(r, n);
  int neq = 0, eqmax = r.coin(0.5) ? 0 : r.ri(0, n / 2);
  for (int i = 0; i < m; ++i) {
    const bool eq = neq < eqmax && r.coin(0.5);
    if (eq) p.A.row(i) = Q.row(neq++) * r.pick({1., 1., 2., 0.5});
    const double z = p.A.row(i).dot(x0);
    const double a = r.uni(0.1, 1.5), b = r.uni(0.1, 1.5);
    p.l(i) = z - a, p.u(i) = z + b;
    if (eq) {
      p.l(i) = p.u(i) = z;
    } else {
      const int k = r.ri(0, 5);
      if (k == 0 || k == 1) p.l(i) = -INF;
      if (k == 2 || k == 3 || (k == 0 && r.coin(0.3))) p.u(i) = INF;
    }
  }
  return p;
}

Qp gen_bounded(Rng & r, int n, int m)
{
  const int k = r.ri(0, 3);
  if (k == 3) {
    // bounded by weak duality: q = -A' y - P w with y of the sign of finite bounds, which may be one-sided and far away.
    // |y|_1 + |w|_1 < 1 keeps every direction away from being a certificate of unboundedness.
    m   = std::max(m, 1);
    Qp p = gen_wellposed(r, n, m);
    p.fam = "dual-bounded";
    if (r.coin()) p.P.setZero();
    else p.P = randpsd(r, n, r.ri(0, n), 0.5, 5);
    const bool diag = r.coin(0.4);
    if (diag) {
      p.A.setZero();
      for (int i = 0; i < std::min(n, m); ++i) p.A(i, i) = r.coin() ? 1 : -1;
    }
    VectorXd y = VectorXd::Zero(m), w = randn(r, n, 1);
    const VectorXd z = p.A * (randn(r, n, 1) * r.pick({1., 10., 300.}));
    for (int i = 0; i < m; ++i) {
      const int t = r.ri(0, 7);  // upper, lower, both, free
      p.u(i)      = t <= 2 || t == 6 ? z(i) + r.logu(0.1, 1000) : INF;
      p.l(i)      = t > 2 && t <= 6 ? z(i) - r.logu(0.1, 1000) : -INF;
      y(i)        = t <= 2 ? r.u01() : t <= 5 ? -r.u01() : t == 6 ? r.uni(-1, 1) : 0;
    }
    // equality rows (only independent ones: dependent rows that agree have no margin against a false certificate)
    if (diag && r.coin(0.6)) {
      const double pe = r.pick({0.3, 1.});
      for (int i = 0; i < std::min(n, m); ++i)
        if (r.coin(pe)) p.l(i) = p.u(i) = z(i), y(i) = r.uni(-1, 1);
      p.fam = "dual-bounded-eq";
    }
    if (p.P.isZero(0)) w.setZero();
    const double sc = 0.8 / std::max(1e-9, y.lpNorm<1>() + w.lpNorm<1>());
    p.q             = -sc * (p.A.transpose() * y + p.P * w);
    return p;
  }
  if (k == 0) {
    // bounded variables: identity rows first (needs m >= n)
    if (m >= n) return gen_boxlp(r, n, m - n, r.ri(0, n));
  }
  Qp p = gen_wellposed(r, n, m);
  p.P  = randpsd(r, n, r.ri(0, n), 0.5, 5);
  if (k == 1) {  // pure feasibility problem in the directions that P does not see
    p.fam = "feasibility";
    p.q.setZero();
    if (r.coin(0.3)) p.P.setZero();
  } else {
    p.fam      = "lowrank-bounded";
    VectorXd w = randn(r, n, 1);
    w *= 0.8 / w.lpNorm<1>();
    p.q = p.P * w;
  }
  return p;
}

Qp gen_infeasible(Rng & r, int n, int m, double & margin)
{
  // rows i in S combine to zero with weights y; their bounds contradict by `margin`
  Qp p         = gen_wellposed(r, n, std::max(m, 1));
  if (r.coin(0.3)) p.P = randpsd(r, n, r.ri(0, n), 0.5, 5);
  p.fam        = "infeasible";
  const int mm = p.m();
  p.ys         = VectorXd::Zero(mm);
  const VectorXd x0 = randn(r, n, 1) * 0.5;
  margin       = r.uni(0.5, 3);
  const int last = r.ri(0, mm - 1);
  const int cnt  = mm > 1 ? r.ri(1, std::min(mm - 1, 3)) : 0;
  Eigen::RowVectorXd comb = Eigen::RowVectorXd::Zero(n);
  for (int c = 0; c < cnt && mm > 1; ++c) {
    const int i = r.ri(0, mm - 1);
    if (i == last || p.ys(i) != 0) continue;
    // the rows that take part must be well conditioned, else the certificate is arbitrarily hard to find
    MatrixXd S(0, n);
    for (int k = 0; k < mm; ++k)
      if (p.ys(k) != 0 || k == i) {
        S.conservativeResize(S.rows() + 1, n);
        S.row(S.rows() - 1) = p.A.row(k).normalized();
      }
    if (p.A.row(i).norm() < 0.1 || S.rows() > n || S.jacobiSvd().singularValues().minCoeff() < 0.3) continue;
    const double y = r.uni(0.5, 1.5) * (r.coin() ? 1 : -1);
    p.ys(i)        = y;
    comb += y * p.A.row(i);
    const double z = p.A.row(i).dot(x0);
    const int kind = r.ri(0, 2);  // one-sided, two-sided, equality
    p.l(i) = -INF, p.u(i) = INF;
    (y > 0 ? p.u(i) : p.l(i)) = z;
    if (kind == 1) (y > 0 ? p.l(i) : p.u(i)) = z - (y > 0 ? 1 : -1) * r.uni(0.5, 2);
    if (kind == 2) p.l(i) = p.u(i) = z;
  }
  // a_last = -comb / y_last, so that A'y = 0 (a zero row when no other row takes part)
  const double yl = r.uni(0.5, 1.5) * (r.coin() ? 1 : -1);
  p.ys(last)      = yl;
  p.A.row(last)   = -comb / yl;
  const double zl = p.A.row(last).dot(x0), b = zl - margin / yl;
  p.l(last) = -INF, p.u(last) = INF;
  (yl > 0 ? p.u(last) : p.l(last)) = b;
  const int kind = r.ri(0, 2);
  if (kind == 1) (yl > 0 ? p.l(last) : p.u(last)) = b - (yl > 0 ? 1 : -1) * r.uni(0.5, 2);
  if (kind == 2) p.l(last) = p.u(last) = b;
  return p;
}

Qp gen_unbounded(Rng & r, int n, int m)
{
  Qp p  = gen_wellposed(r, n, m);
  p.fam = "unbounded";
  VectorXd d = randn(r, n, 1);
  if (r.coin(0.4)) {
    d.setZero();
    d(r.ri(0, n - 1)) = r.coin() ? 1 : -1;
  }
  d.normalize();
  const MatrixXd Pr = MatrixXd::Identity(n, n) - d * d.transpose();
  p.P               = r.coin(0.3) ? MatrixXd::Zero(n, n).eval() : (Pr * p.P * Pr).eval();
  p.P               = ((p.P + p.P.transpose()) / 2).eval();
  p.q               = Pr * p.q - r.uni(0.3, 2) * d;
  const VectorXd x0 = randn(r, n, 1) * 0.5;
  for (int i = 0; i < m; ++i) {
    const int k = r.ri(0, 5);
    Eigen::RowVectorXd a = p.A.row(i) * Pr;
    const double z = a.dot(x0), g = r.uni(0.2, 1.5), c = r.uni(0.2, 1.5);
    p.l(i) = -INF, p.u(i) = INF;
    if (k == 0) p.l(i) = z - g, p.u(i) = z + g;                       // bounded orthogonally to d
    if (k == 1) a += c * d.transpose(), p.l(i) = z - g - 3 * c;       // grows: only lower bound
    if (k == 2) a -= c * d.transpose(), p.u(i) = z + g + 3 * c;       // decreases: only upper bound
    if (k == 3) p.l(i) = z - g;
    if (k == 4) p.u(i) = z + g;
    if (k == 5) a += r.uni(-1, 1) * d.transpose();                    // free row
    p.A.row(i) = a;
  }
  p.xs = d;
  return p;
}

double mineig(const Qp & p)
{
  if (p.n() == 0) return 0;
  return Eigen::SelfAdjointEigenSolver<MatrixXd>(p.P, Eigen::EigenvaluesOnly).eigenvalues().minCoeff();
}

double sol_dist_bound(const Qp & p, double mu, const VectorXd & x1, const VectorXd & y1, const VectorXd & x2, const VectorXd & y2, const sf::QPSolverParams & prm)
{
  // mu |d|^2 <= (r1-r2)'d - (y1-y2)'A d  <=  (ed1+ed2) sqrt(n) |d| + (|y1|_1+|y2|_1)(ep1+ep2)
  const Kkt k1 = kkt(p, x1, y1, 0), k2 = kkt(p, x2, y2, 0);
  const double b = (eps_d(k1, prm) + eps_d(k2, prm)) * std::sqrt(static_cast<double>(p.n()));
  const double c = (y1.lpNorm<1>() + y2.lpNorm<1>()) * (eps_p(k1, prm) + eps_p(k2, prm));
  return (b + std::sqrt(b * b + 4 * mu * c)) / (2 * mu) * 1.01 + 1e-8;
}
}  // namespace qg
