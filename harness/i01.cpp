// I01: the Ipopt bridge.  (a) direct monitor on the TNLP callbacks: every value handed to Ipopt is
// compared with the program itself, at the announced positions; (b) end-to-end: solutions of convex
// programs with constructed optima are judged by KKT, and against the constructed optimum.
#include "vh.hpp"

#include <algorithm>
#include <optional>
#include <vector>

#include <smooth/feedback/compat/ipopt.hpp>

namespace sf = smooth::feedback;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using SpC    = Eigen::SparseMatrix<double>;
using SpR    = Eigen::SparseMatrix<double, Eigen::RowMajor>;
using Status = sf::NLPSolution::Status;
constexpr double inf = std::numeric_limits<double>::infinity();

// observations of what the program was asked for
struct Log
{
  long nf = 0, ng = 0, ndf = 0, ndg = 0, nhf = 0, nhg = 0;
  VectorXd first_x;
};

// the mathematical program:  f = 1/2 x'Qx + c'x + sum_k w_k phi(a_k x),  g_i = 1/2 x'R_i x + B_i x + s_i psi(b_i x)
struct Math
{
  int n, m;
  MatrixXd Q, A, B, Bs;
  VectorXd c, w, s, xl, xu, gl, gu;
  std::vector<MatrixXd> R;
  Eigen::MatrixXi jpat, hpat;  // announced structure (constant)
  bool uncompressed = false;
  int scramble      = 0;

  static double sp(double t) { return t > 0 ? t + std::log1p(std::exp(-t)) : std::log1p(std::exp(t)); }
  static double sp1(double t) { return 1 / (1 + std::exp(-t)); }
  static double sp2(double t) { return sp1(t) * (1 - sp1(t)); }

  double f(const VectorXd & x) const
  {
    double v = 0.5 * x.dot(Q * x) + c.dot(x);
    for (int k = 0; k < A.rows(); ++k) v += w(k) * sp(A.row(k).dot(x));
    return v;
  }
  VectorXd df(const VectorXd & x) const
  {
    VectorXd v = Q * x + c;
    for (int k = 0; k < A.rows(); ++k) v += w(k) * sp1(A.row(k).dot(x)) * A.row(k).transpose();
    return v;
  }
  MatrixXd d2f(const VectorXd & x) const
  {
    MatrixXd v = Q;
    for (int k = 0; k < A.rows(); ++k) v += w(k) * sp2(A.row(k).dot(x)) * A.row(k).transpose() * A.row(k);
    return v;
  }
  VectorXd g(const VectorXd & x) const
  {
    VectorXd v = B * x;
    for (int i = 0; i < m; ++i) v(i) += 0.5 * x.dot(R[i] * x) + s(i) * sp(Bs.row(i).dot(x));
    return v;
  }
  MatrixXd dg(const VectorXd & x) const
  {
    MatrixXd v = B;
    for (int i = 0; i < m; ++i) v.row(i) += (R[i] * x).transpose() + s(i) * sp1(Bs.row(i).dot(x)) * Bs.row(i);
    return v;
  }
  MatrixXd d2g(const VectorXd & x, const VectorXd & l) const
  {
    MatrixXd v = MatrixXd::Zero(n, n);
    for (int i = 0; i < m; ++i) v += l(i) * (R[i] + s(i) * sp2(Bs.row(i).dot(x)) * Bs.row(i).transpose() * Bs.row(i));
    return v;
  }

  template<typename S>
  S pack(const MatrixXd & M, const Eigen::MatrixXi & pat, bool upper, bool unc) const
  {
    S s(M.rows(), M.cols());
    if (unc) s.reserve(Eigen::VectorXi::Constant(S::IsRowMajor ? M.rows() : M.cols(), static_cast<int>(std::max(M.rows(), M.cols()))));
    // insertion order must not matter
    std::vector<std::pair<int, int>> ij;
    for (int i = 0; i < M.rows(); ++i)
      for (int j = 0; j < M.cols(); ++j)
        if (pat(i, j) && (!upper || i <= j)) ij.push_back({i, j});
    vh::Rng r(static_cast<uint64_t>(scramble));
    for (size_t k = ij.size(); k > 1; --k) std::swap(ij[k - 1], ij[static_cast<size_t>(r.ri(0, static_cast<int>(k) - 1))]);
    for (auto [i, j] : ij) s.insert(i, j) = M(i, j);
    if (!unc) s.makeCompressed();
    return s;
  }
};

// the program as the library sees it; K selects storage of the Jacobians
template<int K>
struct Prog
{
  const Math * p;
  Log * log;

  static constexpr bool row = (K & 1) != 0;
  using J                   = std::conditional_t<row, SpR, SpC>;

  std::size_t n() const { return static_cast<std::size_t>(p->n); }
  std::size_t m() const { return static_cast<std::size_t>(p->m); }
  VectorXd xl() const { return p->xl; }
  VectorXd xu() const { return p->xu; }
  VectorXd gl() const { return p->gl; }
  VectorXd gu() const { return p->gu; }
  double f(const Eigen::Ref<const VectorXd> & x)
  {
    if (!log->nf++) log->first_x = x;
    return p->f(x);
  }
  J df_dx(const Eigen::Ref<const VectorXd> & x)
  {
    ++log->ndf;
    const MatrixXd g         = p->df(x).transpose();
    const Eigen::MatrixXi pt = (g.array() != 0).cast<int>();
    return p->template pack<J>(g, pt, false, p->uncompressed);
  }
  VectorXd g(const Eigen::Ref<const VectorXd> & x)
  {
    ++log->ng;
    return p->g(x);
  }
  J dg_dx(const Eigen::Ref<const VectorXd> & x)
  {
    ++log->ndg;
    return p->template pack<J>(p->dg(x), p->jpat, false, p->uncompressed);
  }
};

template<int K>
struct ProgH : public Prog<K>
{
  SpC d2f_dx2(const Eigen::Ref<const VectorXd> & x)
  {
    ++this->log->nhf;
    return this->p->template pack<SpC>(this->p->d2f(x), this->p->hpat, true, this->p->uncompressed);
  }
  SpC d2g_dx2(const Eigen::Ref<const VectorXd> & x, const Eigen::Ref<const VectorXd> & l)
  {
    ++this->log->nhg;
    return this->p->template pack<SpC>(this->p->d2g(x, l), this->p->hpat, true, this->p->uncompressed);
  }
};

static_assert(sf::NLP<Prog<0>> && !sf::HessianNLP<Prog<0>>);
static_assert(sf::HessianNLP<ProgH<1>>);

static MatrixXd rmat(vh::Rng & r, int a, int b, double dens, double sc = 1)
{
  MatrixXd M = MatrixXd::Zero(a, b);
  for (int i = 0; i < a; ++i)
    for (int j = 0; j < b; ++j)
      if (r.coin(dens)) M(i, j) = sc * r.nrm();
  return M;
}
static VectorXd rvec(vh::Rng & r, int a, double sc = 1) { return rmat(r, a, 1, 1, sc); }

// structure; if convex: f convex, nonlinear g convex (used with upper bounds only)
static Math gen(vh::Rng & r, bool convex, int nmax = 8)
{
  Math p;
  p.n             = r.ri(1, nmax);
  p.m             = r.ri(0, std::max(1, r.coin(0.7) ? p.n - 1 : p.n + 2));
  const double dn = r.pick({0.3, 0.6, 1.});
  MatrixXd L      = rmat(r, p.n, p.n, dn * 0.7);
  p.Q             = convex ? MatrixXd(L * L.transpose() + (r.coin(0.8) ? 0.3 : 1.) * MatrixXd::Identity(p.n, p.n)) : MatrixXd(L + L.transpose());
  p.c             = rvec(r, p.n);
  const int k     = r.ri(0, 2);
  p.A             = rmat(r, k, p.n, dn * 0.6);
  p.w             = rvec(r, k).cwiseAbs();
  p.B             = rmat(r, p.m, p.n, dn);
  p.Bs            = rmat(r, p.m, p.n, dn * 0.6);
  p.s             = VectorXd::Zero(p.m);
  for (int i = 0; i < p.m; ++i) {
    MatrixXd Ri = MatrixXd::Zero(p.n, p.n);
    if (!convex || r.coin(0.4)) {
      MatrixXd l = rmat(r, p.n, p.n, dn * 0.5);
      Ri         = convex ? MatrixXd(0.3 * l * l.transpose()) : MatrixXd(l + l.transpose());
      if (r.coin()) p.s(i) = convex ? std::fabs(r.nrm()) : r.nrm();
    }
    p.R.push_back(Ri);
  }
  // constant structure: everything that can be non-zero, plus some explicit zeros
  const double extra = r.pick({0., 0., 0.2, 1.});
  p.jpat.resize(p.m, p.n);
  p.hpat.resize(p.n, p.n);
  for (int i = 0; i < p.m; ++i)
    for (int j = 0; j < p.n; ++j)
      p.jpat(i, j) = p.B(i, j) != 0 || p.R[i].row(j).any() || (p.s(i) != 0 && p.Bs(i, j) != 0) || r.coin(extra);
  for (int i = 0; i < p.n; ++i)
    for (int j = 0; j < p.n; ++j) {
      bool nz = p.Q(i, j) != 0;
      for (int q = 0; q < p.A.rows(); ++q) nz |= p.A(q, i) != 0 && p.A(q, j) != 0;
      for (int q = 0; q < p.m; ++q) nz |= p.R[q](i, j) != 0 || (p.s(q) != 0 && p.Bs(q, i) != 0 && p.Bs(q, j) != 0);
      p.hpat(i, j) = nz || r.coin(extra);
    }
  p.uncompressed = r.coin(0.3);
  p.scramble     = r.ri(0, 1000000);
  p.xl           = VectorXd::Constant(p.n, -inf);
  p.xu           = VectorXd::Constant(p.n, inf);
  p.gl           = VectorXd::Constant(p.m, -inf);
  p.gu           = VectorXd::Constant(p.m, inf);
  return p;
}

static bool close(const MatrixXd & a, const MatrixXd & b, double sc)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  return a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-11 * (1 + sc);
}

// ---------------------------------------------------------------- (a) callbacks
template<typename P>
static void callbacks(vh::Rng & r, bool use_h)
{
  Math M      = gen(r, false, 10);
  const int n = M.n, m = M.m;
  for (int i = 0; i < n; ++i) {
    if (r.coin(0.6)) M.xl(i) = r.pick({-1., -1e3, -1e19, -3e19, -1e30, r.nrm()});
    if (r.coin(0.6)) M.xu(i) = std::max(M.xl(i), r.pick({1., 1e3, 1e19, 3e19, 1e30, r.nrm()}));
  }
  for (int i = 0; i < m; ++i) {
    if (r.coin(0.6)) M.gl(i) = r.nrm();
    if (r.coin(0.6)) M.gu(i) = M.gl(i) > -inf && r.coin() ? M.gl(i) : std::max(M.gl(i), r.nrm());
  }
  Log log;
  P prog;
  prog.p   = &M;
  prog.log = &log;
  vh::detail(vh::fmt("n=%d m=%d use_h=%d row=%d unc=%d nnzJ=%d", n, m, use_h, P::row, M.uncompressed, m ? M.jpat.sum() : 0));
  Ipopt::SmartPtr<sf::IpoptNLP<P>> t = r.coin() ? new sf::IpoptNLP<P>(prog, use_h) : new sf::IpoptNLP<P>(P(prog), use_h);

  int in = -1, im = -1, nj = -1, nh = -1;
  Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
  vh::check("callback-false", t->get_nlp_info(in, im, nj, nh, st));
  if (!vh::check("announced-size", in == n && im == m, vh::fmt("n %d m %d", in, im))) return;
  const int off = st == Ipopt::TNLP::FORTRAN_STYLE ? 1 : 0;
  vh::check("announced-counts", nj >= 0 && nj <= n * m && nh >= 0 && nh <= n * n, vh::fmt("nj %d nh %d", nj, nh));
  if (!use_h) vh::check("hessian-announced", nh == 0, "without exact Hessian");

  std::vector<int> ir(static_cast<size_t>(nj)), jc(static_cast<size_t>(nj)), hr(static_cast<size_t>(nh)), hc(static_cast<size_t>(nh));
  VectorXd x = rvec(r, n), lam = rvec(r, m), z(n);
  bool haveJ = false, haveH = false;
  const int steps = r.ri(6, 14);
  std::string seq;
  for (int s = 0; s < steps; ++s) {
    const bool nx = r.coin();
    if (nx) x = rvec(r, n, r.pick({0.3, 1., 5.}));
    const double sc = std::max({1., x.squaredNorm()}) * 10;
    const int op    = r.ri(0, use_h ? 9 : 7);
    seq += static_cast<char>('a' + op);
    switch (op) {
    case 0: {
      VectorXd a(n), b(n), c(m), d(m);
      a.setConstant(NAN), b = a, c.setConstant(NAN), d = c;
      vh::check("callback-false", t->get_bounds_info(n, a.data(), b.data(), m, c.data(), d.data()));
      // anything at or beyond 1e19 means "no bound" to Ipopt
      auto same = [](const VectorXd & got, const VectorXd & want) {
        for (int i = 0; i < got.size(); ++i) {
          if (want(i) >= 1e19 ? !(got(i) >= 1e19 && std::isfinite(got(i))) : want(i) <= -1e19 ? !(got(i) <= -1e19 && std::isfinite(got(i))) : got(i) != want(i)) return false;
        }
        return true;
      };
      vh::check("variable-bounds", same(a, M.xl) && same(b, M.xu));
      vh::check("constraint-bounds", same(c, M.gl) && same(d, M.gu));
      vh::count("bounds_seen");
    } break;
    case 1: {
      sf::NLPSolution w;
      w.x = rvec(r, n), w.zl = rvec(r, n).cwiseAbs(), w.zu = rvec(r, n).cwiseAbs(), w.lambda = rvec(r, m);
      t->sol()      = w;
      const bool bx = r.coin(), bz = r.coin(), bl = r.coin();
      VectorXd X = VectorXd::Constant(n, -7.5), ZL = X, ZU = X, LA = VectorXd::Constant(m, -7.5);
      vh::check("callback-false", t->get_starting_point(n, bx, bx ? X.data() : nullptr, bz, bz ? ZL.data() : nullptr, bz ? ZU.data() : nullptr, m, bl, bl ? LA.data() : nullptr));
      vh::check("start-x", !bx || X == w.x);
      vh::check("start-z", !bz || (ZL == w.zl && ZU == w.zu));
      vh::check("start-lambda", !bl || LA == w.lambda);
      vh::check("sol-kept", t->sol().x == w.x && t->sol().lambda == w.lambda);
      vh::count("starts_seen");
    } break;
    case 2: {
      double v = NAN;
      vh::check("callback-false", t->eval_f(n, x.data(), nx, v));
      vh::check("objective-value", std::fabs(v - M.f(x)) <= 1e-12 * (1 + std::fabs(v)), vh::fmt("%.15g vs %.15g", v, M.f(x)));
    } break;
    case 3: {
      VectorXd d = VectorXd::Constant(n, NAN);
      vh::check("callback-false", t->eval_grad_f(n, x.data(), nx, d.data()));
      vh::check("gradient-value", close(d, M.df(x), sc));
      vh::count("gradients_seen");
    } break;
    case 4: {
      VectorXd d = VectorXd::Constant(m, NAN);
      vh::check("callback-false", t->eval_g(n, x.data(), nx, m, d.data()));
      vh::check("constraint-value", close(d, M.g(x), sc));
    } break;
    case 5:
    case 6: {
      if (!haveJ || r.coin(0.2)) {
        std::fill(ir.begin(), ir.end(), -99), std::fill(jc.begin(), jc.end(), -99);
        vh::check("callback-false", t->eval_jac_g(n, nullptr, false, m, nj, ir.data(), jc.data(), nullptr));
        haveJ = true;
      }
      VectorXd v = VectorXd::Constant(nj, NAN);
      vh::check("callback-false", t->eval_jac_g(n, x.data(), nx, m, nj, nullptr, nullptr, v.data()));
      MatrixXd D = MatrixXd::Zero(m, n);
      bool in_range = true;
      for (int k = 0; k < nj; ++k) {
        const int a = ir[static_cast<size_t>(k)] - off, b = jc[static_cast<size_t>(k)] - off;
        if (a < 0 || b < 0 || a >= m || b >= n)
          in_range = false;
        else
          D(a, b) += v(k);
      }
      if (vh::check("jacobian-position-range", in_range)) vh::check("jacobian-value", close(D, M.dg(x), sc), seq);
      vh::count("jacobians_seen");
    } break;
    case 7: {
      if (!r.coin(0.3)) break;
      // a new round of the same program announces the same structure
      int a, b, c, d;
      Ipopt::TNLP::IndexStyleEnum e;
      vh::check("callback-false", t->get_nlp_info(a, b, c, d, e));
      vh::check("structure-changed", a == n && b == m && c == nj && d == nh && e == st);
    } break;
    default: {
      if (!haveH || r.coin(0.2)) {
        std::fill(hr.begin(), hr.end(), -99), std::fill(hc.begin(), hc.end(), -99);
        vh::check("callback-false", t->eval_h(n, nullptr, false, 0, m, nullptr, false, nh, hr.data(), hc.data(), nullptr));
        haveH = true;
      }
      if (r.coin()) lam = rvec(r, m, 2);
      const double sigma = r.pick({0., 1., r.nrm(), 10.});
      VectorXd v         = VectorXd::Constant(nh, NAN);
      vh::check("callback-false", t->eval_h(n, x.data(), nx, sigma, m, lam.data(), true, nh, nullptr, nullptr, v.data()));
      // Ipopt wants one triangle; an entry counts for both its mirror positions
      MatrixXd D    = MatrixXd::Zero(n, n);
      bool in_range = true, lower = true, upper = true;
      for (int k = 0; k < nh; ++k) {
        const int a = hr[static_cast<size_t>(k)] - off, b = hc[static_cast<size_t>(k)] - off;
        if (a < 0 || b < 0 || a >= n || b >= n) {
          in_range = false;
          continue;
        }
        lower &= a >= b, upper &= a <= b;
        D(a, b) += v(k);
        if (a != b) D(b, a) += v(k);
      }
      vh::check("hessian-position-range", in_range);
      vh::check("hessian-triangle", lower || upper);
      MatrixXd W = sigma * M.d2f(x);
      W += M.d2g(x, lam);
      vh::check("hessian-value", close(D, W, 10 * sc * (1 + lam.norm())), seq + vh::fmt(" sigma %g", sigma));
      vh::count("hessians_seen");
    } break;
    }
  }
  // outcome
  struct SR
  {
    Ipopt::SolverReturn s;
    Status want;
  };
  const SR all[] = {
    {Ipopt::SUCCESS, Status::Optimal},
    {Ipopt::STOP_AT_ACCEPTABLE_POINT, Status::Optimal},
    {Ipopt::MAXITER_EXCEEDED, Status::MaxIterations},
    {Ipopt::CPUTIME_EXCEEDED, Status::MaxTime},
    {Ipopt::LOCAL_INFEASIBILITY, Status::PrimalInfeasible},
    {Ipopt::DIVERGING_ITERATES, Status::DualInfeasible},
    {Ipopt::STOP_AT_TINY_STEP, Status::Unknown},
    {Ipopt::USER_REQUESTED_STOP, Status::Unknown},
    {Ipopt::RESTORATION_FAILURE, Status::Unknown},
    {Ipopt::ERROR_IN_STEP_COMPUTATION, Status::Unknown},
    {Ipopt::INVALID_NUMBER_DETECTED, Status::Unknown},
    {Ipopt::INTERNAL_ERROR, Status::Unknown},
  };
  for (int k = 0; k < 3; ++k) {
    const auto & o = all[r.ri(0, static_cast<int>(std::size(all)) - 1)];
    VectorXd X = rvec(r, n), ZL = rvec(r, n), ZU = rvec(r, n), G = rvec(r, m), LA = rvec(r, m);
    const VectorXd X0 = X, ZL0 = ZL, ZU0 = ZU, LA0 = LA;
    const double obj  = r.nrm();
    const bool null   = r.coin(0.2);
    const int it      = r.ri(0, 5000);
    Ipopt::SmartPtr<Ipopt::IpoptData> ipd = new Ipopt::IpoptData(nullptr, 0.);
    ipd->Set_iter_count(it);
    t->finalize_solution(o.s, n, X.data(), ZL.data(), ZU.data(), m, G.data(), LA.data(), obj, null ? nullptr : GetRawPtr(ipd), nullptr);
    X.setConstant(NAN), ZL = X, ZU = X, LA.setConstant(NAN);  // the buffers belong to Ipopt
    const auto & s = t->sol();
    vh::check("status-map", s.status == o.want, vh::fmt("return %d gave %d", static_cast<int>(o.s), static_cast<int>(s.status)));
    vh::check("solution-kept", s.x == X0 && s.zl == ZL0 && s.zu == ZU0 && s.lambda == LA0 && s.objective == obj);
    vh::check("iterations", s.iter == (null ? 0u : static_cast<std::size_t>(it)), vh::fmt("%zu", s.iter));
    vh::count("outcomes_seen");
  }
  vh::nontrivial(vh::fmt("cb%d%d|%d|%d|%s", P::row, use_h, n, m, seq.c_str()));
}

// ---------------------------------------------------------------- (b) end to end
struct Known
{
  Math M;
  VectorXd x, lam, zl, zu;
};

// convex program with known optimum
static Known gen_known(vh::Rng & r, bool interior = false)
{
  Known k;
  k.M       = gen(r, true);
  Math & M  = k.M;
  const int n = M.n, m = M.m;
  k.x   = rvec(r, n);
  k.zl  = VectorXd::Zero(n);
  k.zu  = VectorXd::Zero(n);
  k.lam = VectorXd::Zero(m);
  for (int i = 0; i < n; ++i) {
    const int kind = r.ri(0, 6);
    if (interior || kind == 0) continue;
    if (kind == 1) M.xl(i) = k.x(i), k.zl(i) = 0.2 + std::fabs(r.nrm());
    if (kind == 2) M.xu(i) = k.x(i), k.zu(i) = 0.2 + std::fabs(r.nrm());
    if (kind >= 3) {
      if (r.coin()) M.xl(i) = k.x(i) - 0.2 - std::fabs(r.nrm());
      if (r.coin()) M.xu(i) = k.x(i) + 0.2 + std::fabs(r.nrm());
    }
  }
  const VectorXd g = M.g(k.x);
  const MatrixXd J = M.dg(k.x);
  int act          = static_cast<int>((k.zl + k.zu).array().cwiseMin(1).ceil().sum());
  for (int i = 0; i < m; ++i) {
    const bool lin = !M.R[static_cast<size_t>(i)].any() && M.s(i) == 0;
    const int kind = r.ri(0, 5);
    const bool can = act < n && J.row(i).norm() > 0.1 && !interior;
    if (kind == 0 && lin && can) {
      M.gl(i) = M.gu(i) = g(i), k.lam(i) = r.nrm(), ++act;  // equality
    } else if (kind <= 2 && can) {
      M.gu(i) = g(i), k.lam(i) = 0.2 + std::fabs(r.nrm()), ++act;
      if (lin && r.coin()) M.gl(i) = g(i) - 0.5 - std::fabs(r.nrm());
    } else if (kind == 3 && lin && can) {
      M.gl(i) = g(i), k.lam(i) = -0.2 - std::fabs(r.nrm()), ++act;
      if (r.coin()) M.gu(i) = g(i) + 0.5 + std::fabs(r.nrm());
    } else {
      if (lin && r.coin()) M.gl(i) = g(i) - 0.5 - std::fabs(r.nrm());
      M.gu(i) = g(i) + 0.5 + std::fabs(r.nrm());
    }
  }
  // stationarity: df + J' lam - zl + zu = 0 at x
  M.c -= M.df(k.x) + J.transpose() * k.lam - k.zl + k.zu;
  return k;
}

using Opt_s = std::vector<std::pair<std::string, std::string>>;
using Opt_i = std::vector<std::pair<std::string, int>>;
using Opt_n = std::vector<std::pair<std::string, double>>;

template<typename P>
static sf::NLPSolution solve(vh::Rng & r, P prog, std::optional<sf::NLPSolution> w, Opt_i oi, Opt_s os, Opt_n on)
{
  oi.insert(oi.begin(), {"print_level", 0});
  switch (r.ri(0, 2)) {
  case 0: return sf::solve_nlp_ipopt(prog, w, oi, os, on);
  case 1: return sf::solve_nlp_ipopt(P(prog), w, oi, os, on);
  default: {
    const P cp = prog;
    return sf::solve_nlp_ipopt(cp, w, oi, os, on);
  }
  }
}

// KKT of a claimed optimum; independent of how it was found
static void judge(const Math & M, const sf::NLPSolution & s, const std::string & who, double tol)
{
  const int n = M.n, m = M.m;
  if (!vh::check("solution-size", s.x.size() == n && s.zl.size() == n && s.zu.size() == n && s.lambda.size() == m, who)) return;
  if (!vh::check("finite", s.x.allFinite() && s.zl.allFinite() && s.zu.allFinite() && s.lambda.allFinite(), who)) return;
  // Ipopt clips x to the bounds (relaxed by 1e-8) after computing the objective
  vh::check("objective", std::fabs(s.objective - M.f(s.x)) <= 1e-7 * (1 + std::fabs(s.objective) + M.df(s.x).lpNorm<1>()) * (1 + s.x.lpNorm<Eigen::Infinity>()), vh::fmt("%s %.12g vs %.12g", who.c_str(), s.objective, M.f(s.x)));
  const VectorXd g = M.g(s.x);
  double pr        = 0;
  for (int i = 0; i < n; ++i) pr = std::max({pr, (M.xl(i) - s.x(i)), (s.x(i) - M.xu(i))});
  vh::check_le("bounds-violated", pr, tol, who);
  pr = 0;
  for (int i = 0; i < m; ++i) pr = std::max({pr, M.gl(i) - g(i), g(i) - M.gu(i)});
  vh::check_le("constraints-violated", pr, tol, who);
  const double sc  = 1 + std::max({s.zl.lpNorm<Eigen::Infinity>(), s.zu.lpNorm<Eigen::Infinity>(), m ? s.lambda.lpNorm<Eigen::Infinity>() : 0.});
  const MatrixXd J = M.dg(s.x);
  VectorXd st      = M.df(s.x) + J.transpose() * s.lambda - s.zl + s.zu;
  double stn = 0, comp = 0, sgn = 0;
  for (int i = 0; i < n; ++i) {
    if (M.xl(i) == M.xu(i)) continue;
    stn = std::max(stn, std::fabs(st(i)));
    sgn = std::max({sgn, -s.zl(i), -s.zu(i)});
    comp = std::max({comp, M.xl(i) > -inf ? std::fabs(s.zl(i) * (s.x(i) - M.xl(i))) : std::fabs(s.zl(i)), M.xu(i) < inf ? std::fabs(s.zu(i) * (M.xu(i) - s.x(i))) : std::fabs(s.zu(i))});
  }
  for (int i = 0; i < m; ++i) {
    const double l = s.lambda(i);
    if (M.gl(i) == M.gu(i)) continue;
    if (l > 0) comp = std::max(comp, M.gu(i) < inf ? l * std::fabs(M.gu(i) - g(i)) : l);
    if (l < 0) comp = std::max(comp, M.gl(i) > -inf ? -l * std::fabs(g(i) - M.gl(i)) : -l);
  }
  vh::check_le("not-stationary", stn, 10 * tol * sc, who);
  vh::check_le("not-complementary", comp, 10 * tol * sc, who);
  vh::check_le("multiplier-sign", sgn, 10 * tol * sc, who);
  vh::count("optimal_judged");
}

// warm starts at the solution, and how many of them needed at most two iterations
static long g_stay = 0, g_quick = 0;

template<typename P, bool HasH>
static void known(vh::Rng & r)
{
  const bool interior = r.coin(0.15);
  Known k             = gen_known(r, interior);
  Math & M            = k.M;
  Log log;
  P prog;
  prog.p = &M, prog.log = &log;
  const int hk    = HasH ? r.ri(0, 2) : r.ri(0, 1);
  const char * hn = hk == 0 ? "default" : hk == 1 ? "limited-memory" : "exact";
  Opt_s os;
  if (hk) os.push_back({"hessian_approximation", hn});
  vh::detail(vh::fmt("n=%d m=%d hess=%s row=%d interior=%d", M.n, M.m, hn, P::row, interior));
  const auto s = solve(r, prog, {}, {}, os, {});
  vh::count(vh::fmt("solve_%s_status%d", hn, static_cast<int>(s.status)));
  const bool dof = [&] {
    int eq = 0;
    for (int i = 0; i < M.m; ++i) eq += M.gl(i) == M.gu(i);
    return eq <= M.n;
  }();
  // start: the origin, moved inside the bounds only
  if (log.nf)
    for (int i = 0; i < M.n; ++i)
      if (M.xl(i) == -inf && M.xu(i) == inf) vh::check("start-point", log.first_x(i) == 0, vh::fmt("x0(%d) = %g", i, log.first_x(i)));
  if (dof) vh::check("convex-program-not-solved", s.status == Status::Optimal || hk != 2, vh::fmt("status %d", static_cast<int>(s.status)));
  if (hk == 2 && s.iter > 0) vh::check("exact-hessian-not-used", log.nhf > 0 && log.nhg > 0);
  if (s.status != Status::Optimal) return;
  judge(M, s, hn, 2e-5);
  // strongly convex: unique optimum
  vh::check_le("not-the-optimum", (s.x - k.x).template lpNorm<Eigen::Infinity>(), 1e-3 * (1 + k.x.norm()), hn);
  vh::check_le("objective-not-optimal", std::fabs(s.objective - M.f(k.x)), 1e-4 * (1 + std::fabs(M.f(k.x)) + k.lam.norm() + k.zl.norm() + k.zu.norm()), hn);
  vh::nontrivial(vh::fmt("k%s|%d|%d|%d|%.6g", hn, P::row, M.n, M.m, s.objective));
  vh::sample(vh::fmt("n=%d m=%d %s: %zu iterations, objective %.9g (constructed %.9g), |x-x*|=%.2g", M.n, M.m, hn, s.iter, s.objective, M.f(k.x), (s.x - k.x).norm()));
  vh::count("optimum_compared");

  // warm start from the answer reproduces it
  if (r.coin(0.6)) {
    log            = Log();
    auto os2       = os;
    const auto w   = solve(r, prog, s, {}, os2, {});
    vh::count(vh::fmt("warm_status%d", static_cast<int>(w.status)));
    if (log.nf && M.m == 0 + M.m)
      for (int i = 0; i < M.n; ++i)
        if (M.xl(i) == -inf && M.xu(i) == inf) vh::check("warm-start-point", log.first_x(i) == s.x(i), vh::fmt("x0(%d) = %.15g, given %.15g", i, log.first_x(i), s.x(i)));
    if (hk == 2) vh::check("warm-not-solved", w.status == Status::Optimal, vh::fmt("status %d", static_cast<int>(w.status)));
    if (w.status == Status::Optimal) {
      judge(M, w, "warm", 2e-5);
      vh::check_le("warm-differs", (w.x - s.x).template lpNorm<Eigen::Infinity>(), 1e-3 * (1 + s.x.norm()));
      if (interior && M.n > 1) vh::check_le("warm-start-not-used", static_cast<double>(w.iter), static_cast<double>(s.iter) + (M.m ? 3 : 0));
    }
    vh::count("warm_compared");
    // options reach a warm started solve too, and with an algorithm told to stay close to its start the given
    // point and multipliers are (nearly) recognised as the solution
    if (hk == 2) {
      const Opt_n stay{{"mu_init", 1e-9}, {"warm_start_bound_push", 1e-10}, {"warm_start_bound_frac", 1e-10}, {"warm_start_slack_bound_push", 1e-10},
                       {"warm_start_slack_bound_frac", 1e-10}, {"warm_start_mult_bound_push", 1e-10}};
      const auto c = solve(r, prog, s, {{"max_iter", r.ri(20, 40)}}, os, stay);
      vh::check("warm-at-optimum-not-solved", c.status == Status::Optimal, vh::fmt("status %d after %zu iterations", static_cast<int>(c.status), c.iter));
      vh::check_le("warm-at-optimum-iterations", static_cast<double>(c.iter), 15);
      if (s.iter > 4) ++g_stay, g_quick += c.iter <= 2;
      vh::count("warm_at_optimum");
      const auto z = solve(r, prog, s, {{"max_iter", 0}}, os, {{"mu_init", 1.}});
      vh::check("warm-options", z.iter == 0, vh::fmt("max_iter 0 gave %zu iterations", z.iter));
      const auto q = solve(r, prog, s, {}, {{"hessian_approximation", "exact"}, {"warm_start_init_point", "no"}}, {});
      vh::check("warm-options-string", q.status == Status::Optimal, vh::fmt("status %d", static_cast<int>(q.status)));
    }
  }
  // iteration limits are passed on
  if (r.coin(0.4) && s.iter > 1) {
    const int lim = r.ri(0, static_cast<int>(s.iter) - 1);
    const auto l  = solve(r, prog, {}, {{"max_iter", lim}}, os, {});
    vh::check("max-iter-status", l.status == Status::MaxIterations, vh::fmt("limit %d of %zu gave status %d", lim, s.iter, static_cast<int>(l.status)));
    vh::check("max-iter-count", l.iter == static_cast<std::size_t>(lim), vh::fmt("limit %d iter %zu", lim, l.iter));
    vh::check("finite-limited", l.x.size() == M.n && l.x.allFinite());
    vh::count("limits_observed");
  }
  // numeric options are passed on: a loose tolerance must not need more iterations
  if (r.coin(0.3)) {
    const auto l = solve(r, prog, {}, {}, os, {{"tol", 1e-1}, {"acceptable_tol", 1e-1}, {"max_cpu_time", 100.}});
    vh::check("loose-tolerance", l.status == Status::Optimal && l.iter <= s.iter && (s.iter < 8 || l.iter < s.iter), vh::fmt("%zu vs %zu", l.iter, s.iter));
  }
}

template<typename P>
static void outcomes(vh::Rng & r, bool exact)
{
  Known k  = gen_known(r, true);
  Math & M = k.M;
  Log log;
  P prog;
  prog.p = &M, prog.log = &log;
  Opt_s os;
  if (exact)
    os = {{"hessian_approximation", "exact"}};
  else if (r.coin())
    os = {{"hessian_approximation", "limited-memory"}};
  const int kind = r.ri(0, 4);
  vh::detail(vh::fmt("outcome %d n=%d m=%d exact=%d row=%d", kind, M.n, M.m, exact, P::row));
  if (kind == 0) {  // infeasible: two variables' box excludes the constraint by a margin
    if (M.m == 0) return;
    for (int i = 0; i < M.n; ++i) M.xl(i) = -1, M.xu(i) = 1;
    M.R[0].setZero(), M.s(0) = 0;
    const double reach = M.B.row(0).lpNorm<1>();
    if (reach < 0.1) return;
    M.gl(0) = 1.5 * reach + 1, M.gu(0) = inf;
    const auto s = solve(r, prog, {}, {{"max_iter", 200}}, os, {});
    vh::check("infeasible-called-optimal", s.status != Status::Optimal && s.status != Status::DualInfeasible, vh::fmt("status %d", static_cast<int>(s.status)));
    vh::count(s.status == Status::PrimalInfeasible ? "infeasible_recognized" : "infeasible_other");
  } else if (kind == 1) {  // unbounded linear
    M.Q.setZero(), M.A.setZero(), M.w.setZero();
    M.c = rvec(r, M.n);
    if (M.c.norm() < 0.1) return;
    for (int i = 0; i < M.m; ++i) M.R[static_cast<size_t>(i)].setZero(), M.s(i) = 0, M.gl(i) = -inf, M.gu(i) = 1 + std::fabs(r.nrm());
    for (int i = 0; i < M.m; ++i) {  // moving along -c never meets a constraint
      if (M.B.row(i).dot(M.c) < 0) M.B.row(i) *= -1;
    }
    const auto s = solve(r, prog, {}, {{"max_iter", 300}}, os, {});
    vh::check("unbounded-called-optimal", s.status != Status::Optimal && s.status != Status::PrimalInfeasible, vh::fmt("status %d", static_cast<int>(s.status)));
    vh::count(s.status == Status::DualInfeasible ? "unbounded_recognized" : "unbounded_other");
  } else if (kind == 2) {  // everything fixed
    M.xl = M.xu = k.x;
    const auto s = solve(r, prog, {}, {}, os, {});
    vh::count(vh::fmt("fixed_status%d", static_cast<int>(s.status)));
    if (s.status == Status::Optimal) {
      vh::check("fixed-values", (s.x - k.x).norm() <= 1e-12 * (1 + k.x.norm()));
      vh::check("objective", std::fabs(s.objective - M.f(k.x)) <= 1e-10 * (1 + std::fabs(s.objective)));
    }
  } else if (kind == 3) {  // does not start: must not look solved, warm started or not
    const int j = r.ri(0, 1);
    std::optional<sf::NLPSolution> w;
    if (r.coin()) {
      w.emplace();
      w->status = Status::Optimal;
      w->x = VectorXd::Zero(M.n), w->zl = w->zu = w->x, w->lambda = VectorXd::Zero(M.m), w->objective = -1e9;
    }
    if (j == 0) {
      M.c(0) = NAN;
    } else {  // more equalities than variables, contradictory
      const int m2 = M.n + 1 + r.ri(0, 2);
      M.B = rmat(r, m2, M.n, 1), M.Bs = MatrixXd::Zero(m2, M.n), M.s = VectorXd::Zero(m2), M.m = m2;
      M.R.assign(static_cast<size_t>(m2), MatrixXd::Zero(M.n, M.n));
      M.gl = M.gu = rvec(r, m2);
      for (int i = 0; i < m2; ++i) M.B.row(i) = M.B.row(0), M.gl(i) = M.gu(i) = i;
      M.jpat = Eigen::MatrixXi::Constant(m2, M.n, 1);
      if (w) w->lambda = VectorXd::Zero(m2);
    }
    const auto s = solve(r, prog, w, {{"max_iter", 100}}, os, {});
    vh::check("failure-called-optimal", s.status != Status::Optimal, vh::fmt("kind %d warm %d", j, w.has_value()));
    vh::count("failed_starts_seen");
  } else {  // some fixed variables, rest solved
    const int i = r.ri(0, M.n - 1);
    M.xl(i) = M.xu(i) = k.x(i);
    if (M.n == 1) return;
    const auto s = solve(r, prog, {}, {}, os, {});
    vh::count(vh::fmt("partly_fixed_status%d", static_cast<int>(s.status)));
    if (exact) vh::check("convex-program-not-solved", s.status == Status::Optimal, vh::fmt("status %d", static_cast<int>(s.status)));
    if (s.status == Status::Optimal) {
      judge(M, s, "partly fixed", 2e-5);
      vh::check_le("not-the-optimum", (s.x - k.x).template lpNorm<Eigen::Infinity>(), 1e-3 * (1 + k.x.norm()));
    }
  }
  vh::nontrivial(vh::fmt("o%d%d%d|%d|%d|%.4g", kind, exact, P::row, M.n, M.m, M.c(0)));
}

int main(int c, char ** v)
{
  vh::init(c, v);
  const char * part = std::getenv("VH_PART");  // real solves run in an optimised build, callbacks in an instrumented one
  if (!part || *part == 'c') vh::group("callbacks", 400, 8000, 0.35, [](vh::Rng & r, long) {
    switch (r.ri(0, 5)) {
    case 0: return callbacks<Prog<0>>(r, false);
    case 1: return callbacks<Prog<1>>(r, false);
    case 2: return callbacks<ProgH<0>>(r, false);
    case 3: return callbacks<ProgH<0>>(r, true);
    default: return callbacks<ProgH<1>>(r, true);
    }
  });
  if (part && *part == 'c') return vh::finish();
  vh::group("known", 250, 6000, 0.45, [](vh::Rng & r, long) {
    switch (r.ri(0, 5)) {
    case 0: return known<Prog<0>, false>(r);
    case 1: return known<Prog<1>, false>(r);
    case 2: return known<ProgH<1>, true>(r);
    default: return known<ProgH<0>, true>(r);
    }
  });
  vh::group("outcomes", 120, 3000, 0.2, [](vh::Rng & r, long) {
    switch (r.ri(0, 3)) {
    case 0: return outcomes<Prog<0>>(r, false);
    case 1: return outcomes<ProgH<0>>(r, false);
    case 2: return outcomes<ProgH<1>>(r, true);
    default: return outcomes<ProgH<0>>(r, true);
    }
  });
  if (g_stay >= 12) vh::check("warm-start-not-recognised", 10 * g_quick >= 7 * g_stay, vh::fmt("%ld of %ld warm starts at the solution needed at most two iterations", g_quick, g_stay));
  return vh::finish();
}
