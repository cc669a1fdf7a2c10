// B01: the OSQP bridge, against a recording stand-in for the OSQP C interface: what is handed over,
// in which order, what is returned for every outcome, and that everything is released.
#include "vh.hpp"

#include <set>
#include <vector>

#include <smooth/feedback/compat/osqp.hpp>

namespace sf = smooth::feedback;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using St             = sf::QPSolutionStatus;
constexpr double inf = std::numeric_limits<double>::infinity();

// ---------------------------------------------------------------- the stand-in
namespace fake {
struct Script
{
  c_int setup_error = 0, solve_error = 0, status = OSQP_SOLVED, iter = 0;
  bool alloc_on_error = false;  // OSQP may or may not have created the workspace when setup fails
  double obj          = 0;
  VectorXd x, y;
} script;
struct Seen
{
  int setups = 0, solves = 0, warms = 0, cleanups = 0;
  std::string order;
  OSQPSettings st{};
  MatrixXd P, A;
  VectorXd q, l, u, wx, wy;
  bool cscok = true;
  std::string csc;
  long n = -1, m = -1;
} seen;
std::set<void *> live;
OSQPWorkspace * current = nullptr;

static MatrixXd dense(const csc * c, const char * who)
{
  auto bad = [&](const char * w) {
    seen.cscok = false;
    seen.csc += std::string(who) + " " + w + ";";
  };
  MatrixXd M = MatrixXd::Zero(c->m, c->n);
  if (c->nz != -1) bad("not csc");
  if (c->p[0] != 0) bad("p[0]");
  for (c_int j = 0; j < c->n; ++j) {
    if (c->p[j + 1] < c->p[j] || c->p[j + 1] > c->nzmax) {
      bad("column pointers");
      return M;
    }
    for (c_int k = c->p[j]; k < c->p[j + 1]; ++k) {
      if (c->i[k] < 0 || c->i[k] >= c->m) {
        bad("row index");
        return M;
      }
      if (k > c->p[j] && c->i[k] <= c->i[k - 1]) bad("unsorted");
      M(c->i[k], j) += c->x[k];
    }
  }
  return M;
}
static OSQPWorkspace * make(c_int n, c_int m)
{
  auto * w      = new OSQPWorkspace();
  w->solution   = new OSQPSolution();
  w->info       = new OSQPInfo();
  w->solution->x = new double[static_cast<size_t>(n)];
  w->solution->y = new double[static_cast<size_t>(m)];
  for (c_int i = 0; i < n; ++i) w->solution->x[i] = i < script.x.size() ? script.x(i) : NAN;
  for (c_int i = 0; i < m; ++i) w->solution->y[i] = i < script.y.size() ? script.y(i) : NAN;
  w->info->status_val = OSQP_UNSOLVED;
  live.insert(w);
  return w;
}
}  // namespace fake

extern "C" {
void * vh_osqp_malloc(std::size_t n)
{
  void * p = std::malloc(n);
  std::memset(p, 0xA5, n);
  fake::live.insert(p);
  return p;
}
void vh_osqp_free(void * p)
{
  if (!p) return;
  if (!fake::live.erase(p)) vh::violation("bad-free", "pointer released that is not owned");
  std::free(p);
}
csc * csc_matrix(c_int m, c_int n, c_int nzmax, c_float * x, c_int * i, c_int * p)
{
  csc * c = static_cast<csc *>(vh_osqp_malloc(sizeof(csc)));
  *c      = csc{nzmax, m, n, p, i, x, -1};
  return c;
}
void osqp_set_default_settings(OSQPSettings * s)
{
  std::memset(s, 0, sizeof *s);
  *s = OSQPSettings{0.1, 1e-6, 10, 1, 0, 5, 0.4, 4000, 1e-3, 1e-3, 1e-4, 1e-4, 1.6, QDLDL_SOLVER, 1e-6, 0, 3, 1, 0, 25, 1, 0};
}
c_int osqp_setup(OSQPWorkspace ** w, const OSQPData * d, const OSQPSettings * s)
{
  auto & o = fake::seen;
  ++o.setups, o.order += 's';
  o.st = *s;
  o.n = d->n, o.m = d->m;
  if (d->P->m != d->n || d->P->n != d->n || d->A->m != d->m || d->A->n != d->n) o.cscok = false, o.csc += "sizes;";
  o.P = fake::dense(d->P, "P"), o.A = fake::dense(d->A, "A");
  o.q = Eigen::Map<VectorXd>(d->q, d->n);
  o.l = Eigen::Map<VectorXd>(d->l, d->m), o.u = Eigen::Map<VectorXd>(d->u, d->m);
  // OSQP only accepts the upper triangle
  for (c_int j = 0; j < d->P->n; ++j)
    for (c_int k = d->P->p[j]; k < d->P->p[j + 1]; ++k)
      if (d->P->i[k] > j) o.cscok = false, o.csc += "P not upper triangular;";
  if (fake::script.setup_error) {
    if (fake::script.alloc_on_error) *w = fake::current = fake::make(d->n, d->m);
    return fake::script.setup_error;
  }
  *w = fake::current = fake::make(d->n, d->m);
  return 0;
}
c_int osqp_warm_start(OSQPWorkspace * w, const c_float * x, const c_float * y)
{
  auto & o = fake::seen;
  ++o.warms, o.order += 'w';
  if (!vh::check("workspace", w && w == fake::current && fake::live.count(w), "warm start")) return 1;
  o.wx = Eigen::Map<const VectorXd>(x, o.n), o.wy = Eigen::Map<const VectorXd>(y, o.m);
  return 0;
}
c_int osqp_solve(OSQPWorkspace * w)
{
  auto & o = fake::seen;
  ++o.solves, o.order += 'r';
  if (!vh::check("workspace", w && w == fake::current && fake::live.count(w), "solve")) return 1;
  w->info->iter       = fake::script.iter;
  w->info->status_val = fake::script.status;
  w->info->obj_val    = fake::script.obj;
  return fake::script.solve_error;
}
c_int osqp_cleanup(OSQPWorkspace * w)
{
  auto & o = fake::seen;
  ++o.cleanups, o.order += 'c';
  if (!w) return 0;
  if (!vh::check("workspace", w == fake::current && fake::live.count(w), "cleanup")) return 1;
  fake::live.erase(w);
  for (c_int i = 0; i < o.n; ++i) w->solution->x[i] = NAN;
  for (c_int i = 0; i < o.m; ++i) w->solution->y[i] = NAN;
  delete[] w->solution->x;
  delete[] w->solution->y;
  delete w->solution;
  delete w->info;
  delete w;
  return 0;
}
}

// ---------------------------------------------------------------- cases
static MatrixXd rmat(vh::Rng & r, int a, int b, double dens)
{
  MatrixXd M = MatrixXd::Zero(a, b);
  for (int i = 0; i < a; ++i)
    for (int j = 0; j < b; ++j)
      if (r.coin(dens)) M(i, j) = r.pick({1., 1., 1e-6, 1e4}) * r.nrm();
  return M;
}

template<typename Pbm>
static void one(vh::Rng & r, const char * kind, int m, int n)
{
  constexpr bool sparse = std::is_base_of_v<Eigen::SparseMatrixBase<decltype(Pbm::A)>, decltype(Pbm::A)>;
  const double dens     = r.pick({0.2, 0.6, 1.});
  MatrixXd P = rmat(r, n, n, dens), A = rmat(r, m, n, dens);
  const bool sym = r.coin();
  if (sym) P = MatrixXd(P + P.transpose());
  const MatrixXd Pup = P.triangularView<Eigen::Upper>();
  VectorXd q = rmat(r, n, 1, 1), l = rmat(r, m, 1, 1), u = l;
  for (int i = 0; i < m; ++i) {
    if (r.coin()) u(i) += std::fabs(r.nrm());
    if (r.coin(0.3)) u(i) = inf;
    if (r.coin(0.3)) l(i) = -inf;
  }
  Pbm pbm;
  const bool upper_only = r.coin();
  const bool comp       = r.coin();
  if constexpr (sparse) {
    MatrixXd Ps = upper_only ? Pup : P;
    pbm.P       = Ps.sparseView();
    pbm.A       = A.sparseView();
    if (r.coin(0.3))
      for (int k = 0; k < n; ++k) pbm.P.coeffRef(r.ri(0, n - 1), r.ri(0, n - 1)) *= 1;  // explicit zeros
    if (comp) pbm.P.makeCompressed(), pbm.A.makeCompressed();
    else pbm.P.uncompress(), pbm.A.uncompress();
  } else {
    pbm.P = P;
    pbm.A = A;
  }
  pbm.q = q, pbm.l = l, pbm.u = u;

  sf::QPSolverParams prm;
  prm.verbose        = r.coin();
  prm.alpha          = static_cast<float>(r.uni(0.1, 1.9));
  prm.rho            = static_cast<float>(r.logu(1e-4, 1e2));
  prm.sigma          = static_cast<float>(r.logu(1e-8, 1e-2));
  prm.scaling        = r.coin();
  prm.eps_abs        = static_cast<float>(r.logu(1e-9, 1e-1));
  prm.eps_rel        = static_cast<float>(r.logu(1e-9, 1e-1));
  prm.eps_primal_inf = static_cast<float>(r.logu(1e-9, 1e-1));
  prm.eps_dual_inf   = static_cast<float>(r.logu(1e-9, 1e-1));
  if (r.coin()) prm.max_iter = static_cast<uint32_t>(r.ri(0, 100000));
  if (r.coin()) prm.max_time = std::chrono::nanoseconds(r.next() % 100000000000ull);
  prm.stop_check_iter = static_cast<uint32_t>(r.ri(1, 100));
  prm.polish          = r.coin();
  prm.polish_iter     = static_cast<uint32_t>(r.ri(0, 20));
  prm.delta           = static_cast<float>(r.logu(1e-9, 1e-1));

  sf::QPSolution<-1, -1, double> warm;
  const bool w = r.coin();
  warm.primal = rmat(r, n, 1, 1), warm.dual = rmat(r, m, 1, 1), warm.code = St::Optimal;

  struct
  {
    c_int v;
    St want;
  } outs[] = {
    {OSQP_SOLVED, St::Optimal},
    {OSQP_SOLVED, St::Optimal},
    {OSQP_PRIMAL_INFEASIBLE, St::PrimalInfeasible},
    {OSQP_DUAL_INFEASIBLE, St::DualInfeasible},
    {OSQP_MAX_ITER_REACHED, St::MaxIterations},
    {OSQP_TIME_LIMIT_REACHED, St::MaxTime},
    {OSQP_SOLVED_INACCURATE, St::Unknown},
    {OSQP_PRIMAL_INFEASIBLE_INACCURATE, St::Unknown},
    {OSQP_DUAL_INFEASIBLE_INACCURATE, St::Unknown},
    {OSQP_NON_CVX, St::Unknown},
    {OSQP_SIGINT, St::Unknown},
    {OSQP_UNSOLVED, St::Unknown},
  };
  const auto out = outs[r.ri(0, static_cast<int>(std::size(outs)) - 1)];
  fake::script   = {};
  fake::seen     = {};
  fake::script.setup_error    = r.coin(0.1) ? r.ri(1, 7) : 0;
  fake::script.alloc_on_error = r.coin();
  fake::script.solve_error    = r.coin(0.1) ? r.ri(1, 7) : 0;
  fake::script.status         = out.v;
  fake::script.iter           = r.ri(0, 100000);
  fake::script.obj            = r.nrm();
  fake::script.x = rmat(r, n, 1, 1), fake::script.y = rmat(r, m, 1, 1);
  vh::detail(vh::fmt("%s n=%d m=%d warm=%d setup_error=%lld solve_error=%lld status=%lld", kind, n, m, w, fake::script.setup_error, fake::script.solve_error, out.v));

  const Pbm cp   = pbm;
  sf::QPSolution<-1, -1, double> ret;
  const double o0 = NAN;
  ret.objective   = o0;
  ret             = w ? sf::solve_qp_osqp(cp, prm, warm) : sf::solve_qp_osqp(cp, prm);
  auto & o        = fake::seen;

  // handed over
  vh::check("setup-once", o.setups == 1, o.order);
  if (o.setups != 1) return;
  vh::check("csc-format", o.cscok, o.csc);
  vh::check("sizes", o.n == n && o.m == m);
  // dense data: entries below 1e-12 relative to 1e-6 are documented to be dropped by Eigen's prune
  vh::check("cost-matrix", o.P.rows() == n && (o.P - Pup).cwiseAbs().maxCoeff() <= 1e-17, kind);
  vh::check("constraint-matrix", o.A.rows() == m && o.A.cols() == n && (m == 0 || (o.A - A).cwiseAbs().maxCoeff() <= 1e-17), kind);
  vh::check("cost-vector", o.q == q);
  vh::check("bounds", o.l == l && o.u == u);
  const auto & s = o.st;
  vh::check("settings-flags", s.verbose == prm.verbose && (s.scaling != 0) == prm.scaling && (s.polish != 0) == prm.polish);
  vh::check("settings-steps", s.alpha == prm.alpha && s.rho == prm.rho && s.sigma == prm.sigma && s.delta == prm.delta);
  vh::check("settings-tolerances", s.eps_abs == prm.eps_abs && s.eps_rel == prm.eps_rel && s.eps_prim_inf == prm.eps_primal_inf && s.eps_dual_inf == prm.eps_dual_inf);
  vh::check("settings-counts", s.check_termination == static_cast<c_int>(prm.stop_check_iter) && s.polish_refine_iter == static_cast<c_int>(prm.polish_iter));
  vh::check("settings-max-iter", prm.max_iter ? s.max_iter == static_cast<c_int>(*prm.max_iter) : s.max_iter > 1000000000);
  vh::check("settings-max-time", std::fabs(s.time_limit - (prm.max_time ? 1e-9 * static_cast<double>(prm.max_time->count()) : 0.)) <= 1e-12 * (1 + s.time_limit), vh::fmt("%.12g", s.time_limit));
  // order and warm start
  if (fake::script.setup_error) {
    vh::check("used-after-failed-setup", o.solves == 0 && o.warms == 0, o.order);
  } else {
    vh::check("order", o.order == (w ? "swrc" : "src"), o.order);
    if (w && o.warms) vh::check("warm-start", o.wx == warm.primal && o.wy == warm.dual);
  }
  // returned
  if (fake::script.setup_error || fake::script.solve_error) {
    vh::check("failure-code", ret.code == St::Unknown, vh::fmt("code %d", static_cast<int>(ret.code)));
    vh::count("failures_seen");
  } else {
    vh::check("status-map", ret.code == out.want, vh::fmt("%lld gave %d", out.v, static_cast<int>(ret.code)));
    vh::check("primal", ret.primal == fake::script.x);
    vh::check("dual", ret.dual == fake::script.y);
    vh::check("objective", ret.objective == fake::script.obj);
    vh::check("iterations", ret.iter == fake::script.iter);
    vh::count("solutions_seen");
  }
  // released, and the problem is untouched
  vh::check("leak", fake::live.empty(), vh::fmt("%zu allocations left", fake::live.size()));
  fake::live.clear();
  bool same = true;
  if constexpr (sparse)
    same = MatrixXd(cp.P) == MatrixXd(pbm.P) && MatrixXd(cp.A) == MatrixXd(pbm.A);
  else
    same = cp.P == pbm.P && cp.A == pbm.A;
  vh::check("problem-changed", same && cp.q == pbm.q && cp.l == pbm.l && cp.u == pbm.u);
  vh::nontrivial(vh::fmt("%s|%d|%d|%.9g|%lld|%d", kind, n, m, n ? q(0) : 0, out.v, w));
  vh::sample(vh::fmt("%s n=%d m=%d nnz(P)=%d order=%s status %lld -> %d", kind, n, m, static_cast<int>((o.P.array() != 0).count()), o.order.c_str(), out.v, static_cast<int>(ret.code)));
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("bridge", 1500, 20000, 1, [](vh::Rng & r, long) {
    switch (r.ri(0, 3)) {
    case 0: return one<sf::QuadraticProgram<-1, -1, double>>(r, "dense", r.ri(0, 8), r.ri(1, 8));
    case 1: return one<sf::QuadraticProgram<3, 2, double>>(r, "static", 3, 2);
    case 2: return one<sf::QuadraticProgram<-1, 4, double>>(r, "mixed", r.ri(0, 6), 4);
    default: return one<sf::QuadraticProgramSparse<double>>(r, "sparse", r.ri(0, 12), r.ri(1, 12));
    }
  });
  return vh::finish();
}
