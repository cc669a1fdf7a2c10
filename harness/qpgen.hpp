// QP generators with knowledge about the answer, the KKT monitor, and a type-erased interface to
// the solver instantiations (one translation unit per problem type, see svc_impl.hpp).
#pragma once
#include <Eigen/Core>
#include <limits>
#include <memory>
#include <optional>

#include <smooth/feedback/qp_solver.hpp>

#include "vh.hpp"

namespace qg {
using vh::Rng;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace sf = smooth::feedback;
using St     = sf::QPSolutionStatus;
inline constexpr double INF = std::numeric_limits<double>::infinity();
const char * name(St s);

/// Neutral dense representation (P symmetric)
struct Qp
{
  MatrixXd P, A;
  VectorXd q, l, u;
  std::string fam;
  VectorXd xs, ys;  // known primal/dual solution (when sized)
  int n() const { return static_cast<int>(q.size()); }
  int m() const { return static_cast<int>(l.size()); }
};

MatrixXd randn(Rng & r, int a, int b, double density = 1);
MatrixXd randorth(Rng & r, int n);
/// PSD with `rank` eigenvalues in [lo, hi], others zero
MatrixXd randpsd(Rng & r, int n, int rank, double lo, double hi);

/// QP built around a known KKT point, with bounds of all kinds
struct KktOpts
{
  int n = 3, m = 3, rank = 3;
  double lo = 0.5, hi = 5, density = 1, weakp = 0, freep = 0.1, ymag = 1;
  int eqmax = -1;    // max number of equality rows
  bool dup  = false; // duplicate some rows (redundant / degenerate)
};
Qp gen_kkt(Rng & r, const KktOpts & o);
/// low rank cost over a box plus some general rows; always feasible and bounded
Qp gen_boxlp(Rng & r, int n, int mextra, int rank);
/// linear-quadratic control problem in simultaneous form
Qp gen_mpc(Rng & r, int nx, int nu, int T);
/// rescale rows / columns / cost by powers of ten: same problem, badly scaled
void badscale(Rng & r, Qp & p, double dec);
/// mix of all of the above
Qp any_qp(Rng & r);
/// well conditioned: strongly convex, full-rank equalities, inequality margins >= 0.1 at a known point
Qp gen_wellposed(Rng & r, int n, int m);

/// feasible with cost bounded below, not necessarily strongly convex; certificates can be excluded by a margin argument
Qp gen_bounded(Rng & r, int n, int m);
/// contradictory by construction: infeas holds a Farkas vector (ys) with support value -margin
Qp gen_infeasible(Rng & r, int n, int m, double & margin);
/// unbounded along direction xs by construction
Qp gen_unbounded(Rng & r, int n, int m);
/// smallest eigenvalue of P
double mineig(const Qp & p);
/// rigorous bound on |x1-x2|_2 for two points meeting the KKT tolerances of a strongly convex problem
double sol_dist_bound(const Qp & p, double mu, const VectorXd & x1, const VectorXd & y1, const VectorXd & x2, const VectorXd & y2, const sf::QPSolverParams & prm);

// ---------------------------------------------------------------- storage
struct Store
{
  bool upper      = false;  // sparse: store only the upper triangle of P
  bool compressed = true;
  bool zeros      = false;  // sparse: explicitly stored zeros
  bool garbage    = false;  // overwrite the strictly lower triangle of P by arbitrary values
  uint64_t seed   = 1;
};
inline Store rand_store(Rng & r) { return {r.coin(0.4), r.coin(0.8), r.coin(0.2), false, r.next()}; }
std::string str(const Store & s);

struct Kkt
{
  double pviol, dres, nAx, nPx, nAty, nq, obj, ycomp, ynorm;
};
/// KKT residuals of (x,y) in extended precision. ycomp: worst distance of (Ax)_i to the bound that
/// the sign of y_i points at, for multipliers above ytol
Kkt kkt(const Qp & p, const VectorXd & x, const VectorXd & y, double ytol);
double eps_p(const Kkt & k, const sf::QPSolverParams & prm);
double eps_d(const Kkt & k, const sf::QPSolverParams & prm);
/// The optimality monitor
bool monitor_optimal(
  const Qp & p, const VectorXd & x, const VectorXd & y, double obj, const sf::QPSolverParams & prm, const std::string & tag = "");

sf::QPSolverParams rand_params(Rng & r);
std::string str(const sf::QPSolverParams & p);
std::string str(const Qp & p);

/// redirects std::cout while the solver runs verbosely
struct Mute
{
  std::ostringstream os;
  std::streambuf * old;
  Mute() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(old); }
};

// ---------------------------------------------------------------- solver service
struct Sol
{
  St code       = St::Unknown;
  uint32_t iter = 0;
  VectorXd primal, dual;
  double obj = 0;
  bool opt() const { return code == St::Optimal || code == St::PolishFailed; }
};
struct Solver
{
  virtual ~Solver()                                                             = default;
  virtual void analyze(const Qp &, const Store & = {})                          = 0;
  virtual Sol solve(const Qp &, const Store & = {}, const Sol * warm = nullptr) = 0;
  virtual Sol solve_warm_self(const Qp &, const Store & = {})                   = 0;  // warm start = own sol()
  virtual Sol sol() const                                                       = 0;
  virtual std::unique_ptr<Solver> copy() const                                  = 0;
  virtual std::unique_ptr<Solver> move()                                        = 0;  // move-construct from this
  virtual void assign(const Solver &)                                           = 0;
  virtual void move_assign(Solver &)                                            = 0;
};
/// One instantiated problem type. M,N are fixed sizes or -1.
struct Kind
{
  std::string name;
  int M, N;
  bool sparse;
  std::function<std::unique_ptr<Solver>(const sf::QPSolverParams &)> make;                       // default constructed
  std::function<std::unique_ptr<Solver>(const Qp &, const sf::QPSolverParams &, const Store &)> make_for;  // analyzed
  std::function<Sol(const Qp &, const sf::QPSolverParams &, const Store &, const Sol *)> once;   // solve_qp
};
std::vector<Kind> & kinds();
inline const Kind & kind(const std::string & n)
{
  for (auto & k : kinds())
    if (k.name == n) return k;
  std::abort();
}
/// a random instantiation that fits the sizes of p
inline const Kind & kind_for(Rng & r, const Qp & p)
{
  while (true) {
    auto & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    if ((k.M < 0 || k.M == p.m()) && (k.N < 0 || k.N == p.n())) return k;
  }
}
/// random sizes for kind k
inline std::pair<int, int> sizes(Rng & r, const Kind & k, int nmax, int mmax)
{
  return {k.N < 0 ? r.ri(1, nmax) : k.N, k.M < 0 ? r.ri(1, mmax) : k.M};
}
}  // namespace qg
