// Q06: histories of prepare / solve / copy / move / assign; every answer equals that of a fresh object.
#include "qpgen.hpp"
using namespace qg;

struct Slot
{
  std::unique_ptr<Solver> s;
  int prep = -1;   // index of the structure it is prepared for (-1: none)
  bool solved = false;
  Sol last;
};

// problems with a common structure: same size, pattern of P and A fixed, values differ
struct Structure
{
  int n, m;
  MatrixXd maskP, maskA;
  Store store;
};

static Structure new_structure(Rng & r, const Kind & k)
{
  Structure s;
  std::tie(s.n, s.m) = sizes(r, k, 6, 8);
  s.maskP = MatrixXd::Identity(s.n, s.n);
  s.maskA.resize(s.m, s.n);
  const double dp = r.uni(0, 1), da = r.uni(0.3, 1);
  for (int i = 0; i < s.n; ++i)
    for (int j = i + 1; j < s.n; ++j) s.maskP(i, j) = s.maskP(j, i) = r.coin(dp);
  if (r.coin(0.3)) {  // some variables without quadratic cost, nothing stored on the diagonal
    for (int i = 0; i < s.n; ++i)
      if (r.coin()) s.maskP.row(i).setZero(), s.maskP.col(i).setZero();
  }
  for (int i = 0; i < s.m; ++i)
    for (int j = 0; j < s.n; ++j) s.maskA(i, j) = r.coin(da);
  s.store = {r.coin(0.4), r.coin(0.8), false, false, r.next()};
  return s;
}
static Qp new_problem(Rng & r, const Structure & s)
{
  Qp p = gen_wellposed(r, s.n, s.m);
  // diagonally dominant values on the fixed pattern; exact zeros avoided so that the stored pattern is the mask
  for (int i = 0; i < s.n; ++i)
    for (int j = i; j < s.n; ++j)
      if (i == j && s.maskP(i, i) == 0) p.P(i, i) = 0;
      else p.P(i, j) = p.P(j, i) = i == j ? r.uni(1, 4) + 0.5 * s.n * 0.3 : s.maskP(i, j) * (r.coin() ? 1 : -1) * r.uni(0.05, 0.3);
  const VectorXd x0 = randn(r, s.n, 1) * 0.4;
  for (int i = 0; i < s.m; ++i) {
    for (int j = 0; j < s.n; ++j) p.A(i, j) = s.maskA(i, j) * (r.coin() ? 1 : -1) * r.uni(0.2, 1.5);
    const double z = p.A.row(i).dot(x0);
    p.l(i) = z - r.uni(0.1, 1), p.u(i) = z + r.uni(0.1, 1);
    const int k = r.ri(0, 5);
    if (k == 0) p.l(i) = -INF;
    if (k == 1) p.u(i) = INF;
    if (k == 2 && r.coin(0.2)) p.l(i) = -INF, p.u(i) = INF;
  }
  p.q *= r.pick({1., 1., 5., 0.1});
  p.fam = "structured";
  const int k = r.ri(0, 19);
  if (k == 0) p.l(0) = 1, p.u(0) = 0, p.fam = "contradictory-row";
  if (k == 1 && s.m >= 2) {  // equality rows
    p.l(0) = p.u(0) = p.A.row(0).dot(x0);
  }
  return p;
}

static void same_answer(const Sol & s, const Sol & ref, const Qp & p, const sf::QPSolverParams & prm, const std::string & op)
{
  vh::count("answers_compared");
  if (!vh::check("status-differs-from-fresh", s.code == ref.code, vh::fmt("%s: %s, fresh object %s", op.c_str(), name(s.code), name(ref.code)))) return;
  if (s.code == St::PrimalInfeasible) return;
  vh::check("iterations-differ-from-fresh", s.iter == ref.iter, vh::fmt("%s: %u, fresh %u", op.c_str(), s.iter, ref.iter));
  vh::check_le("solution-differs-from-fresh", (s.primal - ref.primal).norm(), 1e-7 * (1 + ref.primal.norm()), op);
  vh::check_le("dual-differs-from-fresh", (s.dual - ref.dual).norm(), 1e-6 * (1 + ref.dual.norm()), op);
  vh::check_le("objective-differs-from-fresh", std::fabs(s.obj - ref.obj), 1e-7 * (1 + std::fabs(ref.obj)), op);
  if (s.opt()) monitor_optimal(p, s.primal, s.dual, s.obj, prm, op + " ");
}
static bool bitsame(const Sol & a, const Sol & b)
{
  return a.code == b.code && a.iter == b.iter && a.primal.size() == b.primal.size() && a.dual.size() == b.dual.size()
      && (a.primal.array() == b.primal.array()).all() && (a.dual.array() == b.dual.array()).all() && a.obj == b.obj;
}

static void history(Rng & r, const Kind & k)
{
  auto prm     = rand_params(r);
  if (r.coin(0.2)) prm.sigma = r.pick({0.1f, 1.f});
  prm.max_iter = r.coin(0.2) ? static_cast<uint32_t>(r.ri(1, 60)) : 50000u;
  std::vector<Structure> st;
  for (int i = 0; i < 3; ++i) st.push_back(new_structure(r, k));
  if (k.M < 0 && k.N < 0 && r.coin()) {  // same total size, different split and pattern
    st[1].n = st[0].n, st[1].m = st[0].m;
    st[1].maskP = MatrixXd::Identity(st[1].n, st[1].n);
    st[1].maskA = MatrixXd::Zero(st[1].m, st[1].n);
    for (int i = 0; i < st[1].m; ++i) st[1].maskA(i, r.ri(0, st[1].n - 1)) = 1;
  }
  std::vector<Slot> pool(3);
  std::string trace;
  auto log = [&](const std::string & x) {
    trace += x + ";";
    vh::detail(k.name + " " + str(prm) + " ops " + trace);
  };
  for (auto & s : pool) s.s = k.make(prm);
  const int steps = r.ri(6, 16);
  for (int t = 0; t < steps; ++t) {
    const int a = r.ri(0, 2), b = r.ri(0, 2);
    // what the other objects remember must not change
    std::vector<Sol> before;
    for (auto & s : pool) before.push_back(s.s && s.solved ? s.s->sol() : Sol{});
    std::vector<bool> touched(3, false);
    touched[a] = true;
    const int op = r.ri(0, 11);
    if (op == 0 || pool[a].prep < 0) {
      const int i = r.ri(0, 2);
      log(vh::fmt("analyze(%d,s%d)", a, i));
      if (r.coin(0.3)) pool[a].s = k.make_for(new_problem(r, st[i]), prm, st[i].store);
      else pool[a].s->analyze(new_problem(r, st[i]), st[i].store);
      pool[a].prep   = i;
      pool[a].solved = false;
      vh::count("op:analyze");
    } else if (op == 1) {
      log(vh::fmt("copy(%d<-%d)", b, a));
      touched[b] = true;
      auto c     = pool[a].s->copy();
      if (pool[a].solved) vh::check("copy-loses-solution", bitsame(c->sol(), pool[a].s->sol()), "copy construction");
      const int pa = pool[a].prep;
      const bool so = pool[a].solved;
      pool[b].s    = std::move(c);
      pool[b].prep = pa;
      pool[b].solved = so;
      vh::count("op:copy");
    } else if (op == 2) {
      log(vh::fmt("assign(%d<-%d)", b, a));
      touched[b] = true;
      const Sol sa = pool[a].solved ? pool[a].s->sol() : Sol{};
      pool[b].s->assign(*pool[a].s);
      if (pool[a].solved) vh::check("assign-loses-solution", bitsame(pool[b].s->sol(), sa), a == b ? "self-assignment" : "copy assignment");
      pool[b].prep   = pool[a].prep;
      pool[b].solved = pool[a].solved;
      vh::count(a == b ? "op:self-assign" : "op:assign");
    } else if (op == 3) {
      log(vh::fmt("move(%d)", a));
      const Sol sa = pool[a].solved ? pool[a].s->sol() : Sol{};
      pool[a].s    = pool[a].s->move();
      if (pool[a].solved) vh::check("move-loses-solution", bitsame(pool[a].s->sol(), sa), "move construction");
      vh::count("op:move");
    } else if (op == 4 && a != b) {
      log(vh::fmt("moveassign(%d<-%d)", b, a));
      touched[b] = true;
      const Sol sa = pool[a].solved ? pool[a].s->sol() : Sol{};
      pool[b].s->move_assign(*pool[a].s);
      if (pool[a].solved) vh::check("moveassign-loses-solution", bitsame(pool[b].s->sol(), sa), "move assignment");
      pool[b].prep   = pool[a].prep;
      pool[b].solved = pool[a].solved;
      pool[a].prep   = -1;  // moved from: must be prepared again before use
      pool[a].solved = false;
      vh::count("op:move-assign");
    } else {
      const int i    = pool[a].prep;
      const Qp p     = new_problem(r, st[i]);
      const bool w   = r.coin(0.3);
      const bool self = !w && pool[a].solved && r.coin(0.2);
      Sol warm;
      warm.primal = randn(r, p.n(), 1);
      warm.dual   = randn(r, p.m(), 1);
      log(vh::fmt("solve(%d,s%d%s,%s)", a, i, w ? ",warm" : self ? ",selfwarm" : "", p.fam.c_str()));
      if (self) {
        warm        = pool[a].s->sol();
        const bool fin = warm.primal.allFinite() && warm.dual.allFinite();
        if (!fin) continue;
      }
      const Sol s   = self ? pool[a].s->solve_warm_self(p, st[i].store) : pool[a].s->solve(p, st[i].store, w ? &warm : nullptr);
      const Sol ref = k.once(p, prm, st[i].store, w || self ? &warm : nullptr);
      same_answer(s, ref, p, prm, vh::fmt("step %d solve", t));
      pool[a].solved = true;
      vh::count("op:solve");
      vh::nontrivial(vh::fmt("%s|%s", k.name.c_str(), trace.c_str()));
    }
    for (int j = 0; j < 3; ++j)
      if (!touched[j] && pool[j].solved) {
        vh::count("bystanders_checked");
        vh::check("other-object-changed", bitsame(pool[j].s->sol(), before[j]), vh::fmt("object %d changed by an operation on others", j));
      }
  }
  vh::sample(k.name + ": " + trace);
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("history-sparse", 150, 4000, 0.5, [](Rng & r, long) { history(r, kind("sparse")); });
  vh::group("history-dense", 150, 4000, 0.5, [](Rng & r, long) { history(r, kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)]); });
  return vh::finish();
}
