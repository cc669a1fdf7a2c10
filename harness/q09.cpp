// Q09: hostile but well-formed problems, settings and object lifetimes under address/undefined-behaviour
// sanitizers, memcheck, assertions and NaN-initialised temporaries.  The behavioural monitor here only
// asks for well-formed answers; the instrumentation is the oracle.
#include "qpgen.hpp"
using namespace qg;

static double hostile(Rng & r)
{
  switch (r.ri(0, 13)) {
    case 0: return 0;
    case 1: return r.nrm() * 1e12;
    case 2: return r.nrm() * 1e-12;
    case 3: return r.nrm() * 1e-200;
    case 4: return r.coin() ? 5e-324 : -5e-324;
    case 5: return r.ri(-1000000, 1000000);
    case 6: return -0.;
    default: return r.nrm();
  }
}

static Qp hostile_qp(Rng & r, int n, int m)
{
  Qp p;
  p.fam = "hostile";
  const int pk = r.ri(0, 5);
  if (pk == 0) p.P = MatrixXd::Zero(n, n);
  else if (pk == 1) p.P = MatrixXd::Identity(n, n) * r.pick({1e-8, 1., 1e8});
  else p.P = randpsd(r, n, r.ri(0, n), 1e-3, 1e3);
  if (r.coin(0.15)) {  // rescale to extreme magnitudes, still psd
    for (int i = 0; i < n; ++i) {
      const double s = r.pick({1., 1e6, 1e-6, 0.});
      p.P.row(i) *= s, p.P.col(i) *= s;
    }
  }
  p.q.resize(n);
  for (int i = 0; i < n; ++i) p.q(i) = r.coin(0.8) ? hostile(r) : 0.;
  p.A.resize(m, n);
  const double dens = r.pick({0., 0.2, 0.6, 1.});
  const bool wild   = r.coin(0.3);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j) p.A(i, j) = r.coin(dens) ? (wild ? hostile(r) : r.nrm()) : 0.;
  for (int i = 0; i < m; ++i)
    if (r.coin(0.1)) p.A.row(i).setZero();  // empty row
  for (int j = 0; j < n; ++j)
    if (r.coin(0.1)) p.A.col(j).setZero(), p.P.col(j).setZero(), p.P.row(j).setZero();  // empty column
  p.l.resize(m), p.u.resize(m);
  for (int i = 0; i < m; ++i) {
    switch (r.ri(0, 9)) {
      case 0: p.l(i) = -INF, p.u(i) = INF; break;
      case 1: p.l(i) = p.u(i) = hostile(r); break;
      case 2: p.l(i) = -INF, p.u(i) = hostile(r); break;
      case 3: p.l(i) = hostile(r), p.u(i) = INF; break;
      case 4: p.l(i) = hostile(r), p.u(i) = hostile(r); break;  // maybe contradictory
      case 5: p.l(i) = p.u(i) = 0; break;
      case 6:
        if (r.coin(0.1)) {
          p.l(i) = p.u(i) = r.coin() ? INF : -INF;  // unsatisfiable
          break;
        }
        [[fallthrough]];
      default: {
        const double c = r.nrm();
        p.l(i) = c - std::fabs(r.nrm()), p.u(i) = c + std::fabs(r.nrm());
      }
    }
  }
  return p;
}

static sf::QPSolverParams hostile_params(Rng & r)
{
  auto prm = rand_params(r);
  if (r.coin(0.3)) prm.rho = static_cast<float>(r.logu(1e-8, 1e6));
  if (r.coin(0.3)) prm.sigma = static_cast<float>(r.logu(1e-12, 1e3));
  if (r.coin(0.3)) prm.alpha = static_cast<float>(r.uni(0.01, 1.99));
  if (r.coin(0.2)) prm.delta = static_cast<float>(r.logu(1e-12, 1e-1));
  if (r.coin(0.3)) prm.eps_abs = static_cast<float>(r.pick({0., 1e-30, 1e-3, 1., 1e10}));
  if (r.coin(0.3)) prm.eps_rel = static_cast<float>(r.pick({0., 1e-30, 1e-3, 1.}));
  if (r.coin(0.3)) prm.eps_primal_inf = static_cast<float>(r.pick({0., 1e-12, 1e-2, 1.}));
  if (r.coin(0.3)) prm.eps_dual_inf = static_cast<float>(r.pick({0., 1e-12, 1e-2, 1.}));
  prm.max_iter = static_cast<uint32_t>(r.pick({0, 1, 2, 24, 25, 26, 60, 200}));
  if (r.coin(0.1)) prm.max_time = std::chrono::nanoseconds(r.ri(0, 2000000));
  prm.polish_iter = static_cast<uint32_t>(r.ri(0, 6));
  prm.verbose     = r.coin(0.1);
  return prm;
}

static void wellformed(const Sol & s, const Qp & p, const sf::QPSolverParams & prm)
{
  vh::count("answers");
  vh::count(std::string("status:") + name(s.code));
  vh::check("bad-status", std::string(name(s.code)) != "?", vh::fmt("%d", static_cast<int>(s.code)));
  vh::check("bad-size", s.primal.size() == p.n() && s.dual.size() == p.m(), vh::fmt("%ld %ld", s.primal.size(), s.dual.size()));
  if (prm.max_iter) vh::check("bad-iter", s.iter <= *prm.max_iter, vh::fmt("%u", s.iter));
  if (s.opt()) {
    vh::count("optimal");
    bool fin = true;
    for (int i = 0; i < p.n(); ++i) fin = fin && std::isfinite(s.primal(i));
    for (int i = 0; i < p.m(); ++i) fin = fin && std::isfinite(s.dual(i));
    vh::check("optimal-not-finite", fin, "Optimal with a non-finite solution");
  }
}

static void one(Rng & r)
{
  const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
  auto prm       = hostile_params(r);
  std::unique_ptr<Solver> s, t;
  const int steps = r.ri(1, 4);
  std::string trace;
  for (int i = 0; i < steps; ++i) {
    int n = k.N < 0 ? r.pick({1, 1, 2, 3, 5, 9}) : k.N, m = k.M < 0 ? r.pick({0, 1, 1, 2, 4, 7, 12}) : k.M;
    const Qp p    = r.coin(0.75) ? hostile_qp(r, n, m) : (k.N < 0 && k.M < 0) ? any_qp(r) : hostile_qp(r, n, m);
    const Store o = rand_store(r);
    trace += vh::fmt("[%s n=%d m=%d] ", p.fam.c_str(), p.n(), p.m());
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + trace + str(p));
    Mute mute;
    Sol w;
    w.primal = randn(r, p.n(), 1) * r.pick({0., 1., 1e8});
    w.dual   = randn(r, p.m(), 1) * r.pick({0., 1., 1e8});
    switch (r.ri(0, 5)) {
      case 0: wellformed(k.once(p, prm, o, nullptr), p, prm); break;
      case 1: wellformed(k.once(p, prm, o, &w), p, prm); break;
      case 2:
        s = k.make_for(p, prm, o);
        wellformed(s->solve(p, o, r.coin() ? &w : nullptr), p, prm);
        break;
      case 3:
        if (!s) s = k.make(prm);
        s->analyze(p, o);
        wellformed(s->solve(p, o), p, prm);
        t = s->copy();
        if (r.coin()) s.reset();
        wellformed(t->solve(p, o, r.coin() ? &w : nullptr), p, prm);
        break;
      case 4:
        s = k.make_for(p, prm, o);
        if (r.coin()) wellformed(s->solve(p, o), p, prm);
        t = s->move();
        s.reset();
        wellformed(t->solve(p, o), p, prm);
        wellformed(t->solve(p, o), p, prm);
        break;
      case 5: {
        if (!s) s = k.make(prm);
        s->analyze(p, o);
        if (r.coin()) wellformed(s->solve(p, o), p, prm);
        t = r.coin() ? k.make(prm) : k.make_for(p, prm, o);
        if (r.coin(0.3)) t->move_assign(*s), s = t->copy();
        t->assign(*s);
        if (r.coin()) s->assign(*s);
        wellformed(t->solve(p, o), p, prm);
        const Sol f = t->sol();
        bool fin    = true;
        for (int j = 0; j < p.n(); ++j) fin = fin && std::isfinite(f.primal(j));
        for (int j = 0; j < p.m(); ++j) fin = fin && std::isfinite(f.dual(j));
        if (fin) wellformed(t->solve_warm_self(p, o), p, prm);
        break;
      }
    }
    if (p.n() > 1) vh::nontrivial(vh::fmt("%s|%s|%.12g", k.name.c_str(), trace.c_str(), p.q.sum()));
  }
  vh::sample(k.name + ": " + trace);
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("hostile", std::getenv("VH_VALGRIND") ? 10 : 400, 60000, 1, [](Rng & r, long) { one(r); });
  return vh::finish();
}
