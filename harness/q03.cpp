// Q03: infeasible and unbounded problems are detected and never called optimal.
#include "qpgen.hpp"
using namespace qg;

static sf::QPSolverParams params(Rng & r)
{
  auto prm     = rand_params(r);
  prm.eps_abs  = r.pick({1e-3f, 1e-4f, 1e-2f});
  prm.eps_rel  = r.pick({1e-3f, 1e-4f, 0.f});
  prm.rho      = r.pick({0.1f, 0.1f, 1.f, 0.3f});
  prm.alpha    = r.pick({1.6f, 1.6f, 1.0f, 1.3f});
  prm.sigma    = 1e-6f;
  prm.max_iter = 100000;
  return prm;
}
static Sol solve(Rng & r, const Kind & k, const Qp & p, const sf::QPSolverParams & prm)
{
  const Store o = rand_store(r);
  Sol warm;
  const bool w = r.coin(0.25);
  warm.primal  = randn(r, p.n(), 1);
  warm.dual    = randn(r, p.m(), 1);
  vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
  Sol s;
  if (r.coin()) {
    s = k.once(p, prm, o, w ? &warm : nullptr);
  } else {
    // through a solver object that has seen a feasible problem of the same structure before
    auto sv = k.make_for(p, prm, o);
    if (r.coin()) {
      Qp f = p;
      for (int i = 0; i < p.m(); ++i) f.l(i) = -1, f.u(i) = 1;
      f.P.diagonal().array() += 1;
      if (k.sparse) sv->analyze(f, o);
      auto s0 = sv->solve(f, o);
      vh::count("history_solves");
      if (k.sparse) sv->analyze(p, o);
    }
    s = sv->solve(p, o, w ? &warm : nullptr);
  }
  vh::count("family:" + p.fam);
  vh::count(std::string("status:") + name(s.code));
  return s;
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("single-row", 300, 6000, 0.2, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    Qp p           = gen_wellposed(r, n, m);
    p.fam          = "single-row";
    const int i    = r.ri(0, m - 1);
    switch (r.ri(0, 4)) {
      case 0: p.l(i) = r.nrm(), p.u(i) = p.l(i) - r.logu(1e-9, 10); break;
      case 1: p.l(i) = INF, p.u(i) = INF; break;
      case 2: p.l(i) = -INF, p.u(i) = -INF; break;
      case 3: p.l(i) = INF, p.u(i) = r.nrm(); break;
      case 4: p.l(i) = r.nrm(), p.u(i) = -INF; break;
    }
    auto prm = params(r);
    if (r.coin(0.3)) prm.max_iter = r.ri(0, 3);
    if (r.coin(0.2)) prm.max_iter = {};
    const Sol s = solve(r, k, p, prm);
    vh::check("row-contradiction-not-detected", s.code == St::PrimalInfeasible, vh::fmt("l=%g u=%g -> %s", p.l(i), p.u(i), name(s.code)));
    vh::nontrivial(vh::fmt("row%s,%d,%d,%.9g,%.9g", k.name.c_str(), n, m, p.l(i), p.u(i)));
  });
  static long tried = 0, missed = 0;
  vh::group("farkas", 200, 6000, 0.5, [](Rng & r, long idx) {
    // even cases: rows that take no part in the contradiction stay far from their bounds; odd cases: anything
    const bool clean = idx % 2 == 0;
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    double margin;
    Qp p        = gen_infeasible(r, n, m, margin);
    if (clean)
      for (int i = 0; i < p.m(); ++i)
        if (p.ys(i) == 0) {
          if (p.l(i) != -INF) p.l(i) -= 1e3;
          if (p.u(i) != INF) p.u(i) += 1e3;
        }
    auto prm    = params(r);
    const Sol s = solve(r, k, p, prm);
    if (s.opt()) {
      // sound only when the allowed constraint violation cannot hide the contradiction
      Kkt kk = kkt(p, s.primal, s.dual, 0);
      if (p.ys.lpNorm<1>() * eps_p(kk, prm) < margin * 0.99)
        vh::violation("infeasible-called-optimal", vh::fmt("margin=%g viol=%g", margin, kk.pviol));
      else
        vh::count("optimal_within_tolerance");
    } else {
      vh::worst("farkas_iterations", s.iter);
      // without strong convexity the problem can have a recession direction as well: either verdict is right
      const bool also = s.code == St::DualInfeasible && mineig(p) < 1e-9;
      if (also) vh::count("both_infeasible");
      if (!clean) {
        ++tried;
        missed += s.code == St::MaxIterations;
        if (s.code == St::MaxIterations) return;
      }
      vh::check("infeasible-not-detected", s.code == St::PrimalInfeasible || also, vh::fmt("%s after %u iterations, margin=%g", name(s.code), s.iter, margin));
    }
    if (s.iter > 0) vh::nontrivial(vh::fmt("farkas%s,%d,%d,%.9g,%u", k.name.c_str(), n, m, margin, s.iter));
    if (s.iter > 0) vh::sample(vh::fmt("%s infeasible n=%d m=%d margin=%.4g -> %s at %u", k.name.c_str(), n, m, margin, name(s.code), s.iter));
  });
  // ill-conditioned row geometry may need more iterations than the cap, but only exceptionally
  if (tried >= 500) {
    vh::count("farkas_any_tried", tried);
    vh::count("farkas_any_undetected", missed);
    vh::check("infeasible-detection-rate", missed * 50 <= tried, vh::fmt("%ld of %ld infeasible problems not detected", missed, tried));
  }
  vh::group("unbounded", 200, 4000, 0.4, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    if (k.M < 0 && r.coin(0.05)) m = 0;
    Qp p        = gen_unbounded(r, n, m);
    auto prm    = params(r);
    const Sol s = solve(r, k, p, prm);
    if (s.opt()) {
      Kkt kk = kkt(p, s.primal, s.dual, 0);
      if (eps_d(kk, prm) * p.xs.lpNorm<1>() < 0.99 * std::fabs(p.q.dot(p.xs)))
        vh::violation("unbounded-called-optimal", vh::fmt("q'd=%g dres=%g", p.q.dot(p.xs), kk.dres));
      else
        vh::count("optimal_within_tolerance");
    } else {
      vh::worst("unbounded_iterations", s.iter);
      vh::check("unbounded-not-detected", s.code == St::DualInfeasible, vh::fmt("%s after %u iterations", name(s.code), s.iter));
    }
    vh::nontrivial(vh::fmt("unb%s,%d,%d,%u,%.9g", k.name.c_str(), n, m, s.iter, p.q.sum()));
    vh::sample(vh::fmt("%s unbounded n=%d m=%d -> %s at %u", k.name.c_str(), n, m, name(s.code), s.iter));
  });
  return vh::finish();
}
