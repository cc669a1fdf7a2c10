// Q07: warm starts never change the answer; an optimal warm start ends at the first check.
#include "qpgen.hpp"
using namespace qg;

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("neutral", 200, 6000, 0.5, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 7, 9);
    double margin;
    const int cls = r.ri(0, 7);
    Qp p          = cls == 0 ? gen_infeasible(r, n, m, margin) : cls == 1 ? gen_unbounded(r, n, m) : gen_wellposed(r, n, m);
    if (cls == 0) {
      p.P = randpsd(r, n, n, 0.5, 5);
      for (int i = 0; i < m; ++i)
        if (p.ys(i) == 0) p.l(i) -= 1e3, p.u(i) += 1e3;
    }
    auto prm     = rand_params(r);
    prm.max_iter = 200000;
    if (r.coin(0.4)) prm.eps_abs = prm.eps_rel = 1e-6f;
    if (cls < 2) prm.eps_abs = prm.eps_rel = 1e-3f, prm.rho = 0.1f, prm.sigma = 1e-6f, prm.alpha = 1.6f;
    const Store o = rand_store(r);
    const double mu = mineig(p);
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    const Sol cold = k.once(p, prm, o, nullptr);
    vh::count(std::string("cold:") + name(cold.code));
    if (cls >= 2) vh::check("cold-not-solved", cold.opt(), name(cold.code));
    if (cold.code == St::MaxIterations) return;
    for (int rep = 0; rep < 5; ++rep) {
      Sol w;
      w.primal = VectorXd::Zero(n);
      w.dual   = VectorXd::Zero(m);
      const double sc = r.pick({0.01, 1., 1., 30., 1000.});
      std::string kindw;
      switch (rep) {
        case 0: w.primal = sc * randn(r, n, 1), w.dual = sc * randn(r, m, 1), kindw = "random"; break;
        case 1: w = cold, kindw = "own-solution"; break;
        case 2: kindw = "zero"; break;
        case 3: {
          Qp p2    = gen_wellposed(r, n, m);
          auto prm2 = prm;
          const Sol s2 = k.once(p2, prm2, o, nullptr);
          w        = s2;
          kindw    = "other-problem";
          break;
        }
        case 4:
          w = cold;
          if (r.coin()) w.dual = -w.dual; else w.primal *= -3;
          kindw = "perturbed-solution";
          break;
      }
      if (!w.primal.allFinite() || !w.dual.allFinite()) continue;
      if (w.primal.size() != n || w.dual.size() != m) continue;
      // very large starting points (unbounded problems leave large iterates) are finite but need more iterations
      if (w.primal.size() && w.primal.lpNorm<Eigen::Infinity>() > 1e4) continue;
      if (w.dual.size() && w.dual.lpNorm<Eigen::Infinity>() > 1e4) continue;
      const std::string tag = k.name + " warm " + kindw + vh::fmt("*%g ", sc);
      vh::detail(tag + str(o) + " " + str(prm) + " " + str(p));
      Sol s;
      if (r.coin(0.5)) s = k.once(p, prm, o, &w);
      else s = k.make_for(p, prm, o)->solve(p, o, &w);
      vh::count("warm:" + kindw);
      const bool cls_ok = s.opt() == cold.opt() && (s.opt() || s.code == cold.code);
      vh::check("warm-status", cls_ok, vh::fmt("%s: %s, cold %s", tag.c_str(), name(s.code), name(cold.code)));
      if (!cls_ok || !s.opt()) continue;
      monitor_optimal(p, s.primal, s.dual, s.obj, prm, tag);
      if (mu > 0.1)
        vh::check_le("warm-solution", (s.primal - cold.primal).norm(), sol_dist_bound(p, mu, s.primal, s.dual, cold.primal, cold.dual, prm), tag);
      vh::nontrivial(vh::fmt("%s|%s|%d|%d|%u|%u", k.name.c_str(), kindw.c_str(), n, m, s.iter, cold.iter));
      vh::sample(vh::fmt("%s n=%d m=%d cold iter=%u warm iter=%u %s", tag.c_str(), n, m, cold.iter, s.iter, name(s.code)));
    }
  });
  // from an accurate optimal pair the first check ends the run
  vh::group("from-optimum", 200, 8000, 0.5, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 7, 9);
    KktOpts ko;
    ko.n = n, ko.m = m, ko.rank = r.coin(0.7) ? n : r.ri(0, n), ko.weakp = 0.1;
    Qp p = gen_kkt(r, ko);
    if (r.coin(0.3)) badscale(r, p, 1.5);
    auto prm            = rand_params(r);
    prm.eps_abs         = r.pick({1e-3f, 1e-2f, 1e-4f, 1e-5f});
    prm.eps_rel         = r.pick({1e-3f, 1e-2f, 1e-4f, 1e-5f});
    prm.stop_check_iter = r.pick<uint32_t>({25, 1, 2, 3, 10, 50});
    prm.max_iter        = 5000;
    const Store o       = rand_store(r);
    Sol w;
    w.primal = p.xs;
    w.dual   = p.ys;
    w.code   = St::Optimal;
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    const Sol s = k.once(p, prm, o, &w);
    vh::check("optimum-status", s.opt(), vh::fmt("%s after %u", name(s.code), s.iter));
    // checks happen once per interval; the first one is within the first two iterations of the first interval
    vh::check_le("optimum-iterations", s.iter, 2, vh::fmt("warm start from the exact solution, check interval %u", prm.stop_check_iter));
    if (s.opt()) monitor_optimal(p, s.primal, s.dual, s.obj, prm, "from optimum ");
    // the same through the solver's own stored solution
    if (r.coin(0.5) && p.fam.find("scaled") == std::string::npos) {
      auto prm2           = prm;
      prm2.max_iter       = 20000;
      auto sv             = k.make_for(p, prm2, o);
      const Sol s1        = sv->solve(p, o);
      const Kkt k1        = kkt(p, s1.primal, s1.dual, 1e-9);
      if (s1.opt() && std::max({k1.pviol, k1.ycomp, k1.dres}) < 1e-9) {  // polished to near machine precision
        const Sol s2 = sv->solve_warm_self(p, o);
        vh::count("self_warm");
        vh::check_le("self-warm-iterations", s2.iter, 2, "warm start from the solver's own polished solution");
        vh::check("self-warm-status", s2.opt(), name(s2.code));
      }
    }
    vh::nontrivial(vh::fmt("opt%s|%d|%d|%u|%.9g", k.name.c_str(), n, m, prm.stop_check_iter, s.obj));
  });
  return vh::finish();
}
