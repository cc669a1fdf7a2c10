// Q02: feasible bounded problems are never declared infeasible / unbounded and are solved.
#include "qpgen.hpp"
using namespace qg;

static void run(Rng & r, bool strong)
{
  const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
  auto [n, m]    = sizes(r, k, r.coin(0.1) ? 20 : 7, r.coin(0.1) ? 25 : 10);
  if (strong && k.M < 0 && r.coin(0.05)) m = 0;
  Qp p          = strong ? gen_wellposed(r, n, m) : gen_bounded(r, n, m);
  auto prm      = rand_params(r);
  prm.stop_check_iter = r.pick<uint32_t>({25, 25, 1, 2, 3, 7, 10, 50});
  if (r.coin(0.3)) prm.eps_abs = 1e-6f, prm.eps_rel = 1e-6f;
  if (r.coin(0.2)) prm.eps_abs = 1e-7f, prm.eps_rel = 0;
  if (!strong && r.coin(0.3)) prm.rho = static_cast<float>(r.logu(1e-5, 10));
  prm.max_iter  = strong ? 100000 : 3000;
  const Store o = rand_store(r);
  vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
  Sol warm;
  const bool w = r.coin(0.2);
  warm.primal  = randn(r, n, 1);
  warm.dual    = randn(r, m, 1);
  const Sol s  = k.once(p, prm, o, w ? &warm : nullptr);
  vh::count(std::string("status:") + name(s.code));
  vh::count("family:" + p.fam);
  vh::worst("iterations", s.iter);
  vh::check("declared-primal-infeasible", s.code != St::PrimalInfeasible, vh::fmt("%s iter=%u", p.fam.c_str(), s.iter));
  vh::check("declared-dual-infeasible", s.code != St::DualInfeasible, vh::fmt("%s iter=%u", p.fam.c_str(), s.iter));
  vh::check("unknown-status", s.code != St::Unknown && s.code != St::MaxTime, name(s.code));
  if (strong) vh::check("not-solved", s.opt(), vh::fmt("%s status %s after %u iterations", p.fam.c_str(), name(s.code), s.iter));
  if (s.opt() && s.iter > 2 && m) vh::nontrivial(vh::fmt("%s%d,%d,%u,%.10g", k.name.c_str(), n, m, s.iter, s.obj));
  if (m && s.iter > 2) vh::sample(vh::fmt("%s %s n=%d m=%d warm=%d -> %s iter=%u", k.name.c_str(), p.fam.c_str(), n, m, w, name(s.code), s.iter));
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("strongly-convex", 300, 20000, 0.5, [](Rng & r, long) { run(r, true); });
  vh::group("bounded", 300, 20000, 0.5, [](Rng & r, long) { run(r, false); });
  return vh::finish();
}
