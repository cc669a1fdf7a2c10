// Q05: the answer does not depend on how the problem is stored; only the upper triangle of P counts.
#include "qpgen.hpp"
using namespace qg;

static void run(Rng & r, int cls)
{
  // sizes that several instantiations share
  const int pickk = r.ri(0, 4);
  int n = r.ri(1, 7), m = r.ri(1, 10);
  if (pickk == 0) n = 2, m = 3;
  if (pickk == 1) n = 6, m = 2;
  if (pickk == 2) n = 3;
  if (pickk == 3) m = 4;
  double margin;
  Qp p = cls == 0 ? gen_wellposed(r, n, m) : cls == 1 ? gen_infeasible(r, n, m, margin) : gen_unbounded(r, n, m);
  if (cls == 1) {
    p.P = randpsd(r, n, n, 0.5, 5);
    for (int i = 0; i < m; ++i)
      if (p.ys(i) == 0) p.l(i) -= 1e3, p.u(i) += 1e3;
  }
  auto prm     = rand_params(r);
  prm.max_iter = 100000;
  prm.rho      = r.pick({0.1f, 1.f});
  if (r.coin(0.5)) prm.eps_abs = 1e-6f, prm.eps_rel = 1e-6f;
  if (cls) prm.eps_abs = prm.eps_rel = 1e-3f, prm.sigma = 1e-6f, prm.alpha = 1.6f;
  const double mu = mineig(p);
  vh::detail("reference " + str(prm) + " " + str(p));
  const Sol ref = kind("dynamic").once(p, prm, {}, nullptr);
  vh::count(std::string("ref:") + name(ref.code));
  if (ref.code == St::MaxIterations) return;
  if (ref.opt()) monitor_optimal(p, ref.primal, ref.dual, ref.obj, prm, "reference ");
  for (auto & k : kinds()) {
    if ((k.M >= 0 && k.M != p.m()) || (k.N >= 0 && k.N != p.n())) continue;
    for (int rep = 0; rep < (k.sparse ? 4 : 2); ++rep) {
      Store o{};
      if (k.sparse) o = {rep == 1 || r.coin(0.3), rep == 2 ? false : r.coin(0.7), rep == 3 || r.coin(0.2), r.coin(0.5), r.next()};
      else o.garbage = rep == 1, o.seed = r.next();
      const std::string tag = k.name + " " + str(o);
      vh::detail(tag + " " + str(prm) + " " + str(p));
      const Sol s = k.once(p, prm, o, nullptr);
      vh::count("variant:" + k.name);
      if (o.garbage) vh::count("lower_triangle_garbage");
      const bool same_class = s.opt() == ref.opt() && (s.opt() || s.code == ref.code);
      vh::check("status-differs", same_class, vh::fmt("%s: %s, reference %s", tag.c_str(), name(s.code), name(ref.code)));
      if (!same_class || !s.opt()) {
        vh::nontrivial(vh::fmt("%s|%d|%d|%s|%u", tag.c_str(), n, m, name(s.code), s.iter));
        continue;
      }
      monitor_optimal(p, s.primal, s.dual, s.obj, prm, tag);
      const double b = sol_dist_bound(p, mu, s.primal, s.dual, ref.primal, ref.dual, prm);
      vh::check_le("solution-differs", (s.primal - ref.primal).norm(), b, tag);
      // both runs execute the same algorithm: equal iteration counts mean equal iterates up to rounding
      if (s.iter == ref.iter && s.code == ref.code)
        vh::check_le("same-iterate-differs", (s.primal - ref.primal).norm(), 1e-5 * (1 + ref.primal.norm()) + (prm.polish ? b : 0), tag);
      vh::nontrivial(vh::fmt("%s|%d|%d|%u|%.10g", tag.c_str(), n, m, s.iter, s.obj));
      vh::sample(vh::fmt("%s n=%d m=%d iter=%u/%u |x-xref|=%.3g bound=%.3g", tag.c_str(), n, m, s.iter, ref.iter, (s.primal - ref.primal).norm(), b));
    }
  }
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("feasible", 200, 4000, 0.6, [](Rng & r, long) { run(r, 0); });
  vh::group("infeasible", 60, 800, 0.2, [](Rng & r, long) { run(r, 1); });
  vh::group("unbounded", 60, 800, 0.2, [](Rng & r, long) { run(r, 2); });
  return vh::finish();
}
