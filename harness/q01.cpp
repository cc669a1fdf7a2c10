// Q01: whatever the solver reports as Optimal / PolishFailed must satisfy the KKT conditions.
#include "qpgen.hpp"
using namespace qg;

static void run(Rng & r, const Qp & p, const Kind & k)
{
  auto prm      = rand_params(r);
  prm.max_iter  = vh::g_thorough ? 20000 : 4000;
  prm.verbose   = r.coin(0.05);
  const Store o = rand_store(r);
  vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
  Sol s;
  {
    Mute mute;
    s = k.once(p, prm, o, nullptr);
  }
  vh::count(std::string("status:") + name(s.code));
  vh::count("family:" + p.fam);
  vh::count("kind:" + k.name);
  if (!s.opt()) return;
  vh::count("optimal_checked");
  monitor_optimal(p, s.primal, s.dual, s.obj, prm, k.name);
  int act = 0;
  for (int i = 0; i < p.m(); ++i) act += std::fabs(s.dual(i)) > 1e-9;
  vh::count("active_rows_seen", act);
  if (act) vh::nontrivial(vh::fmt("%s|%d|%d|%d|%ld|%.12g", k.name.c_str(), p.n(), p.m(), act, static_cast<long>(s.iter), s.obj));
  if (p.xs.size() && p.n()) {
    // known optimum: f(x) - f* is bounded through the residuals that the tolerances allow
    const double fs = 0.5 * p.xs.dot(p.P * p.xs) + p.q.dot(p.xs);
    Kkt kk          = kkt(p, s.primal, s.dual, 0);
    const double dx = (s.primal - p.xs).lpNorm<1>();
    const double up = dx * eps_d(kk, prm) + s.dual.lpNorm<1>() * eps_p(kk, prm);
    const double dn = p.ys.lpNorm<1>() * eps_p(kk, prm);
    vh::check_le("objective-above-optimum", kk.obj - fs, up * 1.01 + 1e-9 * (1 + std::fabs(fs)), k.name);
    vh::check_le("objective-below-optimum", fs - kk.obj, dn * 1.01 + 1e-9 * (1 + std::fabs(fs)), k.name);
  }
  if (act)
    vh::sample(vh::fmt("%s %s n=%d m=%d active=%d iter=%u obj=%.9g %s", k.name.c_str(), p.fam.c_str(), p.n(), p.m(), act, s.iter, s.obj, str(prm).c_str()));
}

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("dynamic", 300, 8000, 0.35, [](Rng & r, long) { run(r, any_qp(r), kind("dynamic")); });
  vh::group("sparse", 300, 8000, 0.35, [](Rng & r, long) { run(r, any_qp(r), kind("sparse")); });
  vh::group("static", 300, 8000, 0.3, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    KktOpts o;
    std::tie(o.n, o.m) = sizes(r, k, 5, 8);
    o.rank = r.coin(0.7) ? o.n : r.ri(0, o.n), o.weakp = 0.05;
    Qp p = gen_kkt(r, o);
    if (r.coin(0.2)) badscale(r, p, 1.);
    run(r, p, k);
  });
  return vh::finish();
}
