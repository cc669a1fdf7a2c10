// Q08: polishing never makes a solution worse than the tolerances and reports failure.
#include "qpgen.hpp"
using namespace qg;

// per category (refinement steps, size of the multipliers): problems, polished near machine precision, polished at all
struct Rate { long n = 0, sharp = 0, done = 0; };
static std::map<std::string, Rate> g_rate;

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("never-worse", 400, 12000, 0.6, [](Rng & r, long) {
    Qp p                = any_qp(r);
    const Kind & k      = kind_for(r, p);
    auto prm            = rand_params(r);
    prm.polish_iter     = r.pick<uint32_t>({5, 5, 0, 1, 2, 10, 30});
    prm.delta           = r.pick({1e-6f, 1e-6f, 1e-8f, 1e-3f, 0.f, 0.1f});
    prm.max_iter        = 3000;
    const Store o       = rand_store(r);
    auto prm0           = prm;
    prm0.polish         = false;
    prm.polish          = true;
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    const Sol u = k.once(p, prm0, o, nullptr), s = k.once(p, prm, o, nullptr);
    vh::count(std::string("polished:") + name(s.code));
    vh::check("polish-disabled-status", u.code != St::PolishFailed, "PolishFailed reported with polishing switched off");
    vh::check("polish-changes-status", s.opt() == u.opt() && (s.opt() || s.code == u.code), vh::fmt("%s, without polishing %s", name(s.code), name(u.code)));
    vh::check("polish-changes-iterations", s.iter == u.iter, vh::fmt("%u vs %u", s.iter, u.iter));
    if (s.opt()) {
      monitor_optimal(p, s.primal, s.dual, s.obj, prm, k.name + " polished ");
      if (s.code == St::PolishFailed) {
        vh::check_le("failed-polish-solution", (s.primal - u.primal).norm(), 1e-9 * (1 + u.primal.norm()), "solution after a failed polish is not the unpolished one");
        vh::check_le("failed-polish-dual", (s.dual - u.dual).norm(), 1e-9 * (1 + u.dual.norm()), "dual after a failed polish is not the unpolished one");
      }
    } else if (s.code == u.code && u.primal.allFinite() && s.primal.allFinite() && u.primal.size() == s.primal.size()) {
      vh::check_le("polish-touches-nonoptimal", (s.primal - u.primal).norm(), 1e-9 * (1 + u.primal.norm()), name(s.code));
    }
    vh::nontrivial(vh::fmt("%s|%d|%d|%u|%.10g", k.name.c_str(), p.n(), p.m(), s.iter, s.obj));
    if (s.code == St::PolishFailed) vh::sample(vh::fmt("%s %s n=%d m=%d polish failed, unpolished solution kept", k.name.c_str(), p.fam.c_str(), p.n(), p.m()));
  });
  // non-degenerate problems: near machine precision in the great majority of cases
  vh::group("sharp", 300, 4000, 0.3, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 7, 9);
    KktOpts ko;
    ko.n = n, ko.m = m, ko.rank = n;
    const bool small = r.coin(0.4);
    ko.ymag  = small ? r.logu(3e-3, 0.1) : 1;
    Qp p     = gen_kkt(r, ko);
    auto prm = sf::QPSolverParams{};
    prm.eps_abs = prm.eps_rel = small ? 1e-7f : 1e-5f;
    prm.scaling     = r.coin(0.7);
    prm.max_iter    = 20000;
    prm.polish_iter = r.pick<uint32_t>({5, 5, 1, 2});
    const Store o = rand_store(r);
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    const Sol s = k.once(p, prm, o, nullptr);
    if (!s.opt()) return;
    const Kkt kk = kkt(p, s.primal, s.dual, 1e-9);
    const double err = std::max(kk.pviol / (1 + kk.nAx), kk.dres / (1 + std::max({kk.nPx, kk.nq, kk.nAty})));
    const bool sharp = s.code == St::Optimal && err < 1e-9;
    for (const std::string & cat : {vh::fmt("steps%u%s", prm.polish_iter, small ? "-small" : ""), std::string(prm.scaling ? "scaled" : "unscaled"), std::string(k.sparse ? "sparse" : "dense")}) {
      auto & g = g_rate[(prm.polish_iter < 5 && cat[0] != 's') || (prm.polish_iter < 5 && cat.substr(0, 5) != "steps") ? "other" : cat];
      ++g.n, g.sharp += sharp, g.done += s.code == St::Optimal;
    }
    vh::count(sharp ? "sharp" : "not_sharp");
    if (sharp) vh::sample(vh::fmt("%s n=%d m=%d polished residual %.2g", k.name.c_str(), n, m, err));
  });
  // loose tolerances: whenever the unpolished multipliers already show the right active set, polishing must find the exact solution
  vh::group("right-guess", 300, 6000, 0.2, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    KktOpts ko;
    ko.n = n, ko.m = m, ko.rank = n;
    const double eps = r.pick({1e-3, 1e-2, 0.05, 0.1});
    const bool small = r.coin(0.7);
    ko.ymag  = small ? eps * r.uni(0.1, 0.8) : 1;
    Qp p     = gen_kkt(r, ko);
    auto prm = sf::QPSolverParams{};
    prm.eps_abs = static_cast<float>(eps), prm.eps_rel = r.coin() ? 0 : static_cast<float>(eps);
    prm.scaling     = r.coin(0.7);
    prm.max_iter    = 20000;
    const Store o = rand_store(r);
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    auto prm0 = prm;
    prm0.polish = false;
    const Sol u = k.once(p, prm0, o, nullptr);
    if (!u.opt()) return;
    for (int i = 0; i < m; ++i)
      if ((p.ys(i) == 0) != (u.dual(i) == 0) || (p.ys(i) != 0 && (p.ys(i) * u.dual(i) <= 0 || std::fabs(u.dual(i)) < 1e-7))) return vh::count("guess_wrong");
    const Sol s = k.once(p, prm, o, nullptr);
    const Kkt kk = kkt(p, s.primal, s.dual, 1e-9);
    const double err = std::max(kk.pviol / (1 + kk.nAx), kk.dres / (1 + std::max({kk.nPx, kk.nq, kk.nAty})));
    const bool sharp = s.code == St::Optimal && err < 1e-7 && (s.primal - p.xs).norm() < 1e-5 * (1 + p.xs.norm());
    for (const std::string & cat : {vh::fmt("guess-%s", small ? "small" : "normal"), vh::fmt("guess-%s", (p.ys.array() < 0).any() ? (p.ys.array() > 0).any() ? "both" : "lower" : "upper")}) {
      auto & g = g_rate[cat];
      ++g.n, g.sharp += sharp, g.done += s.code == St::Optimal;
    }
    if ((p.ys.array() != 0).any()) vh::count("right_guess");
    MatrixXd Aa(0, n);
    for (int i = 0; i < m; ++i)
      if (p.ys(i) != 0) Aa.conservativeResize(Aa.rows() + 1, n), Aa.row(Aa.rows() - 1) = p.A.row(i);
    if (Aa.rows() && (Aa.rows() > n || Aa.jacobiSvd().singularValues().minCoeff() < 0.1)) return;
    vh::count("right_guess_strict");
    vh::check("right-guess-not-polished", s.code == St::Optimal, vh::fmt("%s: status %s although the active set was visible", k.name.c_str(), name(s.code)));
    vh::check_le("right-guess-precision", (s.primal - p.xs).norm(), 1e-5 * (1 + p.xs.norm()), k.name);
  });
  for (auto & [cat, g] : g_rate) {
    vh::count("rate:" + cat + ":n", g.n), vh::count("rate:" + cat + ":sharp", g.sharp), vh::count("rate:" + cat + ":polished", g.done);
    if (g.n < (cat.substr(0, 5) == "guess" ? 30 : 100) || cat == "other" || cat == "steps1-small") continue;
    const bool one_step = cat.substr(0, 6) == "steps1";
    vh::check("polish-precision-rate", one_step || g.sharp * 10 >= g.n * 9, vh::fmt("%s: only %ld of %ld non-degenerate problems reached near machine precision", cat.c_str(), g.sharp, g.n));
    vh::check("polish-success-rate", g.done * 10 >= g.n * 9, vh::fmt("%s: only %ld of %ld non-degenerate problems were polished", cat.c_str(), g.done, g.n));
  }
  return vh::finish();
}
