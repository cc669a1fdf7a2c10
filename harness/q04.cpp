// Q04: iteration and time limits are honoured and reported; every positive check interval terminates.
#include "qpgen.hpp"
using namespace qg;

#include <sys/syscall.h>
#include <unistd.h>
// Virtual wall clock: while switched on, every reading of a wall clock advances it by a fixed step.
static thread_local bool tl_virtual = false;
static thread_local int64_t tl_now = 0, tl_step = 0, tl_reads = 0;
extern "C" int clock_gettime(clockid_t id, timespec * t) noexcept
{
  if (!tl_virtual || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC)) return static_cast<int>(syscall(SYS_clock_gettime, id, t));
  tl_now += tl_step, ++tl_reads;
  t->tv_sec = 1700000000 + tl_now / 1000000000, t->tv_nsec = tl_now % 1000000000;
  return 0;
}

static double thread_cpu()
{
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static Qp problem(Rng & r, int n, int m)
{
  double margin;
  switch (r.ri(0, 9)) {
    case 0: return gen_infeasible(r, n, m, margin);
    case 1: return gen_unbounded(r, n, m);
    case 2: {
      Qp p   = gen_wellposed(r, n, m);
      p.l(0) = 1, p.u(0) = -1;
      p.fam  = "contradictory-row";
      return p;
    }
    default: return gen_wellposed(r, n, m);
  }
}

int main(int c, char ** v)
{
  vh::init(c, v);
  // the run with an iteration limit is a prefix of the run without one
  vh::group("iteration-limit", 300, 12000, 0.4, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    Qp p           = problem(r, n, m);
    auto prm       = rand_params(r);
    prm.stop_check_iter = r.pick<uint32_t>({25, 1, 2, 3, 5, 7, 10, 50, 100});
    const uint32_t cap  = 20000;
    prm.max_iter        = cap;
    const Store o       = rand_store(r);
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    // a third of the runs is warm started, another third uses a solver that solved something else before
    Sol w;
    w.primal = randn(r, n, 1) * r.pick({0.1, 1., 100.});
    w.dual   = randn(r, m, 1) * r.pick({0.1, 1., 100.});
    const int how = r.ri(0, 2);
    auto go = [&](const sf::QPSolverParams & q) {
      if (how != 2) return k.once(p, q, o, how ? &w : nullptr);
      auto s = k.make_for(p, q, o);
      s->solve(p, o, &w);
      return s->solve(p, o);
    };
    vh::count(how == 0 ? "cold" : how == 1 ? "warm" : "reused");
    const Sol ref = go(prm);
    vh::count(std::string("ref:") + name(ref.code));
    vh::check("iter-above-limit", ref.iter <= cap, vh::fmt("%u", ref.iter));
    vh::check("maxiter-status", (ref.code == St::MaxIterations) == (ref.iter == cap), vh::fmt("%s at %u", name(ref.code), ref.iter));
    vh::check("unexpected-status", ref.code != St::MaxTime && ref.code != St::Unknown, name(ref.code));
    if (ref.code == St::MaxIterations) return;
    const uint32_t T = ref.iter;
    for (int rep = 0; rep < 4; ++rep) {
      const uint32_t lim = rep == 0 ? T : rep == 1 ? (T ? T - 1 : 0) : rep == 2 ? r.ri(0, 3) : r.ri(0, static_cast<int>(T + 30));
      prm.max_iter       = lim;
      if (r.coin(0.3)) prm.max_time = std::chrono::hours(1);
      const Sol s = go(prm);
      prm.max_time = {};
      vh::count("limited_runs");
      vh::check("iter-above-limit", s.iter <= lim, vh::fmt("%u > %u", s.iter, lim));
      if (lim < T) {
        vh::check("limit-not-reported", s.code == St::MaxIterations && s.iter == lim,
                  vh::fmt("limit %u, unlimited run ends at %u (%s); got %s after %u", lim, T, name(ref.code), name(s.code), s.iter));
      } else {
        vh::check("limit-changes-answer", s.code == ref.code && s.iter == T && (s.primal - ref.primal).norm() <= 1e-9 * (1 + ref.primal.norm()),
                  vh::fmt("limit %u, unlimited run ends at %u (%s); got %s after %u", lim, T, name(ref.code), name(s.code), s.iter));
      }
      vh::nontrivial(vh::fmt("lim%s,%u,%u,%s", k.name.c_str(), lim, T, name(ref.code)));
      vh::sample(vh::fmt("%s limit=%u unlimited=%u(%s) -> %s iter=%u", k.name.c_str(), lim, T, name(ref.code), name(s.code), s.iter));
    }
  });
  // every check interval terminates on well-posed problems without any limit being set
  vh::group("check-interval", 150, 6000, 0.2, [](Rng & r, long idx) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    Qp p           = gen_wellposed(r, n, m);
    auto prm       = rand_params(r);
    if (prm.eps_abs < 1e-6f) prm.eps_abs = 1e-6f;
    prm.alpha           = 1.6f;
    prm.stop_check_iter = idx < 60 ? static_cast<uint32_t>(idx + 1) : static_cast<uint32_t>(r.ri(1, 400));
    if (r.coin(0.02)) prm.stop_check_iter = 20000;
    const Store o = rand_store(r);
    vh::detail(k.name + " " + str(o) + " " + str(prm) + " " + str(p));
    const Sol s = k.once(p, prm, o, nullptr);
    vh::check("interval-not-solved", s.opt(), vh::fmt("%s at %u", name(s.code), s.iter));
    vh::worst("iterations", s.iter);
    vh::nontrivial(vh::fmt("int%s,%u,%u,%.8g", k.name.c_str(), prm.stop_check_iter, s.iter, s.obj));
    // checking more often cannot make the run longer than one interval beyond the sparse schedule
    auto prm1            = prm;
    prm1.stop_check_iter = 1;
    const Sol s1         = k.once(p, prm1, o, nullptr);
    vh::check("interval-not-solved", s1.opt(), vh::fmt("interval 1: %s at %u", name(s1.code), s1.iter));
    vh::check("interval-1-later", s1.iter <= s.iter, vh::fmt("interval 1 needed %u iterations, interval %u needed %u", s1.iter, prm.stop_check_iter, s.iter));
  });
  // time limits on a virtual clock: decided without looking at the machine
  vh::group("virtual-time", 100, 4000, 0.2, [](Rng & r, long) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 6, 8);
    KktOpts ko;
    ko.n = n, ko.m = m, ko.rank = n;
    Qp p     = r.coin(0.3) ? problem(r, n, m) : gen_kkt(r, ko);
    auto prm = rand_params(r);
    prm.stop_check_iter = r.pick<uint32_t>({1, 2, 5, 25});
    const bool never    = r.coin(0.6);
    if (never) prm.eps_abs = prm.eps_rel = 0, prm.eps_primal_inf = prm.eps_dual_inf = 0;
    prm.max_iter        = 20000;
    const Store o       = rand_store(r);
    vh::detail(k.name + " virtual time " + str(o) + " " + str(prm) + " " + str(p));
    auto go = [&](const sf::QPSolverParams & q, int64_t step) {
      tl_now = 0, tl_reads = 0, tl_step = step, tl_virtual = true;
      const Sol s = k.once(p, q, o, nullptr);
      tl_virtual  = false;
      return s;
    };
    const Sol ref = go(prm, 1);
    const int64_t step = 1000000;
    for (int rep = 0; rep < 3; ++rep) {
      const int64_t readings = rep == 0 ? 0 : r.ri(20, 200);  // the limit passes at about this reading
      prm.max_time = std::chrono::nanoseconds(rep == 0 ? 1 : readings * step + step / 2);
      const Sol s  = go(prm, step);
      vh::count(std::string("virtual:") + name(s.code));
      if (s.code == St::MaxTime) {
        vh::check("virtual-maxtime-early", tl_now > prm.max_time->count(), vh::fmt("MaxTime after %g of %g ms", 1e-6 * double(tl_now), 1e-6 * double(prm.max_time->count())));
        vh::check("virtual-answer-discarded", s.iter < ref.iter || ref.code == St::MaxIterations, vh::fmt("MaxTime at %u, without a limit %s there", s.iter, name(ref.code)));
        vh::check("virtual-maxtime-iterations", s.iter <= ref.iter, vh::fmt("%u, %u without a limit", s.iter, ref.iter));
        vh::nontrivial(vh::fmt("virt%s,%ld,%u", k.name.c_str(), long(readings), s.iter));
      } else {
        vh::check("virtual-changes-answer", s.code == ref.code && s.iter == ref.iter, vh::fmt("%s at %u, without a limit %s at %u", name(s.code), s.iter, name(ref.code), ref.iter));
      }
      // a handful of readings after the limit has passed (the solver reads the clock at every check and a few times for its log)
      vh::check("virtual-maxtime-late", s.code != St::MaxTime || tl_now <= prm.max_time->count() + 12 * step,
        vh::fmt("%s after %g ms, limit %g ms", name(s.code), 1e-6 * double(tl_now), 1e-6 * double(prm.max_time->count())));
      // an answer found at the very first check is not discarded because of the time
      const uint32_t first = std::min<uint32_t>(prm.stop_check_iter, 2);
      if (ref.iter <= first && ref.code != St::MaxIterations) {
        vh::count("answered_at_first_check");
        vh::check("virtual-answer-discarded", s.code == ref.code, vh::fmt("%s, without a limit %s at %u", name(s.code), name(ref.code), ref.iter));
      }
    }
  });
  // time limits
  vh::group("time-limit", 25, 150, 0.4, [](Rng & r, long idx) {
    const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
    auto [n, m]    = sizes(r, k, 8, 10);
    Qp p;
    KktOpts ko;
    ko.n = n, ko.m = m, ko.rank = n;
    p    = gen_kkt(r, ko);
    auto prm            = rand_params(r);
    prm.eps_abs = prm.eps_rel = 0;  // never converges to zero residual (exact hits are tolerated)
    prm.eps_primal_inf = prm.eps_dual_inf = 0;
    prm.stop_check_iter = r.pick<uint32_t>({1, 2, 25, 100});
    const double lim    = idx < 6 ? 0. : r.pick({0., 1e-6, 1e-3, 5e-3, 0.02, 0.1});
    prm.max_time        = std::chrono::nanoseconds(static_cast<int64_t>(lim * 1e9));
    if (r.coin(0.2)) prm.max_iter = 2000000000u;
    const Store o = rand_store(r);
    vh::detail(k.name + " limit " + std::to_string(lim) + " " + str(o) + " " + str(prm) + " " + str(p));
    const double c0 = thread_cpu();
    const auto t0   = std::chrono::high_resolution_clock::now();
    const Sol s     = k.once(p, prm, o, nullptr);
    const double wall = std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - t0).count();
    const double cp   = thread_cpu() - c0;
    vh::count(std::string("timed:") + name(s.code));
    vh::check("timed-status", s.code == St::MaxTime || s.opt() || s.code == St::DualInfeasible, name(s.code));
    if (s.code == St::MaxTime) {
      vh::check_le("maxtime-too-early", lim, wall, "returned before the limit had passed");
      vh::nontrivial(vh::fmt("time%s,%g,%u", k.name.c_str(), lim, s.iter));
      vh::sample(vh::fmt("%s time limit %gs -> MaxTime after %.4gs wall, %u iterations", k.name.c_str(), lim, wall, s.iter));
    }
    // CPU time of this thread does not grow while the machine is busy elsewhere
    vh::check_le("maxtime-late", cp, lim + 1.5, "seconds of CPU used");
  });
  return vh::finish();
}
