// M01: a mesh is a valid partition after every history of refinements, as documented.
#include <cfloat>
#include <list>
#include "meshgen.hpp"
using namespace mg;

template<typename M>
static bool compare(const M & m, const Model & w, const char * op)
{
  bool ok = vh::check("interval-count", m.N_ivals() == w.v.size(), vh::fmt("%s: %zu intervals, documented %zu", op, m.N_ivals(), w.v.size()));
  if (!ok) return false;
  ok = vh::check("colloc-count", m.N_colloc() == w.total(), vh::fmt("%s: N_colloc %zu, want %zu", op, m.N_colloc(), w.total())) && ok;
  double prev = -1;
  for (std::size_t i = 0; i < w.v.size(); ++i) {
    ok = vh::check("degree", m.N_colloc_ival(i) == w.v[i].K, vh::fmt("%s: interval %zu of %zu has degree %zu, documented %zu", op, i, w.v.size(), m.N_colloc_ival(i), w.v[i].K)) && ok;
    ok = vh::check("degree-range", m.N_colloc_ival(i) >= M::Kmin && m.N_colloc_ival(i) <= M::Kmax + 1, op) && ok;
    if (!ok) return false;
    auto n = m.interval_nodes(i);
    const std::size_t cnt = static_cast<std::size_t>(std::ranges::distance(n));
    ok = vh::check("node-count", cnt == w.v[i].K + 1, vh::fmt("%s: %zu nodes", op, cnt)) && ok;
    double first = *std::ranges::begin(n), last = first;
    double pn = -1;
    for (double x : n) {
      ok = vh::check("nodes-increase", x > pn, vh::fmt("%s: node %.17g after %.17g", op, x, pn)) && ok;
      last = pn = x;
    }
    if (i == 0) ok = vh::check("starts-at-0", first == 0, op) && ok;
    ok = vh::check_le("boundary", std::fabs(first - w.v[i].t0), 4 * DBL_EPSILON * (0.1 + w.end(i)), vh::fmt("%s: interval %zu starts at %.17g, documented %.17g", op, i, first, w.v[i].t0)) && ok;
    ok = vh::check_le("end", std::fabs(last - w.end(i)), 4 * DBL_EPSILON * (0.1 + w.end(i)), vh::fmt("%s: interval %zu ends at %.17g, next starts %.17g", op, i, last, w.end(i))) && ok;
    ok = vh::check("ordered", first > prev, vh::fmt("%s: interval %zu", op, i)) && ok;
    prev = first;
  }
  return ok;
}

template<typename M>
static void lookups(Rng & r, const M & m, const Model & o)
{
  const std::size_t n = o.v.size();
  for (int q = 0; q < 12; ++q) {
    double t;
    switch (r.ri(0, 6)) {
    case 0: t = r.uni(-0.5, 1.5); break;
    case 1: t = o.v[static_cast<std::size_t>(r.ri(0, int(n) - 1))].t0; break;
    case 2: t = std::nextafter(o.v[static_cast<std::size_t>(r.ri(0, int(n) - 1))].t0, -1); break;
    case 3: t = std::nextafter(o.v[static_cast<std::size_t>(r.ri(0, int(n) - 1))].t0, 2); break;
    case 4: t = r.pick({0., 1., -0., std::nextafter(1., 0.), std::nextafter(1., 2.), -1e300, 1e300, 5e-324}); break;
    case 5: {
      const auto i = static_cast<std::size_t>(r.ri(0, int(n) - 1));
      t            = o.v[i].t0 + (o.end(i) - o.v[i].t0) * r.u01();
      break;
    }
    default: t = r.u01();
    }
    const std::size_t got = m.interval_find(t);
    std::size_t want = 0;
    for (std::size_t i = 0; i < n; ++i)
      if (o.v[i].t0 <= t) want = i;
    vh::count("lookups");
    // where a boundary is only known up to the rounding of the reported nodes, either neighbour will do
    bool near = false;
    if (got + 1 == want || got == want + 1) {
      const std::size_t b = std::max(got, want);
      near = !o.exact(b) && std::fabs(t - o.v[b].t0) <= 4 * DBL_EPSILON;
    }
    if (near) vh::count("lookups_within_rounding");
    vh::check("find", got == want || near, vh::fmt("interval_find(%.17g) = %zu, want %zu of %zu", t, got, want, n));
  }
}

template<typename M>
static void history(Rng & r, const char * name)
{
  constexpr int Kmin = M::Kmin, Kmax = M::Kmax;
  Model w{M::Kmin, M::Kmax, {}};
  std::string seq = name;
  auto make = [&]() -> M {
    if (r.coin(0.3)) {
      w.v = {{M::Kmin, 0.}};
      seq += " new()";
      return M();
    }
    const auto n = static_cast<std::size_t>(r.ri(0, r.coin(0.1) ? 100 : 8));
    const auto k = static_cast<std::size_t>(r.ri(Kmin, Kmax + 1));
    const bool dflt = r.coin(0.2);
    w.v.clear();
    for (std::size_t i = 0; i < std::max<std::size_t>(n, 1); ++i) w.v.push_back({dflt ? M::Kmin : k, static_cast<double>(i) / static_cast<double>(std::max<std::size_t>(n, 1))});
    seq += vh::fmt(" new(%zu,%zu)", n, k);
    return dflt ? M(n) : M(n, k);
  };
  M m = make();
  vh::detail(seq);
  if (!compare(m, w, "new")) return;
  const int steps = r.ri(1, 12);
  bool split = false;
  for (int s = 0; s < steps; ++s) {
    const std::size_t n = m.N_ivals();
    const auto i        = r.coin(0.3) ? (r.coin() ? 0 : n - 1) : static_cast<std::size_t>(r.ri(0, int(n) - 1));
    const char * op     = "";
    w                   = observe(m);  // rounding of boundaries does not accumulate in the model
    // very short intervals make the boundary comparison meaningless
    double minw = 1;
    for (std::size_t j = 0; j < n; ++j) minw = std::min(minw, w.end(j) - w.v[j].t0);
    switch (r.ri(0, 6)) {
    case 0:
    case 1:
    case 2: {
      int D = r.pick({r.ri(0, Kmax), r.ri(0, Kmax + 2), Kmax, Kmax + 1, Kmin, r.ri(Kmax, 4 * Kmax), r.ri(0, 10 * Kmax), int(w.v[i].K), int(w.v[i].K) - 1, int(w.v[i].K) + 1});
      if (D < 0) D = 0;
      op = "refine_ph";
      seq += vh::fmt(" refine_ph(%zu,%d)", i, D);
      vh::detail(seq);
      if (n > 400 || minw < 1e-5) break;
      m.refine_ph(i, static_cast<std::size_t>(D));
      const auto before = w.v.size();
      w.refine(i, static_cast<std::size_t>(D));
      if (w.v.size() != before) split = true, vh::count("splits");
      vh::count("refinements");
      break;
    }
    case 3: {
      const auto K = static_cast<std::size_t>(r.ri(Kmin, Kmax + 1));
      op           = "set_N_colloc_ival";
      seq += vh::fmt(" set(%zu,%zu)", i, K);
      vh::detail(seq);
      m.set_N_colloc_ival(i, K);
      w.v[i].K = K;
      break;
    }
    case 4: {
      op = "increase";
      seq += " ++";
      vh::detail(seq);
      m.increase_degrees();
      for (auto & x : w.v) x.K = std::min<std::size_t>(x.K + 1, M::Kmax + 1);
      break;
    }
    case 5: {
      op = "decrease";
      seq += " --";
      vh::detail(seq);
      m.decrease_degrees();
      for (auto & x : w.v) x.K = x.K > M::Kmin ? x.K - 1 : M::Kmin;
      break;
    }
    case 6: {
      op = "refine_errors";
      if (n > 120 || minw < 1e-4) break;
      const double target = r.coin(0.05) ? 0. : std::pow(10., r.uni(-12, 0));
      Eigen::VectorXd errs(static_cast<long>(n));
      const double mag = r.pick({1., 1e3, 1e6, 1e-3, 1e-6});
      for (auto & e : errs) {
        e = (target == 0 ? 1. : target) * mag * std::pow(10., r.uni(-3, 3));
        if (r.coin(0.2)) e = target;
        if (r.coin(0.1)) e = 0;
        if (r.coin(0.02)) e = std::numeric_limits<double>::infinity();
        if (r.coin(0.02)) e = std::numeric_limits<double>::max();
      }
      // an infinite ratio only makes sense on few intervals
      seq += vh::fmt(" refine_errors(target %.3g, max %.3g)", target, errs.maxCoeff());
      vh::detail(seq);
      switch (r.ri(0, 2)) {
      case 0: m.refine_errors(errs, target); break;
      case 1: m.refine_errors(std::vector<double>(errs.begin(), errs.end()), target); break;
      default: m.refine_errors(std::span<const double>(errs.data(), n), target); break;
      }
      vh::count("error_refinements");
      const Model o = observe(m);
      // walk both partitions: untouched exactly where the error is within target, refined elsewhere, more for larger errors
      std::size_t j = 0;
      bool ok = true;
      for (std::size_t k = 0; k < n && ok; ++k) {
        if (!(ok = vh::check("errors-lost-interval", j < o.v.size(), vh::fmt("interval %zu vanished", k)))) break;
        std::size_t cnt = 0;
        const double a = w.v[k].t0, b = w.end(k), eps = 4 * DBL_EPSILON;
        const std::size_t j0 = j;
        while (j < o.v.size() && o.v[j].t0 < b - eps) ++j, ++cnt;
        ok = vh::check("errors-boundary", cnt > 0 && std::fabs(o.v[j0].t0 - a) <= eps && std::fabs(o.end(j - 1) - b) <= eps, vh::fmt("interval %zu [%.17g,%.17g] not a union of new intervals", k, a, b));
        if (!ok) break;
        const double e = errs(static_cast<long>(k));
        if (!(e > target)) {
          ok = vh::check("errors-untouched", cnt == 1 && o.v[j0].K == w.v[k].K, vh::fmt("interval %zu error %.3g <= target %.3g but became %zu intervals of degree %zu (was %zu)", k, e, target, cnt, o.v[j0].K, w.v[k].K));
          continue;
        }
        vh::count("ivals_over_target");
        ok = vh::check("errors-refined", cnt > 1 || o.v[j0].K > w.v[k].K, vh::fmt("interval %zu error %.3g > target %.3g not refined (degree %zu)", k, e, target, w.v[k].K));
        // ph rule: degree needed = K + log(error / target) / log(K), up to rounding
        const double Kd    = static_cast<double>(std::max<std::size_t>(w.v[k].K, 2));
        const double ratio = std::min(e / target, DBL_MAX);
        const double need  = static_cast<double>(w.v[k].K) + std::log(ratio) / std::log(Kd);
        const double lo = need - 0.01, hi = need + 2.51;
        if (cnt == 1) {
          ok = vh::check("errors-degree", o.v[j0].K <= M::Kmax && static_cast<double>(o.v[j0].K) >= lo && static_cast<double>(o.v[j0].K) <= hi && w.v[k].K <= M::Kmax,
                         vh::fmt("interval %zu: degree %zu -> %zu for error/target %.3g", k, w.v[k].K, o.v[j0].K, ratio)) && ok;
        } else {
          const double nlo = std::max(2., std::ceil(std::floor(lo) / Kmin)), nhi = std::max(2., std::ceil(hi / Kmin));
          ok = vh::check("errors-split", (hi > Kmax || w.v[k].K > M::Kmax) && static_cast<double>(cnt) >= nlo && static_cast<double>(cnt) <= nhi, vh::fmt("interval %zu: split into %zu, expected %.0f..%.0f", k, cnt, nlo, nhi)) && ok;
          for (std::size_t q = 0; q < cnt && ok; ++q) {
            ok = vh::check("errors-split-degree", o.v[j0 + q].K == M::Kmin, vh::fmt("interval %zu part %zu/%zu has degree %zu", k, q, cnt, o.v[j0 + q].K));
            ok = vh::check_le("errors-split-equal", std::fabs(o.v[j0 + q].t0 - (a + (b - a) * static_cast<double>(q) / static_cast<double>(cnt))), eps) && ok;
          }
        }
      }
      if (ok) vh::check("errors-extra", j == o.v.size(), "additional intervals");
      if (!ok) return;
      w = o;
      break;
    }
    }
    if (!compare(m, w, op)) return;
    lookups(r, m, observe(m));
    if (r.coin(0.1)) {
      // copies are independent
      M c           = m;
      const Model a = observe(m);
      c.increase_degrees();
      c.refine_ph(0, M::Kmax + 1);
      compare(m, a, "copy-isolated");
      if (r.coin()) {
        M d = std::move(c);
        c   = m;
        compare(c, a, "copy-assigned");
        m = std::move(c);
        compare(m, a, "moved");
      }
    }
  }
  if (split || m.N_ivals() > 1) vh::nontrivial(seq);
  vh::sample(seq + " => " + show(m));
}

// one translation unit per mesh type (compile time)
#if PART == 0
void run_0(Rng & r) { history<sf::Mesh<5, 10>>(r, "<5,10>"); }
#endif
#if PART == 1
void run_1(Rng & r) { history<sf::Mesh<>>(r, "<>"); }
#endif
#if PART == 2
void run_2(Rng & r) { history<sf::Mesh<1, 1>>(r, "<1,1>"); }
#endif
#if PART == 3
void run_3(Rng & r) { history<sf::Mesh<2, 4>>(r, "<2,4>"); }
#endif
#if PART == 4
void run_4(Rng & r) { history<sf::Mesh<3, 3>>(r, "<3,3>"); }
#endif
#if PART == 5
void run_5(Rng & r) { history<sf::Mesh<8, 9>>(r, "<8,9>"); }
#endif
#if PART == 6
void run_6(Rng & r) { history<sf::Mesh<1, 6>>(r, "<1,6>"); }
#endif
#if PART == 7
void run_7(Rng & r) { history<sf::Mesh<4, 7>>(r, "<4,7>"); }
#endif
#if PART == 0
void run_0(Rng &);
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
void run_4(Rng &);
void run_5(Rng &);
void run_6(Rng &);
void run_7(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  vh::set_case_cpu_limit(25);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3, run_4, run_5, run_6, run_7};
  vh::group("history", 500, 40000, 1, [](Rng & r, long) { fs[r.ri(0, 7)](r); });
  return vh::finish();
}
#endif
