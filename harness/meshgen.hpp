// Random mesh histories with a reference model of the documented refinement rules.
#pragma once
#include <smooth/feedback/collocation/mesh.hpp>
#include "vh.hpp"

#include <string>
#include <vector>

namespace mg {
using vh::Rng;
namespace sf = smooth::feedback;

struct Ival
{
  std::size_t K;
  double t0;
};

/// Reference model: list of (degree, start)
struct Model
{
  std::size_t Kmin, Kmax;
  std::vector<Ival> v;
  double end(std::size_t i) const { return i + 1 < v.size() ? v[i + 1].t0 : 1.; }
  /// start of interval b is free of rounding however it is computed (it and the end are short binary fractions)
  bool exact(std::size_t b) const
  {
    const auto dyadic = [](double x) { return std::ldexp(x, 20) == std::floor(std::ldexp(x, 20)); };
    return dyadic(v[b].t0) && dyadic(end(b)) && (b == 0 || dyadic(v[b - 1].t0));
  }
  std::size_t total() const
  {
    std::size_t s = 0;
    for (auto & x : v) s += x.K;
    return s;
  }
  /// documented effect of refining interval i to D points
  void refine(std::size_t i, std::size_t D)
  {
    if (D > Kmax || v[i].K > Kmax) {
      std::size_t n = (D + Kmin - 1) / Kmin;
      if (n < 2) n = 2;
      const double a = v[i].t0, b = end(i);
      std::vector<Ival> add;
      for (std::size_t j = 0; j < n; ++j) add.push_back({Kmin, a + (b - a) * static_cast<double>(j) / static_cast<double>(n)});
      v.erase(v.begin() + static_cast<long>(i));
      v.insert(v.begin() + static_cast<long>(i), add.begin(), add.end());
    } else if (D >= v[i].K) {
      v[i].K = D;
    }
  }
};

/// Actual partition observed through the public interface
template<typename M>
Model observe(const M & m)
{
  Model o{M::Kmin, M::Kmax, {}};
  for (std::size_t i = 0; i < m.N_ivals(); ++i) {
    auto n = m.interval_nodes(i);
    o.v.push_back({m.N_colloc_ival(i), *std::ranges::begin(n)});
  }
  return o;
}

/// Random mesh obtained by a short history of operations (used by every collocation property)
template<typename M>
M random_mesh(Rng & r, std::size_t max_ivals)
{
  M m = r.coin(0.3) ? M() : M(static_cast<std::size_t>(r.ri(0, static_cast<int>(std::min<std::size_t>(max_ivals, 4)))), static_cast<std::size_t>(r.ri(int(M::Kmin), int(M::Kmax) + 1)));
  const int steps = r.ri(0, 5);
  for (int s = 0; s < steps; ++s) {
    const auto i = static_cast<std::size_t>(r.ri(0, int(m.N_ivals()) - 1));
    switch (r.ri(0, 4)) {
    case 0: m.set_N_colloc_ival(i, static_cast<std::size_t>(r.ri(int(M::Kmin), int(M::Kmax) + 1))); break;
    case 1: {
      const auto D = static_cast<std::size_t>(r.ri(1, 3 * int(M::Kmax)));
      if (m.N_ivals() + D / M::Kmin + 1 <= max_ivals) m.refine_ph(i, D);
      break;
    }
    case 2: m.increase_degrees(); break;
    case 3: m.decrease_degrees(); break;
    default: break;
    }
  }
  return m;
}

template<typename M>
std::string show(const M & m)
{
  std::string s = vh::fmt("<%zu,%zu>", std::size_t(M::Kmin), std::size_t(M::Kmax));
  for (auto & x : observe(m).v) {
    s += vh::fmt(" %zu@%.4g", x.K, x.t0);
    if (s.size() > 300) break;
  }
  return s;
}
}  // namespace mg
