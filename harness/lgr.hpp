// Independent Legendre-Gauss-Radau nodes, weights and differentiation matrices (extended precision).
#pragma once
#include <cmath>
#include <map>
#include <vector>
#include <cstddef>
namespace lgr {
using ld = long double;
inline std::pair<ld, ld> leg(int n, ld x)  // P_n, P_n'
{
  ld p0 = 1, p1 = x;
  if (n == 0) return {1, 0};
  for (int k = 2; k <= n; ++k) {
    const ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
    p0 = p1, p1 = p2;
  }
  const ld d = std::fabs(x * x - 1) < 1e-15L ? (x > 0 || n % 2 == 1 ? 1 : -1) * ld(n) * (n + 1) / 2 : n * (x * p1 - p0) / (x * x - 1);
  return {p1, d};
}
struct Rule
{
  std::vector<ld> x, w;             // K nodes on [-1, 1), x[0] = -1
  std::vector<std::vector<ld>> D;   // (K+1) x K differentiation matrix on nodes plus 1: y'(x_j) = sum_k y_k D[k][j]
};
inline const Rule & rule(std::size_t K)
{
  static std::map<std::size_t, Rule> cache;
  auto it = cache.find(K);
  if (it != cache.end()) return it->second;
  Rule r;
  const int n = static_cast<int>(K);
  auto q      = [n](ld x) { return leg(n, x).first + leg(n - 1, x).first; };
  r.x.push_back(-1);
  // the other roots by bisection on a fine grid
  const int G = 4000;
  ld pa       = -1 + 1e-9L;
  for (int g = 1; g <= G; ++g) {
    const ld pb = -std::cos(M_PIl * g / G);
    if ((q(pa) > 0) != (q(pb) > 0)) {
      ld a = pa, b = pb;
      for (int s = 0; s < 90; ++s) {
        const ld m = (a + b) / 2;
        ((q(m) > 0) == (q(a) > 0) ? a : b) = m;
      }
      r.x.push_back((a + b) / 2);
    }
    pa = pb;
  }
  for (std::size_t i = 0; i < K; ++i) {
    const ld p = leg(n - 1, r.x[i]).first;
    r.w.push_back(i == 0 ? ld(2) / (ld(n) * n) : (1 - r.x[i]) / (ld(n) * n * p * p));
  }
  std::vector<ld> X = r.x;
  X.push_back(1);
  r.D.assign(K + 1, std::vector<ld>(K, 0));
  std::vector<ld> c(K + 1, 1);
  for (std::size_t i = 0; i <= K; ++i)
    for (std::size_t j = 0; j <= K; ++j)
      if (i != j) c[i] *= X[i] - X[j];
  for (std::size_t j = 0; j < K; ++j) {
    ld s = 0;
    for (std::size_t k = 0; k <= K; ++k)
      if (k != j) {
        r.D[k][j] = c[j] / c[k] / (X[j] - X[k]);
        s += r.D[k][j];
      }
    r.D[j][j] = -s;
  }
  return cache[K] = r;
}
/// all nodes of a partition given as (degree, start), with weights and interval data
struct Grid
{
  std::vector<ld> tau, w;                 // N collocation points
  std::vector<std::size_t> first, K;      // per interval
  std::vector<ld> len;
  std::size_t N() const { return w.size(); }
  template<typename Model>
  explicit Grid(const Model & m)
  {
    for (std::size_t i = 0; i < m.v.size(); ++i) {
      const Rule & r = rule(m.v[i].K);
      const ld a = m.v[i].t0, b = m.end(i);
      first.push_back(w.size());
      K.push_back(m.v[i].K);
      len.push_back(b - a);
      for (std::size_t j = 0; j < m.v[i].K; ++j) {
        tau.push_back(a + (b - a) * (r.x[j] + 1) / 2);
        w.push_back((b - a) / 2 * r.w[j]);
      }
    }
    tau.push_back(1);
  }
  std::size_t ival(std::size_t node) const
  {
    std::size_t i = 0;
    while (i + 1 < first.size() && first[i + 1] <= node) ++i;
    return i;
  }
};
}  // namespace lgr
