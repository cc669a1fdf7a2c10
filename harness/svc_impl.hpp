// Implementation of the solver service for one problem type.
#pragma once
#include "qpgen.hpp"
#include <iostream>

namespace qg {

template<typename Pbm>
inline constexpr bool is_sparse = std::is_base_of_v<Eigen::SparseMatrixBase<decltype(Pbm::A)>, decltype(Pbm::A)>;

template<typename Pbm>
Pbm convert(const Qp & p, const Store & o)
{
  Pbm s;
  Rng r(o.seed);
  const int n = p.n(), m = p.m();
  s.q = p.q;
  s.l = p.l;
  s.u = p.u;
  auto Pval = [&](int i, int j) { return (o.garbage && i > j) ? r.uni(-3, 3) * (1 + std::fabs(p.P(j, i))) : p.P(i, j); };
  if constexpr (is_sparse<Pbm>) {
    s.P.resize(n, n);
    s.A.resize(m, n);
    if (!o.compressed) {
      s.P.reserve(Eigen::VectorXi::Constant(n, n + 2));
      if (m) s.A.reserve(Eigen::VectorXi::Constant(m, n + 1));
    }
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) {
        if (o.upper && i > j) continue;
        if (p.P(i, j) != 0 || (o.zeros && r.coin(0.3))) s.P.insert(i, j) = Pval(i, j);
      }
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j)
        if (p.A(i, j) != 0 || (o.zeros && r.coin(0.3))) s.A.insert(i, j) = p.A(i, j);
    if (o.compressed) {
      s.P.makeCompressed();
      s.A.makeCompressed();
    }
  } else {
    s.P.resize(n, n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) s.P(i, j) = Pval(i, j);
    s.A = p.A;
  }
  return s;
}

inline bool same(const auto & a, const auto & b)
{
  return a.rows() == b.rows() && a.cols() == b.cols()
      && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * static_cast<size_t>(a.size())) == 0);
}
template<typename S>
bool same_sp(const S & a, const S & b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols() || a.nonZeros() != b.nonZeros()) return false;
  for (Eigen::Index k = 0; k < a.outerSize(); ++k) {
    typename S::InnerIterator x(a, k), y(b, k);
    for (; x && y; ++x, ++y)
      if (x.index() != y.index() || std::memcmp(&x.value(), &y.value(), sizeof(double)) != 0) return false;
    if (x || y) return false;
  }
  return true;
}
template<typename Pbm>
bool same_pbm(const Pbm & a, const Pbm & b)
{
  if (!same(a.q, b.q) || !same(a.l, b.l) || !same(a.u, b.u)) return false;
  if constexpr (is_sparse<Pbm>)
    return same_sp(a.P, b.P) && same_sp(a.A, b.A);
  else
    return same(a.P, b.P) && same(a.A, b.A);
}

template<typename Pbm>
struct SolverImpl : Solver
{
  using QS   = sf::QPSolver<Pbm>;
  using SolT = sf::detail::qp_solution_t<Pbm>;
  QS s;
  explicit SolverImpl(QS && x) : s(std::move(x)) {}
  explicit SolverImpl(const QS & x) : s(x) {}
  explicit SolverImpl(const sf::QPSolverParams & p) : s(p) {}
  SolverImpl(const Pbm & pbm, const sf::QPSolverParams & p) : s(pbm, p) {}

  static Sol conv(const SolT & t)
  {
    Sol r;
    r.code   = t.code;
    r.iter   = t.iter;
    r.primal = t.primal;
    r.dual   = t.dual;
    r.obj    = t.objective;
    return r;
  }
  static SolT back(const Sol & w)
  {
    SolT t;
    t.code      = w.code;
    t.iter      = w.iter;
    t.primal    = w.primal;
    t.dual      = w.dual;
    t.objective = w.obj;
    return t;
  }
  static void monitor_input(const Pbm & now, const Pbm & before)
  {
    vh::count("input_immutability_checked");
    vh::check("input-modified", same_pbm(now, before), "the problem passed by const reference was modified");
  }
  void analyze(const Qp & p, const Store & o) override
  {
    const Pbm pbm = convert<Pbm>(p, o);
    const Pbm bak = pbm;
    s.analyze(pbm);
    monitor_input(pbm, bak);
  }
  Sol solve(const Qp & p, const Store & o, const Sol * w) override
  {
    const Pbm pbm = convert<Pbm>(p, o);
    const Pbm bak = pbm;
    Sol r;
    if (w) {
      const SolT t = back(*w);
      const SolT b = t;
      r            = conv(s.solve(pbm, t));
      vh::check("warmstart-modified", same(t.primal, b.primal) && same(t.dual, b.dual) && t.code == b.code, "warm start was modified");
    } else {
      r = conv(s.solve(pbm));
    }
    monitor_input(pbm, bak);
    const Sol again = sol();
    vh::check(
      "sol-accessor",
      again.code == r.code && again.iter == r.iter && same(again.primal, r.primal) && same(again.dual, r.dual),
      "sol() differs from the returned solution");
    return r;
  }
  Sol solve_warm_self(const Qp & p, const Store & o) override
  {
    const Pbm pbm = convert<Pbm>(p, o);
    return conv(s.solve(pbm, s.sol()));
  }
  Sol sol() const override { return conv(s.sol()); }
  std::unique_ptr<Solver> copy() const override { return std::make_unique<SolverImpl>(s); }
  std::unique_ptr<Solver> move() override { return std::make_unique<SolverImpl>(std::move(s)); }
  void assign(const Solver & o) override { s = dynamic_cast<const SolverImpl &>(o).s; }
  void move_assign(Solver & o) override { s = std::move(dynamic_cast<SolverImpl &>(o).s); }
};

template<typename Pbm>
bool register_kind(const std::string & nm)
{
  Kind k;
  using A  = decltype(Pbm::A);
  k.name   = nm;
  k.M      = A::RowsAtCompileTime;
  k.N      = A::ColsAtCompileTime;
  k.sparse = is_sparse<Pbm>;
  k.make   = [](const sf::QPSolverParams & prm) -> std::unique_ptr<Solver> { return std::make_unique<SolverImpl<Pbm>>(prm); };
  k.make_for =
    [](const Qp & p, const sf::QPSolverParams & prm, const Store & o) -> std::unique_ptr<Solver> {
    return std::make_unique<SolverImpl<Pbm>>(convert<Pbm>(p, o), prm);
  };
  k.once = [](const Qp & p, const sf::QPSolverParams & prm, const Store & o, const Sol * w) {
    const Pbm pbm = convert<Pbm>(p, o);
    const Pbm bak = pbm;
    Sol r;
    if (w) {
      const auto t = SolverImpl<Pbm>::back(*w);
      r            = SolverImpl<Pbm>::conv(sf::solve_qp(pbm, prm, t));
    } else {
      r = SolverImpl<Pbm>::conv(sf::solve_qp(pbm, prm));
    }
    SolverImpl<Pbm>::monitor_input(pbm, bak);
    return r;
  };
  kinds().push_back(k);
  return true;
}
}  // namespace qg
