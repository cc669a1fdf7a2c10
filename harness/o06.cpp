// O06: the derivative self-test accepts right derivatives and rejects wrong ones, at every requested point.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/ocp.hpp>
#include <sstream>
#include "dualder.hpp"
namespace sf = smooth::feedback;
using vh::Rng;
using smooth::diff::Type;

enum class Kind { None, Add, Drop, NaN, Inf, Shape };
struct Fault
{
  int order{0};  // 1: first derivative, 2: second
  Kind kind{Kind::None};
  long row{0}, col{0};
  std::size_t point{0};  // index of the (distinct) point at which the derivative is wrong, ...
  bool always{true};     // or at all of them
  double delta{0};
};
enum class Store { Dense, Value, Ref };

/// counts distinct argument lists
struct Points
{
  std::vector<std::vector<double>> seen;
  template<typename... A>
  std::size_t index(double t, const A &... a)
  {
    std::vector<double> v{t};
    auto put = [&](const auto & x) {
      const auto f = lrf::feat(x);
      for (Eigen::Index i = 0; i < f.size(); ++i) v.push_back(f(i));
    };
    (put(a), ...);
    for (std::size_t i = 0; i < seen.size(); ++i)
      if (seen[i] == v) return i;
    seen.push_back(v);
    return seen.size() - 1;
  }
};

template<int R, bool SCALAR, int ORDER, Store STORE, typename... A>
struct F
{
  static constexpr int NZ = 1 + (0 + ... + lrf::NF<A>), N = 1 + (0 + ... + int(smooth::Dof<A>));
  using JT = Eigen::Matrix<double, R, N, (R == 1) ? Eigen::RowMajor : Eigen::ColMajor>;
  using HT = Eigen::Matrix<double, N, R * N>;
  lrf::Fun<R, NZ> f;
  Fault fault;
  bool all{true};
  Points pj, ph;
  Sp J, H;
  double worst_scale{0};
  bool hit{false};
  template<typename T, typename... B>
  auto operator()(const T & t, const B &... a) const
  {
    const Eigen::Vector<T, R> y = f.template operator()<T>(t, a...);
    if constexpr (SCALAR) return T(y(0));
    else return y;
  }
  Eigen::MatrixXd truth(int order, double t, const A &... a) const
  {
    Eigen::MatrixXd m;
    auto raw = [this](const auto & tt, const auto &... b) {
      using T = typename Num<std::decay_t<decltype(tt)>>::type;
      return f.template operator()<T>(tt(0), b...);
    };
    derivatives<R>(raw, std::make_tuple(Eigen::Vector<double, 1>(t), a...), order == 1 ? &m : nullptr, order == 2 ? &m : nullptr);
    return m;
  }
  Eigen::MatrixXd faulty(int order, std::size_t p, Eigen::MatrixXd m)
  {
    if (fault.order != order || fault.kind == Kind::None || !(fault.always || fault.point == p)) return m;
    hit         = true;
    double & e  = m(fault.row, fault.col);
    const double s = 1 + m.norm();
    switch (fault.kind) {
    case Kind::Add: e += fault.delta * s; break;
    case Kind::Drop: e = std::abs(e) > 1e-2 * s ? 0 : e + s; break;
    case Kind::NaN: e = std::numeric_limits<double>::quiet_NaN(); break;
    case Kind::Inf: e = std::numeric_limits<double>::infinity(); break;
    default: m.conservativeResizeLike(Eigen::MatrixXd::Zero(m.rows() + (fault.row % 2), m.cols() + 1 - (fault.row % 2)));
    }
    return m;
  }
  auto jacobian(double t, const A &... a)
    requires(ORDER >= 1)
  {
    const Eigen::MatrixXd m = faulty(1, pj.index(t, a...), truth(1, t, a...));
    if constexpr (STORE == Store::Dense) return JT(m);
    else {
      J = sparse(m, all);
      if constexpr (STORE == Store::Value) return Sp(J);
      else return std::reference_wrapper<const Sp>(J);
    }
  }
  auto hessian(double t, const A &... a)
    requires(ORDER >= 2)
  {
    const Eigen::MatrixXd m = faulty(2, ph.index(t, a...), truth(2, t, a...));
    if constexpr (STORE == Store::Dense) return HT(m);
    else {
      H = sparse(m, all);
      if constexpr (STORE == Store::Value) return Sp(H);
      else return std::reference_wrapper<const Sp>(H);
    }
  }
  static constexpr int order     = ORDER;
  static constexpr Store storage = STORE;
  static constexpr long jr = R, jc = N, hr = N, hc = R * N;
};

static const char * names[] = {"theta", "f", "g", "cr", "ce"};

template<typename X, typename U, Type DT, int OT, int OF, int OG, int OC, int OE, Store ST, Store SF, Store SG, Store SC, Store SE>
static void one(Rng & r, const char * name)
{
  constexpr int NX = int(smooth::Dof<X>), NQ = 2, NCR = 3, NCE = 2;
  using Q  = Eigen::Vector<double, NQ>;
  using O  = sf::OCP<X, U, F<1, true, OT, ST, X, X, Q>, F<NX, false, OF, SF, X, U>, F<NQ, false, OG, SG, X, U>, F<NCR, false, OC, SC, X, U>, F<NCE, false, OE, SE, X, X, Q>>;
  O base{};
  const double sc = r.pick({1., 1., 20., 1e-1});
  base.theta.f.f.randomize(r, sc), base.f.f.f.randomize(r, sc), base.g.f.f.randomize(r, sc), base.cr.f.f.randomize(r, sc), base.ce.f.f.randomize(r, sc);
  base.theta.all = r.coin(), base.f.all = r.coin(), base.g.all = r.coin(), base.cr.all = r.coin(), base.ce.all = r.coin();

  auto run = [&](O & o, uint32_t trials, int how) {
    std::srand(unsigned(r.ri(1, 1 << 30)));
    std::ostringstream s;
    auto * old = std::cout.rdbuf(s.rdbuf());
    const bool ok = how == 0 ? sf::test_ocp_derivatives<DT>(o, trials) : how == 1 ? sf::test_ocp_derivatives<DT>(o, trials, 1e-3) : sf::test_ocp_derivatives<DT>(o, trials, 1e-4);
    std::cout.rdbuf(old);
    return ok;
  };
  const uint32_t trials = uint32_t(r.ri(1, 6));
  const int how         = r.ri(0, 2);
  const std::string w   = vh::fmt("%s scale %.3g trials %u", name, sc, trials);
  {
    O o = base;
    vh::check("accepts", run(o, trials, how), w);
    vh::count("right_derivatives");
    const std::size_t n[] = {o.theta.pj.seen.size(), o.f.pj.seen.size(), o.g.pj.seen.size(), o.cr.pj.seen.size(), o.ce.pj.seen.size()};
    const std::size_t m[] = {o.theta.ph.seen.size(), o.f.ph.seen.size(), o.g.ph.seen.size(), o.cr.ph.seen.size(), o.ce.ph.seen.size()};
    const int ord[] = {OT, OF, OG, OC, OE};
    for (int k = 0; k < 5; ++k) {
      if (ord[k] >= 1) vh::check("points_jacobian", n[k] >= trials, w + vh::fmt(" %s tried at %zu points", names[k], n[k]));
      if (ord[k] >= 2) vh::check("points_hessian", m[k] >= trials, w + vh::fmt(" %s tried at %zu points", names[k], m[k]));
    }
  }
  // one fault in every derivative
  auto faults = [&](int k, auto get) {
    using FT = std::decay_t<decltype(get(base))>;
    for (int order = 1; order <= FT::order; ++order) {
      O o         = base;
      Fault & f   = get(o).fault;
      f.order     = order;
      f.kind      = r.pick({Kind::Add, Kind::Add, Kind::Add, Kind::Drop, Kind::NaN, Kind::Inf, Kind::Shape});
      if (f.kind == Kind::Shape && FT::storage == Store::Dense) f.kind = Kind::Add;
      f.row    = r.ri(0, int(order == 1 ? FT::jr : FT::hr) - 1);
      f.col    = r.ri(0, int(order == 1 ? FT::jc : FT::hc) - 1);
      f.always = r.coin(0.3);
      f.point  = std::size_t(r.ri(0, int(trials) - 1));
      f.delta  = r.logu(2.5e-3, 2) * (r.coin() ? 1 : -1);
      const bool ok = run(o, trials, how);
      const std::string v = w + vh::fmt(" %s of %s wrong in entry (%ld, %ld): kind %d delta %.3g at %s %zu", order == 1 ? "first derivative" : "second derivative",
        names[k], f.row, f.col, int(f.kind), f.delta, f.always ? "all, not just" : "point", f.point);
      if (!vh::check("fault_reached", get(o).hit, v)) continue;
      vh::check(vh::fmt("rejects_%s_%d", names[k], order).c_str(), !ok, v);
      vh::count("wrong_derivatives");
      vh::count(vh::fmt("kind_%d", int(f.kind)));
      vh::nontrivial(v + vh::fmt("%.17g", base.f.f.f.rows[0].c));
    }
  };
  faults(0, [](O & o) -> auto & { return o.theta; });
  faults(1, [](O & o) -> auto & { return o.f; });
  faults(2, [](O & o) -> auto & { return o.g; });
  faults(3, [](O & o) -> auto & { return o.cr; });
  faults(4, [](O & o) -> auto & { return o.ce; });
  vh::sample(w);
}

using V1 = Eigen::Vector<double, 1>;
constexpr auto D_ = Store::Dense, V_ = Store::Value, R_ = Store::Ref;
void run_0(Rng &);
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
#if PART == 0
void run_0(Rng & r) { one<Eigen::Vector2d, V1, Type::Numerical, 2, 2, 2, 2, 2, V_, R_, V_, R_, V_>(r, "R2 numerical"); }
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3};
  vh::group("problems", 40, 200000, 1, [](Rng & r, long i) { fs[i % 4](r); });
  return vh::finish();
}
#elif PART == 1
void run_1(Rng & r) { one<Eigen::Vector3d, Eigen::Vector2d, Type::Autodiff, 2, 2, 2, 2, 2, D_, D_, R_, V_, D_>(r, "R3 dual"); }
#elif PART == 2
void run_2(Rng & r) { one<smooth::SE2d, V1, Type::Numerical, 2, 2, 1, 2, 2, R_, V_, D_, D_, R_>(r, "SE2 numerical"); }
#elif PART == 3
void run_3(Rng & r) { one<Eigen::Vector2d, Eigen::Vector2d, Type::Numerical, 1, 0, 2, 1, 0, D_, V_, V_, R_, V_>(r, "R2 partial"); }
#endif
