// P01: PID controller against a reference model over random histories.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/pid.hpp>
#include <chrono>
#include "lierf.hpp"
namespace sf = smooth::feedback;
using vh::Rng;
constexpr double inf = std::numeric_limits<double>::infinity();

// time given as a count of ticks of 2^-6 s or of the resolution of the type
template<typename T>
struct Clock
{
  static T at(long ticks)
  {
    if constexpr (std::is_arithmetic_v<T>) return static_cast<T>(ticks) / 64;
    else if constexpr (requires(T t) { t.time_since_epoch(); }) return T(typename T::duration(static_cast<typename T::rep>(ticks)));
    else return T(static_cast<typename T::rep>(ticks));
  }
  static double res()
  {
    if constexpr (std::is_arithmetic_v<T>) return 1. / 64;
    else return double(T::period::num) / double(T::period::den);
  }
};

template<typename T, typename G>
static void one(Rng & r, const char * name)
{
  constexpr int N = int(smooth::Dof<G>);
  using Tn        = Eigen::Vector<double, N>;
  using C         = Clock<T>;
  using Traj      = std::function<std::tuple<G, Tn, Tn>(double)>;  // of seconds
  struct Ref
  {
    double limit;
    Tn kp = Tn::Ones(), kd = Tn::Ones(), ki = Tn::Zero(), i = Tn::Zero();
    bool called{false};
    long last{0}, o{0};   // o: time origin of the trajectory
    double slack{1e-9};  // accelerations along splines on curved groups come from numerical differentiation in the stand-in
    Traj des = [](double) { return std::make_tuple(smooth::Identity<G>(), Tn(Tn::Zero()), Tn(Tn::Zero())); };
  };
  struct Pair
  {
    sf::PID<T, G> c;
    Ref r;
  };
  const bool dflt = r.coin(0.2);
  const double lim = dflt ? inf : r.pick({inf, r.uni(0, 2), r.uni(0, 0.2), 0., 5.});
  std::vector<Pair> ps;
  if (dflt && r.coin()) ps.push_back({sf::PID<T, G>(), Ref{inf}});
  else ps.push_back({sf::PID<T, G>(sf::PIDParams{.windup_limit = lim}), Ref{lim}});
  auto rt = [&](double m) {
    Tn v;
    for (auto & e : v) e = m * r.uni(-1, 1);
    return v;
  };
  auto rg = [&] { return smooth::rplus(smooth::Identity<G>(), rt(r.pick({0.3, 1., 1.}))); };
  // tick sizes: seconds per operation of a natural magnitude
  const long unit = std::max(1L, long(r.pick({0.01, 0.1, 1.}) / C::res()));
  long now        = r.pick({0L, long(r.ri(-50, 50)) * unit, long(r.ri(0, 2000)) * unit});
  const int steps = r.ri(1, 40);
  std::string hist;
  long moved = 0, clamped = 0;
  for (int k = 0; k < steps; ++k) {
    Pair & p = ps[std::size_t(r.ri(0, int(ps.size()) - 1))];
    const int op = r.ri(0, 19);
    if (hist.size() < 60) hist += char('a' + op);
    switch (op) {
    case 0: { const double g = r.uni(-2, 3); p.c.set_kp(g), p.r.kp.setConstant(g); break; }
    case 1: { const Tn g = rt(2); p.c.set_kp(g), p.r.kp = g; break; }
    case 2: { const double g = r.uni(-2, 3); p.c.set_kd(g), p.r.kd.setConstant(g); break; }
    case 3: { const Tn g = rt(2); p.c.set_kd(2 * g), p.r.kd = 2 * g; break; }
    case 4: { const double g = r.uni(-2, 3); p.c.set_ki(g), p.r.ki.setConstant(g); break; }
    case 5: { const Tn g = rt(2); p.c.set_ki(g), p.r.ki = g; break; }
    case 6: p.c.reset_integral(), p.r.i.setZero(); vh::count("resets"); break;
    case 7: {
      const G g0 = rg();
      const Tn v = rt(0.5), a = rt(1);
      const double w = r.uni(0, 2);
      p.r.des = [=](double t) { return std::make_tuple(smooth::rplus(g0, Tn(v * std::sin(w * t))), Tn(v * w * std::cos(w * t)), Tn(a * t)); };
      const Traj d = p.r.des;
      p.r.o = 0, p.r.slack = 1e-9;
      if (r.coin()) p.c.set_xdes([d](T t) { return d(sf::time_trait<T>::minus(t, C::at(0))); });
      else { const std::function<std::tuple<G, Tn, Tn>(T)> f = [d](T t) { return d(sf::time_trait<T>::minus(t, C::at(0))); }; p.c.set_xdes(f); }
      vh::count("trajectories");
      break;
    }
    case 8: {
      // spline with its own time origin
      std::vector<double> tt{0};
      std::vector<G> gg{rg()};
      std::vector<std::vector<Tn>> cc;
      for (int s = 0; s < 3; ++s) {
        cc.push_back({rt(0.5), rt(0.2), rt(0.1)});
        tt.push_back(tt.back() + r.uni(0.2, 1) * double(unit) * C::res() * 10);
        gg.push_back(rg());
      }
      using Sp = smooth::Spline<3, G>;
      const Sp sp(tt, gg, cc);
      const long o = now + r.ri(-10, 5) * unit;
      p.r.des = [sp](double t) {
        Tn v, a;
        const G g = sp(t, v, a);
        return std::make_tuple(g, v, a);
      };
      p.r.o = o, p.r.slack = 1e-7;
      if (r.coin()) p.c.set_xdes(C::at(o), sp);
      else p.c.set_xdes(C::at(o), Sp(sp));
      vh::count("splines");
      break;
    }
    case 9: if (ps.size() < 4) { const Pair q = p; ps.push_back(q); vh::count("copies"); } break;
    case 10: { const std::size_t a = std::size_t(r.ri(0, int(ps.size()) - 1)); const Pair q = p; ps[a].c = q.c, ps[a].r = q.r; vh::count("copies"); break; }
    case 11: { Pair q = std::move(p); p = std::move(q); break; }
    default: {
      const int dir = r.ri(0, 9);
      if (dir < 7) now += r.ri(1, 5) * unit + (r.coin(0.3) ? r.ri(0, int(std::min(unit, 1000000000L))) : 0);
      else if (dir < 9) now -= r.ri(0, 3) * unit;
      const Tn v = rt(1);
      const double t = double(now - p.r.o) * C::res();
      auto [gd, vd, ad] = p.r.des(t);
      const G x  = smooth::rplus(gd, rt(r.pick({0.1, 1., 1.})));  // away from the cut locus, where the error is discontinuous
      const Tn e = smooth::rminus(gd, x);
      const double step = double(now - p.r.last) * C::res();
      if (p.r.called && now > p.r.last) {
        p.r.i += step * e;
        for (auto & c : p.r.i)
          if (std::fabs(c) > p.r.limit) c = c > 0 ? p.r.limit : -p.r.limit, ++clamped;
        ++moved;
      } else if (p.r.called) vh::count("time_not_advancing");
      p.r.called = true, p.r.last = now;
      const Tn want = ad + p.r.kp.cwiseProduct(e) + p.r.kd.cwiseProduct(vd - v) + p.r.ki.cwiseProduct(p.r.i);
      const Tn got  = p.c(C::at(now), x, v);
      const double sc = 1 + ad.cwiseAbs().maxCoeff() + p.r.ki.cwiseAbs().maxCoeff() * p.r.i.cwiseAbs().maxCoeff() + 10;
      vh::count("calls");
      vh::check_le("output", (got - want).cwiseAbs().maxCoeff(), p.r.slack * sc, vh::fmt("%s history %s t=%.9g step %.9g limit %.4g", name, hist.c_str(), t, step, p.r.limit));
    }
    }
  }
  vh::count("integrations", moved), vh::count("clamped", clamped);
  if (moved > 0) vh::nontrivial(vh::fmt("%s%ld%ld%s%.17g", name, unit, now, hist.c_str(), lim));
  vh::sample(vh::fmt("%s unit %ld ticks windup %.4g history %s", name, unit, lim, hist.c_str()));
}

int main(int c, char ** v)
{
  vh::init(c, v);
  using namespace std::chrono;
  static void (*const fs[])(Rng &) = {
    [](Rng & r) { one<double, Eigen::Vector3d>(r, "double-R3"); },
    [](Rng & r) { one<float, smooth::SE2d>(r, "float-SE2"); },
    [](Rng & r) { one<nanoseconds, smooth::SO3d>(r, "ns-SO3"); },
    [](Rng & r) { one<duration<int, std::milli>, Eigen::Vector<double, 1>>(r, "ms-R1"); },
    [](Rng & r) { one<steady_clock::time_point, smooth::SO3d>(r, "steady-SO3"); },
    [](Rng & r) { one<time_point<system_clock, microseconds>, smooth::Bundle<smooth::SO2d, Eigen::Vector2d>>(r, "system-us-SO2xR2"); },
    [](Rng & r) { one<duration<double>, Eigen::Vector2d>(r, "seconds-R2"); }};
  vh::group("histories", 150, 60000, 1, [](Rng & r, long) { fs[r.ri(0, 6)](r); });
  return vh::finish();
}
