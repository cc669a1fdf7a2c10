// M03 / M04 (ORDER=1 / 2): mesh function values and derivatives against an independent collocation grid
// evaluated in dual-number arithmetic.
#include <smooth/compat/autodiff.hpp>
#include <smooth/feedback/collocation/mesh_function.hpp>
#include "lgr.hpp"
#include "meshgen.hpp"
#include "rfun.hpp"
using namespace mg;
using smooth::shim::Dual;
using smooth::diff::Type;

enum What { Eval, EvalW, Integrate, Dyn };
static const char * names[] = {"eval", "eval-weighted", "integrate", "dyn"};

// reference: the documented expression at z = [t0, tf, x_0..x_N, u_0..u_{N-1}]
template<typename T, int NX, int NU, int NF>
static Eigen::VectorX<T> reference(What what, const lgr::Grid & g, const auto & f, const Eigen::VectorX<T> & z)
{
  const long N = long(g.N());
  const T t0 = z(0), tf = z(1);
  auto x = [&](long i) -> Eigen::Vector<T, NX> { return z.segment(2 + NX * i, NX); };
  auto u = [&](long i) -> Eigen::Vector<T, NU> { return z.segment(2 + NX * (N + 1) + NU * i, NU); };
  Eigen::VectorX<T> out = Eigen::VectorX<T>::Constant(what == Integrate ? NF : NF * N, T(0.));
  for (long i = 0; i < N; ++i) {
    const T t                      = t0 + (tf - t0) * T(double(g.tau[std::size_t(i)]));
    const Eigen::Vector<T, NF> val = f.f.template value<T>(rf::cat<T, 1 + NX + NU>(t, x(i), u(i)));
    const T w(double(g.w[std::size_t(i)]));
    for (int j = 0; j < NF; ++j) {
      if (what == Eval) out(NF * i + j) = val(j);
      if (what == EvalW) out(NF * i + j) = w * val(j);
      if (what == Integrate) out(j) += w * (tf - t0) * val(j);
      if (what == Dyn) out(NF * i + j) = w * (tf - t0) * val(j);
    }
    if (what == Dyn) {
      const std::size_t iv = g.ival(std::size_t(i)), f0 = g.first[iv];
      for (std::size_t k = 0; k <= g.K[iv]; ++k) {
        const double d = double(lgr::rule(g.K[iv]).D[k][std::size_t(i) - f0] * 2 / g.len[iv] * g.w[std::size_t(i)]);
        for (int j = 0; j < NF && j < NX; ++j) out(NF * i + j) -= T(d) * x(long(f0 + k))(j);
      }
    }
  }
  return out;
}

template<uint8_t Deriv, Type DT, int NX, int NU>
static void call(What what, sf::MeshValue<Deriv> & out, const auto & m, auto & f, const Eigen::VectorXd & z, bool vec)
{
  const long N = long(m.N_colloc());
  const Eigen::Matrix<double, NX, -1> X = z.segment(2, NX * (N + 1)).reshaped(NX, N + 1);
  const Eigen::Matrix<double, NU, -1> U = z.tail(NU * N).reshaped(NU, N);
  auto go = [&](auto && xs, auto && us) {
    switch (what) {
    case Eval: sf::mesh_eval<Deriv, DT>(out, m, f, z(0), z(1), xs, us); break;
    case EvalW: sf::mesh_eval<Deriv, DT>(out, m, f, z(0), z(1), xs, us, true); break;
    case Integrate: sf::mesh_integrate<Deriv, DT>(out, m, f, z(0), z(1), xs, us); break;
    case Dyn:
      if constexpr (requires { f.is_dyn; }) sf::mesh_dyn<Deriv, DT>(out, m, f, z(0), z(1), xs, us);
      break;
    }
  };
  if (vec) {
    std::vector<Eigen::Vector<double, NX>> xs;
    std::vector<Eigen::Vector<double, NU>> us;
    for (auto c : X.colwise()) xs.push_back(c);
    for (auto c : U.colwise()) us.push_back(c);
    go(xs, us);
  } else
    go(X.colwise(), U.colwise());
}

template<typename B, bool D>
struct Tag : B
{};
template<typename B>
struct Tag<B, true> : B
{
  static constexpr bool is_dyn = true;
};

static bool finite(const Eigen::SparseMatrix<double> & s)
{
  for (int k = 0; k < s.outerSize(); ++k)
    for (Eigen::SparseMatrix<double>::InnerIterator it(s, k); it; ++it)
      if (!std::isfinite(it.value())) return false;
  return true;
}

template<typename Mesh, typename Fun, Type DT, int NX, int NU, int NF>
static void one(Rng & r, const char * name)
{
  Tag<Fun, NX == NF> f;
  f.f.randomize(r, r.pick({1., 1., 10.}));
  const Mesh m    = random_mesh<Mesh>(r, r.coin(0.2) ? 12 : 5);
  const lgr::Grid g(observe(m));
  const long N = long(g.N()), nz = 2 + NX * (N + 1) + NU * N;
  const What what = static_cast<What>(r.ri(0, NX == NF ? 3 : 2));
  const bool vec  = r.coin(0.3);
  vh::detail(vh::fmt("%s %s NX%d NU%d NF%d mesh %s", names[what], name, NX, NU, NF, show(m).c_str()));
  constexpr double tol = DT == Type::Numerical ? (ORDER == 2 ? 3e-3 : 1e-5) : 2e-11;

  auto point = [&] {
    Eigen::VectorXd z(nz);
    for (auto & v : z) v = r.uni(-2, 2);
    z(0) = r.pick({0., 0., r.uni(-5, 5)});
    z(1) = z(0) + r.pick({1., r.uni(0.1, 10), r.uni(-3, 3), 0.});
    return z;
  };
  sf::MeshValue<ORDER> out;
  const int calls = r.ri(1, 4);
  for (int c = 0; c < calls; ++c) {
    const Eigen::VectorXd z = point();
    const Eigen::VectorXd F = reference<double, NX, NU, NF>(what, g, f, z);
    const double fs         = 1 + F.cwiseAbs().maxCoeff();
#if ORDER == 2
    out.lambda.resize(F.size());
    const double lspan = r.pick({0., 0., 6., 12.});
    for (auto & l : out.lambda) l = r.uni(-2, 2) * r.pick({1., 1., 0., 5.}) * std::pow(10., -r.uni(0, lspan));
#endif
    call<ORDER, DT, NX, NU>(what, out, m, f, z, vec);
    vh::count(std::string("calls:") + names[what]);
    if (c) vh::count("reused_results");
    const std::string at = vh::fmt("call %d t0=%.6g tf=%.6g N=%ld", c, z(0), z(1), N);
    // ---- value
    if (!vh::check("value-size", out.F.size() == F.size(), at)) return;
    // the differentiation matrix magnifies rounding
    const double vs = fs * double(N + 10);
    vh::check_le("value", (out.F - F).cwiseAbs().maxCoeff(), 1e-12 * vs, at);
    if (ORDER == 1 && r.coin(0.3)) {
      sf::MeshValue<0> o0;
      call<0, DT, NX, NU>(what, o0, m, f, z, !vec);
      vh::check_le("value-order0", (o0.F - F).cwiseAbs().maxCoeff(), 1e-12 * vs, at);
    }
    // ---- first derivative, column by column in dual numbers
    if (!vh::check("jacobian-size", out.dF.rows() == F.size() && out.dF.cols() == nz, vh::fmt("%ld x %ld ", long(out.dF.rows()), long(out.dF.cols())) + at)) return;
    vh::check("jacobian-finite", finite(out.dF), at);
    const Eigen::MatrixXd J = out.dF;
    double js = 1;
    for (long k = 0; k < nz; ++k) {
      if (ORDER == 2 && !r.coin(0.2)) continue;
      Eigen::VectorX<Dual<double>> zd(nz);
      for (long i = 0; i < nz; ++i) zd(i) = Dual<double>(z(i), i == k ? 1. : 0.);
      const auto R = reference<Dual<double>, NX, NU, NF>(what, g, f, zd);
      double worst = 0, mag = 0;
      for (long i = 0; i < R.size(); ++i) worst = std::max(worst, std::fabs(R(i).d - J(i, k))), mag = std::max(mag, std::fabs(R(i).d));
      js = std::max(js, mag);
      vh::count("jacobian_columns");
      vh::check_le("jacobian", worst, tol * (mag + fs + js) * double(N + 10), vh::fmt("column %ld of %ld (%s) ", k, nz, k == 0 ? "t0" : k == 1 ? "tf" : k < 2 + NX * (N + 1) ? "x" : "u") + at);
    }
#if ORDER == 2
    // ---- second derivative of lambda . F: bilinear forms d1' H d2 in nested dual numbers
    if (!vh::check("hessian-size", out.d2F.rows() == nz && out.d2F.cols() == nz, at)) return;
    vh::check("hessian-finite", finite(out.d2F), at);
    double hs = 1;
    bool below = false;
    for (int k = 0; k < out.d2F.outerSize(); ++k)
      for (Eigen::SparseMatrix<double>::InnerIterator it(out.d2F, k); it; ++it) {
        hs    = std::max(hs, std::fabs(it.value()));
        below = below || (it.row() > it.col());
      }
    vh::check("hessian-upper", !below, at);
    const Eigen::SparseMatrix<double> H = out.d2F.selfadjointView<Eigen::Upper>();
    for (int q = 0; q < 14; ++q) {
      Eigen::VectorXd a = Eigen::VectorXd::Zero(nz), b = a;
      const int kind = r.ri(0, 3);
      auto unit = [&](Eigen::VectorXd & v) { v(r.coin(0.3) ? r.ri(0, 1) : r.ri(0, int(nz) - 1)) = 1; };
      if (kind == 0) for (auto & v : a) v = r.uni(-1, 1);
      else unit(a);
      if (kind <= 1) for (auto & v : b) v = r.uni(-1, 1);
      else unit(b);
      using DD = Dual<Dual<double>>;
      Eigen::VectorX<DD> zd(nz);
      for (long i = 0; i < nz; ++i) zd(i) = DD(Dual<double>(z(i), a(i)), Dual<double>(b(i), 0.));
      const auto R = reference<DD, NX, NU, NF>(what, g, f, zd);
      double want = 0;
      for (long i = 0; i < R.size(); ++i) want += out.lambda(i) * R(i).d.d;
      const double got = a.dot(H * b);
      const double sc  = hs * a.lpNorm<1>() * b.lpNorm<1>() + fs * (1 + out.lambda.cwiseAbs().maxCoeff());
      vh::count("hessian_forms");
      vh::check_le("hessian", std::fabs(got - want), tol * sc, vh::fmt("form kind %d got %.12g want %.12g ", kind, got, want) + at);
    }
    // zero multipliers give a zero Hessian
    if (r.coin(0.1)) {
      const Eigen::VectorXd keep = out.lambda;
      out.lambda.setZero();
      call<ORDER, DT, NX, NU>(what, out, m, f, z, vec);
      vh::check_le("hessian-zero-multiplier", Eigen::MatrixXd(out.d2F).cwiseAbs().maxCoeff(), 0, at);
      out.lambda = keep;
      call<ORDER, DT, NX, NU>(what, out, m, f, z, vec);
    }
#endif
    // the results are homogeneous in the function and in the multipliers; scaling by powers of two is exact
    if (r.coin(0.2)) {
      Tag<Fun, NX == NF> f2 = f;
      const double s = what == What(3) ? 1. : std::ldexp(1., r.ri(-60, 60));
      for (auto & w : f2.f.rows) w.c *= s, w.a *= s, w.b *= s, w.Q *= s;
      sf::MeshValue<ORDER> o2;
      double s2 = 1;
#if ORDER == 2
      s2        = std::ldexp(1., r.ri(-60, 60));
      o2.lambda = s2 * out.lambda;
#endif
      call<ORDER, DT, NX, NU>(what, o2, m, f2, z, vec);
      auto same = [](const auto & a, const auto & b, double k) {
        double e = 0;
        for (long j = 0; j < a.cols(); ++j)
          for (long i = 0; i < a.rows(); ++i)
            if (!(a(i, j) == k * b(i, j))) e = std::max(e, std::fabs(a(i, j) - k * b(i, j)) / (std::fabs(a(i, j)) + std::fabs(k * b(i, j)) + 1e-300));
        return e;
      };
      vh::count("scaled_calls");
      const std::string w = vh::fmt("function times %g, multipliers times %g ", s, s2) + at;
      vh::check_le("homogeneous-value", same(o2.F, out.F, s), 1e-10, w);
      vh::check_le("homogeneous-jacobian", same(Eigen::MatrixXd(o2.dF), J, s), 1e-10, w);
#if ORDER == 2
      vh::check_le("homogeneous-hessian", same(Eigen::MatrixXd(o2.d2F), Eigen::MatrixXd(out.d2F), s * s2), 1e-10, w);
#endif
    }
    if (r.coin(0.5)) {
      out.dF.makeCompressed();
#if ORDER == 2
      out.d2F.makeCompressed();
#endif
      vh::count("compressed_results");
    }
  }
  vh::nontrivial(vh::fmt("%s%s%d%d%d", names[what], name, NX, NU, NF) + show(m) + vh::fmt("%d", calls));
  vh::sample(vh::fmt("%s %s NX%d NU%d NF%d %d calls ", names[what], name, NX, NU, NF, calls) + show(m));
}

#if PART == 0
void run_0(Rng & r) { r.coin() ? one<sf::Mesh<5, 10>, rf::Dense<2, 4>, Type::Default, 2, 1, 2>(r, "dense") : one<sf::Mesh<1, 3>, rf::Dense<3, 5>, Type::Default, 2, 2, 3>(r, "dense"); }
#elif PART == 1
void run_1(Rng & r) { r.coin() ? one<sf::Mesh<2, 4>, rf::Sparse<3, 6>, Type::Default, 3, 2, 3>(r, "sparse") : one<sf::Mesh<2, 4>, rf::Sparse<1, 3>, Type::Analytic, 1, 1, 1>(r, "sparse"); }
#elif PART == 2
void run_2(Rng & r) { one<sf::Mesh<3, 3>, rf::Sparse<2, 6, Eigen::RowMajor>, Type::Analytic, 2, 3, 2>(r, "sparse-row-major"); }
#elif PART == 3
void run_3(Rng & r) { one<sf::Mesh<3, 5>, rf::Plain<2, 4>, Type::Autodiff, 2, 1, 2>(r, "autodiff"); }
#elif PART == 4
void run_4(Rng & r) { one<sf::Mesh<3, 5>, rf::Plain<1, 4>, Type::Numerical, 1, 2, 1>(r, "numerical"); }
#elif PART == 5
void run_5(Rng & r) { one<sf::Mesh<2, 4>, rf::Sparse<2, 4, Eigen::ColMajor, true>, Type::Default, 2, 1, 2>(r, "sparse-reference"); }
#endif
#if PART == 0
void run_1(Rng &);
void run_2(Rng &);
void run_3(Rng &);
void run_4(Rng &);
void run_5(Rng &);
int main(int c, char ** v)
{
  vh::init(c, v);
  static void (*const fs[])(Rng &) = {run_0, run_1, run_2, run_3, run_4, run_5};
  vh::group("functions", 200, 30000, 1, [](Rng & r, long) { fs[r.ri(0, 5)](r); });
  return vh::finish();
}
#endif
