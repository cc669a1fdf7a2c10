// Q10 (solver part): distinct solver objects, copies of a common ancestor and one shared const problem used
// from several threads without synchronisation; results must equal the sequential run (bitwise) and the race
// detector must stay silent.
#include "qpgen.hpp"
#include <barrier>
#include <thread>
using namespace qg;

static bool bitsame(const Sol & a, const Sol & b)
{
  auto eq = [](const VectorXd & x, const VectorXd & y) {
    return x.size() == y.size() && (x.size() == 0 || std::memcmp(x.data(), y.data(), sizeof(double) * static_cast<size_t>(x.size())) == 0);
  };
  return a.code == b.code && a.iter == b.iter && eq(a.primal, b.primal) && eq(a.dual, b.dual);
}

static void one(Rng & r)
{
  const Kind & k = kinds()[r.ri(0, static_cast<int>(kinds().size()) - 1)];
  auto prm       = rand_params(r);
  prm.max_iter   = 300;
  prm.max_time   = {};
  prm.verbose    = false;
  const int T    = r.ri(2, 6);
  const auto [n, m] = sizes(r, k, 6, 8);
  // all problems share the structure of the ancestor (same size, dense pattern)
  std::vector<Qp> ps;
  for (int i = 0; i < T + 1; ++i) {
    Qp p = gen_wellposed(r, n, m);
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b)
        if (p.P(a, b) == 0) p.P(a, b) = 1e-12;
    for (int a = 0; a < m; ++a)
      for (int b = 0; b < n; ++b)
        if (p.A(a, b) == 0) p.A(a, b) = 1e-12;
    ps.push_back(p);
  }
  Store o;
  vh::detail(vh::fmt("%s threads=%d n=%d m=%d %s", k.name.c_str(), T, n, m, str(prm).c_str()));
  auto ancestor = k.make_for(ps[0], prm, o);
  if (r.coin()) ancestor->solve(ps[0], o);
  struct Job
  {
    std::unique_ptr<Solver> s;
    int mode, rounds;
    std::vector<Sol> out;
  };
  auto build = [&](std::vector<int> & modes) {
    std::vector<Job> js;
    for (int t = 0; t < T; ++t) {
      Job j;
      j.mode   = modes[t];
      j.rounds = 3;
      if (j.mode <= 1) j.s = ancestor->copy();
      js.push_back(std::move(j));
    }
    return js;
  };
  auto work = [&](Job & j, int t) {
    for (int q = 0; q < j.rounds; ++q) {
      const Qp & p = (j.mode == 1 || j.mode == 4) ? ps[0] : ps[t + 1];
      switch (j.mode) {
        case 0:
        case 1: j.out.push_back(j.s->solve(p, o, q ? &j.out.back() : nullptr)); break;
        case 2: {  // copy the shared ancestor concurrently (read only)
          auto c = ancestor->copy();
          j.out.push_back(c->solve(p, o));
          break;
        }
        case 3: {
          auto c = k.make(prm);
          c->analyze(p, o);
          j.out.push_back(c->solve(p, o));
          break;
        }
        default: j.out.push_back(k.once(p, prm, o, nullptr));
      }
    }
  };
  std::vector<int> modes;
  for (int t = 0; t < T; ++t) modes.push_back(r.ri(0, 4));
  auto seq = build(modes);
  for (int t = 0; t < T; ++t) work(seq[t], t);
  auto par = build(modes);
  std::barrier bar(T);
  std::vector<uint64_t> jit;
  for (int t = 0; t < T; ++t) jit.push_back(r.next());
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      vh::tl_worker = true;
      bar.arrive_and_wait();
      for (uint64_t z = jit[t] % 2000; z; --z) asm volatile("");  // injected delay
      work(par[t], t);
    });
  for (auto & x : th) x.join();
  vh::check("worker-monitor", vh::g_worker_failures.exchange(0) == 0, "input or accessor monitor failed in a worker thread");
  for (int t = 0; t < T; ++t) {
    vh::count(vh::fmt("thread_mode:%d", modes[t]));
    for (size_t q = 0; q < seq[t].out.size(); ++q) {
      vh::count("parallel_answers");
      vh::check("parallel-differs", bitsame(seq[t].out[q], par[t].out[q]), vh::fmt("thread %d mode %d round %zu", t, modes[t], q));
    }
  }
  std::string sig = k.name;
  for (int x : modes) sig += static_cast<char>('0' + x);
  vh::nontrivial(vh::fmt("%s|%d|%d|%llx", sig.c_str(), n, m, static_cast<unsigned long long>(jit[0])));
  vh::sample(vh::fmt("%s n=%d m=%d thread modes %s", k.name.c_str(), n, m, sig.c_str()));
}

// one const problem and one const warm start object read by all threads
template<typename Pbm>
static void shared(Rng & r, const char * nm)
{
  auto prm     = rand_params(r);
  prm.max_iter = 300;
  prm.max_time = {};
  prm.verbose  = false;
  Qp p         = gen_wellposed(r, r.ri(1, 6), r.ri(1, 8));
  vh::detail(vh::fmt("%s %s", nm, str(prm).c_str()) + str(p));
  Pbm pbm;
  pbm.q = p.q, pbm.l = p.l, pbm.u = p.u;
  if constexpr (requires { pbm.A.makeCompressed(); }) {
    pbm.P = p.P.sparseView();
    pbm.A = p.A.sparseView();
    if (r.coin(0.3)) pbm.A.uncompress();
  } else {
    pbm.P = p.P;
    pbm.A = p.A;
  }
  const Pbm & cp = pbm;
  const sf::QPSolver<Pbm> proto(cp, prm);
  const auto ref = sf::solve_qp(cp, prm);
  const int T    = r.ri(2, 5);
  std::vector<decltype(sf::solve_qp(cp, prm))> out(static_cast<size_t>(T) * 3);
  std::barrier bar(T);
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      vh::tl_worker = true;
      bar.arrive_and_wait();
      out[static_cast<size_t>(t) * 3]     = sf::solve_qp(cp, prm);
      auto c                             = proto;
      out[static_cast<size_t>(t) * 3 + 1] = c.solve(cp);
      out[static_cast<size_t>(t) * 3 + 2] = sf::solve_qp(cp, prm, ref);
    });
  for (auto & x : th) x.join();
  auto same = [](const auto & a, const auto & b) {
    if (a.code != b.code || a.iter != b.iter) return false;
    for (Eigen::Index i = 0; i < a.primal.size(); ++i)
      if (std::memcmp(&a.primal(i), &b.primal(i), 8) != 0) return false;
    return true;
  };
  for (int t = 0; t < T; ++t) {
    vh::count("parallel_answers", 3);
    const size_t z = static_cast<size_t>(t) * 3;
    vh::check("parallel-differs", same(out[z], ref) && same(out[z + 1], ref), vh::fmt("%s thread %d", nm, t));
    vh::check("parallel-differs", same(out[z + 2], out[2]), vh::fmt("%s warm started thread %d", nm, t));
  }
  vh::nontrivial(vh::fmt("%s|%d|%.12g", nm, T, p.q.sum()));
}

// controllers, filters, transcriptions: q10c.cpp
void q10c_1(Rng & r);
void q10c_2(Rng & r);
void q10c_3(Rng & r);
void q10c_4(Rng & r);
int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("controllers", 24, 20000, 0.3, [](Rng & r, long) { r.coin() ? q10c_1(r) : q10c_2(r); });
  vh::group("filters", 30, 20000, 0.1, [](Rng & r, long) { q10c_4(r); });
  vh::group("transcriptions", 30, 20000, 0.15, [](Rng & r, long) { q10c_3(r); });
  vh::group("solvers", 60, 20000, 0.25, [](Rng & r, long) { one(r); });
  vh::group("shared-problem", 60, 20000, 0.2, [](Rng & r, long i) {
    if (i % 2) shared<sf::QuadraticProgram<-1, -1, double>>(r, "dense");
    else shared<sf::QuadraticProgramSparse<double>>(r, "sparse");
  });
  return vh::finish();
}
