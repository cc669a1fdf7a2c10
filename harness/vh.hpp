// Common runtime for the monitoring harnesses: seeded case generation, event/coverage counters,
// violation recording, crash/hang attribution.  One harness binary serves one property.
#pragma once

#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vh {

// ---------------------------------------------------------------- random numbers
struct Rng
{
  uint64_t s[2];
  static uint64_t mix(uint64_t & x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed)
  {
    s[0] = mix(seed);
    s[1] = mix(seed);
  }
  uint64_t next()
  {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  double u01() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int ri(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }  // inclusive
  bool coin(double p = 0.5) { return u01() < p; }
  double nrm()
  {
    double u = u01(), v = u01();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
  }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  template<typename T>
  T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + ri(0, static_cast<int>(l.size()) - 1));
  }
};

// ---------------------------------------------------------------- run state
inline uint64_t g_seed = 1;
inline bool g_thorough = false;
inline double g_budget = 40;  // soft wall budget for all groups together
inline std::string g_only_group;
inline long g_only_case = -1;
inline FILE * g_out     = nullptr;
inline char * g_cur     = nullptr;  // mmaped "current case" text, read by the driver after a crash
inline constexpr size_t CUR = 4096;
inline std::chrono::steady_clock::time_point g_t0;

inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

inline std::string jesc(const std::string & s)
{
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o;
}

inline std::string fmt(const char * f, ...)
{
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  std::vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::map<std::string, long> g_cnt;     // monitored event counts
inline std::map<std::string, double> g_max;   // worst observed ratios
inline std::set<uint64_t> g_sig;              // signatures of distinct non-trivial cases
inline std::vector<std::string> g_samples;
inline long g_viol = 0, g_cases = 0;
inline std::string g_case_group, g_case_detail;
inline long g_case_idx = 0;
inline bool g_case_failed = false;

// In worker threads the monitors must neither race nor synchronise (a lock would hide races of the code
// under test), so they only raise a relaxed flag there.
inline thread_local bool tl_worker = false;
inline std::atomic<long> g_worker_failures{0};

inline void count(const std::string & k, long n = 1)
{
  if (!tl_worker) g_cnt[k] += n;
}
inline void worst(const std::string & k, double v)
{
  if (tl_worker) return;
  auto [it, ins] = g_max.try_emplace(k, v);
  if (!ins && (v > it->second || std::isnan(v))) it->second = v;
}
inline uint64_t hash(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
/// Register the current case as distinct and non-trivial under a signature
inline void nontrivial(const std::string & sig) { g_sig.insert(hash(sig)); }
inline void sample(const std::string & s)
{
  if (g_samples.size() < 12) g_samples.push_back(s);
}
inline void detail(const std::string & s)
{
  if (tl_worker) return;
  g_case_detail = s;
  if (g_cur) std::snprintf(g_cur, CUR, "%s/%ld %s", g_case_group.c_str(), g_case_idx, s.c_str());
}
/// Record a violation of the monitored property. `key` names the kind of failure (used by the
/// known-findings file), `what` the particulars.
inline void violation(const std::string & key, const std::string & what)
{
  if (tl_worker) {
    g_worker_failures.fetch_add(1, std::memory_order_relaxed);
    return;
  }
  ++g_viol;
  g_case_failed = true;
  if (g_viol <= 200 && g_out) {
    std::fprintf(
      g_out,
      "{\"ev\":\"viol\",\"key\":\"%s\",\"group\":\"%s\",\"case\":%ld,\"what\":\"%s\",\"detail\":\"%s\"}\n",
      jesc(key).c_str(),
      jesc(g_case_group).c_str(),
      g_case_idx,
      jesc(what).c_str(),
      jesc(g_case_detail).c_str());
    std::fflush(g_out);
  }
}
/// Monitor primitive: observed <= allowed, NaN never accepted
inline bool check_le(const std::string & key, double observed, double allowed, const std::string & what = "")
{
  count("checks");
  if (allowed > 0) worst(key, observed / allowed);
  if (!(observed <= allowed)) {
    violation(key, fmt("observed %.9g > allowed %.9g ", observed, allowed) + what);
    return false;
  }
  return true;
}
inline bool check(const std::string & key, bool ok, const std::string & what = "")
{
  count("checks");
  if (!ok) violation(key, what);
  return ok;
}

// ---------------------------------------------------------------- hang detection (CPU time per case)
inline std::atomic<double> g_case_cpu0{0};
inline std::atomic<double> g_case_cpu_limit{20};
inline double cpu()
{
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
inline void on_tick(int)
{
  if (cpu() - g_case_cpu0.load() > g_case_cpu_limit.load()) {
    static const char m[] = "VH-HANG\n";
    [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
    _exit(77);
  }
}

/// Case signature to repeat a case: seed, group, index
inline Rng case_rng(const std::string & group, long idx)
{
  return Rng(g_seed * 0x9e3779b97f4a7c15ull ^ hash(group) ^ (static_cast<uint64_t>(idx) * 0xd1342543de82ef95ull));
}

inline double g_share = 1;  // fraction of budget used so far by groups
inline long g_shard = 0, g_shards = 1;  // this process takes the cases with index % g_shards == g_shard

/**
 * Run a group of cases: at least `min_cases`, at most `max_cases`, stop early (after min_cases) when
 * this group's share of the time budget is used up.
 */
inline void group(
  const std::string & name, long min_cases, long max_cases, double share, const std::function<void(Rng &, long)> & f)
{
  if (!g_only_group.empty() && g_only_group != name) return;
  const double t_start = elapsed(), t_lim = share * g_budget;
  max_cases *= g_thorough ? 240 : 4;
  // the quick tier stays within the cases that were examined in advance (caps.json), however fast the machine
  static const std::string caps = std::getenv("VH_CAPS") ? std::getenv("VH_CAPS") : "";
  if (const auto at = caps.find(";" + name + "="); at != std::string::npos)
    max_cases = std::max(min_cases, std::min(max_cases, atol(caps.c_str() + at + name.size() + 2)));
  long i = 0, done = 0;
  static const long skip = std::getenv("VH_FROM_CASE") ? atol(std::getenv("VH_FROM_CASE")) : 0;
  static const std::string skip_group = std::getenv("VH_FROM_GROUP") ? std::getenv("VH_FROM_GROUP") : "";
  static bool skipping                = !skip_group.empty();
  if (skipping) {
    if (skip_group != name) return;
    skipping = false;
    i        = skip;
  }
  for (; i < max_cases; ++i) {
    if (g_only_case >= 0) i = g_only_case;
    else if (i % g_shards != g_shard) continue;
    if (i >= min_cases && elapsed() - t_start > t_lim && g_only_case < 0) break;
    g_case_group  = name;
    g_case_idx    = i;
    g_case_failed = false;
    detail("");
    Rng rng = case_rng(name, i);
    g_case_cpu0.store(cpu());
    f(rng, i);
    ++g_cases;
    ++done;
    if (g_only_case >= 0) break;
  }
  count("cases:" + name, done);
  if (auto * r = std::getenv("VH_REACH"))
    if (FILE * o = std::fopen(r, "a")) std::fprintf(o, "%s %ld %ld\n", name.c_str(), g_shard, i), std::fclose(o);
}

inline void set_case_cpu_limit(double s) { g_case_cpu_limit.store(s); }

inline void init(int argc, char ** argv)
{
  g_t0 = std::chrono::steady_clock::now();
  if (auto * s = std::getenv("VERIF_SEED")) g_seed = std::strtoull(s, nullptr, 10);
  if (auto * s = std::getenv("VERIF_TIER")) g_thorough = std::string(s) == "thorough";
  if (g_thorough) g_budget = 400;
  if (auto * s = std::getenv("VH_BUDGET")) g_budget = atof(s);
  if (auto * s = std::getenv("VH_SHARD")) std::sscanf(s, "%ld/%ld", &g_shard, &g_shards);
  const char * out = std::getenv("VH_OUT");
  g_out            = out ? std::fopen(out, "a") : stdout;
  if (auto * s = std::getenv("VH_CUR")) {
    int fd = open(s, O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, CUR) == 0) {
      void * p = mmap(nullptr, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) g_cur = static_cast<char *>(p);
      close(fd);
    }
  }
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--group") g_only_group = argv[i + 1];
    if (a == "--case") g_only_case = atol(argv[i + 1]);
  }
  struct sigaction sa
  {};
  sa.sa_handler = on_tick;
  sa.sa_flags   = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  itimerval it{{1, 0}, {1, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
}

inline int finish()
{
  std::ostringstream o;
  o << "{\"ev\":\"done\",\"cases\":" << g_cases << ",\"violations\":" << g_viol << ",\"distinct\":" << g_sig.size()
    << ",\"counters\":{";
  bool c = false;
  for (auto & [k, v] : g_cnt) {
    o << (c ? "," : "") << "\"" << jesc(k) << "\":" << v;
    c = true;
  }
  o << "},\"worst\":{";
  c = false;
  for (auto & [k, v] : g_max) {
    char b[40];
    if (std::isfinite(v))
      std::snprintf(b, sizeof b, "%.6g", v);
    else
      std::snprintf(b, sizeof b, "\"%f\"", v);
    o << (c ? "," : "") << "\"" << jesc(k) << "\":" << b;
    c = true;
  }
  o << "},\"samples\":[";
  c = false;
  for (auto & s : g_samples) {
    o << (c ? "," : "") << "\"" << jesc(s) << "\"";
    c = true;
  }
  o << "]}\n";
  std::fputs(o.str().c_str(), g_out);
  std::fflush(g_out);
  if (auto * s = std::getenv("VH_SIG")) {
    if (FILE * f = std::fopen(s, "ab")) {
      for (auto h : g_sig) std::fwrite(&h, sizeof h, 1, f);
      std::fclose(f);
    }
  }
  return g_viol ? 1 : 0;
}

}  // namespace vh
