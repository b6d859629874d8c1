// Shared helpers for harnesses.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <system_error>
#include <thread>
#include <utility>
#include <vector>

#include "sim.h"

namespace hx {
using sim::Fault;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum Out { OK = 0, NOMEM = 1, NOTHREAD = 2, THROWN = 3, OTHER = 4 };

struct Quiet { bool was; Quiet() : was(sim::faults_enabled()) { sim::enable_faults(false); } ~Quiet() { sim::enable_faults(was); } };
// Runs code under test with fault windows open; classifies how it ended.
template <class F>
Out sut(F f, std::string* what = nullptr) {
  sim::SutScope s;
  try {
    f();
    return OK;
  } catch (const std::bad_alloc&) {
    return NOMEM;
  } catch (const std::system_error& e) {
    Quiet q; if (what) *what = e.what();
    return NOTHREAD;
  } catch (const std::exception& e) {
    Quiet q; if (what) *what = e.what();
    return OTHER;
  }
}

inline int64_t log_uniform(Rng& g, int64_t lo, int64_t hi) {
  double l = std::log(double(lo)), h = std::log(double(hi));
  return int64_t(std::exp(l + (h - l) * g.unit()));
}
// Scheduling knobs (swarm style: every run draws its own mix).
inline void gen_sched(Rng& g, Plan& p, int64_t len) {
  int m = int(g.below(10));
  if (m < 1) { p.mode = 0; }
  else if (m < 7) { p.mode = 1; static const int ps[] = {3, 10, 30, 80, 200, 500}; p.p1000 = ps[g.below(6)]; }
  else { p.mode = 2; p.pct_k = int(g.range(1, 6)); p.pct_len = log_uniform(g, 30, len); }
  if (g.chance(1, 4)) { static const int pm[] = {3, 10, 40, 200}; p.plain_mean = pm[g.below(4)]; }
}
inline void gen_alloc_faults(Rng& g, Plan& p, int64_t hi, int maxn = 3) {
  int n = int(g.range(1, maxn));
  for (int i = 0; i < n; ++i) p.faults.push_back(Fault{sim::F_ALLOC, log_uniform(g, 1, hi), g.chance(1, 6) ? g.range(2, 4) : 1, 0});
}
inline void gen_stalls(Rng& g, Plan& p, int64_t hi, int threads) {
  int n = int(g.range(1, 3));
  for (int i = 0; i < n; ++i) p.faults.push_back(Fault{sim::F_STALL, log_uniform(g, 5, hi), g.range(0, threads), log_uniform(g, 20, 3000)});
}
inline void gen_spurious(Rng& g, Plan& p, int64_t hi) {
  int n = int(g.range(1, 4));
  for (int i = 0; i < n; ++i) p.faults.push_back(Fault{sim::F_SPURIOUS, g.range(1, hi), 0, 0});
}
template <class T>
std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }

}  // namespace hx
