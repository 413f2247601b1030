// Case framework of the checks: a harness enumerates cases in a fixed order; the driver (check.py)
// splits them over processes by index, and replays one by suite and index.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

#include "omp/simomp.hpp"
#include "simmpi/simmpi.hpp"

namespace mc {
extern bool thorough;
struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));

// All cases of a suite are enumerated by body, which calls test() once per case, in the same order
// every time.
void suite(const char* name, const std::function<void()>& body);
bool begin_case();  // is this case for this process?
void run_case(const std::function<std::string()>& desc, const std::function<void()>& body);
template <class D, class B>
void test(const D& desc, const B& body) {
  if(!begin_case()) return;
  run_case(desc, body);
}
// the current case exercises the property (called at most once counts)
void nontrivial();
void count(const char* what, uint64_t n = 1);
void states(uint64_t n);       // states visited
void transitions(uint64_t n);  // steps taken
void executions(uint64_t n);   // executions of the real code
uint64_t index();              // index of the current case in its suite
bool replaying();
std::string scratch();  // private directory of this process, "/..."

inline bool near(double a, double b, double tol = 1e-9) {
  double d = a - b;
  if(d < 0) d = -d;
  double s = a < 0 ? -a : a, t = b < 0 ? -b : b;
  if(t > s) s = t;
  return d <= tol * (1 + s);  // false for NaN
}
template <class V>
std::string str(const V& v) {
  std::string s = "[";
  bool first = true;
  for(auto& x : v) {
    if(!first) s += ",";
    first = false;
    if constexpr(std::is_floating_point_v<std::decay_t<decltype(x)>>)
      s += fmt("%g", (double)x);
    else
      s += std::to_string((long long)x);
  }
  return s + "]";
}

// Explore all schedules of an MPI program (see smpi::explore); failure text carries the schedule.
// make() returns the body of the ranks; after() judges the finished run.
void mpi(int nranks, const std::function<std::function<void(int)>()>& make,
         const std::function<void(const smpi::Result&)>& after, const smpi::Opts& o);
// the communicator of the ranks: the world in one schedule, part of a larger world in the next
inline ::smpi_comm* comm() { return smpi::team(); }
smpi::Opts full_schedules();   // 8 modes x all priorities
smpi::Opts few_schedules();    // 2 modes x (identity, reversed)
smpi::Opts deep_schedules(int deviations, int dev_modes = 1);

// Explore thread schedules: for n threads, all orders, all choice sequences with at most `dev`
// deviations; make() runs the code once and judges the result.
void omp(int nthreads, int dev, const std::function<void()>& once, uint64_t max_runs = 20000);
// one arbitrary but fixed multi-thread configuration derived from the case index
void omp_default();
}  // namespace mc

void mc_main();  // the harness
