// Own OpenMP runtime: team threads are real threads of which exactly one runs at a time, under a
// controlled schedule; with -fsanitize=thread instrumentation every access of a region is monitored.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace somp {
struct Config {
  int threads = 1;
  std::vector<int> order;    // priority of the threads (empty: 0,1,2,...)
  std::vector<int> choices;  // alternative at each scheduling point (chunk request, lock), then 0
  std::string str() const;
};
void set(const Config&);
struct Trace {
  std::vector<int> widths, taken;  // choice points met since set()
  uint64_t regions = 0, accesses = 0, points = 0, hash = 0;
  std::string race;   // first race found, "" = none
  std::string error;  // e.g. deadlock
};
Trace take();  // and reset
}  // namespace somp
