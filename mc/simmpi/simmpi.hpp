// Explorer interface of the in-process MPI. See simmpi.cpp.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

struct smpi_comm;
namespace smpi {

// How transfers complete. All combinations are behaviours the MPI standard allows.
struct Mode {
  bool sync = false;       // sends (and rooted collectives) complete only when matched (no buffering)
  bool late_send = false;  // contents of a non-blocking send are taken as late as allowed
  bool late_recv = false;  // contents of a non-blocking receive appear as late as allowed (buffer poisoned before)
  static Mode of(int i) { return Mode{(i & 1) != 0, (i & 2) != 0, (i & 4) != 0}; }
  int index() const { return sync + 2 * late_send + 4 * late_recv; }
};

struct Schedule {
  Mode mode;
  bool sub = false;          // the ranks form a subcommunicator of a world with one more process, in reverse order
  std::vector<int> prio;     // which runnable rank goes on when the running one blocks
  std::vector<int> choices;  // deviations: alternative taken at each choice point (prefix, then 0)
  std::string str() const;
};

struct Result {
  std::string error;                 // empty: every rank finished, nothing lost
  std::vector<std::string> threw;    // per rank: what() of an escaped exception ("" = none)
  uint64_t steps = 0;                // MPI calls executed
  std::vector<int> widths;           // alternatives at each choice point
  std::vector<int> taken;
  uint64_t trace_hash = 0;           // hash of (rank, call) sequence
  int live_user_types = 0;           // user datatypes created in the run and not freed
  bool wildcard = false;
};

// Run body(rank) on n ranks under one schedule.
Result run(int n, const std::function<void(int)>& body, const Schedule& s, bool record_points = false);

struct Stats {
  uint64_t schedules = 0, steps = 0, distinct_traces = 0;
};

struct Opts {
  int nmodes = 8;              // use modes listed below
  std::vector<int> modes;      // empty: 0..7
  bool all_prios = true;       // all permutations of rank priority (else identity and reversed)
  int deviations = 0;          // explore up to this many deviations from each base schedule
  int dev_modes = 1;           // deviations only under the first dev_modes modes / identity priority
  int sub_phase = 0;           // every other schedule runs in a subcommunicator, starting with the first if odd (-1: none does)
  uint64_t max_runs = 200000;  // hard cap, reported
};

// Explore: for each schedule make() builds the rank body, after() judges the finished run (throw to fail).
// Returns "" or the text of the first failure; *bad is the failing schedule.
std::string explore(int n, const std::function<std::function<void(int)>()>& make,
                    const std::function<void(const Result&)>& after, const Opts& o, Stats& st,
                    Schedule* bad = nullptr);

int current_rank();  // in the communicator of the program; -1 outside a run
::smpi_comm* team();   // the communicator of the program's ranks
}  // namespace smpi
