#include "mc.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <numeric>
#include <set>
#include <unordered_set>

namespace mc {
bool thorough = false;
namespace {
struct Cur {
  volatile uint64_t beat;
  volatile uint64_t index;
  char suite[64];
  char desc[3968];
};
Cur* cur = nullptr;
Cur dummy;
uint64_t shard = 0, nshards = 1, deadline = 0, max_fail = 4;
std::string only_suite, outfile, dir = "/tmp";
bool only = false;
uint64_t only_index = 0;
std::string suite_name;
uint64_t idx = 0, next_idx = 0;
unsigned mpi_calls = 0;
bool nontriv = false, stop = false, truncated = false;
uint64_t n_cases = 0, n_nontriv = 0, n_states = 0, n_trans = 0, n_exec = 0;
std::map<std::string, uint64_t> counters, suite_cases;
std::map<std::string, double> suite_time;
struct Fail { std::string suite; uint64_t index; std::string desc, msg; };
std::vector<Fail> fails;
std::vector<Fail> samples;
std::chrono::steady_clock::time_point t0;
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
std::string js(const std::string& s) {
  std::string o = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') o += '\\', o += (char)c;
    else if(c < 32) o += fmt("\\u%04x", c);
    else if(c >= 127) o += '?';
    else o += (char)c;
  }
  return o + "\"";
}
void write_out(bool finished) {
  FILE* f = fopen((outfile + ".tmp").c_str(), "w");
  if(!f) _exit(3);
  fprintf(f, "{\"finished\":%s,\"truncated\":%s,\"cases\":%lu,\"nontrivial\":%lu,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"wall\":%g,\n\"suites\":{",
          finished ? "true" : "false", truncated ? "true" : "false", n_cases, n_nontriv, n_states, n_trans, n_exec, elapsed());
  bool c = false;
  for(auto& [k, v] : suite_cases) fprintf(f, "%s%s:%lu", c ? "," : "", js(k).c_str(), v), c = true;
  fprintf(f, "},\n\"suite_s\":{");
  c = false;
  for(auto& [k, v] : suite_time) fprintf(f, "%s%s:%.2f", c ? "," : "", js(k).c_str(), v), c = true;
  fprintf(f, "},\n\"counters\":{");
  c = false;
  for(auto& [k, v] : counters) fprintf(f, "%s%s:%lu", c ? "," : "", js(k).c_str(), v), c = true;
  auto list = [&](const char* nm, std::vector<Fail>& v) {
    fprintf(f, "],\n\"%s\":[", nm);
    bool c = false;
    for(auto& x : v)
      fprintf(f, "%s\n{\"suite\":%s,\"index\":%lu,\"desc\":%s,\"msg\":%s}", c ? "," : "", js(x.suite).c_str(), x.index, js(x.desc).c_str(), js(x.msg).c_str()), c = true;
  };
  fprintf(f, "},\n\"pad\":[");
  list("samples", samples);
  list("failures", fails);
  fprintf(f, "]}\n");
  fclose(f);
  rename((outfile + ".tmp").c_str(), outfile.c_str());
}
}  // namespace

std::string fmt(const char* f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
void fail(const char* f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  throw Failure(b);
}
void suite(const char* name, const std::function<void()>& body) {
  suite_name = name;
  next_idx = 0;
  if(only && only_suite != name) return;
  if(stop) return;
  if(!only && !only_suite.empty() && only_suite != name) return;
  const double t = elapsed();
  body();
  suite_time[name] += elapsed() - t;
}
bool begin_case() {
  idx = next_idx++;
  if(stop) return false;
  if(only) return idx == only_index;
  return (idx * 2654435761u >> 7) % nshards == shard;
}
void run_case(const std::function<std::string()>& desc, const std::function<void()>& body) {
  if(deadline && (n_cases & 15) == 0 && elapsed() > deadline) {
    stop = truncated = true;
    return;
  }
  cur->index = idx;
  if(cur->suite[0] == 0 || suite_name != cur->suite) strncpy(cur->suite, suite_name.c_str(), 63);
  if(only) {
    strncpy(cur->desc, desc().c_str(), sizeof(cur->desc) - 1);
  }
  cur->beat = cur->beat + 1;
  nontriv = false;
  mpi_calls = 0;
  std::string msg;
  bool bad = false;
  somp::Config oc;
  somp::set(oc);
  try {
    body();
  } catch(const Failure& e) {
    bad = true;
    msg = e.what();
  } catch(const std::exception& e) {
    bad = true;
    msg = std::string("unexpected exception: ") + e.what();
  } catch(...) {
    bad = true;
    msg = "unexpected exception";
  }
  ++n_cases;
  n_nontriv += nontriv;
  auto& sc = suite_cases[suite_name];
  if(sc++ == 0 || (nontriv && sc == 7)) samples.push_back({suite_name, idx, desc(), nontriv ? "nontrivial" : ""});
  if(bad) {
    fails.push_back({suite_name, idx, desc(), msg});
    if(fails.size() >= max_fail) stop = true;
  }
  if(only) stop = true;
}
void nontrivial() { nontriv = true; }
void count(const char* w, uint64_t n) { counters[w] += n; }
void states(uint64_t n) { n_states += n; }
void transitions(uint64_t n) { n_trans += n; }
void executions(uint64_t n) { n_exec += n; }
uint64_t index() { return idx; }
bool replaying() { return only; }
std::string scratch() { return dir; }

void mpi(int n, const std::function<std::function<void(int)>()>& make, const std::function<void(const smpi::Result&)>& after,
         const smpi::Opts& o) {
  smpi::Stats st;
  smpi::Schedule bad;
  // a failed assertion of a rank counts whatever `after` looks at
  std::string raised;
  auto mk = [&]() -> std::function<void(int)> {
    raised.clear();
    auto body = make();
    return [&raised, body](int r) {
      try { body(r); }
      catch(const Failure& f) { if(raised.empty()) raised = f.what(); throw; }
    };
  };
  auto af = [&](const smpi::Result& r) {
    after(r);
    if(!raised.empty()) throw Failure(raised);
  };
  smpi::Opts oo = o;
  if(oo.sub_phase >= 0) oo.sub_phase = (idx + mpi_calls++) % 2;
  std::string e = smpi::explore(n, mk, af, oo, st, &bad);
  counters["mpi_schedules"] += st.schedules;
  counters["mpi_distinct_traces"] += st.distinct_traces;
  n_exec += st.schedules;
  n_trans += st.steps;
  n_states += st.distinct_traces;
  if(!e.empty()) throw Failure(e + " [ranks=" + std::to_string(n) + " " + bad.str() + "]");
}
smpi::Opts full_schedules() { return smpi::Opts{}; }
smpi::Opts few_schedules() {
  smpi::Opts o;
  o.modes = {0, 7};
  o.all_prios = false;
  return o;
}
smpi::Opts deep_schedules(int d, int dm) {
  smpi::Opts o;
  o.deviations = d;
  o.dev_modes = dm;
  return o;
}

void omp_default() {
  somp::Config c;
  c.threads = 1 + idx % 3;
  if(c.threads > 1) {
    for(int i = 0; i < c.threads; ++i) c.order.push_back((idx / 3) % 2 ? c.threads - 1 - i : i);
    uint64_t h = idx * 0x9E3779B97F4A7C15ull;
    for(int i = 0; i < 16; ++i) c.choices.push_back((h >> (3 * i)) & 7);
  }
  somp::set(c);
}
void omp(int n, int dev, const std::function<void()>& once, uint64_t max_runs) {
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::unordered_set<uint64_t> hashes;
  uint64_t runs = 0;
  bool first = true;
  do {
    std::vector<std::pair<std::vector<int>, int>> todo{{{}, 0}};
    while(!todo.empty()) {
      auto [pre, d] = todo.back();
      todo.pop_back();
      if(runs >= max_runs) {
        counters["omp_cap_reached"] += 1;
        break;
      }
      somp::Config c;
      c.threads = n;
      c.order = p;
      c.choices = pre;
      somp::set(c);
      std::string err;
      try {
        once();
      } catch(const std::exception& e) {
        err = e.what();
      }
      auto t = somp::take();
      ++runs;
      ++n_exec;
      n_trans += t.points;
      counters["omp_schedules"] += 1;
      counters["omp_accesses_monitored"] += t.accesses;
      counters["omp_regions"] += t.regions;
      hashes.insert(t.hash);
      if(!t.race.empty()) err = t.race;
      if(!err.empty()) {
        somp::set(somp::Config{});
        throw Failure(err + " [" + c.str() + "]");
      }
      if(first && d < dev)
        for(size_t i = pre.size(); i < t.widths.size(); ++i)
          for(int k = 1; k < t.widths[i]; ++k) {
            std::vector<int> q(t.taken.begin(), t.taken.begin() + i);
            q.push_back(k);
            todo.push_back({q, d + 1});
          }
    }
    first = false;
    if(n > 5) {  // many threads: a few orders only
      if(std::is_sorted(p.begin(), p.end())) std::reverse(p.begin(), p.end());
      else if(p.front() == n - 1 && p.back() == 0) for(int i = 0; i < n; ++i) p[i] = i % 2 ? (n + 1) / 2 + i / 2 : i / 2;  // halves in turn
      else break;
    } else if(!std::next_permutation(p.begin(), p.end())) break;
  } while(true);
  n_states += hashes.size();
  counters["omp_distinct_schedules"] += hashes.size();
  somp::set(somp::Config{});
}
}  // namespace mc

int main(int argc, char** argv) {
  using namespace mc;
  t0 = std::chrono::steady_clock::now();
  std::string curfile;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(++i < argc ? argv[i] : ""); };
    if(a == "--tier") thorough = val() == "thorough";
    else if(a == "--shard") shard = std::stoull(val());
    else if(a == "--nshards") nshards = std::stoull(val());
    else if(a == "--out") outfile = val();
    else if(a == "--cur") curfile = val();
    else if(a == "--dir") dir = val();
    else if(a == "--deadline") deadline = std::stoull(val());
    else if(a == "--maxfail") max_fail = std::stoull(val());
    else if(a == "--suite") only_suite = val();
    else if(a == "--index") only = true, only_index = std::stoull(val());
  }
  cur = &dummy;
  if(!curfile.empty()) {
    int fd = open(curfile.c_str(), O_RDWR | O_CREAT, 0644);
    if(fd < 0 || ftruncate(fd, sizeof(Cur))) return 3;
    cur = (Cur*)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  // the code under test prints; keep that away from the driver
  fflush(stdout);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  close(nul);
  mc_main();
  if(only && n_cases == 0) return 4;
  write_out(true);
  fflush(nullptr);
  _exit(0);
}
