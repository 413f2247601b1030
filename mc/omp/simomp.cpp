#include "simomp.hpp"

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <numeric>
#include <unordered_map>

namespace {
constexpr int MAXT = 16;
struct Loop {
  bool init = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool ull_up = true;
  int kind = 0;  // 0 dynamic, 1 guided, 2 static
  int passed = 0;
  std::vector<long> static_pos;
};
struct Team {
  int n = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  int state[MAXT];  // 0 ready, 1 at barrier, 2 wants lock, 3 done
  void* want[MAXT];
  int singles[MAXT] = {}, loops[MAXT] = {}, sects[MAXT] = {};
  std::vector<Loop> loop;
  std::vector<int> single_owner;
  std::vector<void*> copypriv;
  std::map<void*, int> held;
  Loop* cur_loop[MAXT] = {};
  long section_next = 0;
};
somp::Config cfg;
somp::Trace tr;
size_t choice_ix = 0;
Team* T = nullptr;
int cur = 0;  // running team thread
sem_t go[MAXT], sched_sem;
thread_local int my_tid = 0;
thread_local bool in_team = false;
int nthreads_var = 0;  // omp_set_num_threads

void die(const char* m) {
  fprintf(stderr, "simomp: %s\n", m);
  abort();
}
uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29); }

// ---- race detection ----------------------------------------------------------------------------
struct Acc { uint8_t tid, write, atomic; uint64_t locks; void* pc; };
std::unordered_map<uintptr_t, std::vector<Acc>>* shadow = nullptr;
uint64_t lockmask[MAXT];
std::map<void*, int>* lock_ids = nullptr;
std::vector<void*>* quarantine = nullptr;
bool monitoring = false, in_hook = false;
int lock_id(void* l) {
  if(!lock_ids) lock_ids = new std::map<void*, int>;
  auto it = lock_ids->find(l);
  if(it != lock_ids->end()) return it->second;
  int id = std::min<int>(lock_ids->size(), 63);
  (*lock_ids)[l] = id;
  return id;
}
void drain() {
  if(!quarantine) return;
  auto q = std::move(*quarantine);
  quarantine->clear();
  for(void* p : q) free(p);
}
[[maybe_unused]] void access(void* p, size_t n, bool wr, bool at, void* pc) {
  if(!monitoring || !in_team || in_hook || !tr.race.empty()) return;
  in_hook = true;
  ++tr.accesses;
  for(size_t i = 0; i < n; ++i) {
    auto& v = (*shadow)[(uintptr_t)p + i];
    bool have = false;
    for(auto& a : v) {
      if(a.tid == my_tid) {
        if(a.write == wr && a.atomic == at && a.locks == lockmask[my_tid]) have = true;
        continue;
      }
      if((a.write || wr) && !(a.atomic && at) && !(a.locks & lockmask[my_tid])) {
        char b[256];
        Dl_info d1{}, d2{};
        dladdr(pc, &d1);
        dladdr(a.pc, &d2);
        snprintf(b, sizeof b, "data race: thread %d %s and thread %d %s the same memory without ordering", a.tid,
                 a.write ? "writes" : "reads", my_tid, wr ? "writes" : "reads");
        tr.race = b;
        in_hook = false;
        return;
      }
    }
    if(!have) v.push_back({(uint8_t)my_tid, (uint8_t)wr, (uint8_t)at, lockmask[my_tid], pc});
  }
  in_hook = false;
}

// ---- scheduling --------------------------------------------------------------------------------
void yield_to_sched() {
  sem_post(&sched_sem);
  sem_wait(&go[my_tid]);
}
bool runnable(int t) {
  if(T->state[t] == 0) return true;
  if(T->state[t] == 2) return !T->held.count(T->want[t]);
  return false;
}
void schedule() {
  for(;;) {
    std::vector<int> r;
    for(int t : cfg.order)
      if(t < T->n && runnable(t)) r.push_back(t);
    for(int t = 0; t < T->n; ++t)
      if(runnable(t) && std::find(r.begin(), r.end(), t) == r.end()) r.push_back(t);
    if(r.empty()) {
      int done = 0, bar = 0;
      for(int t = 0; t < T->n; ++t) done += T->state[t] == 3, bar += T->state[t] == 1;
      if(done == T->n) return;
      if(bar == T->n) {
        if(shadow) shadow->clear();
        for(int t = 0; t < T->n; ++t) T->state[t] = 0;
        continue;
      }
      die("threads of a parallel region wait for each other forever");
    }
    int c = 0;
    if(r.size() > 1) {
      c = choice_ix < cfg.choices.size() ? cfg.choices[choice_ix] % (int)r.size() : 0;
      ++choice_ix;
      tr.widths.push_back(r.size());
      tr.taken.push_back(c);
    }
    int t = r[c];
    tr.hash = mix(tr.hash, t + 1);
    ++tr.points;
    T->state[t] = 0;
    cur = t;
    sem_post(&go[t]);
    sem_wait(&sched_sem);
  }
}
void* worker(void* a) {
  my_tid = (int)(intptr_t)a;
  for(;;) {
    sem_wait(&go[my_tid]);
    in_team = true;
    T->fn(T->data);
    in_team = false;
    T->state[my_tid] = 3;
    sem_post(&sched_sem);
  }
}
int started = 0;
void start_threads(int n) {
  if(!started) sem_init(&sched_sem, 0, 0);
  for(; started < n; ++started) {
    sem_init(&go[started], 0, 0);
    pthread_t th;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4 << 20);
    if(pthread_create(&th, &at, worker, (void*)(intptr_t)started)) die("pthread_create");
    pthread_detach(th);
  }
}
void lock(void* l) {
  if(!T || !in_team) return;
  if(T->n > 1) {
    T->want[my_tid] = l;
    T->state[my_tid] = 2;
    yield_to_sched();
    T->held[l] = my_tid;
    lockmask[my_tid] |= 1ull << lock_id(l);
  }
}
void unlock(void* l) {
  if(!T || !in_team) return;
  if(T->n > 1) {
    T->held.erase(l);
    lockmask[my_tid] &= ~(1ull << lock_id(l));
  }
}
Loop serial_loop;
Loop& loop_for(bool fresh) {
  if(!T || !in_team) {
    if(fresh) serial_loop = Loop{};
    return serial_loop;
  }
  if(fresh) {
    size_t k = T->loops[my_tid]++;
    if(T->loop.capacity() < 4096) T->loop.reserve(4096);
    if(T->loop.size() <= k) T->loop.resize(k + 1);
    T->cur_loop[my_tid] = &T->loop[k];
  }
  return *T->cur_loop[my_tid];
}
bool loop_next(long* s, long* e) {
  if(T && in_team && T->n > 1) yield_to_sched();
  Loop& l = loop_for(false);
  long left = l.incr > 0 ? l.end - l.next : l.next - l.end;
  if(left <= 0) return false;
  long step = std::abs(l.incr);
  long iters = (left + step - 1) / step;
  long c = l.chunk;
  int n = T && in_team ? T->n : 1;
  if(l.kind == 1) c = std::max<long>(l.chunk, (iters + n - 1) / n);
  c = std::min(std::max<long>(c, 1), iters);
  *s = l.next;
  l.next += c * l.incr;
  *e = l.next;
  if(l.incr > 0 ? *e > l.end : *e < l.end) *e = l.end;
  tr.hash = mix(tr.hash, *s);
  return true;
}
bool loop_start(long st, long en, long inc, long chunk, int kind, long* s, long* e) {
  Loop& l = loop_for(true);
  if(!l.init) l.init = true, l.next = st, l.end = en, l.incr = inc, l.chunk = chunk, l.kind = kind;
  return loop_next(s, e);
}
int want_threads(unsigned req) {
  if(in_team) return 1;
  int n = req ? (int)req : nthreads_var ? nthreads_var : cfg.threads;
  return std::min(n, MAXT);
}
struct Outer { int tid; };
}  // namespace

namespace somp {
std::string Config::str() const {
  std::string s = "threads=" + std::to_string(threads) + " order=";
  for(int o : order) s += std::to_string(o) + ",";
  s += " choices=";
  for(int o : choices) s += std::to_string(o) + ",";
  return s;
}
void set(const Config& c) {
  cfg = c;
  choice_ix = 0;
  tr = Trace{};
  nthreads_var = 0;
}
Trace take() {
  Trace t = std::move(tr);
  tr = Trace{};
  choice_ix = 0;
  return t;
}
}  // namespace somp

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
  int n = want_threads(num);
  if(n <= 1 || in_team) {
    bool save = in_team;
    Team* st = T;
    if(!in_team) {  // a team of one
      Team one;
      one.n = 1;
      T = &one;
      int sv = my_tid;
      my_tid = 0;
      in_team = true;
      fn(data);
      in_team = save;
      my_tid = sv;
      T = st;
    } else {
      // nested region: executed by its encountering thread alone
      fn(data);
    }
    return;
  }
  ++tr.regions;
  start_threads(n);
  Team t;
  t.n = n;
  t.fn = fn;
  t.data = data;
  for(int i = 0; i < n; ++i) t.state[i] = 0, lockmask[i] = 0;
  if(!shadow) shadow = new std::unordered_map<uintptr_t, std::vector<Acc>>;
  shadow->clear();
  T = &t;
#ifdef SOMP_MONITOR
  monitoring = true;
#endif
  schedule();
  monitoring = false;
  T = nullptr;
  drain();
}
void GOMP_parallel_start(void (*)(void*), void*, unsigned) { die("GOMP_parallel_start not supported"); }
void GOMP_parallel_end() {}
void GOMP_barrier() {
  if(!T || !in_team || T->n == 1) return;
  T->state[my_tid] = 1;
  yield_to_sched();
}
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
static int crit_key, atomic_key;
void GOMP_critical_start() { lock(&crit_key); }
void GOMP_critical_end() { unlock(&crit_key); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_key); }
void GOMP_atomic_end() { unlock(&atomic_key); }
bool GOMP_single_start() {
  if(!T || !in_team || T->n == 1) return true;
  size_t k = T->singles[my_tid]++;
  if(T->single_owner.size() <= k) { T->single_owner.push_back(my_tid); return true; }
  return false;
}
void* GOMP_single_copy_start() {
  if(!T || !in_team || T->n == 1) return nullptr;
  size_t k = T->singles[my_tid]++;
  if(T->single_owner.size() <= k) { T->single_owner.push_back(my_tid); T->copypriv.resize(k + 1); return nullptr; }
  GOMP_barrier();
  return T->copypriv[k];
}
void GOMP_single_copy_end(void* d) {
  if(!T || !in_team || T->n == 1) return;
  T->copypriv[T->singles[my_tid] - 1] = d;
  GOMP_barrier();
}
#define LOOPS(name, kind)                                                                             \
  bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, kind, s, e); } \
  bool GOMP_loop_##name##_next(long* s, long* e) { return loop_next(s, e); }                          \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long* s, unsigned long long* e) { (void)up; return loop_start((long)a, (long)b, (long)i, (long)c, kind, (long*)s, (long*)e); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return loop_next((long*)s, (long*)e); }
LOOPS(dynamic, 0)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_guided, 1)
LOOPS(static, 0)
#define LOOPS_RT(name)                                                                                \
  bool GOMP_loop_##name##_start(long a, long b, long i, long* s, long* e) { return loop_start(a, b, i, 1, 0, s, e); } \
  bool GOMP_loop_##name##_next(long* s, long* e) { return loop_next(s, e); }                          \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long* s, unsigned long long* e) { return loop_start((long)a, (long)b, (long)i, 1, 0, (long*)s, (long*)e); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return loop_next((long*)s, (long*)e); }
LOOPS_RT(runtime)
LOOPS_RT(nonmonotonic_runtime)
LOOPS_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
void GOMP_loop_end_nowait() {}
struct PL { void (*fn)(void*); void* data; long a, b, i, c; int kind; };
static void pl_tramp(void* v) {
  PL* p = (PL*)v;
  Loop& l = loop_for(true);
  if(!l.init) l.init = true, l.next = p->a, l.end = p->b, l.incr = p->i, l.chunk = p->c, l.kind = p->kind;
  p->fn(p->data);
}
#define PLOOPS(name, kind) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned f) { PL p{fn, d, a, b, i, c, kind}; GOMP_parallel(pl_tramp, &p, n, f); }
PLOOPS(dynamic, 0)
PLOOPS(nonmonotonic_dynamic, 0)
PLOOPS(guided, 1)
PLOOPS(nonmonotonic_guided, 1)
PLOOPS(static, 0)
#define PLOOPS_RT(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned f) { PL p{fn, d, a, b, i, 1, 0}; GOMP_parallel(pl_tramp, &p, n, f); }
PLOOPS_RT(runtime)
PLOOPS_RT(nonmonotonic_runtime)
PLOOPS_RT(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned count) {
  long s, e;
  return loop_start(1, (long)count + 1, 1, 1, 0, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next() {
  long s, e;
  return loop_next(&s, &e) ? (unsigned)s : 0;
}
void GOMP_sections_end() { GOMP_barrier(); }
bool GOMP_sections_end_cancel() { GOMP_barrier(); return false; }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned f) {
  PL p{fn, d, 1, (long)count + 1, 1, 1, 0};
  GOMP_parallel(pl_tramp, &p, n, f);
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool, unsigned, void**, int, void*) {
  if(cpyfn) {
    std::vector<char> buf(arg_size + arg_align);
    char* a = (char*)(((uintptr_t)buf.data() + arg_align - 1) & ~(uintptr_t)(arg_align - 1));
    cpyfn(a, data);
    fn(a);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_ordered_start() { die("ordered regions are not supported"); }
void GOMP_ordered_end() {}

int omp_get_num_threads() { return T && in_team ? T->n : 1; }
int omp_get_thread_num() { return T && in_team ? my_tid : 0; }
int omp_get_max_threads() { return nthreads_var ? nthreads_var : cfg.threads; }
void omp_set_num_threads(int n) { nthreads_var = n; }
int omp_get_num_procs() { return cfg.threads; }
int omp_in_parallel() { return T && in_team && T->n > 1; }
int omp_get_level() { return T && in_team ? 1 : 0; }
int omp_get_thread_limit() { return MAXT; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { static double t = 0; return t += 1e-6; }
double omp_get_wtick() { return 1e-6; }
void omp_init_lock(void** l) { *l = nullptr; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock(l); }
void omp_unset_lock(void** l) { unlock(l); }
int omp_test_lock(void** l) { if(T && T->held.count(l)) return 0; lock(l); return 1; }
}

#ifdef SOMP_MONITOR
// ---- what -fsanitize=thread instrumentation calls ------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                             \
  void __tsan_read##n(void* p) { access(p, n, false, false, PC); }                        \
  void __tsan_write##n(void* p) { access(p, n, true, false, PC); }                        \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); }               \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); }               \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); }              \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); }              \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, false, PC); }     \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }
#define AT(n, ty)                                                                                         \
  ty __tsan_atomic##n##_load(const volatile ty* p, int) { access((void*)p, sizeof(ty), false, true, PC); return *p; } \
  void __tsan_atomic##n##_store(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); *p = v; } \
  ty __tsan_atomic##n##_exchange(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##n##_fetch_add(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; *p = o + v; return o; } \
  ty __tsan_atomic##n##_fetch_sub(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##n##_fetch_and(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; *p = o & v; return o; } \
  ty __tsan_atomic##n##_fetch_or(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty* p, ty v, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty* p, ty* c, ty v, int, int) { access((void*)p, sizeof(ty), true, true, PC); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty* p, ty* c, ty v, int, int) { access((void*)p, sizeof(ty), true, true, PC); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty* p, ty c, ty v, int, int) { access((void*)p, sizeof(ty), true, true, PC); ty o = *p; if(o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block copies are library calls the instrumentation does not see (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  access((void*)s, n, false, false, PC);
  access(d, n, true, false, PC);
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  access((void*)s, n, false, false, PC);
  access(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  access(d, n, true, false, PC);
  return __real_memset(d, c, n);
}
}
// memory freed inside a region is not handed out again before the region ends, so that two threads
// using one block one after the other are not mistaken for sharing it
static void* do_new(size_t n) {
  void* p = malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  return p;
}
static void do_delete(void* p) {
  if(!p) return;
  if(monitoring && !in_hook) {
    in_hook = true;
    if(!quarantine) quarantine = new std::vector<void*>;
    quarantine->push_back(p);
    in_hook = false;
    return;
  }
  free(p);
}
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
#endif
