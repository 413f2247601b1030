// In-process MPI: ranks are fibers, one runs at a time; a schedule (priority order, completion modes and
// deviations at choice points) fixes every source of nondeterminism MPI has.
#include "simmpi.hpp"

#include <cxxabi.h>
#include <sys/mman.h>

#include <algorithm>
#include <complex>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <stdexcept>
#include <unordered_set>

#include "mpi.h"

#if defined(__SANITIZE_ADDRESS__)
#define SMPI_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

struct smpi_comm {
  int id = 0;
  bool is_self = false, is_world = false;
  std::vector<int> ranks;
};
struct smpi_comm smpi_world_obj, smpi_self_obj;
struct smpi_type smpi_types_[64];

extern "C" void smpi_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl smpi_switch
.type smpi_switch,@function
smpi_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size smpi_switch,.-smpi_switch
)");

enum CollKind {
  C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL,
  C_SPLIT, C_DUP, C_COMMFREE, C_REDUCE_SCATTER
};
static const char* coll_name(int k) {
  static const char* n[] = {"?",      "Barrier",   "Bcast",        "Reduce",     "Allreduce",   "Scan",      "Exscan",
                            "Gather", "Allgather", "Scatter",      "Alltoall",   "Comm_split",  "Comm_dup",  "Comm_free",
                            "Reduce_scatter"};
  return n[k];
}

struct Part {  // contribution of one rank to a collective
  bool arrived = false;
  std::vector<std::vector<char>> out;  // out[dest], or out[0] for everybody
  std::vector<int64_t> expect;         // bytes expected from each peer; empty: not checked
  int color = 0, key = 0;
};
struct Coll {
  int kind, root, kindtype;
  MPI_Op op;
  std::vector<Part> part;
  int arrived = 0, left = 0;
  std::map<int, smpi_comm*> newcomm;
};

struct smpi_req {
  bool is_send = false, complete = false, sync = false, poisoned = false, null = false;
  int owner = -1, id = 0;
  struct Msg* msg = nullptr;
  void* buf = nullptr;
  size_t cap = 0;
  int src = 0, tag = 0, comm = 0, kind = 0;
  std::vector<char> saved;
  MPI_Status st{};
  std::function<bool()> cready;  // non-blocking collective
  std::function<void()> cfinish;
};
struct Msg {
  int src, dst, tag, comm, csrc, kind;
  const char* ptr;
  size_t bytes;
  std::vector<char> data;
  bool captured = false, matched = false, delivered = false;
  smpi_req *sreq = nullptr, *rreq = nullptr;
  void capture() {
    if(captured) return;
    data.assign(ptr, ptr + bytes);
    captured = true;
  }
};

namespace {
struct TypeInit {
  TypeInit() {
    int sz[32] = {0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 1, 2, 2, 4, 4, 8, 8, 1, 16, 8, 16, 8, 8, 16, 4};
    for(int i = 1; i < 32; ++i) {
      auto& t = smpi_types_[i];
      t.kind = i; t.elsize = sz[i]; t.count = 1; t.bytes = sz[i]; t.committed = 1;
    }
    smpi_world_obj.is_world = true; smpi_world_obj.id = 1;
    smpi_self_obj.is_self = true; smpi_self_obj.id = 2;
  }
} type_init;

// canonical kind for type matching between ranks: byte-like types match anything of that size
int canon(int k) {
  switch(k) {
    case 20: return 7; case 21: return 8; case 22: case 11: return 9; case 23: case 12: return 10;
    case 16: case 2: return 1; case 17: return 3;
    default: return k;
  }
}

struct Fiber {
  void* sp = nullptr;
  char* stack = nullptr;
  void* fake = nullptr;
  bool done = false;
  void* eh_caught = nullptr;
  unsigned eh_uncaught = 0;
  std::function<bool()> blocked;  // empty: runnable
  std::string at;
};
constexpr size_t STACK = 1 << 20;
std::vector<char*> stack_pool;
char* get_stack() {
  if(!stack_pool.empty()) { char* s = stack_pool.back(); stack_pool.pop_back(); return s; }
  char* s = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(s == MAP_FAILED) { perror("mmap"); abort(); }
  mprotect(s, 4096, PROT_NONE);
  return s;
}

struct World {
  int n = 0, cur = -1;
  smpi_comm* team = nullptr;  // communicator of the ranks of the program, if not the world
  int team_rank(int r) const { return team ? n - 1 - r : r; }
  smpi::Schedule sch;
  bool record = false;
  std::vector<Fiber> f;
  Fiber mainf;
  const std::function<void(int)>* body = nullptr;
  smpi::Result res;
  std::list<Msg> msgs;
  std::list<smpi_req> reqs;
  std::vector<std::list<smpi_req*>> posted;  // per dst
  std::map<std::pair<int, uint64_t>, Coll> colls;
  std::map<std::pair<int, int>, uint64_t> cseq;  // (comm, world rank) -> next collective
  std::map<int, std::unique_ptr<smpi_comm>> comms;
  std::set<smpi_type*> user_types;
  std::vector<std::unique_ptr<smpi_type>> dead_types;
  int next_comm = 10, next_req = 1, next_type = 1;
  bool failed = false;
  size_t choice_ix = 0;
};
World* W = nullptr;

#ifdef SMPI_ASAN
const void* main_bottom = nullptr;
size_t main_size = 0;
#endif

[[noreturn]] void fiber_exit();

void fiber_main() {
#ifdef SMPI_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
  const int r = W->cur, tr = W->team_rank(r);
  try {
    (*W->body)(tr);
  } catch(const std::exception& e) {
    W->res.threw[tr] = e.what();
    if(W->res.threw[tr].empty()) W->res.threw[tr] = "exception";
  } catch(...) {
    W->res.threw[tr] = "unknown exception";
  }
  fiber_exit();
}

void to_main(bool dies) {
  Fiber& me = W->f[W->cur];
  auto* eh = (void**)abi::__cxa_get_globals();
  me.eh_caught = eh[0];
  me.eh_uncaught = *(unsigned*)&eh[1];
  eh[0] = W->mainf.eh_caught;
  *(unsigned*)&eh[1] = W->mainf.eh_uncaught;
#ifdef SMPI_ASAN
  __sanitizer_start_switch_fiber(dies ? nullptr : &me.fake, main_bottom, main_size);
#endif
  smpi_switch(&me.sp, W->mainf.sp);
#ifdef SMPI_ASAN
  __sanitizer_finish_switch_fiber(me.fake, nullptr, nullptr);
#endif
}
void fiber_exit() {
  W->f[W->cur].done = true;
  to_main(true);
  abort();
}
void to_fiber(int r) {
  Fiber& t = W->f[r];
  auto* eh = (void**)abi::__cxa_get_globals();
  W->mainf.eh_caught = eh[0];
  W->mainf.eh_uncaught = *(unsigned*)&eh[1];
  eh[0] = t.eh_caught;
  *(unsigned*)&eh[1] = t.eh_uncaught;
  W->cur = r;
#ifdef SMPI_ASAN
  __sanitizer_start_switch_fiber(&W->mainf.fake, t.stack, STACK);
#endif
  smpi_switch(&W->mainf.sp, t.sp);
#ifdef SMPI_ASAN
  __sanitizer_finish_switch_fiber(W->mainf.fake, nullptr, nullptr);
#endif
  W->cur = -1;
}

void make_fiber(Fiber& f) {
  f.stack = get_stack();
  uintptr_t top = (uintptr_t)(f.stack + STACK) & ~(uintptr_t)63;
#ifdef SMPI_ASAN
  ASAN_UNPOISON_MEMORY_REGION(f.stack + 4096, STACK - 4096);
#endif
  void** sp = (void**)top;
  *--sp = nullptr;               // fake return address keeps alignment
  *--sp = (void*)fiber_main;     // ret target
  for(int i = 0; i < 6; ++i) *--sp = nullptr;
  f.sp = sp;
}

// Fatal error of the run (not of one rank): remember and go back for good.
[[noreturn]] void fail_run(const std::string& s) {
  if(W->res.error.empty()) W->res.error = s;
  W->failed = true;
  to_main(false);
  abort();
}
std::string fmt(const char* f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

int choose(int n) {
  if(n <= 1) return 0;
  int c = 0;
  if(W->choice_ix < W->sch.choices.size()) c = W->sch.choices[W->choice_ix];
  ++W->choice_ix;
  if(c >= n) fail_run("INTERNAL: schedule replay diverged");
  if(W->record) { W->res.widths.push_back(n); W->res.taken.push_back(c); }
  return c;
}

bool in_run() { return W && W->cur >= 0; }
int me() { return W ? W->cur : 0; }

void hash_step(uint64_t x) {
  W->res.trace_hash = (W->res.trace_hash ^ (x + 0x9e3779b97f4a7c15ull)) * 0x100000001b3ull;
}

// scheduling point before an MPI call
void point(const char* name) {
  if(!in_run()) return;
  ++W->res.steps;
  if(W->res.steps > 2000000) fail_run("livelock: more than 2000000 MPI calls in one run");
  W->f[W->cur].at = name;
  if(W->record || !W->sch.choices.empty()) {
    int nr = 0;
    for(int i = 0; i < W->n; ++i) {
      auto& f = W->f[i];
      if(!f.done && (!f.blocked || f.blocked())) ++nr;
    }
    int c = choose(nr);
    if(c) {  // preempt: go to the c-th other runnable rank
      int k = 0;
      for(int i = 0; i < W->n; ++i) {
        if(i == W->cur) continue;
        auto& f = W->f[i];
        if(!f.done && (!f.blocked || f.blocked()) && ++k == c) { W->res.error.clear(); W->f[W->cur].blocked = nullptr;
          W->sch.prio.insert(W->sch.prio.begin(), i); break; }
      }
      to_main(false);
    }
  }
  hash_step(W->team_rank(W->cur) * 131 + (uintptr_t)name[4] + 7 * name[5]);
}
void block_until(const std::function<bool()>& p) {
  if(p()) return;
  W->f[W->cur].blocked = p;
  to_main(false);
  W->f[W->cur].blocked = nullptr;
}

struct CommInfo { int size, rank; };
CommInfo cinfo(MPI_Comm c) {
  if(!c) { if(in_run()) fail_run("use of MPI_COMM_NULL"); abort(); }
  if(c->is_self) return {1, 0};
  if(!in_run()) return {1, 0};
  if(c->is_world) return {W->n, W->cur};
  for(size_t i = 0; i < c->ranks.size(); ++i)
    if(c->ranks[i] == W->cur) return {(int)c->ranks.size(), (int)i};
  fail_run("rank not in communicator");
}
int world_of(MPI_Comm c, int r) { return c->is_world ? r : c->is_self ? W->cur : c->ranks[r]; }
int comm_key(MPI_Comm c) { return c->is_self ? -1 - W->cur : c->id; }

void check_type(MPI_Datatype t, const char* what) {
  if(!t) fail_run(std::string("null datatype in ") + what);
  if(t->freed) fail_run(std::string("use of a released datatype in ") + what);
  if(!t->committed) fail_run(std::string("use of an uncommitted datatype in ") + what);
}

template <typename T>
void red(T* a, const T* b, int64_t n, MPI_Op op) {
  switch((uintptr_t)op) {
    case 1: for(int64_t i = 0; i < n; ++i) a[i] = std::max(a[i], b[i]); return;
    case 2: for(int64_t i = 0; i < n; ++i) a[i] = std::min(a[i], b[i]); return;
    case 3: for(int64_t i = 0; i < n; ++i) a[i] = a[i] + b[i]; return;
    case 4: for(int64_t i = 0; i < n; ++i) a[i] = a[i] * b[i]; return;
    case 5: for(int64_t i = 0; i < n; ++i) a[i] = a[i] && b[i]; return;
    case 7: for(int64_t i = 0; i < n; ++i) a[i] = a[i] || b[i]; return;
    case 9: for(int64_t i = 0; i < n; ++i) a[i] = !a[i] != !b[i]; return;
  }
  if constexpr(std::is_integral_v<T>) {
    switch((uintptr_t)op) {
      case 6: for(int64_t i = 0; i < n; ++i) a[i] = a[i] & b[i]; return;
      case 8: for(int64_t i = 0; i < n; ++i) a[i] = a[i] | b[i]; return;
      case 10: for(int64_t i = 0; i < n; ++i) a[i] = a[i] ^ b[i]; return;
    }
  }
  fail_run("reduction operation not defined for this datatype");
}
template <typename T, typename I>
void red_loc(char* a, const char* b, int64_t n, MPI_Op op) {
  struct P { T v; I i; };
  P *x = (P*)a, *y = (P*)b;
  for(int64_t k = 0; k < n; ++k) {
    bool take = (uintptr_t)op == 11 ? (y[k].v < x[k].v || (y[k].v == x[k].v && y[k].i < x[k].i))
                                    : (y[k].v > x[k].v || (y[k].v == x[k].v && y[k].i < x[k].i));
    if(take) x[k] = y[k];
  }
}
void reduce_bytes(char* a, const char* b, size_t bytes, int kind, MPI_Op op, bool user) {
  if(user) fail_run("predefined reduction on a derived datatype");
  int64_t n = smpi_types_[kind].elsize ? bytes / smpi_types_[kind].elsize : 0;
  uintptr_t o = (uintptr_t)op;
  if(o == 11 || o == 12) {
    if(kind == 27) { struct P { double v; int i; }; red_loc<double, int>(a, b, n, op); return; }
    if(kind == 28) { red_loc<int, int>(a, b, n, op); return; }
    if(kind == 29) { red_loc<float, int>(a, b, n, op); return; }
    if(kind == 30) { red_loc<long, int>(a, b, n, op); return; }
    fail_run("MINLOC/MAXLOC on a non-pair datatype");
  }
  switch(kind) {
#define K(k, T) case k: red<T>((T*)a, (const T*)b, n, op); return;
    K(2, int8_t) K(16, int8_t) K(3, uint8_t) K(17, uint8_t) K(5, short) K(18, int16_t) K(6, unsigned short) K(19, uint16_t)
    K(7, int) K(20, int32_t) K(8, unsigned) K(21, uint32_t) K(9, long) K(22, int64_t) K(10, unsigned long) K(23, uint64_t)
    K(11, long long) K(12, unsigned long long) K(13, float) K(14, double) K(15, long double)
    case 24: red<uint8_t>((uint8_t*)a, (const uint8_t*)b, n, op); return;
    case 25: if(o == 3) { for(int64_t i = 0; i < 2 * n; ++i) ((double*)a)[i] += ((double*)b)[i]; return; }
    case 26: if(o == 3 && kind == 26) { for(int64_t i = 0; i < 2 * n; ++i) ((float*)a)[i] += ((float*)b)[i]; return; }
  }
  fail_run("reduction operation not defined for this datatype");
}

Coll& enter(MPI_Comm c, int kind, int root, MPI_Op op, int kindtype, Part p, uint64_t* seq) {
  auto ci = cinfo(c);
  int key = comm_key(c);
  *seq = W->cseq[{key, W->cur}]++;
  auto it = W->colls.find({key, *seq});
  if(it == W->colls.end()) {
    Coll x;
    x.kind = kind; x.root = root; x.op = op; x.kindtype = kindtype;
    x.part.resize(ci.size);
    it = W->colls.emplace(std::make_pair(key, *seq), std::move(x)).first;
  } else {
    Coll& x = it->second;
    if(x.kind != kind)
      fail_run(fmt("collective mismatch: rank %d calls %s where another rank calls %s", W->cur, coll_name(kind), coll_name(x.kind)));
    if(x.root != root) fail_run(fmt("collective mismatch: %s with different roots %d / %d", coll_name(kind), x.root, root));
    if(x.op != op) fail_run(fmt("collective mismatch: %s with different operations", coll_name(kind)));
    if(canon(x.kindtype) != canon(kindtype)) fail_run(fmt("collective mismatch: %s with different datatypes", coll_name(kind)));
  }
  Coll& x = it->second;
  p.arrived = true;
  x.part[ci.rank] = std::move(p);
  ++x.arrived;
  return x;
}
void leave(MPI_Comm c, uint64_t seq) {
  auto it = W->colls.find({comm_key(c), seq});
  if(++it->second.left == (int)it->second.part.size()) W->colls.erase(it);
}

std::vector<char> bytes_of(const void* p, int64_t n) {
  if(n <= 0) return {};
  return std::vector<char>((const char*)p, (const char*)p + n);
}
bool overlap(const void* a, int64_t na, const void* b, int64_t nb) {
  if(na <= 0 || nb <= 0) return false;
  return (const char*)a < (const char*)b + nb && (const char*)b < (const char*)a + na;
}

// ---- point to point
bool match(smpi_req* r, Msg& m) {
  return !m.matched && m.comm == r->comm && (r->src == MPI_ANY_SOURCE || r->src == m.csrc) &&
         (r->tag == MPI_ANY_TAG || r->tag == m.tag);
}
void deliver(smpi_req* r) {  // copy data into the receive buffer
  Msg* m = r->msg;
  if(m->delivered) return;
  m->capture();
  if(m->bytes > r->cap)
    fail_run(fmt("message truncated: rank %d receives %zu bytes from rank %d into %zu", r->owner, m->bytes, m->src, r->cap));
  if(canon(m->kind) != canon(r->kind) && m->kind != 4 && r->kind != 4 && m->bytes)
    fail_run(fmt("datatype mismatch between send by rank %d and receive by rank %d", m->src, r->owner));
  if(m->bytes) memcpy(r->buf, m->data.data(), m->bytes);
  if(r->poisoned && m->bytes < r->saved.size())
    memcpy((char*)r->buf + m->bytes, r->saved.data() + m->bytes, r->saved.size() - m->bytes);
  r->poisoned = false;
  m->delivered = true;
  r->st.MPI_SOURCE = m->csrc;
  r->st.MPI_TAG = m->tag;
  r->st._bytes = m->bytes;
}
void bind(smpi_req* r, Msg& m) {
  m.matched = true;
  m.rreq = r;
  r->msg = &m;
  if(!W->sch.mode.late_recv) deliver(r);
}
smpi_req* new_req(bool send) {
  W->reqs.emplace_back();
  auto* r = &W->reqs.back();
  r->is_send = send;
  r->owner = W->cur;
  r->id = W->next_req++;
  return r;
}
smpi_req* start_send(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm c, bool sync, bool nb) {
  auto ci = cinfo(c);
  check_type(t, "send");
  auto* r = new_req(true);
  if(dest == MPI_PROC_NULL) { r->null = true; return r; }
  if(dest < 0 || dest >= ci.size) fail_run(fmt("send to invalid rank %d", dest));
  if(count < 0) fail_run("send with negative count");
  if(tag < 0) fail_run("send with negative tag");
  W->msgs.emplace_back();
  Msg& m = W->msgs.back();
  m.src = W->cur; m.dst = world_of(c, dest); m.tag = tag; m.comm = comm_key(c); m.csrc = ci.rank;
  m.kind = t->kind; m.ptr = (const char*)buf; m.bytes = (size_t)count * t->bytes; m.sreq = r;
  r->msg = &m;
  r->sync = sync || W->sch.mode.sync;
  if(!(W->sch.mode.late_send && nb)) m.capture();
  for(auto it = W->posted[m.dst].begin(); it != W->posted[m.dst].end(); ++it)
    if(match(*it, m)) {
      auto* rr = *it;
      W->posted[m.dst].erase(it);
      bind(rr, m);
      break;
    }
  return r;
}
smpi_req* start_recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, bool nb) {
  auto ci = cinfo(c);
  check_type(t, "receive");
  auto* r = new_req(false);
  if(src == MPI_PROC_NULL) { r->null = true; return r; }
  if(src != MPI_ANY_SOURCE && (src < 0 || src >= ci.size)) fail_run(fmt("receive from invalid rank %d", src));
  if(count < 0) fail_run("receive with negative count");
  r->buf = buf; r->cap = (size_t)count * t->bytes; r->src = src; r->tag = tag; r->comm = comm_key(c); r->kind = t->kind;
  if(src == MPI_ANY_SOURCE || tag == MPI_ANY_TAG) W->res.wildcard = true;
  if(nb && W->sch.mode.late_recv && r->cap) {
    r->saved.assign((char*)buf, (char*)buf + r->cap);
    memset(buf, 0xA5, r->cap);
    r->poisoned = true;
  }
  // candidates: the first matching message of every source
  std::vector<Msg*> cand;
  std::set<int> srcs;
  for(auto& m : W->msgs)
    if(m.dst == W->cur && match(r, m) && srcs.insert(m.csrc).second) cand.push_back(&m);
  if(!cand.empty()) bind(r, *cand[cand.size() > 1 ? choose(cand.size()) : 0]);
  else W->posted[W->cur].push_back(r);
  return r;
}
bool ready(smpi_req* r) {
  if(r->null || r->complete) return true;
  if(r->cready) return r->cready();
  if(r->is_send) return !r->sync || r->msg->matched;
  return r->msg != nullptr;
}
void finish(smpi_req* r, MPI_Status* st) {
  if(r->cready) { if(!r->complete) r->cfinish(); r->complete = true; if(st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->_bytes = 0; } return; }
  if(r->null) { if(st) { st->MPI_SOURCE = MPI_PROC_NULL; st->MPI_TAG = MPI_ANY_TAG; st->_bytes = 0; } r->complete = true; return; }
  if(r->is_send) r->msg->capture();
  else deliver(r);
  r->complete = true;
  if(st) *st = r->st;
}
void gc_req(smpi_req* r) {
  for(auto it = W->reqs.begin(); it != W->reqs.end(); ++it)
    if(&*it == r) {
      Msg* m = r->msg;
      if(m) {
        if(m->sreq == r) m->sreq = nullptr;
        if(m->rreq == r) m->rreq = nullptr;
        if(m->delivered && !m->sreq && !m->rreq)
          for(auto jt = W->msgs.begin(); jt != W->msgs.end(); ++jt)
            if(&*jt == m) { W->msgs.erase(jt); break; }
      }
      W->reqs.erase(it);
      return;
    }
}
void check_req(smpi_req* r) {
  for(auto& x : W->reqs) if(&x == r) { if(x.owner != W->cur) fail_run("request of another rank"); return; }
  fail_run("wait on an invalid request");
}
#define NOT_IN_RUN(x) if(!in_run()) { fprintf(stderr, "simmpi: %s outside a run\n", x); abort(); }
}  // namespace

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) { if(p) *p = r; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Abort(MPI_Comm, int c) { if(in_run()) fail_run(fmt("MPI_Abort(%d) by rank %d", c, W->cur)); abort(); }
double MPI_Wtime(void) { return 0.0; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "sim"); *n = 3; return 0; }
int MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = cinfo(c).rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = cinfo(c).size; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = a == b ? 0 : 3; return 0; }

int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* out) {
  if(in_run()) { if(!t || t->freed) fail_run("Type_contiguous of an invalid datatype"); if(n < 0) fail_run("Type_contiguous: negative count"); }
  auto* x = new smpi_type();
  *x = *t;
  x->count = t->count * n; x->bytes = t->bytes * n; x->user = 1; x->committed = 0; x->freed = 0;
  if(W) { W->user_types.insert(x); }
  *out = x;
  return 0;
}
int MPI_Type_commit(MPI_Datatype* t) { (*t)->committed = 1; return 0; }
int MPI_Type_free(MPI_Datatype* t) {
  auto* x = *t;
  if(!x || !x->user || x->freed) { if(in_run()) fail_run(x && x->freed ? "datatype released twice" : "release of a predefined datatype"); abort(); }
  if(in_run()) {
    if(!W->user_types.erase(x)) fail_run("release of an unknown datatype");
    x->freed = 1;
    W->dead_types.emplace_back(x);
  } else delete x;
  *t = MPI_DATATYPE_NULL;
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = t->bytes; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { *lb = 0; *e = t->bytes; return 0; }

int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  NOT_IN_RUN("MPI_Send"); point("MPI_Send");
  auto* r = start_send(b, n, t, d, tag, c, false, false);
  block_until([r] { return ready(r); });
  finish(r, nullptr); gc_req(r);
  return 0;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  NOT_IN_RUN("MPI_Ssend"); point("MPI_Ssend");
  auto* r = start_send(b, n, t, d, tag, c, true, false);
  block_until([r] { return ready(r); });
  finish(r, nullptr); gc_req(r);
  return 0;
}
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  NOT_IN_RUN("MPI_Bsend"); point("MPI_Bsend");
  auto* r = start_send(b, n, t, d, tag, c, false, false);
  finish(r, nullptr); gc_req(r);
  return 0;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  NOT_IN_RUN("MPI_Recv"); point("MPI_Recv");
  auto* r = start_recv(b, n, t, s, tag, c, false);
  block_until([r] { return ready(r); });
  finish(r, st); gc_req(r);
  return 0;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int d, int stag, void* rb, int rn, MPI_Datatype rtp, int s,
                 int rtag, MPI_Comm c, MPI_Status* st) {
  NOT_IN_RUN("MPI_Sendrecv"); point("MPI_Sendrecv");
  if(overlap(sb, sn * stp->bytes, rb, rn * rtp->bytes)) fail_run("Sendrecv buffers overlap");
  auto* x = start_send(sb, sn, stp, d, stag, c, false, true);
  auto* r = start_recv(rb, rn, rtp, s, rtag, c, true);
  block_until([=] { return ready(x) && ready(r); });
  finish(x, nullptr); finish(r, st); gc_req(x); gc_req(r);
  return 0;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status* st) {
  NOT_IN_RUN("MPI_Sendrecv_replace");
  auto copy = bytes_of(b, (int64_t)n * t->bytes);
  copy.resize(copy.size() + 1);
  return MPI_Sendrecv(copy.data(), n, t, d, stag, b, n, t, s, rtag, c, st);
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  NOT_IN_RUN("MPI_Isend"); point("MPI_Isend");
  *q = start_send(b, n, t, d, tag, c, false, true);
  return 0;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  NOT_IN_RUN("MPI_Issend"); point("MPI_Issend");
  *q = start_send(b, n, t, d, tag, c, true, true);
  return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) {
  NOT_IN_RUN("MPI_Irecv"); point("MPI_Irecv");
  *q = start_recv(b, n, t, s, tag, c, true);
  return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
  NOT_IN_RUN("MPI_Waitall"); point("MPI_Waitall");
  for(int i = 0; i < n; ++i) if(q[i]) check_req(q[i]);
  block_until([=] { for(int i = 0; i < n; ++i) if(q[i] && !ready(q[i])) return false; return true; });
  for(int i = 0; i < n; ++i) if(q[i]) { finish(q[i], st ? st + i : nullptr); gc_req(q[i]); q[i] = MPI_REQUEST_NULL; }
  return 0;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st) { return MPI_Waitall(1, q, st); }
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st) {
  NOT_IN_RUN("MPI_Waitany"); point("MPI_Waitany");
  bool any = false;
  for(int i = 0; i < n; ++i) if(q[i]) { check_req(q[i]); any = true; }
  if(!any) { *idx = MPI_UNDEFINED; return 0; }
  W->res.wildcard = true;
  block_until([=] { for(int i = 0; i < n; ++i) if(q[i] && ready(q[i])) return true; return false; });
  std::vector<int> c;
  for(int i = 0; i < n; ++i) if(q[i] && ready(q[i])) c.push_back(i);
  int i = c[choose(c.size())];
  finish(q[i], st); gc_req(q[i]); q[i] = MPI_REQUEST_NULL; *idx = i;
  return 0;
}
int MPI_Waitsome(int n, MPI_Request* q, int* nout, int* idx, MPI_Status* st) {
  int i; int rc = MPI_Waitany(n, q, &i, st);
  if(i == MPI_UNDEFINED) *nout = MPI_UNDEFINED; else { *nout = 1; idx[0] = i; }
  return rc;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* st) {
  NOT_IN_RUN("MPI_Testall"); point("MPI_Testall");
  W->res.wildcard = true;
  bool all = true;
  for(int i = 0; i < n; ++i) if(q[i]) { check_req(q[i]); all = all && ready(q[i]); }
  *flag = all;
  if(all) for(int i = 0; i < n; ++i) if(q[i]) { finish(q[i], st ? st + i : nullptr); gc_req(q[i]); q[i] = MPI_REQUEST_NULL; }
  if(!all) {  // polling: let somebody else go on
    bool other = false;
    for(int i = 0; i < W->n; ++i) if(i != W->cur && !W->f[i].done && (!W->f[i].blocked || W->f[i].blocked())) other = true;
    if(!other && W->res.steps > 100000) fail_run("livelock: only a polling rank is runnable");
    if(other) { int k = 0; W->f[W->cur].blocked = [k]() mutable { return k++ > 0; }; to_main(false); W->f[W->cur].blocked = nullptr; }
  }
  return 0;
}
static void poll_others() {  // polling: let somebody else go on
  bool other = false;
  for(int i = 0; i < W->n; ++i) if(i != W->cur && !W->f[i].done && (!W->f[i].blocked || W->f[i].blocked())) other = true;
  if(!other && W->res.steps > 100000) fail_run("livelock: only a polling rank is runnable");
  if(other) { int k = 0; W->f[W->cur].blocked = [k]() mutable { return k++ > 0; }; to_main(false); W->f[W->cur].blocked = nullptr; }
}
int MPI_Testany(int n, MPI_Request* q, int* idx, int* flag, MPI_Status* st) {
  NOT_IN_RUN("MPI_Testany"); point("MPI_Testany");
  W->res.wildcard = true;
  bool any = false;
  std::vector<int> c;
  for(int i = 0; i < n; ++i) if(q[i]) { check_req(q[i]); any = true; if(ready(q[i])) c.push_back(i); }
  *idx = MPI_UNDEFINED;
  *flag = !any || !c.empty();
  if(!c.empty()) {
    int i = c[choose(c.size())];
    finish(q[i], st); gc_req(q[i]); q[i] = MPI_REQUEST_NULL; *idx = i;
  } else if(any) poll_others();
  return 0;
}
int MPI_Testsome(int n, MPI_Request* q, int* nout, int* idx, MPI_Status* st) {
  int i, flag; int rc = MPI_Testany(n, q, &i, &flag, st);
  if(i != MPI_UNDEFINED) { *nout = 1; idx[0] = i; } else *nout = flag ? MPI_UNDEFINED : 0;
  return rc;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st) { return MPI_Testall(1, q, flag, st); }
int MPI_Request_free(MPI_Request* q) { finish(*q, nullptr); gc_req(*q); *q = MPI_REQUEST_NULL; return 0; }
static Msg* find_msg(int s, int tag, MPI_Comm c) {
  smpi_req r; r.comm = comm_key(c); r.src = s; r.tag = tag;
  for(auto& m : W->msgs) if(m.dst == W->cur && match(&r, m)) return &m;
  return nullptr;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) {
  NOT_IN_RUN("MPI_Probe"); point("MPI_Probe");
  block_until([=] { return find_msg(s, tag, c) != nullptr; });
  Msg* m = find_msg(s, tag, c);
  if(st) { st->MPI_SOURCE = m->csrc; st->MPI_TAG = m->tag; st->_bytes = m->bytes; }
  return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  NOT_IN_RUN("MPI_Iprobe"); point("MPI_Iprobe");
  W->res.wildcard = true;
  Msg* m = find_msg(s, tag, c);
  *flag = m != nullptr;
  if(m && st) { st->MPI_SOURCE = m->csrc; st->MPI_TAG = m->tag; st->_bytes = m->bytes; }
  return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = t->bytes ? (st->_bytes % t->bytes ? MPI_UNDEFINED : (int)(st->_bytes / t->bytes)) : 0; return 0; }

// ---- collectives
// a non-blocking form leaves the request to fill in here; the collective takes it when it starts
static std::map<int, MPI_Request*> nb_request;
static int run_coll(MPI_Request* q, std::function<bool()> rd, std::function<void()> fin) {
  if(!q) {
    block_until(std::move(rd));
    fin();
    return 0;
  }
  auto* r = new_req(true);
  r->cready = std::move(rd);
  r->cfinish = std::move(fin);
  *q = r;
  return 0;
}
static MPI_Request* take_nb() {
  auto it = nb_request.find(W->cur);
  if(it == nb_request.end()) return nullptr;
  auto* q = it->second;
  nb_request.erase(it);
  return q;
}
static MPI_Request* coll_prep(const char* name, int count, MPI_Datatype t) {
  NOT_IN_RUN(name);
  auto* q = take_nb();
  point(name);
  if(t) check_type(t, name);
  if(count < 0) fail_run(std::string(name) + " with negative count");
  return q;
}
int MPI_Barrier(MPI_Comm c) {
  auto* q = coll_prep("MPI_Barrier", 0, nullptr);
  uint64_t s; Coll& x = enter(c, C_BARRIER, -1, nullptr, 0, {}, &s);
  int n = x.part.size();
  return run_coll(q, [&x, n] { return x.arrived == n; }, [=] { leave(c, s); });
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  auto* rq = coll_prep("MPI_Bcast", n, t);
  auto ci = cinfo(c);
  if(root < 0 || root >= ci.size) fail_run(fmt("Bcast with invalid root %d of %d", root, ci.size));
  int64_t nb = n * t->bytes;
  Part p;
  if(ci.rank == root) p.out = {bytes_of(b, nb)};
  p.expect = {nb};
  uint64_t s; Coll& x = enter(c, C_BCAST, root, nullptr, t->kind, std::move(p), &s);
  bool sync = W->sch.mode.sync;
  int sz = ci.size;
  return run_coll(rq, [&x, sync, root, sz] { return sync ? x.arrived == sz : x.part[root].arrived; }, [=, &x] {
    for(auto& q : x.part) if(q.arrived && q.expect[0] != nb) fail_run(fmt("Bcast with different sizes (%ld / %ld bytes)", (long)q.expect[0], (long)nb));
    if(ci.rank != root && nb) memcpy(b, x.part[root].out[0].data(), nb);
    leave(c, s);
  });
}
static int reduce_impl(const char* name, int kind, const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  auto* rq = coll_prep(name, n, t);
  auto ci = cinfo(c);
  if(kind == C_REDUCE && (root < 0 || root >= ci.size)) fail_run("Reduce with invalid root");
  int64_t nb = n * t->bytes;
  bool recv = kind != C_REDUCE || ci.rank == root;
  const void* src = sb;
  if(sb == MPI_IN_PLACE) { if(!recv) fail_run("MPI_IN_PLACE on a non-root rank"); src = rb; }
  else if(recv && overlap(sb, nb, rb, nb)) fail_run(std::string(name) + ": send and receive buffers are aliased");
  Part p;
  p.out = {bytes_of(src, nb)};
  p.expect = {nb};
  uint64_t s; Coll& x = enter(c, kind, root, op, t->kind, std::move(p), &s);
  bool sync = W->sch.mode.sync;
  int sz = ci.size, me_ = ci.rank;
  std::function<bool()> rd = [&x, sz] { return x.arrived == sz; };
  if(kind == C_REDUCE && !recv && !sync) rd = [] { return true; };
  else if((kind == C_SCAN || kind == C_EXSCAN) && !sync)
    rd = [&x, me_] { for(int i = 0; i <= me_; ++i) if(!x.part[i].arrived) return false; return true; };
  const int tkind = t->kind; const bool derived = t->user && t->count != 1;
  return run_coll(rq, std::move(rd), [=, &x] {
  for(auto& q : x.part) if(q.arrived && q.expect[0] != nb) fail_run(fmt("%s with different counts (%ld / %ld bytes)", name, (long)q.expect[0], (long)nb));
  if(recv && nb) {
    int hi = kind == C_SCAN ? me_ + 1 : kind == C_EXSCAN ? me_ : sz;
    if(hi > 0) {
      std::vector<char> acc = x.part[0].out[0];
      for(int i = 1; i < hi; ++i) reduce_bytes(acc.data(), x.part[i].out[0].data(), nb, tkind, op, derived);
      memcpy(rb, acc.data(), nb);
    }
  }
  leave(c, s);
  });
}
int MPI_Reduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c) { return reduce_impl("MPI_Reduce", C_REDUCE, a, b, n, t, o, r, c); }
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_impl("MPI_Allreduce", C_ALLREDUCE, a, b, n, t, o, -1, c); }
int MPI_Scan(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_impl("MPI_Scan", C_SCAN, a, b, n, t, o, -1, c); }
int MPI_Exscan(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_impl("MPI_Exscan", C_EXSCAN, a, b, n, t, o, -1, c); }

// generic gather: everybody's block goes to root (or all)
static int gather_impl(const char* name, bool all, const void* sb, int sn, MPI_Datatype st, void* rb, const int* cnt, const int* dsp, int rn,
                       MPI_Datatype rt, int root, MPI_Comm c) {
  bool inplace = sb == MPI_IN_PLACE;
  auto* rq = coll_prep(name, inplace ? 0 : sn, inplace ? nullptr : st);
  auto ci = cinfo(c);
  bool recv = all || ci.rank == root;
  if(!all && (root < 0 || root >= ci.size)) fail_run("Gather with invalid root");
  Part p;
  std::vector<int64_t> off(ci.size), len(ci.size);
  if(recv) {
    check_type(rt, name);
    int64_t end = 0;
    for(int i = 0; i < ci.size; ++i) {
      len[i] = (cnt ? cnt[i] : rn) * rt->bytes;
      off[i] = (cnt ? (int64_t)dsp[i] : (int64_t)i * rn) * rt->bytes;
      if(len[i] < 0) fail_run(std::string(name) + " with negative receive count");
      end = std::max(end, off[i] + len[i]);
    }
    p.expect = len;
    if(!inplace) for(int i = 0; i < ci.size; ++i) if(overlap(sb, sn * st->bytes, (char*)rb + off[i], len[i])) fail_run(std::string(name) + ": send and receive buffers are aliased");
  }
  if(inplace) p.out = {bytes_of((char*)rb + off[ci.rank], len[ci.rank])};
  else p.out = {bytes_of(sb, sn * st->bytes)};
  int kt = inplace ? rt->kind : st->kind;
  uint64_t s; Coll& x = enter(c, all ? C_ALLGATHER : C_GATHER, all ? -1 : root, nullptr, kt, std::move(p), &s);
  int sz = ci.size;
  const bool early = !recv && !W->sch.mode.sync;
  return run_coll(rq, [&x, sz, early] { return early || x.arrived == sz; }, [=, &x] {
  if(recv) for(int i = 0; i < sz; ++i) {
    auto& d = x.part[i].out[0];
    if((int64_t)d.size() != len[i]) fail_run(fmt("%s: rank %d sends %zu bytes, rank %d expects %ld", name, i, d.size(), ci.rank, (long)len[i]));
    if(d.size()) memcpy((char*)rb + off[i], d.data(), d.size());
  }
  leave(c, s);
  });
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gather_impl("MPI_Gather", false, sb, sn, st, rb, nullptr, nullptr, rn, rt, root, c); }
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* cn, const int* ds, MPI_Datatype rt, int root, MPI_Comm c) { return gather_impl("MPI_Gatherv", false, sb, sn, st, rb, cn, ds, 0, rt, root, c); }
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { return gather_impl("MPI_Allgather", true, sb, sn, st, rb, nullptr, nullptr, rn, rt, -1, c); }
int MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* cn, const int* ds, MPI_Datatype rt, MPI_Comm c) { return gather_impl("MPI_Allgatherv", true, sb, sn, st, rb, cn, ds, 0, rt, -1, c); }

static int scatter_impl(const char* name, const void* sb, const int* cnt, const int* dsp, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  bool inplace = rb == MPI_IN_PLACE;
  auto* rq = coll_prep(name, inplace ? 0 : rn, inplace ? nullptr : rt);
  auto ci = cinfo(c);
  if(root < 0 || root >= ci.size) fail_run("Scatter with invalid root");
  Part p;
  if(ci.rank == root) for(int i = 0; i < ci.size; ++i)
    p.out.push_back(bytes_of((const char*)sb + (cnt ? (int64_t)dsp[i] : (int64_t)i * sn) * st->bytes, (cnt ? cnt[i] : sn) * st->bytes));
  uint64_t s; Coll& x = enter(c, C_SCATTER, root, nullptr, ci.rank == root ? st->kind : rt->kind, std::move(p), &s);
  bool sync = W->sch.mode.sync; int sz = ci.size;
  const int64_t want = inplace ? 0 : rn * rt->bytes;
  return run_coll(rq, [&x, sync, root, sz] { return sync ? x.arrived == sz : x.part[root].arrived; }, [=, &x] {
    auto& d = x.part[root].out[ci.rank];
    if(!inplace) {
      if((int64_t)d.size() != want) fail_run(std::string(name) + ": count mismatch");
      if(d.size()) memcpy(rb, d.data(), d.size());
    }
    leave(c, s);
  });
}
int MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatter_impl("MPI_Scatter", sb, nullptr, nullptr, sn, st, rb, rn, rt, root, c); }
int MPI_Scatterv(const void* sb, const int* cn, const int* ds, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatter_impl("MPI_Scatterv", sb, cn, ds, 0, st, rb, rn, rt, root, c); }

static int alltoall_impl(const char* name, const void* sb, const int* sc, const int* sd, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rd, int rn, MPI_Datatype rt, MPI_Comm c) {
  bool inplace = sb == MPI_IN_PLACE;
  auto* rq = coll_prep(name, 0, rt);
  auto ci = cinfo(c);
  Part p;
  for(int i = 0; i < ci.size; ++i) {
    int64_t rl = (rc ? rc[i] : rn) * rt->bytes, ro = (rc ? (int64_t)rd[i] : (int64_t)i * rn) * rt->bytes;
    if(inplace) p.out.push_back(bytes_of((char*)rb + ro, rl));
    else {
      int64_t sl = (sc ? sc[i] : sn) * st->bytes, so = (sc ? (int64_t)sd[i] : (int64_t)i * sn) * st->bytes;
      if(sl < 0) fail_run(std::string(name) + " with negative count");
      p.out.push_back(bytes_of((const char*)sb + so, sl));
    }
    p.expect.push_back(rl);
  }
  uint64_t s; Coll& x = enter(c, C_ALLTOALL, -1, nullptr, rt->kind, std::move(p), &s);
  int sz = ci.size;
  std::vector<int64_t> vl(sz), vo(sz);
  for(int i = 0; i < sz; ++i) vl[i] = (rc ? rc[i] : rn) * rt->bytes, vo[i] = (rc ? (int64_t)rd[i] : (int64_t)i * rn) * rt->bytes;
  return run_coll(rq, [&x, sz] { return x.arrived == sz; }, [=, &x] {
  for(int i = 0; i < sz; ++i) {
    int64_t rl = vl[i], ro = vo[i];
    auto& d = x.part[i].out[ci.rank];
    if((int64_t)d.size() != rl) fail_run(fmt("%s: rank %d sends %zu bytes to rank %d which expects %ld", name, i, d.size(), ci.rank, (long)rl));
    if(rl) memcpy((char*)rb + ro, d.data(), rl);
  }
  leave(c, s);
  });
}
int MPI_Alltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { return alltoall_impl("MPI_Alltoall", sb, nullptr, nullptr, sn, st, rb, nullptr, nullptr, rn, rt, c); }
int MPI_Alltoallv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) { return alltoall_impl("MPI_Alltoallv", sb, sc, sd, 0, st, rb, rc, rd, 0, rt, c); }

// reduce-scatter: every rank keeps its piece of the sum
static int reduce_scatter_impl(const char* name, const void* sb, void* rb, const int* cnt, int cn, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  auto* rq = coll_prep(name, 0, t);
  auto ci = cinfo(c);
  int64_t tot = 0, off = 0;
  for(int i = 0; i < ci.size; ++i) { if(i == ci.rank) off = tot; tot += cnt ? cnt[i] : cn; }
  const int64_t es = t->bytes, mine = (cnt ? cnt[ci.rank] : cn) * es, nb = tot * es;
  const void* src = sb == MPI_IN_PLACE ? rb : sb;
  if(sb != MPI_IN_PLACE && overlap(sb, nb, rb, mine)) fail_run(std::string(name) + ": send and receive buffers are aliased");
  Part p;
  p.out = {bytes_of(src, nb)};
  p.expect = {nb};
  uint64_t s; Coll& x = enter(c, C_REDUCE_SCATTER, -1, op, t->kind, std::move(p), &s);
  const int sz = ci.size, tkind = t->kind; const bool derived = t->user && t->count != 1;
  return run_coll(rq, [&x, sz] { return x.arrived == sz; }, [=, &x] {
    for(auto& q : x.part) if(q.expect[0] != nb) fail_run(std::string(name) + " with different counts");
    if(nb) {
      std::vector<char> acc = x.part[0].out[0];
      for(int i = 1; i < sz; ++i) reduce_bytes(acc.data(), x.part[i].out[0].data(), nb, tkind, op, derived);
      if(mine) memcpy(rb, acc.data() + off * es, mine);
    }
    leave(c, s);
  });
}
int MPI_Reduce_scatter_block(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_scatter_impl("MPI_Reduce_scatter_block", a, b, nullptr, n, t, o, c); }
int MPI_Reduce_scatter(const void* a, void* b, const int* n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return reduce_scatter_impl("MPI_Reduce_scatter", a, b, n, 0, t, o, c); }

#define NONBLOCKING(call) NOT_IN_RUN("non-blocking collective"); nb_request[W->cur] = q; return call
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Barrier(c)); }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int r, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Bcast(b, n, t, r, c)); }
int MPI_Ireduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, int r, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Reduce(a, b, n, t, o, r, c)); }
int MPI_Iallreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Allreduce(a, b, n, t, o, c)); }
int MPI_Iscan(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Scan(a, b, n, t, o, c)); }
int MPI_Iexscan(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Exscan(a, b, n, t, o, c)); }
int MPI_Igather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Gather(sb, sn, st, rb, rn, rt, root, c)); }
int MPI_Igatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* cn, const int* ds, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Gatherv(sb, sn, st, rb, cn, ds, rt, root, c)); }
int MPI_Iallgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Allgather(sb, sn, st, rb, rn, rt, c)); }
int MPI_Iallgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* cn, const int* ds, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Allgatherv(sb, sn, st, rb, cn, ds, rt, c)); }
int MPI_Iscatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Scatter(sb, sn, st, rb, rn, rt, root, c)); }
int MPI_Iscatterv(const void* sb, const int* cn, const int* ds, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Scatterv(sb, cn, ds, st, rb, rn, rt, root, c)); }
int MPI_Ialltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Alltoall(sb, sn, st, rb, rn, rt, c)); }
int MPI_Ialltoallv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c, MPI_Request* q) { NONBLOCKING(MPI_Alltoallv(sb, sc, sd, st, rb, rc, rd, rt, c)); }

int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  coll_prep("MPI_Comm_split", 0, nullptr);
  auto ci = cinfo(c);
  Part p; p.color = color; p.key = key;
  uint64_t s; Coll& x = enter(c, C_SPLIT, -1, nullptr, 0, std::move(p), &s);
  int sz = ci.size;
  block_until([&x, sz] { return x.arrived == sz; });
  if(color == MPI_UNDEFINED) *out = MPI_COMM_NULL;
  else {
    if(!x.newcomm.count(color)) {
      auto nc = std::make_unique<smpi_comm>();
      nc->id = W->next_comm++;
      std::vector<std::pair<int, int>> v;
      for(int i = 0; i < sz; ++i) if(x.part[i].color == color) v.push_back({x.part[i].key, i});
      std::stable_sort(v.begin(), v.end());
      for(auto& q : v) nc->ranks.push_back(world_of(c, q.second));
      x.newcomm[color] = nc.get();
      W->comms[nc->id] = std::move(nc);
    }
    *out = x.newcomm[color];
  }
  leave(c, s);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { return MPI_Comm_split(c, 0, cinfo(c).rank, out); }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
}

namespace smpi {
int current_rank() { return W && W->cur >= 0 ? W->team_rank(W->cur) : -1; }
smpi_comm* team() { return W && W->team ? W->team : &smpi_world_obj; }

std::string Schedule::str() const {
  std::string s = "mode=" + std::to_string(mode.index()) + (sub ? " subcommunicator" : "") + " prio=";
  for(int p : prio) s += std::to_string(p) + ",";
  s += " choices=";
  for(int c : choices) s += std::to_string(c) + ",";
  return s;
}

Result run(int n, const std::function<void(int)>& body, const Schedule& s, bool record) {
  World w;
  W = &w;
  nb_request.clear();
  w.sch = s; w.record = record;
  w.body = &body;
  w.res.threw.resize(n);
  if(w.sch.prio.empty()) { w.sch.prio.resize(n); std::iota(w.sch.prio.begin(), w.sch.prio.end(), 0); }
  // In a subcommunicator: one more process in the world, which takes no part, and the others in reverse order.
  w.n = n + s.sub;
  w.f.resize(w.n);
  w.posted.resize(w.n);
  if(s.sub) {
    auto c = std::make_unique<smpi_comm>();
    c->id = w.next_comm++;
    for(int i = 0; i < n; ++i) c->ranks.push_back(n - i);
    w.team = c.get();
    w.comms[c->id] = std::move(c);
    for(int& p : w.sch.prio) p = n - p;
    w.f[0].done = true;
  }
  for(auto& f : w.f) if(!f.done) make_fiber(f);
  while(!w.failed) {
    int next = -1;
    for(int r : w.sch.prio) {
      auto& f = w.f[r];
      if(!f.done && (!f.blocked || f.blocked())) { next = r; break; }
    }
    if((int)w.sch.prio.size() > n) {  // one-shot preemption target, then back to the base order
      w.sch.prio.erase(w.sch.prio.begin(), w.sch.prio.end() - n);
    }
    if(next < 0) {
      bool all = true;
      std::string d;
      for(int i = 0; i < n; ++i) {
        auto& f = w.f[s.sub ? n - i : i];
        all = all && f.done;
        d += fmt(" rank %d:", i) + (f.done ? (w.res.threw[i].empty() ? "finished" : "raised '" + w.res.threw[i] + "'") : "waiting in " + f.at);
      }
      if(!all) w.res.error = "deadlock:" + d;
      break;
    }
    to_fiber(next);
  }
  if(!w.failed && w.res.error.empty()) {
    bool any_threw = false;
    for(auto& t : w.res.threw) any_threw = any_threw || !t.empty();
    if(!any_threw) {
      for(auto& m : w.msgs)
        if(!m.delivered) { w.res.error = fmt("message from rank %d to rank %d never received", m.src, m.dst); break; }
      if(w.res.error.empty()) for(auto& r : w.reqs) if(!r.complete) { w.res.error = fmt("rank %d left a request incomplete", r.owner); break; }
      if(w.res.error.empty() && !w.colls.empty()) w.res.error = "a collective call was not made by every rank";
    }
  }
  w.res.live_user_types = w.user_types.size();
  for(auto& f : w.f) if(f.stack) stack_pool.push_back(f.stack);
  for(auto* t : w.user_types) delete t;
  Result r = std::move(w.res);
  W = nullptr;
  return r;
}

std::string explore(int n, const std::function<std::function<void(int)>()>& make,
                    const std::function<void(const Result&)>& after, const Opts& o, Stats& st, Schedule* bad) {
  std::unordered_set<uint64_t> traces;
  std::string err;
  auto one = [&](const Schedule& s, bool rec, Result* out) {
    auto body = make();
    Result r = run(n, body, s, rec);
    ++st.schedules;
    st.steps += r.steps;
    traces.insert(r.trace_hash);
    try {
      if(!r.error.empty()) throw std::runtime_error(r.error);
      after(r);
    } catch(const std::exception& e) {
      err = e.what();
      if(bad) *bad = s;
      if(bad && rec) bad->choices = r.taken;
      return false;
    }
    if(out) *out = std::move(r);
    return true;
  };
  std::vector<int> modes = o.modes;
  if(modes.empty()) for(int i = 0; i < o.nmodes; ++i) modes.push_back(i);
  std::vector<std::vector<int>> prios;
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  if(o.all_prios) { do prios.push_back(p); while(std::next_permutation(p.begin(), p.end())); }
  else { prios.push_back(p); if(n > 1) { std::reverse(p.begin(), p.end()); prios.push_back(p); } }
  uint64_t runs0 = st.schedules;
  bool ok = true;
  for(size_t m = 0; m < modes.size() && ok; ++m)
    for(auto& pr : prios) {
      Schedule s; s.mode = Mode::of(modes[m]); s.prio = pr;
      s.sub = o.sub_phase >= 0 && (m + (&pr - prios.data()) + o.sub_phase) % 2;
      if(!one(s, false, nullptr)) { ok = false; break; }
    }
  if(ok && o.deviations > 0) {
    for(int m = 0; m < std::min<int>(o.dev_modes, modes.size()) && ok; ++m) {
      // depth-first over choice prefixes, at most o.deviations non-zero choices
      std::vector<std::pair<std::vector<int>, int>> todo{{{}, 0}};
      while(!todo.empty() && ok) {
        auto [pre, dev] = todo.back();
        todo.pop_back();
        if(st.schedules - runs0 > o.max_runs) break;
        Schedule s; s.mode = Mode::of(modes[m]); s.choices = pre; s.sub = o.sub_phase >= 0 && (m + o.sub_phase) % 2;
        Result r;
        if(!one(s, true, &r)) { ok = false; break; }
        if(dev < o.deviations)
          for(size_t i = pre.size(); i < r.widths.size(); ++i)
            for(int c = 1; c < r.widths[i]; ++c) {
              std::vector<int> q(r.taken.begin(), r.taken.begin() + i);
              q.push_back(c);
              todo.push_back({q, dev + 1});
            }
      }
    }
  }
  st.distinct_traces += traces.size();
  return err;
}
}  // namespace smpi
