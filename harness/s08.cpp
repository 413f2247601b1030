// S08: a data file that cannot be written completely is reported, never left cut off in silence.
// Faults: storage full after every possible number of bytes, every single interruption of a write call,
// paths that cannot be written at all.
#include "sx.hpp"
#include <dlfcn.h>
#include <macis/util/binary_rdms.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/wavefunction_io.hpp>
#include <signal.h>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace sx;
static std::string file() { return mc::scratch() + "/f"; }

// ---- faults of single write calls on the file under test ----
enum Kind { none, again, partial, full_once, full, io_error, close_error, kinds };
static const char* kind_name[] = {"none", "interrupted once", "one byte taken", "no space once", "no space from then on", "input/output error", "closing fails"};
static bool armed = false;
static int calls = 0, fault_at = -1, fault_kind = none;
static bool mine(int fd) {
  if(!armed || fd <= 2) return false;
  char link[32], path[512];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  const ssize_t n = readlink(link, path, sizeof path - 1);
  if(n <= 0) return false;
  path[n] = 0;
  return file() == path;
}
template <class F>
static ssize_t faulty(int fd, size_t n, const void* first, size_t nfirst, const F& real) {
  using W = ssize_t (*)(int, const void*, size_t);
  static W one = (W)dlsym(RTLD_NEXT, "write");
  if(!mine(fd)) return real();
  const int c = calls++;
  if(fault_at < 0 || c < fault_at || (c > fault_at && fault_kind != full) || fault_kind == close_error) return real();
  switch(fault_kind) {
    case again: errno = EINTR; return -1;
    case partial: return nfirst ? one(fd, first, 1) : real();
    case full_once: case full: errno = ENOSPC; return -1;
    case io_error: errno = EIO; return -1;
  }
  return real();
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  using W = ssize_t (*)(int, const void*, size_t);
  static W f = (W)dlsym(RTLD_NEXT, "write");
  return faulty(fd, n, p, n, [&] { return f(fd, p, n); });
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int k) {
  using W = ssize_t (*)(int, const struct iovec*, int);
  static W f = (W)dlsym(RTLD_NEXT, "writev");
  const void* p = nullptr;
  size_t n = 0;
  for(int i = 0; i < k && !n; ++i) p = v[i].iov_base, n = v[i].iov_len;
  return faulty(fd, n, p, n, [&] { return f(fd, v, k); });
}
extern "C" int fclose(FILE* s) {
  using W = int (*)(FILE*);
  static W f = (W)dlsym(RTLD_NEXT, "fclose");
  const bool ours = armed && s && mine(fileno(s));
  const int r = f(s);
  if(ours && fault_kind == close_error && fault_at-- == 0) { errno = EIO; return EOF; }
  return r;
}
// ---- storage that is full after a number of bytes ----
struct Room {
  rlimit was;
  Room(rlim_t k) {
    getrlimit(RLIMIT_FSIZE, &was);
    rlimit r = was;
    r.rlim_cur = std::min(k, was.rlim_max);
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~Room() { setrlimit(RLIMIT_FSIZE, &was); }
};
struct Armed {
  Armed(int at, int kind) { calls = 0; fault_at = at; fault_kind = kind; armed = true; }
  ~Armed() { armed = false; fault_kind = none; }
};

static std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), {});
}
// what is at the path before the file is written: nothing, or a longer older file
static void before(int old, size_t n) {
  unlink(file().c_str());
  if(!old) return;
  std::ofstream o(file(), std::ios::binary);
  o << std::string(n + 9, 'x');
}

// attempt(path): writes; returns "" (written), or what was reported; called with the fault in place
// fault: sets up the fault for the duration of one attempt
using Attempt = std::function<std::string(const std::string&)>;
static std::string plain(const std::function<void(const std::string&)>& w, const std::string& path) {
  try {
    w(path);
  } catch(const mc::Failure&) {
    throw;
  } catch(const std::exception& e) {
    return *e.what() ? e.what() : "?";
  }
  return "";
}
static void judge(const std::string& said, const std::string& want, const std::string& fault, bool must) {
  mc::executions(1);
  if(said.empty()) {
    const auto now = slurp(file());
    if(now != want) mc::fail("%s: the writer reports success, the file has %zu bytes%s of the %zu it should have", fault.c_str(), now.size(), now == want.substr(0, now.size()) ? "" : " (and not the first ones)", want.size());
    mc::count("complete_under_fault");
  } else {
    if(must) mc::fail("%s: %s", fault.c_str(), said.c_str());
    mc::count("reported");
  }
}
static void faults(const Attempt& write, int max_calls) {
  before(0, 0);
  {
    Armed a(-1, none);
    const auto s = write(file());
    if(!s.empty()) mc::fail("without any fault: %s", s.c_str());
  }
  const int n = calls;
  const std::string want = slurp(file());
  mc::count("write_calls", n);
  for(int old = 0; old < 2; ++old) {
    // every size of the storage
    const size_t top = want.size() + (old ? 2 : 2);
    for(size_t k = 0; k < top; ++k) {
      // long files: the ends, the surroundings of block boundaries, a stride in between
      if(want.size() > 4096 && !mc::thorough && k > 64 && k + 64 < top && (k + 2) % 512 > 4 && k % (old ? 97 : 29)) continue;
      before(old, want.size());
      std::string s;
      {
        Room r(k);
        s = write(file());
      }
      judge(s, want, mc::fmt("storage for %zu bytes", k), k >= want.size());
    }
    // every write call, every kind of failure
    for(int c = 0; c < std::min(n, max_calls); ++c)
      for(int kind = again; kind < kinds; ++kind) {
        before(old, want.size());
        std::string s;
        {
          Armed a(c, kind);
          s = write(file());
        }
        judge(s, want, mc::fmt("write call %d of %d: %s", c + 1, n, kind_name[kind]), false);
      }
  }
  // paths that cannot be written
  before(0, 0);
  const std::string no[] = {mc::scratch() + "/nodir/f", mc::scratch(), mc::scratch() + "/" + std::string(300, 'a'), "/dev/full", ""};
  for(auto& p : no) {
    mc::executions(1);
    if(write(p).empty()) mc::fail("the writer reports success for '%s', which cannot be written", p.substr(0, 40).c_str());
  }
  // and nothing sticks
  before(0, 0);
  const auto s = write(file());
  judge(s, want, "without any fault, again", true);
}
static void one(const std::function<std::string()>& d, const std::function<void(const std::string&)>& w) {
  mc::test(d, [&] {
    mc::nontrivial();
    faults([&](const std::string& p) { return plain(w, p); }, 1 << 20);
  });
}

template <class T, class I>
void matrices(const char* nm, int cells) {
  using R = sparsexx::csr_matrix<T, I>;
  using O = sparsexx::coo_matrix<T, I>;
  mc::suite((std::string("text-") + nm).c_str(), [&] {
    all_patterns(1, 3, 1, 3, cells, [&](const Pat& p) {
      for(int base = 0; base < 2; ++base)
        one([&] { return p.str() + mc::fmt("index base %d", base); }, [&](const std::string& f) { sparsexx::write_mm(f, csr<T, I>(p, base), false, base); });
    });
  });
  mc::suite((std::string("triplets-") + nm).c_str(), [&] {
    all_patterns(1, 3, 1, 3, cells, [&](const Pat& p) {
      for(int c = 0; c < 2; ++c)
        one([&] { return p.str() + (c ? "as triplets" : "by rows"); }, [&](const std::string& f) {
          if(c) sparsexx::write_binary_triplet(O(csr<T, I>(p, 0)), f);
          else sparsexx::write_binary_triplet(csr<T, I>(p, 0), f);
        });
    });
  });
}
// files of several buffers
void large() {
  mc::suite("large", [&] {
    for(int n : {24, 33}) {
      using R = sparsexx::csr_matrix<double, int32_t>;
      R A(n, n, size_t(n) * n, 0);
      for(int i = 0; i < n; ++i) {
        A.rowptr()[i + 1] = (i + 1) * n;
        for(int j = 0; j < n; ++j) A.colind()[i * n + j] = j, A.nzval()[i * n + j] = 1. / (1 + i + n * j);
      }
      A.rowptr()[0] = 0;
      one([&] { return mc::fmt("full matrix %d, text", n); }, [&](const std::string& f) { sparsexx::write_mm(f, A, false); });
      one([&] { return mc::fmt("full matrix %d, triplets", n); }, [&](const std::string& f) { sparsexx::write_binary_triplet(A, f); });
      one([&] { return mc::fmt("full matrix %d, triplets from coordinates", n); }, [&](const std::string& f) { sparsexx::write_binary_triplet(sparsexx::coo_matrix<double, int32_t>(A), f); });
    }
  });
}
void densities() {
  mc::suite("densities", [&] {
    for(int n = 1; n <= (mc::thorough ? 6 : 5); ++n) {
      std::vector<double> D(n * n), G(size_t(n) * n * n * n);
      for(size_t i = 0; i < D.size(); ++i) D[i] = 1 + i;
      for(size_t i = 0; i < G.size(); ++i) G[i] = 1. / (3 + i);
      one([&] { return mc::fmt("%d orbitals", n); }, [&](const std::string& f) { macis::write_rdms_binary(f, n, D.data(), n, G.data(), n); });
    }
  });
  mc::suite("integrals", [&] {
    for(int n = 1; n <= (mc::thorough ? 4 : 3); ++n) {
      std::vector<double> D(n * n), G(size_t(n) * n * n * n);
      for(size_t i = 0; i < D.size(); ++i) D[i] = 1 + i;
      for(size_t i = 0; i < G.size(); ++i) G[i] = 1. / (3 + i);
      one([&] { return mc::fmt("%d orbitals", n); }, [&](const std::string& f) { macis::write_fcidump(f, n, D.data(), n, G.data(), n, -1.5); });
    }
  });
}
template <size_t N>
void waves() {
  mc::suite(N == 64 ? "waves-64" : "waves-128", [&] {
    for(int n : {1, 2, 3, 7, mc::thorough ? 300 : 150}) {
      std::vector<std::bitset<N>> s;
      std::vector<double> c;
      for(int i = 0; i < n; ++i) {
        s.push_back(std::bitset<N>(1 + i % 3) | (std::bitset<N>(1 + i % 2) << (N / 2)));
        c.push_back(1. / (1 + i));
      }
      one([&] { return mc::fmt("%d determinants", n); }, [&](const std::string& f) { macis::write_wavefunction<N>(f, N / 2, s, c); });
    }
  });
}
// the collective writer: every process learns of the failure, none waits for ever
void distributed(const char* name, int nlo, int nhi, int prlo, int prhi, uint64_t step) {
  mc::suite(name, [&] {
    for(int n = nlo; n <= nhi; ++n)
      for(uint64_t b = 0; b < (1ull << (n * n)); b += step)
        for(int nr = prlo; nr <= prhi; ++nr) {
          Pat p{n, n, b};
          mc::test([&] { return p.str() + mc::fmt("%d processes", nr); }, [&] {
            if(nr > 1) mc::nontrivial();
            std::vector<std::pair<int, int>> tiles;
            for(int q = 0, lo = 0; q < nr; ++q) {
              const int h = n / nr + (q < n % nr);
              tiles.push_back({lo, lo + h});
              lo += h;
            }
            faults([&](const std::string& path) {
              using csr_t = sparsexx::csr_matrix<double, int32_t>;
              std::string said;
              auto o = mc::few_schedules();
              o.modes = {0};
              const int at = fault_at, old = access(file().c_str(), F_OK) == 0;
              const auto olds = old ? slurp(file()).size() : 0;
              mc::mpi(nr, [&]() {
                if(armed) calls = 0, fault_at = at;
                return [&](int) {
                  auto A = csr<double, int32_t>(p, 0);
                  sparsexx::dist_sparse_matrix<csr_t> d(mc::comm(), A, tiles);
                  sparsexx::write_dist_mm(path, d);
                };
              }, [&](const smpi::Result& r) {
                if(!r.error.empty()) mc::fail("%s", r.error.c_str());
                int t = 0;
                for(auto& x : r.threw) if(!x.empty()) ++t, said = x;
                if(t && t < nr) mc::fail("%d of %d processes report that the file could not be written, the others return", t, nr);
              }, o);
              (void)olds;
              return said;
            }, 1 << 20);
          });
        }
  });
}
void mc_main() {
  signal(SIGXFSZ, SIG_IGN);
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  static Null nul;
  std::cout.rdbuf(&nul);
  matrices<double, int32_t>("double", mc::thorough ? 9 : 6);
  matrices<float, int64_t>("float", 4);
  large();
  densities();
  waves<64>();
  waves<128>();
  distributed("distributed", 1, 2, 1, 3, 1);
  distributed("distributed-3", 3, 3, 2, 3, mc::thorough ? 13 : 73);
}
