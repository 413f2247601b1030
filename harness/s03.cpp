// S03: distributed sparse matrices: storage, copies, exchange plan and product, for every partition and schedule.
#include "sx.hpp"
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <utility>
using namespace sx;

template <class F>
void partitions(int n, int p, const F& f) {
  std::vector<int> s(p, 0);
  std::function<void(int, int)> rec = [&](int i, int left) {
    if(i == p - 1) { s[i] = left; f(s); return; }
    for(int k = 0; k <= left; ++k) { s[i] = k; rec(i + 1, left - k); }
  };
  rec(0, n);
}

struct Cfg {
  Pat p;
  int base, nr;
  std::vector<int> sizes;  // empty: default partition
  int how;                 // 0 built from the matrix, 1 copied, 2 moved, 3 tiles set by hand (base 0, missing tile if empty)
  int alpha, beta;
  std::string str() const { return p.str() + mc::fmt("base %d ranks %d rows %s how %d alpha %d beta %d", base, nr, mc::str(sizes).c_str(), how, alpha, beta); }
};

template <class I>
void check(const Cfg& c, const smpi::Opts& o) {
  using csr_t = sparsexx::csr_matrix<double, I>;
  using dist_t = sparsexx::dist_sparse_matrix<csr_t>;
  const int n = c.p.n;
  std::vector<int> lo(c.nr + 1, 0);
  if(c.sizes.empty()) {
    for(int r = 0; r < c.nr; ++r) lo[r + 1] = lo[r] + n / c.nr;
    lo[c.nr] = n;
  } else
    for(int r = 0; r < c.nr; ++r) lo[r + 1] = lo[r] + c.sizes[r];
  auto D = dense<double>(c.p);
  std::vector<double> x(n), y0(n), y(n);
  for(int i = 0; i < n; ++i) {
    x[i] = 1 + 3 * i, y0[i] = 2 - 5 * i;
    y[i] = c.beta * y0[i];
  }
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) y[i] += c.alpha * D(i, j) * x[j];
  // elements another rank needs, counted once per needing rank
  size_t volume = 0;
  for(int r = 0; r < c.nr; ++r)
    for(int j = 0; j < n; ++j) {
      if(j >= lo[r] && j < lo[r + 1]) continue;
      bool need = false;
      for(int i = lo[r]; i < lo[r + 1]; ++i) need |= c.p.has(i, j);
      volume += need;
    }
  mc::mpi(c.nr,
          [&]() {
            return [&](int r) {
              auto A = csr<double, I>(c.p, c.base);
              typename dist_t::extent_type ext;
              std::vector<std::pair<I, I>> tiles;
              for(int q = 0; q < c.nr; ++q) tiles.push_back({I(lo[q]), I(lo[q + 1])});
              std::unique_ptr<dist_t> d;
              if(c.how == 3) {
                d = c.sizes.empty() ? std::make_unique<dist_t>(mc::comm(), n, n) : std::make_unique<dist_t>(mc::comm(), n, n, tiles);
                const int m = lo[r + 1] - lo[r];
                csr_t di(m, m, 0, 0), off(m, n, 0, 0);
                di.rowptr()[0] = off.rowptr()[0] = 0;
                for(int i = 0; i < m; ++i) {
                  for(int j = 0; j < n; ++j) {
                    if(!c.p.has(lo[r] + i, j)) continue;
                    bool l = j >= lo[r] && j < lo[r + 1];
                    csr_t& T = l ? di : off;
                    T.colind().push_back(l ? j - lo[r] : j);
                    T.nzval().push_back(D(lo[r] + i, j));
                  }
                  di.rowptr()[i + 1] = di.colind().size();
                  off.rowptr()[i + 1] = off.colind().size();
                }
                csr_t d2(m, m, di.colind().size(), 0), o2(m, n, off.colind().size(), 0);
                d2.rowptr() = di.rowptr(), d2.colind() = di.colind(), d2.nzval() = di.nzval();
                o2.rowptr() = off.rowptr(), o2.colind() = off.colind(), o2.nzval() = off.nzval();
                if(r % 2) d->set_diagonal_tile(d2);
                else d->set_diagonal_tile(std::move(d2));
                if(o2.nnz()) {
                  if(r % 2) d->set_off_diagonal_tile(std::move(o2));
                  else d->set_off_diagonal_tile(o2);
                }
              } else
                d = c.sizes.empty() ? std::make_unique<dist_t>(mc::comm(), A) : std::make_unique<dist_t>(mc::comm(), A, tiles);
              if(c.how == 1) {
                // a copy has values of its own, and survives the original
                auto copy = std::make_unique<dist_t>(std::as_const(*d));
                if((c.alpha + c.beta + c.base) & 1) std::swap(copy, d);
                for(auto t : {d->diagonal_tile_ptr(), d->off_diagonal_tile_ptr()})
                  if(t) for(auto& v : t->nzval()) v = -7 - 2 * v;
                d = std::move(copy);
              }
              if(c.how == 2) d = std::make_unique<dist_t>(std::move(*d));
              // shape, ownership, storage
              if((int)d->m() != n || (int)d->n() != n) mc::fail("global shape wrong");
              for(int q = 0; q < c.nr; ++q)
                if(d->row_bounds(q).first != lo[q] || d->row_bounds(q).second != lo[q + 1] || (long)d->row_extent(q) != lo[q + 1] - lo[q])
                  mc::fail("rows of rank %d are [%ld,%ld), expected [%d,%d)", q, (long)d->row_bounds(q).first, (long)d->row_bounds(q).second, lo[q], lo[q + 1]);
              if((long)d->local_row_start() != lo[r] || (long)d->local_row_extent() != lo[r + 1] - lo[r]) mc::fail("local rows wrong on rank %d", r);
              const int m = lo[r + 1] - lo[r];
              Dense<double> L(m, n);
              auto dm = meaning(d->diagonal_tile(), m, m, -1, 0, "diagonal tile");
              for(int i = 0; i < m; ++i) for(int j = 0; j < m; ++j) L(i, lo[r] + j) = dm(i, j);
              long nnz = d->diagonal_tile().nnz();
              if(d->off_diagonal_tile_ptr()) {
                auto om = meaning(d->off_diagonal_tile(), m, n, -1, 0, "off-diagonal tile");
                nnz += d->off_diagonal_tile().nnz();
                for(int i = 0; i < m; ++i)
                  for(int j = 0; j < n; ++j) {
                    if(j >= lo[r] && j < lo[r + 1] && om(i, j) != 0) mc::fail("off-diagonal tile of rank %d holds local column %d", r, j);
                    L(i, j) += om(i, j);
                  }
              }
              long want = 0;
              for(int i = 0; i < m; ++i)
                for(int j = 0; j < n; ++j) {
                  want += c.p.has(lo[r] + i, j);
                  if(L(i, j) != D(lo[r] + i, j)) mc::fail("rank %d row %d col %d holds %g, expected %g", r, lo[r] + i, j, L(i, j), D(lo[r] + i, j));
                }
              if(nnz != want || (long)d->nnz() != want) mc::fail("rank %d stores %ld entries and reports %ld, expected %ld", r, nnz, (long)d->nnz(), want);
              // product
              auto info = sparsexx::spblas::generate_spmv_comm_info(*d);
              std::vector<double> X(x.begin() + lo[r], x.begin() + lo[r + 1]), Y(y0.begin() + lo[r], y0.begin() + lo[r + 1]);
              for(int rep = 0; rep < 2; ++rep) {
                if(rep) Y.assign(y0.begin() + lo[r], y0.begin() + lo[r + 1]);
                sparsexx::spblas::pgespmv(c.alpha, *d, X.data(), c.beta, Y.data(), info);
                for(int i = 0; i < m; ++i) {
                  if(Y[i] != y[lo[r] + i]) mc::fail("product %d: rank %d row %d gives %g, expected %g", rep, r, lo[r] + i, Y[i], y[lo[r] + i]);
                  if(X[i] != x[lo[r] + i]) mc::fail("input vector modified on rank %d", r);
                }
              }
              size_t v = info.communication_volume();
              if(v != volume) mc::fail("rank %d: communication volume %zu, expected %zu", r, v, volume);
            };
          },
          [](const smpi::Result& r) {
            if(!r.error.empty()) mc::fail("%s", r.error.c_str());
            for(auto& t : r.threw) if(!t.empty()) mc::fail("%s", t.c_str());
          }, o);
}

void sweep(const char* name, int nlo, int nhi, int nr_lo, int nr_hi, bool variants, const smpi::Opts& o) {
  mc::suite(name, [&] {
    for(int n = nlo; n <= nhi; ++n)
      all_patterns(n, n, n, n, 16, [&](Pat p) {
        for(int nr = nr_lo; nr <= nr_hi; ++nr)
          mc::test([&] { return p.str() + mc::fmt("ranks %d", nr); }, [&] {
            if(p.nnz() && nr > 1) mc::nontrivial();
            if(mc::index() % 16 == 5) mc::omp_default();
            else somp::set(somp::Config{});
            int k = (int)mc::index();
            auto go = [&](const std::vector<int>& s) {
              static const int ab[4][2] = {{1, 0}, {2, -1}, {-1, 1}, {1, 3}};
              for(int how = 0; how < (variants ? 4 : 1); ++how) {
                ++k;
                int h = variants ? how : k % 4;
                Cfg c{p, k & 1, nr, s, h, ab[(k / 2) % 4][0], ab[(k / 2) % 4][1]};
                try {
                  if(k % 3) check<int32_t>(c, o);
                  else check<int64_t>(c, o);
                } catch(const mc::Failure& e) {
                  mc::fail("%s | %s", e.what(), c.str().c_str());
                }
              }
            };
            if(n) go({});
            partitions(n, nr, go);
          });
      });
  });
}

// representative patterns (dense, arrow, cyclic, empty rows) under all modes and priorities plus deviations
void deep(int dev, int dev_modes, int nmax) {
  mc::suite("schedules", [&] {
    for(int n = 2; n <= nmax; ++n) {
      std::vector<uint64_t> pats;
      auto make = [&](auto f) {
        uint64_t b = 0;
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(f(i, j)) b |= 1ull << (i * n + j);
        pats.push_back(b);
      };
      make([&](int, int) { return true; });
      make([&](int i, int j) { return i == 0 || j == 0 || i == j; });
      make([&](int i, int j) { return (i + 1) % n == j; });
      make([&](int i, int j) { return i < n - 1 && j != i; });
      make([&](int i, int j) { return j == n - 1 || i == j; });
      make([&](int i, int j) { return i > j; });
      for(auto b : pats)
        for(int nr = 2; nr <= 4; ++nr)
          partitions(n, nr, [&](const std::vector<int>& s) {
            for(int how = 0; how < 2; ++how) {
              Cfg c{Pat{n, n, b}, (int)(b >> 1 & 1), nr, s, how, 1, how ? 1 : 0};
              mc::test([&] { return c.str(); }, [&] {
                mc::nontrivial();
                somp::set(somp::Config{});
                check<int32_t>(c, mc::deep_schedules(nr == 4 ? std::max(0, dev - 1) : dev, dev_modes));
              });
            }
          });
    }
  });
}

void invalid() {
  mc::suite("invalid-partitions", [&] {
    for(int nr : {3, 6, 9}) for(int at = 0; at < 2 * nr; ++at) for(int by = -1; by <= 1; ++by)
      mc::test([&] { return mc::fmt("%d processes with two rows each, bound %d off by %d", nr, at, by); }, [&] {
        mc::nontrivial();
        std::vector<std::pair<int, int>> t;
        for(int i = 0; i < nr; ++i) t.push_back({2 * i, 2 * i + 2});
        (at % 2 ? t[at / 2].second : t[at / 2].first) += by;
        mc::mpi(nr, [&]() { return [&](int) {
          bool threw = false;
          try { sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int>> d(mc::comm(), 2 * nr, 2 * nr, t); } catch(const std::runtime_error&) { threw = true; }
          if(threw != (by != 0)) mc::fail(by ? "invalid partition accepted" : "valid partition rejected");
        }; }, [](const smpi::Result& r) {
          if(!r.error.empty()) mc::fail("%s", r.error.c_str());
          for(auto& x : r.threw) if(!x.empty()) mc::fail("%s", x.c_str());
        }, mc::few_schedules());
      });
    for(int nr = 1; nr <= 2; ++nr)
      for(int code = 0; code < (nr == 1 ? 16 : 256); ++code)
        for(int extra = -1; extra <= 1; ++extra) {
          std::vector<std::pair<int, int>> t;
          int c = code;
          for(int i = 0; i < nr; ++i) t.push_back({c & 3, c >> 2 & 3}), c >>= 4;
          bool ok = extra == 0 && t.front().first == 0 && t.back().second == 3;
          for(int i = 0; i < nr; ++i) ok = ok && t[i].first <= t[i].second && (i == 0 || t[i - 1].second == t[i].first);
          if(extra > 0) t.push_back({3, 3});
          if(extra < 0) t.pop_back();
          if(t.empty()) continue;
          mc::test([&] { std::string s = mc::fmt("3 rows over %d ranks:", nr); for(auto& x : t) s += mc::fmt(" [%d,%d)", x.first, x.second); return s; }, [&] {
            mc::nontrivial();
            mc::mpi(nr, [&]() { return [&](int) {
              bool threw = false;
              try { sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int>> d(mc::comm(), 3, 3, t); } catch(const std::runtime_error&) { threw = true; }
              if(threw == ok) mc::fail(ok ? "valid partition rejected" : "invalid partition accepted");
            }; }, [](const smpi::Result& r) {
              if(!r.error.empty()) mc::fail("%s", r.error.c_str());
              for(auto& x : r.threw) if(!x.empty()) mc::fail("%s", x.c_str());
            }, mc::few_schedules());
          });
        }
  });
}

// more processes than rows, and more than a handful
void many() {
  mc::suite("many-ranks", [&] {
    for(int nr : {5, 6, 9, 13, 17})
      for(int n : {1, 5, 8})
        for(int pat = 0; pat < 5; ++pat)
          for(int part = 0; part < 5; ++part) {
            uint64_t b = 0;
            for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j)
              if(pat == 0 || (pat == 1 && (i == 0 || j == 0 || i == j)) || (pat == 2 && (i + 1) % n == j) || (pat == 3 && i > j) || (pat == 4 && j == n - 1)) b |= 1ull << (i * n + j);
            std::vector<int> s(nr);
            // 1: first ranks, 2: last ranks, 3: every other rank, 4: first and last share
            for(int i = 0; i < n && part; ++i) s[part == 1 ? i % nr : part == 2 ? nr - 1 - i % nr : part == 3 ? std::min(2 * i + 1, nr - 1) : i < n / 2 ? 0 : nr - 1]++;
            if(!part) s.clear();
            Cfg c{Pat{n, n, b}, pat & 1, nr, s, (pat + part) % 4, 2, part % 3 - 1};
            mc::test([&] { return c.str(); }, [&] {
              mc::nontrivial();
              somp::set(somp::Config{});
              auto o = mc::few_schedules();
              if(nr > 6) o.modes = {0};
              check<int32_t>(c, o);
            });
          }
  });
}

// many rows
void large() {
  mc::suite("large", [&] {
    for(int n : {17, 40, 150})
      for(int nr : {1, 2, 3, 5})
        for(int rule = 1; rule <= 4; ++rule)
          for(int part = 0; part < 3; ++part) {
            std::vector<int> s(nr);
            // 1: the first process has nearly all rows, 2: uneven shares
            for(int r = 0, left = n; r < nr; left -= s[r], ++r) s[r] = r == nr - 1 ? left : part == 1 ? (r ? 1 : n - nr) : std::min(left, left / (nr - r) + (r % 2 ? 3 : -2));
            if(!part) s.clear();
            Cfg c{Pat{n, n, 0, rule}, rule & 1, nr, s, (rule + part) % 4, 2, part - 1};
            mc::test([&] { return c.str(); }, [&] {
              mc::nontrivial();
              somp::set(somp::Config{});
              auto o = mc::few_schedules();
              if(n > 40) o.modes = {0};
              check<int32_t>(c, o);
            });
          }
  });
}

void mc_main() {
  smpi::Opts one = mc::few_schedules();
  one.modes = {0};
  sweep("all-patterns-3", 0, 3, 1, 4, true, mc::few_schedules());
  sweep("all-patterns-4", 4, 4, 2, mc::thorough ? 3 : 2, false, mc::thorough ? mc::few_schedules() : one);
  if(mc::thorough) sweep("all-patterns-4-4", 4, 4, 4, 4, false, one);
  deep(mc::thorough ? 3 : 1, mc::thorough ? 8 : 2, mc::thorough ? 5 : 4);
  many();
  large();
  invalid();
}
