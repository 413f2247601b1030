// S05: permutations, slices and summaries.
#include "sx.hpp"
#include <metis.h>
#include <sparsexx/util/graph.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/submatrix.hpp>
using namespace sx;

template <class F>
void perms(int n, const F& f) {
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  do f(p);
  while(std::next_permutation(p.begin(), p.end()));
}
template <class I>
std::vector<I> cast(const std::vector<int>& p) { return std::vector<I>(p.begin(), p.end()); }

template <class T, class I>
void permuting(const char* name, int cells) {
  mc::suite(name, [&] {
    all_patterns(0, 4, 0, 4, cells, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        mc::test([&] { return p.str() + mc::fmt("base %d", base); }, [&] {
          if(p.nnz() > 1) mc::nontrivial();
          mc::omp_default();
          auto A = csr<T, I>(p, base), A0 = A;
          auto D = dense<T>(p);
          const int m = p.m, n = p.n;
          perms(m, [&](const std::vector<int>& r) {
            auto R = sparsexx::permute_rows(A, cast<I>(r));
            mc::executions(1);
            Dense<T> E(m, n);
            for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) E(i, j) = D(r[i], j);
            auto w = "rows by " + mc::str(r);
            same(meaning(R, m, n, p.nnz(), base, w.c_str()), E, w.c_str());
            auto inv = sparsexx::invert_perm(cast<I>(r));
            for(int i = 0; i < m; ++i) if(inv[r[i]] != i) mc::fail("inverse of %s is wrong", mc::str(r).c_str());
            if(!(sparsexx::permute_rows(R, inv) == A)) mc::fail("%s: inverse does not restore", w.c_str());
          });
          perms(n, [&](const std::vector<int>& c) {
            auto Cm = sparsexx::permute_cols(A, cast<I>(c));
            mc::executions(1);
            Dense<T> E(m, n);
            for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) E(i, j) = D(i, c[j]);
            auto w = "columns by " + mc::str(c);
            same(meaning(Cm, m, n, p.nnz(), base, w.c_str()), E, w.c_str());
            if(!(sparsexx::permute_cols(Cm, sparsexx::invert_perm(cast<I>(c))) == A)) mc::fail("%s: inverse does not restore", w.c_str());
          });
          perms(m, [&](const std::vector<int>& r) {
            perms(n, [&](const std::vector<int>& c) {
              auto B = sparsexx::permute_rows_cols(A, cast<I>(r), cast<I>(c));
              mc::executions(1);
              Dense<T> E(m, n);
              for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) E(i, j) = D(r[i], c[j]);
              auto w = "rows by " + mc::str(r) + ", columns by " + mc::str(c);
              same(meaning(B, m, n, p.nnz(), base, w.c_str()), E, w.c_str());
            });
          });
          if(!(A == A0)) mc::fail("source modified");
        });
    });
  });
}

void vectors() {
  mc::suite("vectors", [&] {
    for(int n = 0; n <= (mc::thorough ? 7 : 6); ++n)
      mc::test([&] { return mc::fmt("all permutations of %d", n); }, [&] {
        if(n > 1) mc::nontrivial();
        perms(n, [&](const std::vector<int>& p) {
          mc::executions(4);
          std::vector<double> X(n), Y(n + 1, -5), Z;
          for(int i = 0; i < n; ++i) X[i] = 2.5 * i + 1;
          std::vector<int64_t> q(p.begin(), p.end());
          for(auto dir : {sparsexx::PermuteDirection::Forward, sparsexx::PermuteDirection::Backward}) {
            bool f = dir == sparsexx::PermuteDirection::Forward;
            auto X0 = X;
            sparsexx::permute_vector(n, (const double*)X.data(), q.data(), Y.data(), dir);
            Z = X;
            sparsexx::permute_vector(n, Z.data(), q.data(), dir);
            for(int i = 0; i < n; ++i) {
              double e = f ? Y[p[i]] : Y[i], x = f ? X0[i] : X0[p[i]], z = f ? Z[p[i]] : Z[i];
              if(e != x || z != x) mc::fail("%s permutation by %s is wrong at %d", f ? "forward" : "backward", mc::str(p).c_str(), i);
            }
            if(Y[n] != -5 || X != X0) mc::fail("wrote outside the vector");
            sparsexx::permute_vector(n, Z.data(), q.data(), f ? sparsexx::PermuteDirection::Backward : sparsexx::PermuteDirection::Forward);
            if(Z != X) mc::fail("forward and backward by %s do not cancel", mc::str(p).c_str());
          }
        });
      });
  });
  mc::suite("partitions", [&] {
    for(int np = 1; np <= 4; ++np)
      for(int n = 0; n <= 5; ++n) {
        int tot = 1;
        for(int i = 0; i < n; ++i) tot *= np;
        for(int code = 0; code < tot; ++code) {
          std::vector<int> part(n);
          for(int i = 0, c = code; i < n; ++i, c /= np) part[i] = c % np;
          mc::test([&] { return mc::fmt("%d parts of ", np) + mc::str(part); }, [&] {
            if(n > 1) mc::nontrivial();
            mc::executions(1);
            auto [perm, ptr] = sparsexx::perm_from_part(np, part);
            if((int)perm.size() != n || (int)ptr.size() != np + 1 || ptr[0] != 0 || ptr[np] != n) mc::fail("sizes %s %s", mc::str(perm).c_str(), mc::str(ptr).c_str());
            std::vector<int> seen(n);
            for(int q = 0; q < np; ++q)
              for(int k = ptr[q]; k < ptr[q + 1]; ++k) {
                if(perm[k] < 0 || perm[k] >= n || seen[perm[k]]++) mc::fail("not a permutation: %s", mc::str(perm).c_str());
                if(part[perm[k]] != q) mc::fail("element %d is in block %d, expected %d", (int)perm[k], q, part[perm[k]]);
                if(k > ptr[q] && perm[k] < perm[k - 1]) mc::fail("order within a block not kept: %s", mc::str(perm).c_str());
              }
          });
        }
      }
    // labels outside the range are refused
    for(int bad : {-1, 2, 7}) for(int pos = 0; pos < 3; ++pos)
      mc::test([&] { return mc::fmt("label %d of 2 parts at %d", bad, pos); }, [&] {
        std::vector<int> part{0, 1, 0};
        part[pos] = bad;
        bool t = false;
        try { sparsexx::perm_from_part(2, part); } catch(const std::exception&) { t = true; }
        if(!t) mc::fail("label out of range accepted");
      });
  });
}

// every window with bounds from the two lists, and the summaries
template <class M, class T, class H>
void slices(const M& A, const Dense<T>& D, const H& has, int m, int n, int base, const std::vector<int>& rows, const std::vector<int>& cols) {
  using I = sparsexx::detail::index_type_t<M>;
  const auto A0 = A;
  for(int r0 : rows) for(int r1 : rows)
    for(int c0 : cols) for(int c1 : cols) {
      if(r1 < r0 || c1 < c0) continue;
      mc::executions(2);
      auto w = mc::fmt("rows [%d,%d) columns [%d,%d)", r0, r1, c0, c1);
      auto S = sparsexx::extract_submatrix(A, {r0, c0}, {r1, c1});
      Dense<T> E(r1 - r0, c1 - c0), X(r1 - r0, n);
      int k = 0, kx = 0;
      for(int i = r0; i < r1; ++i) for(int j = 0; j < n; ++j) {
        bool in = j >= c0 && j < c1;
        if(in) E(i - r0, j - c0) = D(i, j), k += has(i, j);
        else X(i - r0, j) = D(i, j), kx += has(i, j);
      }
      same(meaning(S, r1 - r0, c1 - c0, k, base, w.c_str()), E, w.c_str());
      auto Q = sparsexx::extract_submatrix_inclrow_exclcol(A, {r0, c0}, {r1, c1});
      w = "excluding " + w;
      same(meaning(Q, r1 - r0, n, kx, base, w.c_str()), X, w.c_str());
    }
  mc::executions(4);
  auto U = sparsexx::extract_upper_triangle(A);
  Dense<T> E(m, n);
  int k = 0;
  T tr(0);
  for(int i = 0; i < m; ++i) for(int j = i; j < n; ++j) E(i, j) = D(i, j), k += has(i, j);
  same(meaning(U, m, n, k, base, "upper triangle"), E, "upper triangle");
  auto dg = sparsexx::extract_diagonal_elements(A);
  if((int)dg.size() != m) mc::fail("diagonal has %zu elements", dg.size());
  for(int i = 0; i < m; ++i) {
    T e = i < n ? D(i, i) : T(0);
    tr += e;
    if(!(dg[i] == e)) mc::fail("diagonal element %d", i);
  }
  if(!(sparsexx::trace(A) == tr)) mc::fail("trace");
  for(int ret = 0; ret < 2; ++ret) {
    auto [rp, ci] = sparsexx::extract_adjacency(A, ret);
    if((int)rp.size() != m + 1 || rp[0] != ret || rp[m] != (I)ci.size() + ret) mc::fail("adjacency offsets %s for %zu neighbours", mc::str(rp).c_str(), ci.size());
    for(int i = 0; i < m; ++i) {
      std::vector<I> e;
      for(int j = 0; j < n; ++j) if(j != i && has(i, j)) e.push_back(j + ret);
      std::vector<I> g(ci.begin() + (rp[i] - ret), ci.begin() + (rp[i + 1] - ret));
      if(g != e) mc::fail("neighbours of %d are %s, expected %s (base %d)", i, mc::str(g).c_str(), mc::str(e).c_str(), ret);
    }
  }
  if(!(A == A0)) mc::fail("source modified");
}

template <class T, class I>
void slicing(const char* name, int cells) {
  mc::suite(name, [&] {
    all_patterns(0, 4, 0, 4, cells, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        mc::test([&] { return p.str() + mc::fmt("base %d", base); }, [&] {
          if(p.nnz()) mc::nontrivial();
          auto A = csr<T, I>(p, base);
          std::vector<int> rows(p.m + 1), cols(p.n + 1);
          std::iota(rows.begin(), rows.end(), 0), std::iota(cols.begin(), cols.end(), 0);
          slices(A, dense<T>(p), [&](int i, int j) { return p.has(i, j); }, p.m, p.n, base, rows, cols);
        });
    });
  });
}

void large() {
  mc::suite("large", [&] {
    for(int m : {5, 19}) for(int n : {6, 40}) for(int st = 1; st <= 4; ++st) for(int base = 0; base < 2; ++base) for(int mul = 0; mul < 3; ++mul)
      mc::test([&] { return mc::fmt("%dx%d every %d-th entry base %d permutation %d", m, n, st, base, mul); }, [&] {
        mc::nontrivial();
        mc::executions(1);
        mc::omp_default();
        Dense<double> D(m, n);
        int k = 0;
        std::vector<int32_t> rp{base}, ci;
        std::vector<double> nz;
        for(int i = 0; i < m; ++i) {
          for(int j = 0; j < n; ++j)
            if((i * n + j + i / 3) % st == 0 && i % 4 != 1) ++k, ci.push_back(j + base), nz.push_back(D(i, j) = ival(i, j));
          rp.push_back(k + base);
        }
        sparsexx::csr_matrix<double, int32_t> A(m, n, k, base);
        A.rowptr() = rp; A.colind() = ci; A.nzval() = nz;
        std::vector<int32_t> r(m), c(n);
        for(int i = 0; i < m; ++i) r[i] = mul == 0 ? m - 1 - i : (i * (mul == 1 ? 2 : 3) + 1) % m;
        for(int j = 0; j < n; ++j) c[j] = mul == 0 ? n - 1 - j : (j * 7 + mul) % n;
        auto R = sparsexx::permute_rows(A, r);
        auto Cc = sparsexx::permute_cols(A, c);
        auto B = sparsexx::permute_rows_cols(A, r, c);
        Dense<double> ER(m, n), EC(m, n), EB(m, n);
        for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) ER(i, j) = D(r[i], j), EC(i, j) = D(i, c[j]), EB(i, j) = D(r[i], c[j]);
        same(meaning(R, m, n, k, base, "rows"), ER, "rows");
        same(meaning(Cc, m, n, k, base, "columns"), EC, "columns");
        same(meaning(B, m, n, k, base, "both"), EB, "both");
      });
  });
}

// rows with many entries, matrices with many rows, many parts, long vectors
template <class T, class I>
void long_rows(const char* name) {
  mc::suite(name, [&] {
    for(int m : {1, 7, 18, 70}) for(int n : {1, 17, 40, 90}) for(int st : {1, 2, 3, 7}) for(int base = 0; base < 2; ++base)
      mc::test([&] { return mc::fmt("%dx%d every %d-th entry base %d", m, n, st, base); }, [&] {
        mc::nontrivial();
        mc::omp_default();
        auto has = [&](int i, int j) { return (i * n + j + i / 3) % st == 0 && (i % 5 != 1 || m == 1); };
        Dense<T> D(m, n);
        std::vector<I> rp{I(base)}, ci;
        std::vector<T> nz;
        for(int i = 0; i < m; ++i) {
          for(int j = 0; j < n; ++j)
            if(has(i, j)) ci.push_back(j + base), nz.push_back(D(i, j) = T(ival(i, j)));
          rp.push_back(I(ci.size() + base));
        }
        sparsexx::csr_matrix<T, I> A(m, n, nz.size(), base);
        A.rowptr() = rp; A.colind() = ci; A.nzval() = nz;
        auto some = [](int k) {
          std::set<int> s;
          for(int x : {0, 1, k / 3, k / 2, k - 9, k - 1, k}) if(x >= 0 && x <= k) s.insert(x);
          return std::vector<int>(s.begin(), s.end());
        };
        slices(A, D, has, m, n, base, some(m), some(n));
        for(int mul = 0; mul < 3; ++mul) {
          mc::executions(1);
          auto perm = [&](int k) {
            std::vector<I> r(k);
            for(int i = 0; i < k; ++i) r[i] = mul == 0 ? k - 1 - i : mul == 1 ? (i + k / 3) % k : i ^ 1;
            if(mul == 2 && k % 2) r[k - 1] = k - 1;
            return r;
          };
          auto r = perm(m), c = perm(n);
          Dense<T> ER(m, n), EC(m, n), EB(m, n);
          for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) ER(i, j) = D(r[i], j), EC(i, j) = D(i, c[j]), EB(i, j) = D(r[i], c[j]);
          same(meaning(sparsexx::permute_rows(A, r), m, n, nz.size(), base, "rows"), ER, "rows");
          same(meaning(sparsexx::permute_cols(A, c), m, n, nz.size(), base, "columns"), EC, "columns");
          same(meaning(sparsexx::permute_rows_cols(A, r, c), m, n, nz.size(), base, "both"), EB, "both");
          auto inv = sparsexx::invert_perm(r);
          for(int i = 0; i < m; ++i) if(inv[r[i]] != I(i)) mc::fail("inverse permutation");
        }
      });
  });
}
void many_parts() {
  mc::suite("many-parts", [&] {
    for(int np : {5, 8, 17, 33, 70, 130}) for(int n : {0, 1, 16, 40, 200, 600}) for(int mul : {1, 3, 7}) for(int w = 0; w < 2; ++w)
      mc::test([&] { return mc::fmt("%d elements in %d parts, stride %d, index type %d", n, np, mul, w ? 64 : 32); }, [&] {
        mc::nontrivial();
        auto go = [&](auto zero) {
          using I = decltype(zero);
          mc::executions(3);
          std::vector<I> part(n), want, wp(np + 1);
          for(int i = 0; i < n; ++i) part[i] = i * mul / (1 + i % 3) % np;
          for(int q = 0; q < np; ++q) {
            for(int i = 0; i < n; ++i) if(part[i] == q) want.push_back(i);
            wp[q + 1] = want.size();
          }
          auto [perm, ptr] = sparsexx::perm_from_part(np, part);
          if(perm != want || ptr != wp) mc::fail("order %s offsets %s, expected %s and %s", mc::str(perm).c_str(), mc::str(ptr).c_str(), mc::str(want).c_str(), mc::str(wp).c_str());
          std::vector<double> X(n), Y(n), B(n);
          for(int i = 0; i < n; ++i) X[i] = 1.5 * i + 1;
          auto Z = X;
          sparsexx::permute_vector(n, (const double*)X.data(), perm.data(), Y.data(), sparsexx::PermuteDirection::Forward);
          sparsexx::permute_vector(n, (const double*)X.data(), perm.data(), B.data(), sparsexx::PermuteDirection::Backward);
          sparsexx::permute_vector(n, Z.data(), perm.data(), sparsexx::PermuteDirection::Backward);
          for(int i = 0; i < n; ++i) if(Y[perm[i]] != X[i] || B[i] != X[perm[i]] || Z[i] != B[i]) mc::fail("vector permutation at %d", i);
        };
        if(w) go(int64_t(0));
        else go(int32_t(0));
      });
  });
}

// What the partitioner is asked, and every answer it could give.
struct Request { int calls = 0, nv = 0, np = 0; std::vector<int> xadj, adj, answer; std::string odd; } asked;
extern "C" int METIS_SetDefaultOptions(idx_t* o) { for(int i = 0; i < METIS_NOPTIONS; ++i) o[i] = -1; return METIS_OK; }
extern "C" int METIS_PartGraphKway(idx_t* nv, idx_t* ncon, idx_t* xadj, idx_t* adj, idx_t* vwgt, idx_t* vsize, idx_t* awgt, idx_t* np, real_t* tp,
                                   real_t* ub, idx_t* opt, idx_t* obj, idx_t* part) {
  asked.calls++;
  asked.nv = *nv;
  asked.np = *np;
  asked.xadj.assign(xadj, xadj + *nv + 1);
  asked.adj.assign(adj, adj + xadj[*nv]);
  if(*ncon != 1 || vwgt || vsize || awgt || tp || ub) asked.odd = "weights";
  if(opt && opt[17] != -1 && opt[17] != 0) asked.odd = "a numbering other than from zero";
  *obj = 0;
  std::copy(asked.answer.begin(), asked.answer.end(), part);
  return METIS_OK;
}
extern "C" int METIS_PartGraphRecursive(idx_t* nv, idx_t* ncon, idx_t* xadj, idx_t* adj, idx_t* vwgt, idx_t* vsize, idx_t* awgt, idx_t* np, real_t* tp,
                                        real_t* ub, idx_t* opt, idx_t* obj, idx_t* part) {
  return METIS_PartGraphKway(nv, ncon, xadj, adj, vwgt, vsize, awgt, np, tp, ub, opt, obj, part);
}

void partitioner() {
  mc::suite("partitioner", [] {
    auto one = [](Pat p, int base) {
      if(p.m != p.n || !p.m) return;
      mc::test([&] { return p.str() + mc::fmt("base %d", base); }, [&] {
        if(p.nnz() > 1) mc::nontrivial();
        mc::omp_default();
        auto A = csr<double, int32_t>(p, base), A0 = A;
        auto D = dense<double>(p);
        std::vector<int> xadj{0}, adj;
        for(int i = 0; i < p.m; ++i) {
          for(int j = 0; j < p.m; ++j) if(i != j && D(i, j) != 0) adj.push_back(j);
          xadj.push_back(adj.size());
        }
        for(int np = 2; np <= 3; ++np) {
          std::vector<int> a(p.m, 0);
          for(;;) {
            asked = {};
            asked.answer = a;
            auto part = sparsexx::kway_partition(np, A);
            mc::executions(1);
            if(asked.calls != 1 || asked.nv != p.m || asked.np != np || asked.odd.size())
              mc::fail("%d requests, the last for %d vertices in %d parts %s", asked.calls, asked.nv, asked.np, asked.odd.c_str());
            if(asked.xadj != xadj || asked.adj != adj)
              mc::fail("graph requested %s %s, expected %s %s", mc::str(asked.xadj).c_str(), mc::str(asked.adj).c_str(), mc::str(xadj).c_str(), mc::str(adj).c_str());
            if(std::vector<int>(part.begin(), part.end()) != a) mc::fail("answer %s became %s", mc::str(a).c_str(), mc::str(part).c_str());
            // grouping the matrix by it
            auto [perm, ptr] = sparsexx::perm_from_part(np, part);
            auto B = sparsexx::permute_rows_cols(A, perm, perm);
            Dense<double> E(p.m, p.m);
            for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.m; ++j) E(i, j) = D(perm[i], perm[j]);
            same(meaning(B, p.m, p.m, p.nnz(), base, "grouped"), E, "grouped");
            for(int q = 0; q < np; ++q) for(int i = ptr[q]; i < ptr[q + 1]; ++i) if(a[perm[i]] != q) mc::fail("vertex %d is not in part %d", perm[i], q);
            int k = 0;
            while(k < p.m && ++a[k] == np) a[k++] = 0;
            if(k == p.m) break;
          }
        }
        for(int np = -1; np < 2; ++np) {
          bool refused = false;
          try { sparsexx::kway_partition(np, A); } catch(const std::exception&) { refused = true; }
          if(!refused) mc::fail("a partition in %d parts is not refused", np);
        }
        if(!(A == A0)) mc::fail("source modified");
      });
    };
    all_patterns(1, 3, 1, 3, 9, [&](Pat p) { for(int b = 0; b < 2; ++b) one(p, b); });
  });
}

void mc_main() {
  partitioner();
  permuting<double, int32_t>("permute-32", 9);
  permuting<std::complex<double>, int64_t>("permute-complex-64", mc::thorough ? 9 : 6);
  vectors();
  slicing<double, int32_t>("slice-32", mc::thorough ? 12 : 9);
  slicing<float, int64_t>("slice-64", mc::thorough ? 9 : 6);
  large();
  long_rows<double, int32_t>("long-rows-32");
  long_rows<float, int64_t>("long-rows-64");
  many_parts();
}
