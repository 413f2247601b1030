// S01: all storage formats denote the same matrix.
#include "sx.hpp"
#include <variant>
using namespace sx;

template <class T, class I>
struct Chain {
  using CSR = sparsexx::csr_matrix<T, I>;
  using COO = sparsexx::coo_matrix<T, I>;
  using CSC = sparsexx::csc_matrix<T, I>;
  struct State {
    std::variant<CSR, COO, CSC> A;
    int base;
    std::string path;
  };
  Pat p;
  Dense<T> D{0, 0};
  int depth;

  void to_dense_check(const CSR& A, const char* w) { dense_impl(A, w); }
  void to_dense_check(const COO& A, const char* w) { dense_impl(A, w); }
  template <class M>
  void dense_impl(const M& A, const char* w) {
    for(int pad = 0; pad < 2; ++pad) {
      int ld = p.m + pad;
      if(ld == 0) ld = 1;
      std::vector<T> d(size_t(ld) * p.n, T(0));
      sparsexx::convert_to_dense(A, d.data(), ld);
      for(int j = 0; j < p.n; ++j)
        for(int i = 0; i < ld; ++i) {
          T e = i < p.m ? D(i, j) : T(0);
          if(!(d[i + j * ld] == e)) mc::fail("%s: dense entry (%d,%d) with leading dimension %d is wrong", w, i, j, ld);
        }
    }
    if(p.m > 0) {
      bool threw = false;
      std::vector<T> d(size_t(p.m) * p.n);
      try {
        sparsexx::convert_to_dense(A, d.data(), p.m - 1);
      } catch(const std::exception&) {
        threw = true;
      }
      if(!threw) mc::fail("%s: too small leading dimension accepted", w);
    }
  }
  void check(const State& s) {
    mc::states(1);
    const char* w = s.path.c_str();
    std::visit([&](auto& A) {
      same(meaning(A, p.m, p.n, p.nnz(), s.base, w), D, w);
      if constexpr(!std::is_same_v<std::decay_t<decltype(A)>, CSC>) to_dense_check(A, w);
    }, s.A);
  }
  void explore(const State& s, int d) {
    check(s);
    if(d == depth) return;
    auto next = [&](auto&& A, int base, const char* op) {
      mc::transitions(1);
      explore(State{std::move(A), base, s.path + " > " + op}, d + 1);
    };
    if(auto* A = std::get_if<CSR>(&s.A)) {
      CSR keep = *A;
      next(COO(*A), s.base, "to COO");
      CSR B = *A;
      B.set_indexing(1 - s.base);
      next(std::move(B), 1 - s.base, "re-base");
      CSR Cc = *A;
      Cc.set_indexing(s.base);
      Cc.shrink_storage_to_fit();
      if(!(Cc == keep) || Cc != keep) mc::fail("%s: equal matrices compare different", s.path.c_str());
      if(!(*A == keep)) mc::fail("%s: source of a conversion changed", s.path.c_str());
    } else if(auto* A = std::get_if<COO>(&s.A)) {
      COO r = *A, c = *A;
      r.sort_by_row_index();
      if(!r.is_sorted_by_row_index()) mc::fail("%s > sort rows: not sorted", s.path.c_str());
      c.sort_by_col_index();
      if(!c.is_sorted_by_col_index()) mc::fail("%s > sort columns: not sorted", s.path.c_str());
      for(long k = 1; k < r.nnz(); ++k) {
        if(std::pair(r.rowind()[k - 1], r.colind()[k - 1]) >= std::pair(r.rowind()[k], r.colind()[k])) mc::fail("%s > sort rows: not in lexical order", s.path.c_str());
        if(std::pair(c.colind()[k - 1], c.rowind()[k - 1]) >= std::pair(c.colind()[k], c.rowind()[k])) mc::fail("%s > sort columns: not in lexical order", s.path.c_str());
      }
      bool rs = std::is_sorted(A->rowind().begin(), A->rowind().end()), cs = std::is_sorted(A->colind().begin(), A->colind().end());
      if(rs != A->is_sorted_by_row_index() || cs != A->is_sorted_by_col_index()) mc::fail("%s: sortedness query is wrong", s.path.c_str());
      if(!rs) {
        bool t = false;
        try { CSR B(*A); } catch(const std::exception&) { t = true; }
        if(!t) mc::fail("%s: unsorted COO accepted for CSR", s.path.c_str());
      }
      if(!cs) {
        bool t = false;
        try { CSC B(*A); } catch(const std::exception&) { t = true; }
        if(!t) mc::fail("%s: unsorted COO accepted for CSC", s.path.c_str());
      }
      bool zero = false;
      for(auto x : A->rowind()) zero = zero || x == 0;
      for(auto x : A->colind()) zero = zero || x == 0;
      if(A->nnz() && zero == (s.base == 0)) {
        COO q = *A;
        q.determine_indexing_from_adj();
        if(q.indexing() != s.base) mc::fail("%s: index base not recognised", s.path.c_str());
      }
      next(CSR(r), s.base, "sort rows, to CSR");
      next(CSC(c), s.base, "sort columns, to CSC");
      if(d + 1 < depth) {
        next(std::move(r), s.base, "sort rows");
        next(std::move(c), s.base, "sort columns");
      }
    } else if(auto* A = std::get_if<CSC>(&s.A)) {
      next(CSR(*A), s.base, "to CSR");
    }
  }
};

template <class T, class I>
void chains(const char* name, int cells, int depth) {
  mc::suite(name, [&] {
    all_patterns(0, 4, 0, 4, cells, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        for(int start = 0; start < 6; ++start)
          mc::test([&] {
            const char* n[] = {"CSR", "CSC", "COO by rows", "COO by columns", "COO reversed", "COO mixed"};
            return p.str() + mc::fmt("base %d from %s", base, n[start]);
          }, [&] {
            if(p.nnz()) mc::nontrivial();
            mc::executions(1);
            mc::omp_default();
            Chain<T, I> c;
            c.p = p;
            c.D = dense<T>(p);
            c.depth = depth;
            typename Chain<T, I>::State s{csr<T, I>(p, base), base, "start"};
            if(start == 1) s.A = csc<T, I>(p, base);
            if(start >= 2) s.A = coo<T, I>(p, base, start - 2);
            c.explore(s, 0);
          });
    });
  });
}

// every order in which up to 5 entries can be stored sorts to the same matrix
void orders() {
  mc::suite("entry-orders", [&] {
    all_patterns(1, 3, 1, 3, 9, [&](Pat p) {
      int k = p.nnz();
      if(k < 2 || k > (mc::thorough ? 6 : 5)) return;
      if(k == 5 && !mc::thorough && p.mask % 3) return;
      mc::test([&] { return p.str() + "all orders"; }, [&] {
        mc::nontrivial();
        auto A0 = coo<double, int32_t>(p, 1, 0);
        auto D = dense<double>(p);
        std::vector<int> o(k);
        std::iota(o.begin(), o.end(), 0);
        do {
          mc::states(1);
          mc::transitions(2);
          std::vector<int32_t> ri, ci;
          std::vector<double> nz;
          for(int x : o) ri.push_back(A0.rowind()[x]), ci.push_back(A0.colind()[x]), nz.push_back(A0.nzval()[x]);
          sparsexx::coo_matrix<double, int32_t> A(p.m, p.n, std::move(ci), std::move(ri), std::move(nz), 1), B = A;
          A.sort_by_row_index();
          B.sort_by_col_index();
          same(meaning(sparsexx::csr_matrix<double, int32_t>(A), p.m, p.n, k, 1, "CSR"), D, "CSR");
          same(meaning(sparsexx::csc_matrix<double, int32_t>(B), p.m, p.n, k, 1, "CSC"), D, "CSC");
        } while(std::next_permutation(o.begin(), o.end()));
        mc::executions(1);
      });
    });
  });
}

void triangles() {
  mc::suite("expand-triangle", [&] {
    for(int n = 0; n <= 4; ++n)
      for(int lower = 0; lower < 2; ++lower)
        for(int base = 0; base < 2; ++base)
          for(uint32_t b = 0; b < (1u << (n * (n + 1) / 2)); ++b) {
            Pat p{n, n, 0};
            int k = 0;
            for(int i = 0; i < n; ++i)
              for(int j = 0; j <= i; ++j, ++k)
                if(b >> k & 1) p.mask |= 1ull << (lower ? i * n + j : j * n + i);
            mc::test([&] { return p.str() + mc::fmt("base %d", base); }, [&] {
              mc::states(1); mc::transitions(1); mc::executions(1);
              for(int ord = 0; ord < 4; ++ord) {
                auto A = coo<double, int64_t>(p, base, ord);
                A.expand_from_triangle();
                Dense<double> D(n, n), T = dense<double>(p);
                int nnz = 0;
                for(int i = 0; i < n; ++i)
                  for(int j = 0; j < n; ++j) {
                    bool h = p.has(i, j) || p.has(j, i);
                    nnz += h;
                    D(i, j) = p.has(i, j) ? T(i, j) : h ? T(j, i) : 0;
                  }
                same(meaning(A, n, n, nnz, base, "expanded"), D, "expanded");
                if(nnz > p.nnz()) mc::nontrivial();
              }
            });
          }
    // a full (two-sided) pattern stays as it is
    all_patterns(2, 3, 2, 3, 9, [&](Pat p) {
      if(p.m != p.n) return;
      bool lo = false, up = false;
      for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(p.has(i, j)) lo = lo || i > j, up = up || i < j;
      if(!(lo && up)) return;
      mc::test([&] { return p.str() + "full"; }, [&] {
        mc::nontrivial();
        mc::states(1); mc::transitions(1); mc::executions(1);
        auto A = coo<double, int64_t>(p, 0, 0);
        A.expand_from_triangle();
        same(meaning(A, p.m, p.n, p.nnz(), 0, "full matrix"), dense<double>(p), "full matrix");
      });
    });
  });
}

void constructors() {
  mc::suite("constructors", [&] {
    all_patterns(0, 3, 0, 3, 6, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        mc::test([&] { return p.str() + mc::fmt("base %d", base); }, [&] {
          if(p.nnz()) mc::nontrivial();
          mc::states(1); mc::transitions(1); mc::executions(1);
          auto A = csr<double, int32_t>(p, base);
          auto rp = A.rowptr();
          auto ci = A.colind();
          auto nz = A.nzval();
          sparsexx::csr_matrix<double, int32_t> B(p.m, p.n, std::move(rp), std::move(ci), std::move(nz));
          same(meaning(B, p.m, p.n, p.nnz(), base, "CSR from arrays"), dense<double>(p), "CSR from arrays");
          if(!(A == B)) mc::fail("equal matrices compare different");
          auto Mv = std::move(B);
          same(meaning(Mv, p.m, p.n, p.nnz(), base, "moved CSR"), dense<double>(p), "moved CSR");
          if(p.nnz()) {
            auto Cc = A;
            Cc.nzval().back() += 1;
            if(A == Cc || !(A != Cc)) mc::fail("different values compare equal");
            if(p.n > 1) {
              auto E = A;
              E.colind().back() = E.colind().back() == base ? base + 1 : base;
              if(A == E) mc::fail("different columns compare equal");
            }
            bool t = false;
            try {
              std::vector<int32_t> r(p.nnz()), c(p.nnz() - 1);
              std::vector<double> v(p.nnz());
              sparsexx::coo_matrix<double, int32_t> bad(p.m, p.n, std::move(c), std::move(r), std::move(v), base);
            } catch(const std::exception&) { t = true; }
            if(!t) mc::fail("COO arrays of different length accepted");
            t = false;
            try {
              std::vector<int32_t> r(p.nnz()), c(p.nnz());
              std::vector<double> v(p.nnz() + 1);
              sparsexx::coo_matrix<double, int32_t> bad(p.m, p.n, std::move(c), std::move(r), std::move(v), base);
            } catch(const std::exception&) { t = true; }
            if(!t) mc::fail("COO values of different length accepted");
          }
        });
    });
  });
}

// larger fixed-structure matrices: counting and prefix sums beyond tiny rows
void large() {
  mc::suite("large", [&] {
    for(int m : {1, 7, 40}) for(int n : {1, 9, 37}) for(int st = 1; st <= 5; ++st) for(int base = 0; base < 2; ++base)
      mc::test([&] { return mc::fmt("%dx%d every %d-th entry base %d", m, n, st, base); }, [&] {
        mc::nontrivial();
        mc::states(1); mc::executions(1);
        mc::omp_default();
        Dense<double> D(m, n);
        std::vector<int32_t> ri, ci;
        std::vector<double> nz;
        for(int c = 0; c < m * n; c += st) {
          int q = (c * 7 + 3) % (m * n);  // scattered order
          if((m * n) % 7 == 0) q = m * n - 1 - c;
          int i = q / n, j = q % n;
          if(i % 3 == 2) continue;  // empty rows
          ri.push_back(i + base), ci.push_back(j + base), nz.push_back(D(i, j) = ival(i, j));
        }
        int k = nz.size();
        sparsexx::coo_matrix<double, int32_t> A(m, n, std::move(ci), std::move(ri), std::move(nz), base), B = A;
        A.sort_by_row_index();
        mc::transitions(5);
        sparsexx::csr_matrix<double, int32_t> R(A);
        same(meaning(R, m, n, k, base, "CSR"), D, "CSR");
        sparsexx::coo_matrix<double, int32_t> A2(R);
        same(meaning(A2, m, n, k, base, "CSR to COO"), D, "CSR to COO");
        B.sort_by_col_index();
        sparsexx::csc_matrix<double, int32_t> Cc(B);
        same(meaning(Cc, m, n, k, base, "CSC"), D, "CSC");
        sparsexx::csr_matrix<double, int32_t> R2(Cc);
        same(meaning(R2, m, n, k, base, "CSC to CSR"), D, "CSC to CSR");
        std::vector<double> d(size_t(m + 1) * n, 0.), e = d;
        sparsexx::convert_to_dense(R, d.data(), m + 1);
        sparsexx::convert_to_dense(B, e.data(), m + 1);
        for(int j = 0; j < n; ++j) for(int i = 0; i <= m; ++i) {
          double x = i < m ? D(i, j) : 0;
          if(d[i + j * (m + 1)] != x || e[i + j * (m + 1)] != x) mc::fail("dense entry (%d,%d)", i, j);
        }
      });
  });
}

// extents whose product exceeds the index type, thousands of rows and columns
template <class I> void extents(const char* name) {
  mc::suite(name, [&] {
    struct S { int m, n; };
    for(auto s : std::vector<S>{{300, 4}, {5, 300}, {1000, 1000}, {70000, 3}, {2, 70000}, {70000, 70001}, {200003, 150001}}) for(int cnt : {1, 17, 600}) for(int base = 0; base < 2; ++base)
      mc::test([&] { return mc::fmt("%dx%d, %d entries, base %d", s.m, s.n, cnt, base); }, [&] {
        mc::nontrivial();
        mc::states(1), mc::executions(1);
        mc::omp_default();
        std::map<std::pair<long, long>, double> D;
        std::vector<I> ri, ci;
        std::vector<double> nz;
        for(long c = 0; c < cnt; ++c) {
          const long i = c % 5 == 0 ? s.m - 1 - c % s.m : c * 7919 % s.m, j = c % 4 == 0 ? s.n - 1 : (c * 104729 + 3) % s.n;
          if(!D.emplace(std::pair(i, j), c + 1.).second) continue;
          ri.push_back(i + base), ci.push_back(j + base), nz.push_back(c + 1.);
        }
        auto eq = [&](const std::map<std::pair<long, long>, double>& g, const char* w) {
          if(g != D) mc::fail("%s: %zu elements, %zu expected, or they differ", w, g.size(), D.size());
        };
        auto mcoo = [&](const sparsexx::coo_matrix<double, I>& A, const char* w) {
          if(A.m() != s.m || A.n() != s.n || A.indexing() != base || A.nnz() != (long)D.size()) mc::fail("%s: shape", w);
          std::map<std::pair<long, long>, double> g;
          for(long k = 0; k < A.nnz(); ++k) g[{A.rowind()[k] - base, A.colind()[k] - base}] = A.nzval()[k];
          eq(g, w);
        };
        auto mcsr = [&](const sparsexx::csr_matrix<double, I>& A, const char* w) {
          if(A.m() != s.m || A.n() != s.n || A.indexing() != base || A.nnz() != (long)D.size() || A.rowptr().size() != size_t(s.m) + 1 || A.rowptr()[0] != base) mc::fail("%s: shape", w);
          std::map<std::pair<long, long>, double> g;
          for(long i = 0; i < s.m; ++i) for(long k = A.rowptr()[i] - base; k < A.rowptr()[i + 1] - base; ++k) g[{i, A.colind()[k] - base}] = A.nzval()[k];
          eq(g, w);
        };
        sparsexx::coo_matrix<double, I> A(s.m, s.n, std::move(ci), std::move(ri), std::move(nz), base), B = A;
        A.sort_by_row_index(), mcoo(A, "sorted by rows");
        for(long k = 1; k < A.nnz(); ++k) if(std::pair(A.rowind()[k - 1], A.colind()[k - 1]) >= std::pair(A.rowind()[k], A.colind()[k])) mc::fail("rows are not in lexical order");
        B.sort_by_col_index(), mcoo(B, "sorted by columns");
        for(long k = 1; k < B.nnz(); ++k) if(std::pair(B.colind()[k - 1], B.rowind()[k - 1]) >= std::pair(B.colind()[k], B.rowind()[k])) mc::fail("columns are not in lexical order");
        mc::transitions(5);
        sparsexx::csr_matrix<double, I> R(A);
        mcsr(R, "CSR");
        sparsexx::coo_matrix<double, I> A2(R);
        mcoo(A2, "CSR to COO");
        sparsexx::csc_matrix<double, I> Cc(B);
        sparsexx::csr_matrix<double, I> R2(Cc);
        mcsr(R2, "CSC to CSR");
      });
  });
}

void mc_main() {
  extents<int32_t>("extents-32"), extents<int64_t>("extents-64");
  chains<double, int32_t>("chains-double-32", mc::thorough ? 12 : 9, mc::thorough ? 5 : 4);
  chains<double, int64_t>("chains-double-64", mc::thorough ? 9 : 6, 4);
  chains<float, int64_t>("chains-float-64", 6, 3);
  chains<std::complex<double>, int32_t>("chains-complex-32", 6, 3);
  orders();
  triangles();
  constructors();
  large();
}
