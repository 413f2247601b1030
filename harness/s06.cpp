// S06: matrix files round-trip in every format; the distributed writer produces one well-defined file.
#include "sx.hpp"
#include <iomanip>
#include <set>
#include <unistd.h>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
using namespace sx;

// values whose text form needs all digits
template <class T>
struct wval {
  static T of(int i, int j) { return val<T>::of(i, j); }
};
static const double hard[] = {1. / 3, -1e-300, 3e-308, 1.7976931348623157e308, -0.1, 123456789.123456789, 1e22, 2.2250738585072014e-308, -3.0000000000000004, 0.};
template <>
struct wval<double> {
  static double of(int i, int j) { return (i + 2 * j) % 3 == 2 ? double(ival(i, j)) : hard[(i * 4 + j) % 10]; }
};
template <>
struct wval<float> {
  static float of(int i, int j) { return float(ival(i, j)) / 3.f; }
};
template <class T>
Dense<T> wdense(const Pat& p) {
  Dense<T> d(p.m, p.n);
  for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(p.has(i, j)) d(i, j) = wval<T>::of(i, j);
  return d;
}
template <class T, class I>
sparsexx::csr_matrix<T, I> wcsr(const Pat& p, int base) {
  auto A = csr<T, I>(p, base);
  int k = 0;
  for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(p.has(i, j)) A.nzval()[k++] = wval<T>::of(i, j);
  return A;
}
template <class T, class I>
sparsexx::coo_matrix<T, I> wcoo(const Pat& p, int base, int order) {
  auto A = coo<T, I>(p, base, order);
  for(int k = 0; k < (int)A.nnz(); ++k) A.nzval()[k] = wval<T>::of(A.rowind()[k] - base, A.colind()[k] - base);
  return A;
}
// does a reader that infers the base from the indices see it? (a zero index shows base 0)
bool base_visible(const Pat& p, int written) {
  if(written == 1 || p.nnz() == 0) return true;
  for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(p.has(i, j) && (i == 0 || j == 0)) return true;
  return false;
}
std::string file() { return mc::scratch() + "/m"; }
void junk(const std::string& f) {
  std::ofstream o(f);
  for(int i = 0; i < 200; ++i) o << "9 9 9\n";
}
template <class T, class I>
void read_all_mm(const std::string& f, const Pat& p, const Dense<T>& D, int nnz, int base) {
  using R = sparsexx::csr_matrix<T, I>;
  using O = sparsexx::coo_matrix<T, I>;
  using C = sparsexx::csc_matrix<T, I>;
  if(nnz == 0) base = -1;
  auto a = sparsexx::read_mm<R>(f);
  same(meaning(a, p.m, p.n, nnz, base < 0 ? a.indexing() : base, "read as CSR"), D, "read as CSR");
  auto b = sparsexx::read_mm<C>(f);
  same(meaning(b, p.m, p.n, nnz, base < 0 ? b.indexing() : base, "read as CSC"), D, "read as CSC");
  auto c = sparsexx::read_mm<O>(f);
  same(meaning(c, p.m, p.n, nnz, base < 0 ? c.indexing() : base, "read as COO"), D, "read as COO");
  mc::executions(3);
}
template <class T, class I>
void read_all_bin(const std::string& f, const Pat& p, const Dense<T>& D, int nnz, int base) {
  using R = sparsexx::csr_matrix<T, I>;
  using O = sparsexx::coo_matrix<T, I>;
  using C = sparsexx::csc_matrix<T, I>;
  if(nnz == 0) base = -1;
  auto a = sparsexx::read_binary_triplet<R>(f);
  same(meaning(a, p.m, p.n, nnz, base < 0 ? a.indexing() : base, "read as CSR"), D, "read as CSR");
  auto c = sparsexx::read_binary_triplet<O>(f);
  same(meaning(c, p.m, p.n, nnz, base < 0 ? c.indexing() : base, "read as COO"), D, "read as COO");
  mc::executions(2);
}

template <class T, class I>
void text(const char* tn, int lo, int cells, bool ambiguous) {
  mc::suite(mc::fmt("%stext-%s", ambiguous ? "hidden-base-" : "", tn).c_str(), [&] {
    all_patterns(lo, 4, lo, 4, cells, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        for(int forced = -1; forced < 2; ++forced) {
          int written = forced < 0 ? base : forced;
          if(base_visible(p, written) == ambiguous) continue;
          mc::test([&] { return p.str() + mc::fmt("base %d, written with forced index %d", base, forced); }, [&] {
            if(p.nnz()) mc::nontrivial();
            auto A = wcsr<T, I>(p, base);
            auto A0 = A;
            junk(file());
            if(forced == -1) sparsexx::write_mm(file(), A, false);
            else sparsexx::write_mm(file(), A, false, forced);
            if(!(A == A0)) mc::fail("matrix modified by writing");
            read_all_mm<T, I>(file(), p, wdense<T>(p), p.nnz(), written);
          });
        }
    });
  });
}
template <class T, class I>
void binary(const char* tn, int lo, int cells, bool ambiguous) {
  mc::suite(mc::fmt("%sbinary-%s", ambiguous ? "hidden-base-" : "", tn).c_str(), [&] {
    all_patterns(lo, 4, lo, 4, cells, [&](Pat p) {
      bool up = true, low = true;
      for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(p.has(i, j)) up = up && i <= j, low = low && i >= j;
      const bool tri = p.m == p.n && up != low;  // this format stores symmetric matrices as one triangle
      auto D = wdense<T>(p);
      int nnz = p.nnz();
      if(tri)
        for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(i != j && p.has(i, j)) D(j, i) = D(i, j), ++nnz;
      for(int base = 0; base < 2; ++base) {
        if(base_visible(p, base) == ambiguous) continue;
        for(int how = 0; how < 5; ++how)
          mc::test([&] { return p.str() + mc::fmt("base %d, %s order %d", base, how < 4 ? "COO" : "CSR", how); }, [&] {
            if(p.nnz()) mc::nontrivial();
            junk(file());
            if(how < 4) {
              auto A = wcoo<T, I>(p, base, how);
              sparsexx::write_binary_triplet(A, file());
            } else {
              auto A = wcsr<T, I>(p, base);
              sparsexx::write_binary_triplet(A, file());
            }
            read_all_bin<T, I>(file(), p, D, nnz, base);
            std::ifstream in(file(), std::ios::binary | std::ios::ate);
            if((size_t)in.tellg() < 8 || (size_t)in.tellg() > 16 + 3 * sizeof(I) + 64 + nnz * (2 * sizeof(I) + sizeof(T))) mc::fail("%lld bytes for %d elements: the file holds more than the matrix", (long long)in.tellg(), nnz);
          });
      }
    });
  });
}
void subnormal() {
  mc::suite("text-special", [&] {
    for(int n = 1; n <= 3; ++n) for(int at = 0; at < n * n; ++at) for(double v : {4.9e-324, -4.9e-324, 1e-310, 0., -0., 1.7976931348623157e308, -2.2250738585072014e-308})
      mc::test([&] { return mc::fmt("full matrix of order %d holding %g at element %d", n, v, at); }, [&] {
        mc::nontrivial();
        sparsexx::csr_matrix<double, int> A(n, n, n * n, 1);
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) A.colind()[i * n + j] = j + 1, A.nzval()[i * n + j] = i * n + j == at ? v : 0.1 * (i + 7 * j + 1);
        for(int i = 0; i <= n; ++i) A.rowptr()[i] = i * n + 1;
        sparsexx::write_mm(file(), A, false, 1);
        auto B = sparsexx::read_mm<sparsexx::csr_matrix<double, int>>(file());
        if((int)B.nnz() != n * n || B.colind() != A.colind() || B.rowptr() != A.rowptr()) mc::fail("%d elements read back", (int)B.nnz());
        for(int k = 0; k < n * n; ++k) if(B.nzval()[k] != A.nzval()[k]) mc::fail("element %d is %.17g, read back as %.17g", k, A.nzval()[k], B.nzval()[k]);
      });
  });
}
// text files as other programs write them
void foreign() {
  mc::suite("text-foreign", [&] {
    for(int n = 1; n <= 3; ++n)
      for(uint64_t b = 0; b < (1ull << (n * n)); ++b)
        for(int sym = 0; sym < 3; ++sym)  // 1 lower, 2 upper triangle stored
          for(int pat = 0; pat < 2; ++pat)
            for(int style = 0; style < 6; ++style) {
              Pat p{n, n, b};
              bool one = true;
              for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) one = one && !(sym == 2 ? p.has(j, i) : p.has(i, j));
              if(sym && !one) continue;
              if(style == 5 && (sym || pat)) continue;
              mc::test([&] { return p.str() + mc::fmt("%s %s style %d", sym == 2 ? "symmetric, upper triangle" : sym ? "symmetric" : "general", pat ? "pattern" : "real", style); }, [&] {
                if(p.nnz()) mc::nontrivial();
                Dense<double> D(n, n);
                int nnz = 0;
                std::vector<std::string> lines;
                for(int j = 0; j < n; ++j)
                  for(int i = 0; i < n; ++i)
                    if(p.has(i, j)) {
                      double v = pat ? 1 : ival(i, j) * .25;
                      D(i, j) = v, ++nnz;
                      if(sym && i != j) D(j, i) = v, ++nnz;
                      std::string s = style == 1 ? "  " : "";
                      s += mc::fmt("%d%s%d", i + 1, style == 1 ? "   " : " ", j + 1);
                      if(!pat) s += style == 2 ? mc::fmt(" %.5E", v) : mc::fmt(" %g", v);
                      if(style == 1) s += " ";
                      if(style == 3) s += "\r";
                      lines.push_back(s);
                    }
                if(style == 2) std::reverse(lines.begin(), lines.end());
                std::ofstream o(file());
                o << "%%MatrixMarket matrix coordinate " << (pat ? "pattern " : "real ") << (sym ? "symmetric" : "general") << (style == 3 ? "\r\n" : "\n");
                if(style == 1) o << "% a comment\n%\n% another 3 3 3\n";
                o << n << " " << n << " " << lines.size() << (style == 3 ? "\r\n" : "\n");
                for(size_t k = 0; k < lines.size(); ++k) {
                  o << lines[k];
                  if(style == 4 && k + 1 == lines.size()) break;  // no final newline
                  o << "\n";
                  if(style == 5) o << "\n";  // blank lines
                }
                o.close();
                read_all_mm<double, int32_t>(file(), p, D, nnz, 1);
              });
            }
  });
  mc::suite("rutherford-boeing", [&] {
    all_patterns(1, 3, 1, 4, 9, [&](Pat p) {
      bool lower = p.m == p.n, upper = lower;
      for(int i = 0; i < p.m; ++i) for(int j = i + 1; j < p.n; ++j) lower = lower && !p.has(i, j), upper = upper && !(j < p.m && i < p.n && p.has(j, i));
      lower |= upper;  // one triangle
      if(!p.nnz()) return;
      static const char* type[] = {"rua", "rsa", "pua", "PSA"};
      for(int sym = 0; sym < (lower ? 4 : 3); ++sym)
        if(sym != 1 || lower)
        for(int per = 1; per <= 3; ++per)
          mc::test([&] { return p.str() + mc::fmt("%s, %d numbers per line", type[sym], per); }, [&] {
            mc::nontrivial();
            Dense<double> D(p.m, p.n);
            int nnz = 0;
            std::vector<int> cp{1}, ri;
            std::vector<double> nz;
            for(int j = 0; j < p.n; ++j) {
              for(int i = 0; i < p.m; ++i)
                if(p.has(i, j)) {
                  double v = sym >= 2 ? 1 : ival(i, j) * .5;
                  D(i, j) = v, ++nnz;
                  if(sym % 2 && i != j) D(j, i) = v, ++nnz;
                  ri.push_back(i + 1), nz.push_back(v);
                }
              cp.push_back(ri.size() + 1);
            }
            std::ofstream o(file());
            o << "title                                                          |1   \n" << "             5             1             1             3\n";
            o << type[sym] << "                        " << p.m << "             " << p.n << "            " << ri.size() << "             0\n";
            o << "(26I3)          (40I2)          (5E15.7)            \n";
            auto put = [&](auto& v, const char* f) {
              for(size_t k = 0; k < v.size(); ++k) {
                char buf[64];
                snprintf(buf, 64, f, v[k]);
                o << " " << buf;
                if(k % per == size_t(per - 1) || k + 1 == v.size()) o << "\n";
              }
            };
            put(cp, "%d"), put(ri, "%d"), sym < 2 ? put(nz, "%.7E") : void();
            o.close();
            auto a = sparsexx::read_rb<sparsexx::csr_matrix<double, int32_t>>(file());
            same(meaning(a, p.m, p.n, nnz, 1, "read as CSR"), D, "read as CSR");
            auto c = sparsexx::read_rb<sparsexx::csc_matrix<double, int64_t>>(file());
            same(meaning(c, p.m, p.n, nnz, 1, "read as CSC"), D, "read as CSC");
            mc::executions(2);
          });
    });
  });
}

// many entries and large indices
struct Elem { int i, j; double v; };
template <class M>
void listed(const M& A, int m, int n, const std::vector<Elem>& E, const char* what) {
  mc::executions(1);
  if(A.m() != m || A.n() != n || A.nnz() != (long)E.size() || A.indexing() != 1) mc::fail("%s: %ldx%ld, %ld entries, base %ld; expected %dx%d, %zu entries, base 1", what, (long)A.m(), (long)A.n(), (long)A.nnz(), (long)A.indexing(), m, n, E.size());
  auto bad = [&](size_t k, long i, long j, double v) { mc::fail("%s: entry %zu is (%ld,%ld)=%.17g, expected (%d,%d)=%.17g", what, k, i, j, v, E[k].i, E[k].j, E[k].v); };
  if constexpr(std::is_same_v<M, sparsexx::csr_matrix<double, sparsexx::detail::index_type_t<M>>>) {
    for(long i = 0, k = 0; i < m; ++i)
      for(long q = A.rowptr()[i] - 1; q < A.rowptr()[i + 1] - 1; ++q, ++k)
        if(q != k || E[k].i != i || E[k].j != A.colind()[k] - 1 || E[k].v != A.nzval()[k]) bad(k, i, A.colind()[k] - 1, A.nzval()[k]);
  } else if constexpr(std::is_same_v<M, sparsexx::csc_matrix<double, sparsexx::detail::index_type_t<M>>>) {
    auto S = E;
    std::stable_sort(S.begin(), S.end(), [](auto& a, auto& b) { return a.j < b.j; });
    for(long j = 0, k = 0; j < n; ++j)
      for(long q = A.colptr()[j] - 1; q < A.colptr()[j + 1] - 1; ++q, ++k)
        if(q != k || S[k].j != j || S[k].i != A.rowind()[k] - 1 || S[k].v != A.nzval()[k]) mc::fail("%s: entry %ld of column %ld differs", what, k, j);
  } else {
    std::vector<Elem> S;
    for(size_t k = 0; k < E.size(); ++k) S.push_back({int(A.rowind()[k] - 1), int(A.colind()[k] - 1), A.nzval()[k]});
    std::stable_sort(S.begin(), S.end(), [](auto& a, auto& b) { return std::pair(a.i, a.j) < std::pair(b.i, b.j); });
    for(size_t k = 0; k < E.size(); ++k) if(E[k].i != S[k].i || E[k].j != S[k].j || E[k].v != S[k].v) bad(k, S[k].i, S[k].j, S[k].v);
  }
}
template <class I>
void large(const char* name) {
  mc::suite(name, [&] {
    struct { int m, n, step; } sz[] = {{110, 110, 1}, {1, 12000, 1}, {12000, 1, 1}, {70000, 70000, 0}, {3, 150000, 7}, {101, 997, 3}};
    for(auto z : sz)
      for(int how = 0; how < 4; ++how)
        mc::test([&] { return mc::fmt("%dx%d, %s", z.m, z.n, how == 0 ? "text" : how == 1 ? "binary from COO" : how == 2 ? "binary" : "Rutherford-Boeing"); }, [&] {
          mc::nontrivial();
          std::vector<Elem> E;
          if(!z.step)
            for(int i = 0; i < z.m; i += i < z.m - 5 ? 11 : 1) for(int j : {i - 300, i, i + 7}) { if(j >= 0 && j < z.n) E.push_back({i, j, 0}); }
          else
            for(int i = 0; i < z.m; ++i) for(int j = i % z.step; j < z.n; j += z.step) E.push_back({i, j, 0});
          int c = 0;
          for(auto& e : E) e.v = (++c % 1000) * .37 - c / 3.;
          sparsexx::csr_matrix<double, I> A(z.m, z.n, E.size(), 1);
          std::fill(A.rowptr().begin(), A.rowptr().end(), 0);
          for(size_t k = 0; k < E.size(); ++k) A.rowptr()[E[k].i + 1]++, A.colind()[k] = E[k].j + 1, A.nzval()[k] = E[k].v;
          A.rowptr()[0] = 1;
          for(int i = 0; i < z.m; ++i) A.rowptr()[i + 1] += A.rowptr()[i];
          using R = sparsexx::csr_matrix<double, I>;
          using O = sparsexx::coo_matrix<double, I>;
          using C = sparsexx::csc_matrix<double, I>;
          if(how == 0) {
            sparsexx::write_mm(file(), A, false);
            listed(sparsexx::read_mm<R>(file()), z.m, z.n, E, "read as CSR");
            listed(sparsexx::read_mm<O>(file()), z.m, z.n, E, "read as COO");
            listed(sparsexx::read_mm<C>(file()), z.m, z.n, E, "read as CSC");
          } else if(how < 3) {
            if(how == 1) sparsexx::write_binary_triplet(O(A), file());
            else sparsexx::write_binary_triplet(A, file());
            listed(sparsexx::read_binary_triplet<R>(file()), z.m, z.n, E, "read as CSR");
            listed(sparsexx::read_binary_triplet<O>(file()), z.m, z.n, E, "read as COO");
          } else {
            O K(A);
            K.sort_by_col_index();
            C B(K);
            std::ofstream o(file());
            o << "title                                                          |1   \n" << "             5             1             1             3\n";
            o << "rua                        " << z.m << "             " << z.n << "            " << E.size() << "             0\n";
            o << "(26I3)          (40I2)          (5E15.7)            \n" << std::setprecision(17);
            auto put = [&](auto& v) { for(size_t k = 0; k < v.size(); ++k) o << " " << v[k] << (k % 8 == 7 || k + 1 == v.size() ? "\n" : ""); };
            put(B.colptr()), put(B.rowind()), put(B.nzval());
            o.close();
            listed(sparsexx::read_rb<R>(file()), z.m, z.n, E, "read as CSR");
            listed(sparsexx::read_rb<C>(file()), z.m, z.n, E, "read as CSC");
          }
        });
  });
}

template <class F>
void partitions(int n, int p, const F& f) {
  std::vector<int> s(p, 0);
  std::function<void(int, int)> rec = [&](int i, int left) {
    if(i == p - 1) { s[i] = left; f(s); return; }
    for(int k = 0; k <= left; ++k) { s[i] = k; rec(i + 1, left - k); }
  };
  rec(0, n);
}
void distributed(const char* name, int nlo, int nhi, int prlo, int prhi, uint64_t step, bool deep) {
  mc::suite(name, [&] {
    for(int n = nlo; n <= nhi; ++n)
      for(uint64_t b = 0; b < (1ull << (n * n)); b += step)
        for(int nr = prlo; nr <= prhi; ++nr)
          for(int forced = -1; forced < 2; ++forced) {
            Pat p{n, n, b};
            const int base = forced < 0 ? 0 : forced;
            if(!base_visible(p, base)) continue;
            mc::test([&] { return p.str() + mc::fmt("%d processes, forced index %d", nr, forced); }, [&] {
              if(nr > 1 && p.nnz()) mc::nontrivial();
              partitions(n, nr, [&](const std::vector<int>& s) {
                using csr_t = sparsexx::csr_matrix<double, int32_t>;
                std::vector<std::pair<int, int>> tiles;
                for(int q = 0, lo = 0; q < nr; lo += s[q++]) tiles.push_back({lo, lo + s[q]});
                std::string bytes;
                bool first = true;
                unsigned n_runs = 0;
                auto o = deep ? mc::deep_schedules(1, 1) : mc::few_schedules();
                mc::mpi(nr, [&]() {
                  if((mc::index() + n_runs++) % 2) junk(file()); else unlink(file().c_str());
                  return [&](int r) {
                    auto A = wcsr<double, int32_t>(p, r % 1);
                    sparsexx::dist_sparse_matrix<csr_t> d(mc::comm(), A, tiles);
                    sparsexx::write_dist_mm(file(), d, forced);
                    // the writer is collective and complete: whoever returns can read the file
                    read_all_mm<double, int32_t>(file(), p, wdense<double>(p), p.nnz(), base);
                  };
                }, [&](const smpi::Result& r) {
                  if(!r.error.empty()) mc::fail("%s", r.error.c_str());
                  for(auto& t : r.threw) if(!t.empty()) mc::fail("%s (rows %s)", t.c_str(), mc::str(s).c_str());
                  std::ifstream in(file(), std::ios::binary);
                  std::string now((std::istreambuf_iterator<char>(in)), {});
                  if(first) bytes = now, first = false;
                  else if(bytes != now) mc::fail("the file depends on the order of the processes (rows %s)", mc::str(s).c_str());
                }, o);
              });
            });
          }
  });
}
void distributed_many() {
  mc::suite("distributed-many", [&] {
    for(int n : {7, 12, 40})
      for(int nr : {2, 5, 6, 9, 13})
        for(int part = 0; part < 4; ++part)
          mc::test([&] { return mc::fmt("%d rows on %d processes, partition %d", n, nr, part); }, [&] {
            mc::nontrivial();
            using csr_t = sparsexx::csr_matrix<double, int32_t>;
            std::vector<Elem> E;
            for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if((i * 3 + j * 5 + part) % 4 < 2 || (i == 0 && j == 0)) E.push_back({i, j, (i - j) * 0.37 + (i + n * j) / 3.});
            csr_t A(n, n, E.size(), 0);
            std::fill(A.rowptr().begin(), A.rowptr().end(), 0);
            for(size_t k = 0; k < E.size(); ++k) A.rowptr()[E[k].i + 1]++, A.colind()[k] = E[k].j, A.nzval()[k] = E[k].v;
            for(int i = 0; i < n; ++i) A.rowptr()[i + 1] += A.rowptr()[i];
            std::vector<int> s(nr, 0);
            for(int i = 0; i < n; ++i) s[part == 0 ? i * nr / n : part == 1 ? std::min(i, nr - 1) : part == 2 ? std::max(0, nr - 1 - i) : (i < n / 2 ? 1 : nr - 1)]++;
            std::vector<std::pair<int, int>> tiles;
            for(int q = 0, lo = 0; q < nr; lo += s[q++]) tiles.push_back({lo, lo + s[q]});
            unsigned n_runs = 0;
            auto o = mc::few_schedules();
            if(nr > 6) o.modes = {0};
            mc::mpi(nr, [&]() {
              if((mc::index() + n_runs++) % 2) junk(file()); else unlink(file().c_str());
              return [&](int r) {
                auto B = A;
                sparsexx::dist_sparse_matrix<csr_t> d(mc::comm(), B, tiles);
                sparsexx::write_dist_mm(file(), d, 1);
                if(r % 4 == 0) {
                  listed(sparsexx::read_mm<csr_t>(file()), n, n, E, "read as CSR");
                  listed(sparsexx::read_mm<sparsexx::coo_matrix<double, int32_t>>(file()), n, n, E, "read as COO");
                }
              };
            }, [&](const smpi::Result& r) {
              if(!r.error.empty()) mc::fail("%s", r.error.c_str());
              for(auto& t : r.threw) if(!t.empty()) mc::fail("%s", t.c_str());
            }, o);
          });
  });
}
void mc_main() {
  distributed_many();
  const int c = mc::thorough ? 12 : 9;
  for(bool amb : {false, true}) {
    text<double, int32_t>("double", 1, amb ? 4 : c, amb);
    text<double, int64_t>("double-64", 1, amb ? 4 : 6, amb);
    text<float, int32_t>("float", 1, amb ? 4 : 6, amb);
    binary<double, int32_t>("double", 1, amb ? 4 : c, amb);
    binary<double, int64_t>("double-64", 1, amb ? 4 : 6, amb);
    binary<float, int64_t>("float", 1, amb ? 4 : 6, amb);
  }
  large<int32_t>("large-32");
  large<int64_t>("large-64");
  subnormal();
  foreign();
  distributed("distributed", 1, 3, 1, 4, mc::thorough ? 1 : 3, false);
  distributed("distributed-deep", 3, 3, 3, 3, mc::thorough ? 7 : 37, true);
}
