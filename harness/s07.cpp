// S07: every prefix of every kind of data file is rejected, or gives the original data.
#include "sx.hpp"
#include <macis/util/binary_rdms.hpp>
#include <macis/wavefunction_io.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <unistd.h>
using namespace sx;
std::string file() { return mc::scratch() + "/f"; }
std::string slurp() {
  std::ifstream in(file(), std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), {});
}
void spill(const std::string& s) {
  std::ofstream o(file(), std::ios::binary | std::ios::trunc);
  o << s;
}
// read() returns the text form of what was read. last_number: text file whose last token is a number
void all_cuts(const std::function<std::string()>& read, bool last_number) {
  const std::string full = slurp();
  const std::string want = read();
  size_t b = full.size(), e = full.size();
  if(last_number) {
    while(e > 0 && isspace((unsigned char)full[e - 1])) --e;
    b = e;
    while(b > 0 && !isspace((unsigned char)full[b - 1])) --b;
  }
  unlink(file().c_str());
  try {
    read();
    mc::fail("a missing file is read");
  } catch(const mc::Failure&) {
    throw;
  } catch(const std::exception&) {
  }
  int rejected = 0, same_data = 0;
  for(size_t cut = 0; cut < full.size(); ++cut) {
    spill(full.substr(0, cut));
    mc::executions(1);
    std::string got;
    try {
      got = read();
    } catch(const std::exception&) {
      ++rejected;
      continue;
    }
    if(last_number && cut > b && cut < e) continue;  // a complete file with another last number
    if(got != want) mc::fail("cut after %zu of %zu bytes, the file reads as %s instead of %s", cut, full.size(), got.c_str(), want.c_str());
    ++same_data;
  }
  mc::count("cuts_rejected", rejected);
  mc::count("cuts_harmless", same_data);
  // twice: the complete file still reads the same (nothing sticks from failed reads)
  spill(full);
  if(read() != want) mc::fail("the complete file reads differently after failed reads");
}
template <class M>
std::string text(const M& A) {
  std::string s = mc::fmt("%ldx%ld base %ld nnz %ld:", (long)A.m(), (long)A.n(), (long)A.indexing(), (long)A.nnz());
  using T = typename M::value_type;
  Dense<T> d(0, 0);
  if constexpr(sparsexx::detail::is_csr_matrix_v<M>) d = meaning(A, A.m(), A.n(), -1, A.indexing(), "read");
  else if constexpr(sparsexx::detail::is_csc_matrix_v<M>) d = meaning(A, A.m(), A.n(), -1, A.indexing(), "read");
  else d = meaning(A, A.m(), A.n(), -1, A.indexing(), "read");
  for(int i = 0; i < d.m; ++i) for(int j = 0; j < d.n; ++j) s += mc::fmt(" %.17g", (double)d(i, j));
  return s;
}
void matrices() {
  using R = sparsexx::csr_matrix<double, int32_t>;
  using C = sparsexx::csc_matrix<double, int32_t>;
  using O = sparsexx::coo_matrix<double, int32_t>;
  using O64 = sparsexx::coo_matrix<double, int64_t>;
  using R64 = sparsexx::csr_matrix<float, int64_t>;
  mc::suite("text", [&] {
    all_patterns(1, 4, 1, 4, mc::thorough ? 9 : 6, [&](Pat p) {
      for(int as = 0; as < 3; ++as)
        for(int sym = 0; sym < 3; ++sym) {  // 0 general, 1 symmetric, 2 pattern (the latter two written by hand)
          bool lower = p.m == p.n;
          for(int i = 0; i < p.m; ++i) for(int j = i + 1; j < p.n; ++j) lower = lower && !p.has(i, j);
          if(sym == 1 && !lower) continue;
          mc::test([&] { return p.str() + mc::fmt("read as %d, kind %d", as, sym); }, [&] {
            if(p.nnz()) mc::nontrivial();
            if(sym == 0) {
              auto A = csr<double, int32_t>(p, 1);
              for(auto& v : A.nzval()) v *= 1.125;
              sparsexx::write_mm(file(), A, false, 1);
            } else {
              std::ofstream o(file());
              o << (sym == 1 ? "%%MatrixMarket matrix coordinate real symmetric\n% made by hand\n" : "%%MatrixMarket matrix coordinate pattern general\n");
              o << p.m << " " << p.n << " " << p.nnz() << "\n";
              for(int i = 0; i < p.m; ++i)
                for(int j = 0; j < p.n; ++j)
                  if(p.has(i, j)) {
                    o << i + 1 << " " << j + 1;
                    if(sym == 1) o << " " << 100 + ival(i, j);
                    o << "\n";
                  }
            }
            all_cuts([&]() -> std::string { return as == 0 ? text(sparsexx::read_mm<R>(file())) : as == 1 ? text(sparsexx::read_mm<C>(file())) : text(sparsexx::read_mm<O>(file())); }, true);
          });
        }
    });
  });
  mc::suite("triplet", [&] {
    all_patterns(1, 4, 1, 4, mc::thorough ? 9 : 6, [&](Pat p) {
      for(int as = 0; as < 3; ++as)
        mc::test([&] { return p.str() + mc::fmt("read as %d", as); }, [&] {
          if(p.nnz()) mc::nontrivial();
          if(as < 2) sparsexx::write_binary_triplet(coo<double, int32_t>(p, 1, as), file());
          else sparsexx::write_binary_triplet(csr<float, int64_t>(p, 1), file());
          all_cuts([&]() -> std::string { return as == 0 ? text(sparsexx::read_binary_triplet<R>(file())) : as == 1 ? text(sparsexx::read_binary_triplet<O>(file())) : text(sparsexx::read_binary_triplet<R64>(file())); }, false);
        });
    });
  });
  mc::suite("rutherford-boeing", [&] {
    all_patterns(1, 3, 1, 3, mc::thorough ? 9 : 6, [&](Pat p) {
      if(!p.nnz()) return;
      for(int as = 0; as < 2; ++as)
        for(int per : {2, 5})
          for(int kind = 0; kind < 2; ++kind)
            mc::test([&] { return p.str() + mc::fmt("read as %d, %d per line, kind %d", as, per, kind); }, [&] {
              mc::nontrivial();
              std::vector<int> cp{1}, ri;
              std::vector<double> nz;
              for(int j = 0; j < p.n; ++j) {
                for(int i = 0; i < p.m; ++i) if(p.has(i, j)) ri.push_back(i + 1), nz.push_back(ival(i, j) * 10.5);
                cp.push_back(ri.size() + 1);
              }
              std::ofstream o(file());
              o << "title                |1   \n   5   1   1   3\n" << (kind ? "pua" : "rua") << "    " << p.m << "    " << p.n << "    " << ri.size() << "    0\n(26I3) (40I2) (5E15.7)\n";
              auto put = [&](auto& v) {
                for(size_t k = 0; k < v.size(); ++k) o << " " << v[k] << (k % per == size_t(per - 1) || k + 1 == v.size() ? "\n" : "");
              };
              put(cp), put(ri);
              if(!kind) put(nz);
              o.close();
              all_cuts([&]() -> std::string { return as == 0 ? text(sparsexx::read_rb<R>(file())) : text(sparsexx::read_rb<C>(file())); }, true);
            });
    });
  });
  mc::suite("density-matrices", [&] {
    for(size_t n = 1; n <= (mc::thorough ? 4u : 3u); ++n)
      for(size_t p1 = 0; p1 < 3; ++p1)
        for(size_t p2 = 0; p2 < 3; ++p2)
          mc::test([&] { return mc::fmt("%zu orbitals, padding %zu %zu", n, p1, p2); }, [&] {
            mc::nontrivial();
            size_t l1 = n + p1, l2 = n + p2;
            std::vector<double> D(n * l1), G(n * l2 * l2 * l2);
            for(size_t i = 0; i < D.size(); ++i) D[i] = 1 + i / 3.;
            for(size_t i = 0; i < G.size(); ++i) G[i] = -2 - (double)i / 7.;
            macis::write_rdms_binary(file(), n, D.data(), l1, G.data(), l2);
            all_cuts([&]() {
              std::vector<double> d(n * n), g(n * n * n * n);
              macis::read_rdms_binary(file(), n, d.data(), n, g.data(), n);
              std::string s;
              for(auto x : d) s += mc::fmt(" %.17g", x);
              for(auto x : g) s += mc::fmt(" %.17g", x);
              return s;
            }, false);
          });
  });
}
template <size_t N>
void wave() {
  mc::suite(mc::fmt("wave-function-%zu", N).c_str(), [&] {
    for(int norb : {1, 2, 3, (int)N / 2})
      for(int nd = 1; nd <= 3; ++nd)
        for(int seed = 0; seed < 8; ++seed)
          mc::test([&] { return mc::fmt("width %zu, %d orbitals, %d determinants, variant %d", N, norb, nd, seed); }, [&] {
            mc::nontrivial();
            std::vector<std::bitset<N>> st;
            std::vector<double> c;
            for(int d = 0; d < nd; ++d) {
              std::bitset<N> b;
              for(int o = 0; o < norb; ++o) {
                int k = (seed + d * 3 + o * o + o * (seed >> 1)) & 3;
                if(k & 1) b.set(o);
                if(k & 2) b.set(o + N / 2);
              }
              st.push_back(b);
              c.push_back((d % 2 ? -1 : 1) / (3. + d + seed));
            }
            macis::write_wavefunction<N>(file(), norb, st, c);
            all_cuts([&]() {
              std::vector<std::bitset<N>> s2;
              std::vector<double> c2;
              macis::read_wavefunction<N>(file(), s2, c2);
              std::string s;
              for(auto& b : s2) s += " " + b.to_string();
              for(auto x : c2) s += mc::fmt(" %.17g", x);
              return s;
            }, false);
          });
  });
}
void mc_main() {
  matrices();
  wave<128>();
  wave<64>();
}
