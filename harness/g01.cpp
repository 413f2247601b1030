// G01: determinants, Hamiltonian matrices and density matrices of the legacy selected-CI headers.
#include "fock.hpp"
#include <bit>
#include <set>
#include <complex>
#include <cstring>
#include <cmz_ed/utils.h++>
#include <cmz_ed/slaterdet.h++>
#include <cmz_ed/integrals.h++>
#include <cmz_ed/hamil.h++>
#include <dbwy/csr_hamiltonian.hpp>
#include <dbwy/sd_build.hpp>
#include <dbwy/cmz_compat_csr_matrix.hpp>
using namespace fock;
static vec eigvals(const lin::Sym& A) {
  vec w;
  std::vector<vec> v;
  lin::jacobi(A, w, v);
  return w;
}
template <size_t N> using DL = dbwy::DoubleLoopHamiltonianGenerator<N>;
template <size_t N> using SB = dbwy::SDBuildHamiltonianGenerator<N>;
template <size_t N> using B = std::bitset<N>;
template <class G> struct Own {
  Ints I;
  G gen;
  explicit Own(const Ints& x) : I(x), gen(size_t(I.n), I.V.data(), I.T.data()) {}
  Own(const Own&) = delete;
};
template <size_t N> B<N> bits(u64 d, int n) {
  B<N> b;
  for(int i = 0; i < n; ++i) b[i] = d >> i & 1, b[i + N / 2] = d >> (i + n) & 1;
  return b;
}
template <size_t N> std::vector<B<N>> many(const std::vector<u64>& d, int n) {
  std::vector<B<N>> v;
  for(u64 x : d) v.push_back(bits<N>(x, n));
  return v;
}
static std::vector<uint32_t> occ(u64 s, int n) {
  std::vector<uint32_t> o;
  for(int i = 0; i < n; ++i) if(s >> i & 1) o.push_back(i);
  return o;
}
template <size_t N> std::vector<std::string> strs(const std::vector<B<N>>& v) {
  std::vector<std::string> s;
  for(auto& b : v) s.push_back(b.to_string());
  std::sort(s.begin(), s.end());
  return s;
}
template <size_t N> void same_set(const std::vector<B<N>>& got, const std::vector<u64>& want, int n, const char* what, u64 d) {
  mc::executions(1);
  if(strs<N>(got) != strs<N>(many<N>(want, n))) mc::fail("%s of %s: %zu determinants, expected %zu (or others)", what, det(d, n).c_str(), got.size(), want.size());
}
// all determinants k excitations (within one spin each, both spins together) away, moving only electrons among the orbitals of `as`
static std::vector<u64> away(u64 d, int n, int k, u64 as) {
  std::vector<u64> v;
  const u64 m = (u64(1) << n) - 1, keep = ~(as | as << n);
  for(u64 x : space(n, pc(d & m), pc(d >> n))) if(pc(x ^ d) == 2 * k && !((x ^ d) & keep)) v.push_back(x);
  return v;
}
template <size_t N> void excitations(u64 d, int n) {
  auto b = bits<N>(d, n);
  const u64 m = (u64(1) << n) - 1;
  std::vector<B<N>> s(3, B<N>(7)), t(2, B<N>(5));
  dbwy::generate_singles_spin(n, b, s);
  same_set<N>(s, away(d, n, 1, m), n, "generate_singles_spin", d);
  s.assign(3, B<N>(7));
  dbwy::generate_singles_doubles_spin(n, b, s, t);
  same_set<N>(s, away(d, n, 1, m), n, "generate_singles_doubles_spin (singles)", d);
  same_set<N>(t, away(d, n, 2, m), n, "generate_singles_doubles_spin (doubles)", d);
  auto all = away(d, n, 1, m);
  all.push_back(d);
  same_set<N>(dbwy::generate_cis_hilbert_space(n, b), all, n, "generate_cis_hilbert_space", d);
  for(u64 x : away(d, n, 2, m)) all.push_back(x);
  same_set<N>(dbwy::generate_cisd_hilbert_space(n, b), all, n, "generate_cisd_hilbert_space", d);
  for(u64 as = 0; as <= m; ++as) {
    s.assign(3, B<N>(7)), t.assign(2, B<N>(5));
    dbwy::generate_singles_spin_as(n, b, s, occ(as, n));
    same_set<N>(s, away(d, n, 1, as), n, "generate_singles_spin_as", d);
    s.assign(3, B<N>(7));
    dbwy::generate_singles_doubles_spin_as(n, b, s, t, occ(as, n));
    same_set<N>(s, away(d, n, 1, as), n, "generate_singles_doubles_spin_as (singles)", d);
    same_set<N>(t, away(d, n, 2, as), n, "generate_singles_doubles_spin_as (doubles)", d);
  }
  std::vector<B<N>> r(1, B<N>(0));
  dbwy::generate_residues(b, r);
  std::vector<u64> w{0};
  for(int i = 0; i < 2 * n; ++i) for(int j = 0; j < i; ++j) if(d >> i & d >> j & 1) w.push_back(d & ~(u64(1) << i | u64(1) << j));
  same_set<N>(r, w, n, "generate_residues", d);
  std::string str;
  for(size_t i = 0; i < N / 2; ++i) str += int(i) < n ? "0ud2"[(d >> i & 1) + 2 * (d >> (i + n) & 1)] : '0';
  if(dbwy::to_canonical_string(b) != str || dbwy::from_canonical_string<N>(str) != b || dbwy::from_canonical_string<N>(str.substr(0, n)) != b) mc::fail("%s: text form %s", det(d, n).c_str(), dbwy::to_canonical_string(b).c_str());
}
template <size_t N> void reference(int n, int na, int nb) {
  mc::executions(1);
  same_set<N>(dbwy::generate_full_hilbert_space<N>(n, na, nb), space(n, na, nb), n, "generate_full_hilbert_space", 0);
  if(dbwy::canonical_hf_determinant<N>(na, nb) != bits<N>(((u64(1) << nb) - 1) << n | ((u64(1) << na) - 1), n)) mc::fail("%d + %d electrons: wrong reference determinant", na, nb);
  std::vector<int> e(n, 0);
  for(;;) {  // every order (ties included) of the orbital energies
    std::vector<double> en(e.begin(), e.end());
    std::vector<int> at(n);
    for(int i = 0; i < n; ++i) at[i] = i;
    std::stable_sort(at.begin(), at.end(), [&](int a, int b) { return e[a] < e[b]; });
    u64 d = 0;
    for(int i = 0; i < na; ++i) d |= u64(1) << at[i];
    for(int i = 0; i < nb; ++i) d |= u64(1) << (at[i] + n);
    mc::executions(1);
    if(dbwy::canonical_hf_determinant<N>(na, nb, en) != bits<N>(d, n)) mc::fail("%d + %d electrons, orbital energies %s: wrong reference determinant", na, nb, mc::str(en).c_str());
    int i = 0;
    while(i < n && ++e[i] == std::min(n, 3)) e[i++] = 0;
    if(i == n) break;
  }
}
template <size_t N> void elements(int n, int na, int nb, const Ints& I) {
  Own<DL<N>> H(I);
  auto sp = space(n, na, nb);
  auto ds = many<N>(sp, n);
  const u64 m = (u64(1) << n) - 1;
  for(size_t j = 0; j < sp.size(); ++j) {
    auto col = column(I, sp[j]);
    for(size_t i = 0; i < sp.size(); ++i) {
      auto it = col.find(sp[i]);
      const double want = it == col.end() ? 0. : it->second, got = H.gen.matrix_element(ds[i], ds[j]);
      if(got != want) mc::fail("<%s|H|%s> is %.17g, expected %.17g", det(sp[i], n).c_str(), det(sp[j], n).c_str(), got, want);
    }
  }
  mc::executions(sp.size() * sp.size());
  if(n > 4) return;
  std::map<u64, double> E;
  auto diag = [&](u64 d) { auto it = E.find(d); if(it == E.end()) it = E.emplace(d, column(I, d)[d]).first; return it->second; };
  for(u64 d : sp) {
    const double e = diag(d);
    const u64 s2[2] = {d & m, d >> n};
    for(int s = 0; s < 2; ++s) {
      auto ss = occ(s2[s], n), os = occ(s2[1 - s], n), v = occ(~s2[s] & m, n), vo = occ(~s2[1 - s] & m, n);
      auto full = [&](u64 same, u64 other) { return s ? same << n | other : same | other << n; };
      for(int p = 0; p < n; ++p) {
        const double want = (diag(full(s2[s] ^ u64(1) << p, s2[1 - s])) - e) * (s2[s] >> p & 1 ? -1 : 1);
        if(H.gen.single_orbital_en(p, ss, os) != want) mc::fail("%s: energy of orbital %d of spin %d is %.17g, expected %.17g", det(d, n).c_str(), p, s, H.gen.single_orbital_en(p, ss, os), want);
      }
      auto cmp = [&](const char* what, u64 x, double a) {
        const double w = diag(x);
        mc::executions(1);
        if(a != w) mc::fail("%s, spin %d: %s -> %s gives %.17g, expected %.17g", what, s, det(d, n).c_str(), det(x, n).c_str(), a, w);
      };
      for(auto i : ss) for(auto a : v) {
        const u64 s1 = s2[s] ^ u64(1) << i ^ u64(1) << a;
        cmp("fast_diag_single", full(s1, s2[1 - s]), H.gen.fast_diag_single(ss, os, i, a, e));
        for(auto j : ss) for(auto b : v) if(i != j && a != b) cmp("fast_diag_ss_double", full(s1 ^ u64(1) << j ^ u64(1) << b, s2[1 - s]), H.gen.fast_diag_ss_double(ss, os, i, j, a, b, e));
        for(auto j : os) for(auto b : vo) cmp("fast_diag_os_double", full(s1, s2[1 - s] ^ u64(1) << j ^ u64(1) << b), H.gen.fast_diag_os_double(ss, os, i, j, a, b, e));
      }
    }
  }
}
template <class M> std::map<std::pair<int, int>, double> entries(const M& A, int m, int n) {
  if(A.m() != m || A.n() != n) mc::fail("matrix is %ld x %ld, expected %d x %d", (long)A.m(), (long)A.n(), m, n);
  std::map<std::pair<int, int>, double> e;
  for(int i = 0; i < m; ++i) for(auto k = A.rowptr()[i] - A.indexing(); k < A.rowptr()[i + 1] - A.indexing(); ++k) {
    int j = A.colind()[k] - A.indexing();
    if(j < 0 || j >= n) mc::fail("column %d of %d", j, n);
    if(!e.emplace(std::make_pair(i, j), A.nzval()[k]).second) mc::fail("entry (%d,%d) stored twice", i, j);
  }
  return e;
}
static void cmp_entries(const std::map<std::pair<int, int>, double>& got, const std::vector<u64>& bra, const std::vector<u64>& ket, const Ints& I, double tol, int maxex, const char* what) {
  size_t stored = 0;
  for(size_t j = 0; j < ket.size(); ++j) {
    auto col = column(I, ket[j]);
    for(size_t i = 0; i < bra.size(); ++i) {
      auto it = col.find(bra[i]);
      double want = it == col.end() || pc(bra[i] ^ ket[j]) > 2 * maxex ? 0. : it->second;
      if(bra[i] == 0 || ket[j] == 0) want = 0;  // stands for a determinant that is left out
      if(!(std::abs(want) > tol)) want = 0;
      auto g = got.find({int(i), int(j)});
      if((g == got.end() ? 0. : g->second) != want) mc::fail("%s: <%s|H|%s> is %.17g, expected %.17g", what, det(bra[i], I.n).c_str(), det(ket[j], I.n).c_str(), g == got.end() ? 0. : g->second, want);
      if(g != got.end()) {
        ++stored;
        if(want == 0) mc::fail("%s: a zero is stored", what);
      }
    }
  }
  mc::executions(1);
}
template <size_t N, class idx, class G> void block(Own<G>& H, const std::vector<u64>& bra, const std::vector<u64>& ket, double tol, int maxex, const char* what) {
  auto b = many<N>(bra, H.I.n), k = many<N>(ket, H.I.n);
  auto A = dbwy::make_csr_hamiltonian_block<idx>(b.begin(), b.end(), k.begin(), k.end(), H.gen, tol);
  cmp_entries(entries(A, bra.size(), ket.size()), bra, ket, H.I, tol, maxex, what);
  if(b != many<N>(bra, H.I.n) || k != many<N>(ket, H.I.n)) mc::fail("determinants modified");
}
template <size_t N> void blocks(const Ints& I, const std::vector<u64>& d) {
  Own<DL<N>> H(I);
  Own<SB<N>> S(I);
  for(double tol : {0., 1e-12, 0.5}) {
    block<N, int32_t>(H, d, d, tol, 2, "double loop"), block<N, int64_t>(H, d, d, tol, 2, "double loop, 64 bit");
    block<N, int32_t>(S, d, d, tol, 2, "excitations"), block<N, int64_t>(S, d, d, tol, 2, "excitations, 64 bit");
  }
  S.gen.SetJustSingles(true);
  if(!S.gen.GetJustSingles()) mc::fail("flag not set");
  block<N, int32_t>(S, d, d, 0., 1, "single excitations");
  S.gen.SetJustSingles(false);
  block<N, int32_t>(S, d, d, 0., 2, "excitations, again");
  for(size_t cut = 0; cut <= d.size(); cut += d.size() > 40 && cut > 2 ? std::max<size_t>(1, std::min(d.size() - cut, d.size() / 3)) : 1) {  // a row block, its own columns left out
    std::vector<u64> bra(d.begin(), d.begin() + cut), ket = d;
    block<N, int32_t>(H, bra, d, 0., 2, "row block"), block<N, int32_t>(H, d, bra, 0., 2, "column block");
    block<N, int32_t>(S, bra, d, 0., 2, "row block of excitations"), block<N, int32_t>(S, d, bra, 0., 2, "column block of excitations");
    S.gen.SetJustSingles(true);
    block<N, int32_t>(S, bra, d, 0., 1, "row block of single excitations");
    S.gen.SetJustSingles(false);
    for(size_t i = 0; i < cut; ++i) ket[i] = 0;
    block<N, int32_t>(H, bra, ket, 0., 2, "row block with columns left out"), block<N, int32_t>(S, bra, ket, 0., 2, "row block of excitations with columns left out");
  }
}
template <class M> void tile(const M& A, int lo, int cols, std::map<std::pair<int, int>, double>& e, int rows, bool diag) {
  for(auto& x : entries(A, rows, cols))
    if(!e.emplace(std::make_pair(x.first.first, x.first.second + (diag ? lo : 0)), x.second).second) mc::fail("entry (%d,%d) is in both tiles", x.first.first + lo, x.first.second);
}
template <size_t N, template <size_t> class G> void dist(const Ints& I, const std::vector<u64>& d, int np) {
  mc::mpi(np, [&] {
    return [&](int rank) {
      Own<G<N>> H(I);
      auto ds = many<N>(d, I.n);
      auto A = dbwy::make_dist_csr_hamiltonian<int32_t>(mc::comm(), ds.begin(), ds.end(), H.gen, 0.);
      auto [lo, hi] = A.row_bounds(rank);
      std::map<std::pair<int, int>, double> e;
      tile(A.diagonal_tile(), lo, hi - lo, e, hi - lo, true);
      if(np > 1) tile(A.off_diagonal_tile(), lo, d.size(), e, hi - lo, false);
      cmp_entries(e, std::vector<u64>(d.begin() + lo, d.begin() + hi), d, I, 0., 2, "distributed matrix");
      if(many<N>(d, I.n) != ds) mc::fail("determinants modified");
    };
  }, [](const smpi::Result&) {}, [] { smpi::Opts o = mc::few_schedules(); o.modes = {0}; return o; }());
}
template <size_t N, template <size_t> class G> void densities(int n, const std::vector<u64>& d, const vec& C, const char* what) {
  Own<G<N>> H(generic(n));
  vec g, Gm, T(n * n), V(n * n * n * n);
  rdms(n, d, C, C, g, Gm);
  for(size_t i = 0; i < T.size(); ++i) T[i] = 3. + i;
  for(size_t i = 0; i < V.size(); ++i) V[i] = 1. - double(i);
  auto b = many<N>(d, n);
  auto c = C;
  H.gen.form_rdms(b.begin(), b.end(), b.begin(), b.end(), c.data(), T.data(), V.data());
  if(c != C || b != many<N>(d, n)) mc::fail("%s: wave function modified", what);
  for(size_t i = 0; i < T.size(); ++i) if(T[i] - 3. - i != g[i]) mc::fail("%s: one-body density (%d,%d) is %.17g, expected %.17g", what, int(i % n), int(i / n), T[i] - 3. - i, g[i]);
  // the two-body matrix is defined up to the permutational symmetry of the integrals
  for(size_t i = 0; i < V.size(); ++i) V[i] = V[i] - 1. + double(i);
  auto sym = [&](const vec& x, int p, int q, int r, int s) {
    auto a = [&](int p, int q, int r, int s) { return x[p + n * (q + n * (r + n * s))]; };
    return a(p, q, r, s) + a(q, p, r, s) + a(p, q, s, r) + a(q, p, s, r) + a(r, s, p, q) + a(s, r, p, q) + a(r, s, q, p) + a(s, r, q, p);
  };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s)
    if(sym(V, p, q, r, s) != sym(Gm, p, q, r, s)) mc::fail("%s: two-body elements equivalent to (%d,%d,%d,%d) add up to %.17g, expected %.17g", what, p, q, r, s, sym(V, p, q, r, s), sym(Gm, p, q, r, s));
  vec T2(n * n, 1.);
  H.gen.form_rdms(b.begin(), b.end(), b.begin(), b.end(), c.data(), T2.data());
  for(size_t i = 0; i < T.size(); ++i) if(T2[i] - 1. != g[i]) mc::fail("%s: one-body density alone (%d,%d) is %.17g, expected %.17g", what, int(i % n), int(i / n), T2[i] - 1., g[i]);
  mc::executions(2);
}
template <size_t N> void rotation(int n, int na, int nb, const Ints& I, const std::vector<u64>& d, const vec& C) {
  Own<SB<N>> H(I);
  auto b = many<N>(d, n);
  auto c = C;
  vec g(n * n, 0.), Gm(n * n * n * n, 0.);
  H.gen.form_rdms(b.begin(), b.end(), b.begin(), b.end(), c.data(), g.data(), Gm.data());
  auto g0 = g;
  H.gen.rotate_hamiltonian_ordm(g.data());
  mc::executions(1);
  if(g != g0) mc::fail("density matrix modified");
  // the rotated integrals have the same spectrum in the full space
  auto sp = space(n, na, nb);
  vec w0, w1;
  { auto M = matrix(I, sp); w0 = eigvals(M); }
  {
    Ints J = H.I;
    for(int p = 0; p < n; ++p) for(int q = 0; q < p; ++q) if(!mc::near(J.t(p, q), J.t(q, p), 1e-9)) mc::fail("rotated one-body integrals are not symmetric");
    auto M = matrix(J, sp);
    w1 = eigvals(M);
  }
  for(size_t i = 0; i < w0.size(); ++i) if(!mc::near(w0[i], w1[i], 1e-8)) mc::fail("eigenvalue %zu is %.12g after rotation to natural orbitals, %.12g before", i, w1[i], w0[i]);
  // and the generator uses them
  auto ds = many<N>(sp, n);
  for(size_t j = 0; j < sp.size(); ++j) { auto col = column(H.I, sp[j]); for(size_t i = 0; i < sp.size(); ++i) if(!mc::near(H.gen.matrix_element(ds[i], ds[j]), col.count(sp[i]) ? col[sp[i]] : 0., 1e-9)) mc::fail("matrix elements do not follow the rotated integrals"); }
  // the orbitals are the natural ones: energy functional of the old density in the new orbitals; sum_pq T'(pq) g'(pq) with g' diagonal = occupations
  lin::Sym G(n);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) G(p, q) = g0[p + n * q];
  auto occs = eigvals(G);
  std::sort(occs.rbegin(), occs.rend());
  double e0 = 0, e1 = 0;
  for(int i = 0; i < n * n; ++i) e0 += g0[i] * I.T[i];
  for(int i = 0; i < n; ++i) e1 += occs[i] * H.I.t(i, i);
  if(!mc::near(e0, e1, 1e-8)) mc::fail("one-body energy in natural orbitals is %.12g, expected %.12g", e1, e0);
}
// exact wave functions: small integers
static std::vector<vec> waves(size_t n) {
  std::vector<vec> v;
  vec a(n), b(n);
  for(size_t i = 0; i < n; ++i) a[i] = int(i % 5) - 2 + (i % 5 == 2), b[i] = int((i * 7 + 3) % 4) - 1;
  v.push_back(a), v.push_back(b);
  return v;
}
// many orbitals and electrons
template <size_t M> std::vector<B<M>> patterns(int top) {
  std::vector<B<M>> v;
  for(int k : {0, 1, 2, 5, 11, 17, top / 2, top - 2, top}) for(int s : {1, 3, 7}) for(int t : {0, 1}) {
    if(k > top || (k > 17 && s == 7)) continue;
    B<M> b;
    int at = t ? top - 1 : 0, left = k;
    while(left) {
      if(!b[at]) b[at] = 1, --left; else { at = (at + 1) % top; continue; }
      at = (at + s) % top;
    }
    if(std::find(v.begin(), v.end(), b) == v.end()) v.push_back(b);
  }
  return v;
}
template <size_t M> std::vector<int> ones(const B<M>& b, int top, bool set) {
  std::vector<int> v;
  for(int i = 0; i < top; ++i) if(b[i] == set) v.push_back(i);
  return v;
}
template <size_t M> int move(B<M>& b, int from, int to) {  // sign of a+_to a_from
  int c = 0;
  for(int i = std::min(from, to) + 1; i < std::max(from, to); ++i) c += b[i];
  b[from] = 0, b[to] = 1;
  return c & 1 ? -1 : 1;
}
template <size_t M> void signs(const B<M>& ket, int top) {
  const auto o = ones<M>(ket, top, true), v = ones<M>(ket, top, false);
  for(int i : o) for(int a : v) {
    B<M> bra = ket;
    const int want = move<M>(bra, i, a);
    auto [p, q, s] = dbwy::single_excitation_sign_indices(bra, ket, bra ^ ket);
    mc::executions(1);
    if(int(p) != i || int(q) != a || s != want) mc::fail("%s, %d -> %d: returns %d -> %d, sign %g, expected %d", ket.to_string().c_str(), i, a, int(p), int(q), double(s), want);
    if(dbwy::single_excitation_sign(ket, a, i) != want) mc::fail("%s, %d -> %d: sign %g, expected %d", ket.to_string().c_str(), i, a, dbwy::single_excitation_sign(ket, a, i), want);
  }
  const size_t so = 1 + o.size() / 9, sv = 1 + v.size() / 9;
  for(size_t i = 0; i < o.size(); i += so) for(size_t j = 0; j < i; j += so) for(size_t a = 0; a < v.size(); a += sv) for(size_t b = 0; b < a; b += sv) {
    B<M> bra = ket, x = ket;
    bra[o[i]] = bra[o[j]] = 0, bra[v[a]] = bra[v[b]] = 1;
    auto [o1, v1, o2, v2, s] = dbwy::doubles_sign_indices(bra, ket, bra ^ ket);
    mc::executions(1);
    if(int(std::min(o1, o2)) != o[j] || int(std::max(o1, o2)) != o[i] || int(std::min(v1, v2)) != v[b] || int(std::max(v1, v2)) != v[a]) mc::fail("%s, %d,%d -> %d,%d: returns %d,%d -> %d,%d", ket.to_string().c_str(), o[j], o[i], v[b], v[a], int(o1), int(o2), int(v1), int(v2));
    int want = move<M>(x, o1, v1);
    want *= move<M>(x, o2, v2);
    if(s != want || dbwy::doubles_sign(bra, ket, bra ^ ket) != want) mc::fail("%s, %d,%d -> %d,%d: sign %g, expected %d", ket.to_string().c_str(), o[j], o[i], v[b], v[a], double(s), want);
  }
}
template <size_t N> void equal_sets(std::vector<B<N>> got, std::vector<B<N>> want, const char* what, const B<N>& d) {
  mc::executions(1);
  if(strs<N>(got) != strs<N>(want)) mc::fail("%s of %s: %zu determinants, expected %zu (or others)", what, d.to_string().c_str(), got.size(), want.size());
}
template <size_t N> void spread(const B<N / 2>& up, const B<N / 2>& dn, int top, bool two) {
  B<N> d;
  for(int i = 0; i < top; ++i) d[i] = up[i], d[i + N / 2] = dn[i];
  std::vector<uint32_t> half;
  for(int i = 0; i < top; ++i) if(i % 3 != 1) half.push_back(i);
  std::vector<B<N>> s[2], t[2], r, all;
  auto in = [&](int i) { return i % 3 != 1; };
  std::vector<int> o[2] = {ones<N / 2>(up, top, true), ones<N / 2>(dn, top, true)}, v[2] = {ones<N / 2>(up, top, false), ones<N / 2>(dn, top, false)};
  for(int x = 0; x < 2; ++x) for(int i : o[x]) for(int a : v[x]) {
    B<N> b = d;
    b.flip(i + x * N / 2).flip(a + x * N / 2);
    s[0].push_back(b);
    if(in(i) && in(a)) s[1].push_back(b);
    if(!two) continue;
    for(int y = 0; y <= x; ++y) for(int j : o[y]) for(int c : v[y]) {
      if(x == y && !(j < i && c != a && (c < a || true))) continue;
      if(x == y && c > a) continue;
      B<N> e = b;
      e.flip(j + y * N / 2).flip(c + y * N / 2);
      t[0].push_back(e);
      if(in(i) && in(a) && in(j) && in(c)) t[1].push_back(e);
    }
  }
  std::vector<B<N>> S(2, B<N>(7)), T(1, B<N>(5));
  dbwy::generate_singles_spin(top, d, S), equal_sets<N>(S, s[0], "generate_singles_spin", d);
  dbwy::generate_singles_spin_as(top, d, S, half), equal_sets<N>(S, s[1], "generate_singles_spin_as", d);
  all = {d}, all.insert(all.end(), s[0].begin(), s[0].end());
  equal_sets<N>(dbwy::generate_cis_hilbert_space(top, d), all, "generate_cis_hilbert_space", d);
  if(two) {
    dbwy::generate_singles_doubles_spin(top, d, S, T), equal_sets<N>(S, s[0], "generate_singles_doubles_spin (singles)", d), equal_sets<N>(T, t[0], "generate_singles_doubles_spin (doubles)", d);
    dbwy::generate_singles_doubles_spin_as(top, d, S, T, half), equal_sets<N>(S, s[1], "generate_singles_doubles_spin_as (singles)", d), equal_sets<N>(T, t[1], "generate_singles_doubles_spin_as (doubles)", d);
    all.insert(all.end(), t[0].begin(), t[0].end());
    equal_sets<N>(dbwy::generate_cisd_hilbert_space(top, d), all, "generate_cisd_hilbert_space", d);
  }
  std::vector<int> bitsof;
  for(size_t i = 0; i < N; ++i) if(d[i]) bitsof.push_back(i);
  all.clear();
  for(size_t i = 0; i < bitsof.size(); ++i) for(size_t j = 0; j < i; ++j) all.push_back(B<N>(d).flip(bitsof[i]).flip(bitsof[j]));
  dbwy::generate_residues(d, r), equal_sets<N>(r, all, "generate_residues", d);
  std::string str;
  for(size_t i = 0; i < N / 2; ++i) str += "0ud2"[d[i] + 2 * d[i + N / 2]];
  if(dbwy::to_canonical_string(d) != str || dbwy::from_canonical_string<N>(str) != d) mc::fail("%s: text form %s", d.to_string().c_str(), dbwy::to_canonical_string(d).c_str());
  // order
  auto& L = s[0];
  for(size_t i = 0; i < L.size(); i += 1 + L.size() / 60) for(size_t j = 0; j < L.size(); j += 1 + L.size() / 60)
    if(dbwy::bitset_less(L[i], L[j]) != (L[i].to_string() < L[j].to_string())) mc::fail("%s < %s is %d", L[i].to_string().c_str(), L[j].to_string().c_str(), int(dbwy::bitset_less(L[i], L[j])));
}
template <size_t N> void many_orbitals() {
  mc::suite(mc::fmt("many-orbitals-%zu", N).c_str(), [&] {
    const int top = N / 2;
    auto P = patterns<N / 2>(top);
    for(size_t i = 0; i < P.size(); ++i) mc::test([&] { return mc::fmt("signs, string %s", P[i].to_string().c_str()); }, [&] { mc::nontrivial(); signs<N / 2>(P[i], top); });
    for(int m : {top, 24}) {
      auto Q = patterns<N / 2>(m);
      for(size_t i = 0; i < Q.size(); ++i) for(size_t j : {(i * 5 + 2) % Q.size(), Q.size() - 1 - i})
        mc::test([&] { return mc::fmt("%d orbitals, strings %s and %s", m, Q[i].to_string().c_str(), Q[j].to_string().c_str()); }, [&] {
          mc::nontrivial();
          auto w = [&](const B<N / 2>& x) { return x.count() * (m - x.count()); };
          spread<N>(Q[i], Q[j], m, (w(Q[i]) + w(Q[j])) * (w(Q[i]) + w(Q[j])) < 120000);
        });
    }
    for(int n : {17, 24, 32, 33, 40, 63}) {
      if(n > top) continue;
      mc::test([&] { return mc::fmt("spaces and reference determinants of %d orbitals", n); }, [&] {
        mc::nontrivial();
        int z[][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 1}, {1, 2}, {0, 3}};
        for(auto& s : z) {
          std::vector<B<N>> all;
          auto combs = [&](int k) {
            std::vector<std::vector<int>> c{{}};
            for(int e = 0; e < k; ++e) { std::vector<std::vector<int>> d; for(auto& x : c) for(int i = x.empty() ? 0 : x.back() + 1; i < n; ++i) d.push_back(x), d.back().push_back(i); c = d; }
            return c;
          };
          auto ca = combs(s[0]), cb = combs(s[1]);
          if(ca.size() * cb.size() > 50000) continue;
          for(auto& a : ca) for(auto& b : cb) { B<N> d; for(int i : a) d[i] = 1; for(int i : b) d[i + N / 2] = 1; all.push_back(d); }
          equal_sets<N>(dbwy::generate_full_hilbert_space<N>(n, s[0], s[1]), all, "generate_full_hilbert_space", B<N>());
        }
        for(int kind = 0; kind < 4; ++kind) {
          std::vector<double> e(n);
          for(int i = 0; i < n; ++i) { const int r = i * 7 % 5; e[i] = kind == 0 ? r : kind == 1 ? -r : kind == 2 ? -1 + 1e-9 * (i * 11 % n) : 1e-12 * (n - i); }
          std::vector<int> at(n);
          for(int i = 0; i < n; ++i) at[i] = i;
          std::stable_sort(at.begin(), at.end(), [&](int a, int b) { return e[a] < e[b]; });
          for(int na = 0; na <= n; ++na) {
            const int nb = (na * 3 + kind) % (n + 1);
            B<N> d, f;
            for(int i = 0; i < na; ++i) d[at[i]] = 1, f[i] = 1;
            for(int i = 0; i < nb; ++i) d[at[i] + N / 2] = 1, f[i + N / 2] = 1;
            mc::executions(2);
            if(dbwy::canonical_hf_determinant<N>(na, nb, e) != d) mc::fail("%d + %d electrons, orbital energies %s: wrong reference determinant", na, nb, mc::str(e).c_str());
            if(dbwy::canonical_hf_determinant<N>(na, nb) != f) mc::fail("%d + %d electrons: wrong reference determinant", na, nb);
          }
        }
      });
    }
  });
}
template <size_t N> void long_rows() {  // tens of thousands of columns
  mc::suite(mc::fmt("long-rows-%zu", N).c_str(), [&] {
    for(int g = 0; g < 2; ++g) mc::test([&] { return mc::fmt("two rows of 10 orbitals, 5 + 5 electrons, %s", g ? "excitations" : "double loop"); }, [&] {
      mc::nontrivial();
      const int n = 10;
      auto sp = space(n, 5, 5);
      Ints I = generic(n);
      std::vector<u64> bra{sp[7], sp[sp.size() - 100]};
      std::map<std::pair<int, int>, double> want, got;
      std::map<u64, int> at;
      for(size_t j = 0; j < sp.size(); ++j) at[sp[j]] = j;
      for(int i = 0; i < 2; ++i) for(auto& x : column(I, bra[i])) if(x.second != 0) want[{i, at.at(x.first)}] = x.second;
      auto b = many<N>(bra, n), k = many<N>(sp, n);
      if(g) { Own<SB<N>> S(I); got = entries(dbwy::make_csr_hamiltonian_block<int32_t>(b.begin(), b.end(), k.begin(), k.end(), S.gen, 0.), 2, sp.size()); }
      else { Own<DL<N>> H(I); got = entries(dbwy::make_csr_hamiltonian_block<int32_t>(b.begin(), b.end(), k.begin(), k.end(), H.gen, 0.), 2, sp.size()); }
      mc::executions(1);
      for(auto& x : want) if(!got.count(x.first) || !mc::near(got[x.first], x.second, 1e-10)) mc::fail("entry (%d,%d) is %.17g, expected %.17g", x.first.first, x.first.second, got.count(x.first) ? got[x.first] : 0., x.second);
      for(auto& x : got) if(!want.count(x.first) && !mc::near(x.second, 0, 1e-10)) mc::fail("entry (%d,%d) is %.17g, expected none", x.first.first, x.first.second, x.second);
    });
  });
}
template <size_t N> void everything() {
  const int m = mc::thorough ? 5 : 4;
  for(int n = 1; n <= m; ++n) {
    mc::suite(mc::fmt("excitations-%zu-%d", N, n).c_str(), [&] {
      for(u64 d = 0; d < u64(1) << (2 * n); ++d)
        mc::test([&] { return mc::fmt("%d orbitals, determinant %s", n, det(d, n).c_str()); }, [&] { if(d) mc::nontrivial(); excitations<N>(d, n); });
      for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb)
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons", n, na, nb); }, [&] { mc::nontrivial(); reference<N>(n, na, nb); });
    });
    auto Bs = basis(n);
    mc::suite(mc::fmt("elements-%zu-%d", N, n).c_str(), [&] {
      for(size_t k = 0; k < Bs.size(); ++k) for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb)
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integral set %zu", n, na, nb, k); }, [&] { if(na + nb) mc::nontrivial(); elements<N>(n, na, nb, Bs[k]); });
    });
    if(n > 4) continue;
    mc::suite(mc::fmt("matrices-%zu-%d", N, n).c_str(), [&] {
      for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
        if(na + nb == 0) continue;
        auto sp = space(n, na, nb);
        auto run = [&](const Ints& I, const std::vector<u64>& d, const std::string& name) {
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, %s", n, na, nb, name.c_str()); }, [&] { if(d.size() > 1) mc::nontrivial(); blocks<N>(I, d); });
        };
        if(n <= 3) for(size_t k = 0; k < Bs.size(); ++k) run(Bs[k], sp, mc::fmt("all determinants, integral set %zu", k));
        if(sp.size() <= (mc::thorough ? 12u : 9u) && n <= 3)
          for(u64 s = 0; s < u64(1) << sp.size(); s += 1) {
            std::vector<u64> d;
            for(size_t i = 0; i < sp.size(); ++i) if(s >> i & 1) d.push_back(sp[i]);
            if(s & 1) std::reverse(d.begin(), d.end());
            if(N == 64 || s % 7 == 3) run(Bs.back(), d, mc::fmt("determinants %llx", (unsigned long long)s));
          }
        if(n == 4) run(Bs[Bs.size() / 2], sp, "all determinants"), run(Bs[0], sp, "all determinants, other integrals");
        if(N == 64 && n >= 2 && n <= 3)
          for(int np = 1; np <= 4; ++np) for(int g = 0; g < 2; ++g) for(size_t sz = 1; sz <= sp.size(); sz += (sp.size() > 5 ? 3 : 1))
            mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, first %zu determinants on %d processes, %s", n, na, nb, sz, np, g ? "excitations" : "double loop"); }, [&] {
              if(sz > 1) mc::nontrivial();
              std::vector<u64> d(sp.begin(), sp.begin() + sz);
              g ? dist<N, SB>(Bs.back(), d, np) : dist<N, DL>(Bs.back(), d, np);
            });
      }
    });
    mc::suite(mc::fmt("densities-%zu-%d", N, n).c_str(), [&] {
      for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
        if(na + nb == 0) continue;
        auto sp = space(n, na, nb);
        auto run = [&](const std::vector<u64>& d, const vec& C, const std::string& name) {
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, %s", n, na, nb, name.c_str()); }, [&] {
            mc::nontrivial();
            densities<N, DL>(n, d, C, "double loop"), densities<N, SB>(n, d, C, "excitations");
          });
        };
        for(auto& C : waves(sp.size())) run(sp, C, "generic");
        for(size_t i = 0; i < sp.size(); ++i) for(size_t j = 0; j <= i; ++j) {
          if(n == 4 && N == 128 && (i + j) % 5) continue;
          vec C(sp.size(), 0.);
          C[i] = 3, C[j] = 5;
          run(sp, C, mc::fmt("determinants %zu and %zu", i, j));
        }
        if(n <= 3) for(int k = 0; k < 2; ++k) for(auto& C : waves(sp.size()))
          mc::test([&] { return mc::fmt("natural orbitals: %d orbitals, %d + %d electrons, integrals %d", n, na, nb, k); }, [&] { mc::nontrivial(); rotation<N>(n, na, nb, generic(n, k), sp, C); });
      }
    });
  }
  mc::suite(mc::fmt("larger-%zu", N).c_str(), [&] {  // lists of a few hundred
    struct { int n, a, b; } z[] = {{5, 2, 3}, {6, 2, 1}, {7, 6, 2}, {8, 1, 1}, {8, 7, 7}, {12, 1, 1}};
    for(auto s : z) for(int kind = 0; kind < 2; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d", s.n, s.a, s.b, kind); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b);
        if(kind) std::reverse(sp.begin(), sp.end()), sp.resize(sp.size() * 5 / 7);
        Ints I = generic(s.n, kind);  // whole numbers
        for(auto& x : I.T) x = std::round(1009 * x);
        for(auto& x : I.V) x = std::round(1009 * x);
        blocks<N>(I, sp);
        auto C = waves(sp.size())[kind];
        densities<N, DL>(s.n, sp, C, "double loop"), densities<N, SB>(s.n, sp, C, "excitations");
        if(N == 64) for(int np : {3, 7}) kind ? dist<N, SB>(I, sp, np) : dist<N, DL>(I, sp, np);
      });
  });
  many_orbitals<N>();
  if(N == 64) long_rows<N>();
  mc::suite(mc::fmt("rotations-%zu", N).c_str(), [&] {
    struct { int n, a, b; } z[] = {{5, 2, 1}, {7, 1, 1}, {8, 7, 1}, {9, 1, 1}};
    for(auto s : z) for(int k = 0; k < 2; ++k)
      mc::test([&] { return mc::fmt("natural orbitals: %d orbitals, %d + %d electrons, integrals %d", s.n, s.a, s.b, k); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b);
        rotation<N>(s.n, s.a, s.b, generic(s.n, k), sp, waves(sp.size())[k]);
      });
  });
  mc::suite(mc::fmt("wide-%zu", N).c_str(), [&] {
    const int top = N == 64 ? 32 : mc::thorough ? 64 : 40, w = 3;
    for(int first = 0; first + w <= top; first += (mc::thorough ? 3 : 7))
      mc::test([&] { return mc::fmt("%d orbitals, electrons in those from %d on", top, first); }, [&] {
        mc::nontrivial();
        Ints I(top), J(w);
        for(auto& x : I.V) x = 1e30;
        for(auto& x : I.T) x = 1e30;
        int c = 1;
        for(auto& l : unique(w)) {
          const double x = c = (c * 37 + 11) % 4093;
          put(J, l, x);
          put(I, Label{l.p + first, l.q + first, l.r < 0 ? -1 : l.r + first, l.s + first}, x);
        }
        Own<DL<N>> H(I);
        for(int na = 0; na <= w; ++na) for(int nb = 0; nb <= w; ++nb) {
          auto sp = space(w, na, nb);
          std::vector<B<N>> ds;
          for(u64 d : sp) { B<N> b; for(int i = 0; i < w; ++i) b[first + i] = d >> i & 1, b[first + i + N / 2] = d >> (i + w) & 1; ds.push_back(b); }
          for(size_t j = 0; j < sp.size(); ++j) {
            auto col = column(J, sp[j]);
            for(size_t i = 0; i < sp.size(); ++i) {
              const double want = col.count(sp[i]) ? col[sp[i]] : 0., got = H.gen.matrix_element(ds[i], ds[j]);
              if(got != want) mc::fail("orbitals from %d: <%s|H|%s> is %.17g, expected %.17g", first, det(sp[i], w).c_str(), det(sp[j], w).c_str(), got, want);
            }
          }
          mc::executions(sp.size() * sp.size());
        }
      });
  });
}
void part1();
#if PART == 0
namespace ed = cmz::ed;
void mc_main() {
  everything<64>(), part1();
  mc::suite("legacy-determinants", [&] {  // determinants of the exact-diagonalisation library as input
    struct { int n, a, b; } z[] = {{12, 1, 1}, {16, 1, 1}, {17, 1, 1}, {24, 0, 2}, {32, 1, 0}, {32, 31, 32}};
    for(auto s : z) mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons", s.n, s.a, s.b); }, [&] {
      mc::nontrivial();
      auto sp = space(s.n, s.a, s.b);
      std::vector<ed::slater_det> v;
      for(u64 d : sp) v.push_back(ed::slater_det(d, s.n, s.a, s.b));
      Ints I = generic(s.n);
      for(auto& x : I.T) x = std::round(1009 * x);
      for(auto& x : I.V) x = std::round(1009 * x);
      Own<DL<64>> H(I);
      auto A = dbwy::make_csr_hamiltonian_block<int32_t>(v.begin(), v.end(), v.begin(), v.end(), H.gen, 0.);
      cmp_entries(entries(A, sp.size(), sp.size()), sp, sp, I, 0., 2, "matrix");
    });
    for(int n = 1; n <= 3; ++n) {
      auto Bs = basis(n);
      for(size_t k = 0; k < Bs.size(); ++k) for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
        if(na + nb == 0) continue;
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integral set %zu", n, na, nb, k); }, [&] {
          mc::nontrivial();
          auto sp = space(n, na, nb);
          std::vector<ed::slater_det> v;
          for(u64 d : sp) v.push_back(ed::slater_det(d, n, na, nb));
          Own<DL<64>> H(Bs[k]);
          auto A = dbwy::make_csr_hamiltonian_block<int32_t>(v.begin(), v.end(), v.begin(), v.end(), H.gen, 0.);
          cmp_entries(entries(A, sp.size(), sp.size()), sp, sp, Bs[k], 0., 2, "matrix");
          for(size_t cut = 0; cut <= v.size(); ++cut) {
            auto R = dbwy::make_csr_hamiltonian_block<int32_t>(v.begin(), v.begin() + cut, v.begin(), v.end(), H.gen, 0.);
            cmp_entries(entries(R, cut, sp.size()), std::vector<u64>(sp.begin(), sp.begin() + cut), sp, Bs[k], 0., 2, "row block");
          }
        });
      }
    }
  });
}
#else
void part1() { everything<128>(), many_orbitals<256>(); }
#endif
