// O03: second-order amplitudes, density matrix and natural orbitals.
#include "orb.hpp"
#include <iostream>
#include <macis/util/moller_plesset.hpp>
#include <sstream>
using namespace orb;
using macis::NumCanonicalOccupied; using macis::NumCanonicalVirtual; using macis::NumOrbital;
namespace {
int extra(int pattern, int array) { return pattern == 0 ? 0 : pattern == 1 ? 1 + array % 2 : (array * 5 + pattern) % 4; }
struct Capture {
  std::ostringstream s;
  std::streambuf* old;
  Capture() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
};
// integrals with well separated orbital energies
Ints gapped(int n, int no, int kind, double u) {
  Ints I = generic(n, kind);
  for(double& x : I.V) x *= u;
  for(double& x : I.T) x *= 0.3;
  for(int p = 0; p < n; ++p) I.t(p, p) += p < no ? -9. + 0.7 * p : 4. + 0.9 * p;
  return I;
}
vec energies(const Ints& I, int no) {
  vec e;
  for(int p = 0; p < I.n; ++p) {
    double x = I.t(p, p);
    for(int i = 0; i < no; ++i) x += 2 * I.v(p, p, i, i) - I.v(p, i, i, p);
    e.push_back(x);
  }
  return e;
}
// the first-order wave function in determinants over doubly excited states; density without the occupied-virtual part
void perturb(const Ints& I, int no, const vec& eps, vec& D, double& e2) {
  const int n = I.n;
  const u64 c = (u64(1) << no) - 1, ref = c | c << n;
  std::map<u64, double> H = column(I, ref);
  std::vector<u64> dets;
  vec C;
  e2 = 0;
  double nrm = 0;
  for(auto& h : H) {
    const u64 part = h.first & ~ref, hole = ref & ~h.first;
    if(pc(part) != 2) continue;
    double den = 0;
    for(int o = 0; o < 2 * n; ++o) den += (hole >> o & 1 ? eps[o % n] : 0.) - (part >> o & 1 ? eps[o % n] : 0.);
    dets.push_back(h.first), C.push_back(h.second / den);
    e2 += h.second * h.second / den;
    nrm += C.back() * C.back();
  }
  vec G;
  rdms(n, dets, C, C, D, G);
  if(D.empty()) D.assign(n * n, 0.);
  for(int i = 0; i < no; ++i) D[i + n * i] += 2 * (1 - nrm);
}
void natural(int n, const vec& D, const vec& on, const vec& C) {
  double tr = 0, to = 0;
  for(int i = 0; i < n; ++i) tr += D[i + n * i], to += on[i];
  if(!mc::near(tr, to, 1e-10)) mc::fail("the occupations sum to %.14g, the density matrix to %.14g", to, tr);
  for(int i = 0; i + 1 < n; ++i) if(on[i] < on[i + 1] - 1e-12) mc::fail("occupations ascend: %s", mc::str(on).c_str());
  for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) {
    double x = 0, y = 0;
    for(int k = 0; k < n; ++k) x += C[k + n * i] * C[k + n * j], y += D[i + n * k] * C[k + n * j];
    if(!mc::near(x, i == j, 1e-11)) mc::fail("natural orbitals %d and %d are not orthonormal", i, j);
    if(!mc::near(y, on[j] * C[i + n * j], 1e-10)) mc::fail("natural orbital %d does not diagonalise the density matrix: %.12g, %.12g", j, y, on[j] * C[i + n * j]);
  }
}
void judge(const Ints& I, int no, int pat, bool basis_only) {
  const int n = I.n, nv = n - no;
  const vec eps = energies(I, no);
  Pad T(I.T, n, 2, extra(pat, 0)), V(I.V, n, 4, extra(pat, 1)), D(n, 2, extra(pat, 2), 7.5), C(n, 2, extra(pat, 3), 8.5);
  auto T0 = T.a, V0 = V.a;
  // amplitudes, with the energies of these integrals and with others
  vec other;
  for(int p = 0; p < n; ++p) other.push_back(p < no ? -std::ldexp(1., p) : std::ldexp(1., p) + 1);
  for(const vec& e : {eps, other}) {
    if(basis_only && &e != &other && e == eps) continue;
    const size_t z = size_t(no) * no * nv * nv;
    vec t(z + 1, GUARD);
    mc::executions(1);
    macis::mp2_t2(NumCanonicalOccupied(no), NumCanonicalVirtual(nv), V.data(), V.ld, e.data(), t.data());
    if(t[z] != GUARD) mc::fail("amplitudes: written past the end");
    for(int b = 0; b < nv; ++b) for(int a = 0; a < nv; ++a) for(int j = 0; j < no; ++j) for(int i = 0; i < no; ++i) {
      const double x = t[i + no * (j + no * (a + nv * b))], y = I.v(i, a + no, j, b + no) / (e[i] + e[j] - e[a + no] - e[b + no]);
      if(!mc::near(x, y, 1e-12)) mc::fail("amplitude (%d,%d,%d,%d) is %.14g, expected %.14g", i, j, a, b, x, y);
    }
  }
  if(basis_only) return;
  mc::executions(2);
  vec want;
  double e2;
  perturb(I, no, eps, want, e2);
  vec d;
  {
    Capture c;
    macis::mp2_1rdm(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.data(), T.ld, V.data(), V.ld, D.data(), D.ld);
    d = D.get("density matrix");
    const std::string s = c.s.str();
    auto at = s.find("EMP2 = ");
    if(at != std::string::npos && !mc::near(std::atof(s.c_str() + at + 7), e2, 2e-5 * std::max(1., std::abs(e2)))) mc::fail("the energy printed is '%s', expected %.8g", s.c_str() + at + 7, e2);
  }
  same(d, want, 1e-10, "density matrix");
  double tr = 0;
  for(int p = 0; p < n; ++p) tr += d[p + n * p];
  if(!mc::near(tr, 2 * no, 1e-10)) mc::fail("the trace of the density matrix is %.14g", tr);
  vec on(n + 1, GUARD);
  {
    Capture c;
    macis::mp2_natural_orbitals(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.data(), T.ld, V.data(), V.ld, on.data(), C.data(), C.ld);
  }
  if(on[n] != GUARD) mc::fail("occupations: written past the end");
  natural(n, want, vec(on.begin(), on.end() - 1), C.get("natural orbitals"));
  if(T.a != T0 || V.a != V0) mc::fail("an input was changed");
}
}  // namespace
void mc_main() {
  somp::set(somp::Config{});
  mc::suite("amplitudes", [] {  // linear in the integrals; the density is quadratic in the amplitudes
    for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n) for(int no = 0; no <= n; ++no) for(int pat = 0; pat < 4; ++pat)
      mc::test([&] { return mc::fmt("%d orbitals, %d occupied, padding %d, every integral", n, no, pat); }, [&] {
        if(no && no < n) mc::nontrivial();
        for(auto& l : unique(n)) {
          Ints I(n);
          put(I, l, 1);
          judge(I, no, pat, true);
        }
      });
  });
  // pairs of distinct integrals between occupied and virtual orbitals decide the quadratic form
  mc::suite("pairs", [] {
    for(int n = 2; n <= (mc::thorough ? 5 : 4); ++n) for(int no = 1; no < n; ++no) {
      std::vector<Label> L;
      for(auto& l : unique(n)) {
        int o = 0;
        if(l.r < 0) continue;
        if((l.p >= no) != (l.q >= no) && (l.r >= no) != (l.s >= no)) L.push_back(l);
        (void)o;
      }
      for(size_t x = 0; x < L.size(); ++x) for(int pat = 0; pat < 4; ++pat)
        mc::test([&] { return mc::fmt("%d orbitals, %d occupied, padding %d, integral %zu with the later ones", n, no, pat, x); }, [&] {
          mc::nontrivial();
          for(size_t y = x; y < L.size(); ++y) {
            Ints I(n);
            for(int p = 0; p < n; ++p) I.t(p, p) = p < no ? -4. + 0.5 * p : 3. + 0.25 * p;
            put(I, L[x], 0.5), put(I, L[y], 0.75);
            judge(I, no, pat, false);
          }
        });
    }
  });
  mc::suite("generic", [] {
    for(int n = 1; n <= (mc::thorough ? 7 : 6); ++n) for(int no = 0; no <= n; ++no) for(int kind = 0; kind < 3; ++kind) for(double u : {0., 0.1, 0.6}) for(int pat = 0; pat < 4; ++pat)
      mc::test([&] { return mc::fmt("%d orbitals, %d occupied, integrals %d, interaction %g, padding %d", n, no, kind, u, pat); }, [&] {
        if(no && no < n) mc::nontrivial();
        judge(gapped(n, no, kind, u), no, pat, false);
      });
    for(auto z : {std::pair{8, 3}, {8, 6}, {9, 4}, {10, 2}, {10, 8}, {12, 1}, {13, 11}, {14, 2}, {16, 15}, {20, 1}, {19, 18}, {20, 17}, {31, 1}})
      for(int pat = 0; pat < 4; ++pat)
        mc::test([&] { return mc::fmt("%d orbitals, %d occupied, padding %d", z.first, z.second, pat); }, [&] {
          mc::nontrivial();
          judge(gapped(z.first, z.second, pat, 0.3), z.second, pat, false);
        });
  });
}
