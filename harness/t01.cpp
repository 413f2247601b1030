// T01: integral transformation.
#include "lin.hpp"
#include <macis/util/transform.hpp>
using vec = std::vector<double>;
static size_t pw(size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; }
constexpr double G = 4711.25;
// one case: integer data, so every result is exact
void run(int no, int nn, const vec& C, int unit2, int unit4, int px, int pc, int py, bool inplace) {
  mc::executions(1);
  const size_t lx = no + px, lc = no + pc, ly = inplace ? lx : nn + py;
  // coefficients
  vec c(lc * nn + 1, G);
  for(int q = 0; q < nn; ++q) for(int i = 0; i < no; ++i) c[i + q * lc] = C[i + q * no];
  auto x2 = [&](int i, int j) { return unit2 < 0 ? (i * 3 + j * 7 + i * j * 2 + unit2) % 11 - 4. : double(i + j * no == unit2); };
  auto x4 = [&](int i, int j, int k, int l) { return unit4 < 0 ? (i * 3 + j * 7 + k * 5 + l * 2 + i * k + j * l * 2 + unit4) % 13 - 5. : double(i + no * (j + no * (k + no * l)) == unit4); };
  {
    vec X(pw(lx, 2) + 1, G), Y(pw(ly, 2) + 1, G);
    for(int j = 0; j < no; ++j) for(int i = 0; i < no; ++i) X[i + j * lx] = x2(i, j);
    auto X0 = X, c0 = c, want = inplace ? X : Y;
    for(int q = 0; q < nn; ++q) for(int p = 0; p < nn; ++p) {
      double s = 0;
      for(int i = 0; i < no; ++i) for(int j = 0; j < no; ++j) s += C[i + p * no] * C[j + q * no] * x2(i, j);
      want[p + q * ly] = s;
    }
    vec& out = inplace ? X : Y;
    macis::two_index_transform(no, nn, X.data(), lx, c.data(), lc, out.data(), ly);
    for(size_t i = 0; i < out.size(); ++i)
      if(!mc::near(out[i], want[i], 1e-12)) mc::fail("two-index: position (%zu,%zu) holds %g, expected %g", i % ly, i / ly, out[i], want[i]);
    if(c != c0 || (!inplace && X != X0)) mc::fail("two-index: an input was modified");
  }
  {
    vec X(pw(lx, 4) + 1, G), Y(pw(ly, 4) + 1, G);
    for(int l = 0; l < no; ++l) for(int k = 0; k < no; ++k) for(int j = 0; j < no; ++j) for(int i = 0; i < no; ++i) X[i + lx * (j + lx * (k + lx * l))] = x4(i, j, k, l);
    auto X0 = X, c0 = c, want = inplace ? X : Y;
    vec W;  // many orbitals: one index after the other
    if(no > 8 || nn > 8) {
      for(int l = 0; l < no; ++l) for(int k = 0; k < no; ++k) for(int j = 0; j < no; ++j) for(int i = 0; i < no; ++i) W.push_back(x4(i, j, k, l));
      for(int d = 0; d < 4; ++d) {
        const size_t rest = W.size() / no;
        vec Z(rest * nn, 0.);
        for(size_t t = 0; t < rest; ++t) for(int p = 0; p < nn; ++p) for(int i = 0; i < no; ++i) Z[t + rest * p] += C[i + p * no] * W[i + no * t];
        W = Z;
      }
    }
    for(int s = 0; s < nn; ++s) for(int r = 0; r < nn; ++r) for(int q = 0; q < nn; ++q) for(int p = 0; p < nn; ++p) {
      if(W.size()) { want[p + ly * (q + ly * (r + ly * s))] = W[p + size_t(nn) * (q + size_t(nn) * (r + size_t(nn) * s))]; continue; }
      double v = 0;
      for(int i = 0; i < no; ++i) for(int j = 0; j < no; ++j) for(int k = 0; k < no; ++k) for(int l = 0; l < no; ++l)
        v += C[i + p * no] * C[j + q * no] * C[k + r * no] * C[l + s * no] * x4(i, j, k, l);
      want[p + ly * (q + ly * (r + ly * s))] = v;
    }
    vec& out = inplace ? X : Y;
    macis::four_index_transform(no, nn, X.data(), lx, c.data(), lc, out.data(), ly);
    for(size_t i = 0; i < out.size(); ++i)
      if(!mc::near(out[i], want[i], 1e-12)) mc::fail("four-index: position (%zu,%zu,%zu,%zu) holds %g, expected %g", i % ly, i / ly % ly, i / ly / ly % ly, i / ly / ly / ly, out[i], want[i]);
    if(c != c0 || (!inplace && X != X0)) mc::fail("four-index: an input was modified");
  }
}
void mc_main() {
  // every coefficient matrix over an alphabet
  struct S { int no, nn, al; };
  std::vector<S> sz{{1, 1, 3}, {1, 2, 3}, {2, 1, 3}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 4, 3}, {4, 1, 3}, {3, 1, 3}, {1, 3, 3}};
  sz.insert(sz.end(), {{2, 3, 3}, {3, 2, 3}, {3, 3, 2}, {2, 4, 2}, {4, 2, 2}});
  if(mc::thorough) sz.insert(sz.end(), {{3, 3, 3}, {2, 4, 3}, {4, 2, 3}, {3, 4, 2}, {4, 3, 2}});
  for(auto z : sz)
    mc::suite(mc::fmt("coefficients-%dx%d-%d", z.no, z.nn, z.al).c_str(), [&] {
      const double al[3] = {0, 1, -2};
      for(size_t code = 0; code < pw(z.al, z.no * z.nn); ++code)
        mc::test([&] { return mc::fmt("code %zu", code); }, [&] {
          vec C(z.no * z.nn);
          size_t t = code;
          for(double& x : C) x = al[t % z.al], t /= z.al;
          if(std::count(C.begin(), C.end(), 0.) < (long)C.size()) mc::nontrivial();
          for(int px = 0; px < 3; ++px)
            for(int pc = 0; pc < 2; ++pc)
              for(int py = 0; py < 3; ++py) run(z.no, z.nn, C, -1, -1, px, pc, py, false);
          for(int px = 0; px < 2; ++px) if(z.nn <= z.no + px) run(z.no, z.nn, C, -2, -3, px, 0, 0, true);
        });
    });
  // every unit tensor
  mc::suite("units", [&] {
    for(int no = 1; no <= 4; ++no)
      for(int nn = 1; nn <= 4; ++nn)
        for(int u = 0; u < (int)pw(no, 4); ++u)
          mc::test([&] { return mc::fmt("%d -> %d orbitals, unit tensor %d", no, nn, u); }, [&] {
            mc::nontrivial();
            vec C(no * nn);
            for(int i = 0; i < no * nn; ++i) C[i] = (i * 5 + u) % 7 - 3;
            for(int v = 0; v < 4; ++v) run(no, nn, C, u % (no * no), u, v & 1, v / 2 + 1, (v * 2) % 3, false);
          });
  });
  mc::suite("larger", [&] {
    for(int no = 1; no <= (mc::thorough ? 8 : 6); ++no)
      for(int nn = 1; nn <= (mc::thorough ? 8 : 6); ++nn)
        for(int v = 0; v < 8; ++v)
          mc::test([&] { return mc::fmt("%d -> %d orbitals, variant %d", no, nn, v); }, [&] {
            mc::nontrivial();
            vec C(no * nn);
            for(int i = 0; i < no * nn; ++i) C[i] = (i * i * 5 + i * 3 + v) % 7 - 3;
            run(no, nn, C, -1 - v, -1 - v, v & 1, (v / 2) & 1, v / 4, false);
            if(nn <= no) run(no, nn, C, -1 - v, -1 - v, v & 1, (v / 2) & 1, 0, true);
          });
    for(auto z : {std::pair{9, 9}, {12, 5}, {5, 12}, {17, 16}, {16, 17}, {24, 8}, {8, 24}, {33, 2}, {2, 33}, {20, 20}})
      for(int v = 0; v < 4; ++v)
        mc::test([&] { return mc::fmt("%d -> %d orbitals, variant %d", z.first, z.second, v); }, [&] {
          mc::nontrivial();
          const int no = z.first, nn = z.second;
          vec C(no * nn);
          for(int i = 0; i < no * nn; ++i) C[i] = (i * i * 5 + i * 3 + v) % 7 - 3;
          run(no, nn, C, -1 - v, -1 - v, v & 1, (v / 2) & 1, v % 3, false);
          if(nn <= no) run(no, nn, C, -1 - v, -1 - v, v & 1, (v / 2) & 1, 0, true);
        });
  });
}
