// I01: integral files.
#include "lin.hpp"
#include <macis/util/fcidump.hpp>
#include <spdlog/spdlog.h>
using vec = std::vector<double>;
constexpr double G = 4711.25;
static size_t pw(size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; }
static std::string file() { return mc::scratch() + "/ints"; }

struct Line { int p, q, r, s; double v; };
struct Style { int order = 0, sep = 0, eol = 0, header = 0, num = 0, blank = 0, idx = 0; };
std::string number(double v, int how) {
  switch(how) {
    case 0: return mc::fmt("%.16e", v);
    case 1: return mc::fmt("%.17g", v).find_first_of(".e") == std::string::npos ? mc::fmt("%.17g.", v) : mc::fmt("%.17g", v);
    case 2: return mc::fmt("%.16E", v);
    case 4: { auto s = mc::fmt("%.16e", v); for(char& c : s) if(c == 'e') c = 'd'; return s; }
    case 5: return (std::signbit(v) ? "" : "+") + mc::fmt("%.16e", v);
    case 6: return mc::fmt("%.25f", v);  // value rounded to the digits printed, see put()
    default: { auto s = mc::fmt("%.16E", v); for(char& c : s) if(c == 'E') c = 'D'; return s; }
  }
}
void put(std::vector<Line>& L, const Style& y, int norb) {
  const char* d[] = {"%d%s%d%s%d%s%d", "%+d%s%+d%s%+d%s%+d", "%03d%s%03d%s%03d%s%03d", "%4d%s%4d%s%4d%s%4d"};
  std::ofstream f(file(), std::ios::binary);
  const char* nl = y.eol ? "\r\n" : "\n";
  const char* sp = y.sep == 0 ? " " : y.sep == 1 ? "      " : "\t";
  if(y.header == 1) f << " &FCI NORB=" << norb << ",NELEC=2,MS2=0," << nl << "  ORBSYM=1,1,1," << nl << "  ISYM=1," << nl << " &END" << nl;
  if(y.header == 2) f << "&FCI NORB= " << norb << ",NELEC= 2,MS2= 0," << nl << " ORBSYM=1, 1, 1, 1, 1" << nl << " ISYM=1" << nl << "/" << nl;
  if(y.header == 3) f << "&FCI NORB = " << norb << nl << "1 2 3 4" << nl << "1 2 3 4 5 6" << nl << "&END" << nl;
  for(auto& l : L) {
    auto n = number(l.v, y.num);
    l.v = std::strtod(mc::fmt(y.num == 6 ? "%.25f" : "%.17g", l.v).c_str(), nullptr);
    auto ix = mc::fmt(d[y.idx], l.p, sp, l.q, sp, l.r, sp, l.s);
    if(y.sep) f << sp;
    if(y.order) f << ix << sp << n;
    else f << n << sp << ix;
    if(y.sep) f << sp;
    if(y.blank) f << nl;
    f << nl;
  }
}
// reads with both interfaces and compares
void get(const std::vector<Line>& L, const char* who) {
  mc::executions(1);
  int n = 0;
  double core = 0;
  for(auto& l : L) n = std::max({n, l.p, l.q, l.r, l.s});
  vec T(n * n, 0.), V(pw(n, 4), 0.);
  bool have = false;
  for(auto& l : L) {
    if(!l.p && !l.q && !l.r && !l.s) { if(!have) core = l.v; have = true; }
    else if(l.p && l.q && !l.r && !l.s) T[l.p - 1 + (l.q - 1) * n] = T[l.q - 1 + (l.p - 1) * n] = l.v;
    else if(l.p && l.q && l.r && l.s) {
      int x[4] = {l.p - 1, l.q - 1, l.r - 1, l.s - 1};
      for(int a = 0; a < 2; ++a) for(int b = 0; b < 2; ++b) for(int c = 0; c < 2; ++c) {
        int i = x[c ? 2 : 0], j = x[c ? 3 : 1], k = x[c ? 0 : 2], m = x[c ? 1 : 3];
        if(a) std::swap(i, j);
        if(b) std::swap(k, m);
        V[i + n * (j + n * (k + n * m))] = l.v;
      }
    }
  }
  if((int)macis::read_fcidump_norb(file()) != n) mc::fail("%s: %d orbitals reported, file has %d", who, (int)macis::read_fcidump_norb(file()), n);
  double e = macis::read_fcidump_core(file());
  if(e != core) mc::fail("%s: core energy %.17g, expected %.17g", who, e, core);
  for(int pad = 0; pad < 3; ++pad) {
    const size_t ld = n + pad;
    for(int i = 0; i < 2; ++i) {
      vec t(ld * n + 3, G), v(pw(ld, 3) * n + 3, G);
      for(int b = 0; b < n; ++b) for(int a = 0; a < n; ++a) t[a + b * ld] = 0;
      for(int d = 0; d < n; ++d) for(int c = 0; c < n; ++c) for(int b = 0; b < n; ++b) for(int a = 0; a < n; ++a) v[a + ld * (b + ld * (c + ld * d))] = 0;
      auto wt = t, wv = v;
      for(int b = 0; b < n; ++b) for(int a = 0; a < n; ++a) wt[a + b * ld] = T[a + b * n];
      for(int d = 0; d < n; ++d) for(int c = 0; c < n; ++c) for(int b = 0; b < n; ++b) for(int a = 0; a < n; ++a) wv[a + ld * (b + ld * (c + ld * d))] = V[a + n * (b + n * (c + n * d))];
      if(i == 0) {
        macis::read_fcidump_1body(file(), t.data(), ld);
        macis::read_fcidump_2body(file(), v.data(), ld);
      } else {
        if(pad) continue;
        macis::read_fcidump_1body(file(), macis::col_major_span<double, 2>(t.data(), n, n));
        macis::read_fcidump_2body(file(), macis::col_major_span<double, 4>(v.data(), n, n, n, n));
      }
      for(size_t k = 0; k < t.size(); ++k) if(t[k] != wt[k]) mc::fail("%s, padding %d%s: one-body position (%zu,%zu) holds %.17g, expected %.17g", who, pad, i ? ", span" : "", k % ld, k / ld, t[k], wt[k]);
      for(size_t k = 0; k < v.size(); ++k)
        if(v[k] != wv[k]) mc::fail("%s, padding %d%s: two-body position (%zu,%zu,%zu,%zu) holds %.17g, expected %.17g", who, pad, i ? ", span" : "", k % ld, k / ld % ld, k / ld / ld % ld, k / ld / ld / ld, v[k], wv[k]);
    }
  }
  // wrong extents are refused
  for(int m : {n - 1, n + 1}) {
    if(m < 0) continue;
    vec t(pw(m + 1, 2)), v(pw(m + 1, 4));
    bool a = false, b = false;
    try { macis::read_fcidump_1body(file(), macis::col_major_span<double, 2>(t.data(), m, m)); } catch(const std::exception&) { a = true; }
    try { macis::read_fcidump_2body(file(), macis::col_major_span<double, 4>(v.data(), m, m, m, m)); } catch(const std::exception&) { b = true; }
    if(!a || !b) mc::fail("%s: arrays of %d orbitals accepted for %d", who, m, n);
  }
}
double val(int i) {
  static const double v[] = {0.75, -1.25, 1e-13, -3.1415926535897931, 12345.678901234567, 1. / 3, 2, -0.1, 1e-300, -1.7976931348623157e308, 4.9e-324, -2.2e-308, 100000};
  return v[i % 13];
}
std::string str(const std::vector<Line>& L) {
  std::string s;
  for(auto& l : L) s += mc::fmt("%d %d %d %d; ", l.p, l.q, l.r, l.s);
  return s;
}
std::vector<Style> styles() {
  std::vector<Style> s;
  for(int o = 0; o < 2; ++o) for(int sep = 0; sep < 3; ++sep) for(int h = 0; h < 4; ++h) {
    int c = s.size();
    s.push_back({o, sep, c % 2, h, c % 7, c / 2 % 2, c / 3 % 4});
  }
  return s;
}
// every kind of line over n orbitals: core, orbital energy, one- and two-body
std::vector<Line> lines(int n) {
  std::vector<Line> L{{0, 0, 0, 0, 0.}};
  for(int p = 1; p <= n; ++p) L.push_back({p, 0, 0, 0, 0.});
  for(int p = 1; p <= n; ++p) for(int q = 1; q <= n; ++q) L.push_back({p, q, 0, 0, 0.});
  for(int p = 1; p <= n; ++p) for(int q = 1; q <= n; ++q) for(int r = 1; r <= n; ++r) for(int s = 1; s <= n; ++s) L.push_back({p, q, r, s, 0.});
  return L;
}
struct Ints { int n; vec T, V; double core; };
Ints make(int n, int kind) {
  Ints I{n, vec(n * n), vec(pw(n, 4)), kind % 2 ? -7.25 : 1. / 3};
  auto sym = [&](int i, int j) { return double((std::min(i, j) * 7 + std::max(i, j) * 3 + kind * 5) % 11) / 7 - 0.4; };
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) I.T[i + j * n] = kind == 2 && (i + j) % 2 ? 0 : sym(i, j);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int k = 0; k < n; ++k) for(int l = 0; l < n; ++l) {
    double a = sym(i, j) + 0.01 * std::min(i, j), b = sym(k, l) + 0.01 * std::min(k, l);
    I.V[i + n * (j + n * (k + n * l))] = kind == 2 && (i + j + k + l) % 2 ? 0 : a * b;
  }
  return I;
}
void write(const Ints& I, const std::string& f, int p1, int p2) {
  const int n = I.n;
  const size_t a = n + p1, b = n + p2;
  vec T(a * a + 1, G), V(pw(b, 4) + 1, G);
  for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) T[i + j * a] = I.T[i + j * n];
  for(int l = 0; l < n; ++l) for(int k = 0; k < n; ++k) for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) V[i + b * (j + b * (k + b * l))] = I.V[i + n * (j + n * (k + n * l))];
  auto T0 = T, V0 = V;
  macis::write_fcidump(f, n, T.data(), a, V.data(), b, I.core);
  if(T != T0 || V != V0) mc::fail("writer modified its input");
}
void verify(const Ints& I, const std::string& f, const char* who) {
  mc::executions(1);
  const int n = I.n;
  if((int)macis::read_fcidump_norb(f) != n) mc::fail("%s: %d orbitals read, %d written", who, (int)macis::read_fcidump_norb(f), n);
  if(macis::read_fcidump_core(f) != I.core) mc::fail("%s: core energy %.17g read, %.17g written", who, macis::read_fcidump_core(f), I.core);
  vec T(n * n + 1, G), V(pw(n, 4) + 1, G);
  macis::read_fcidump_1body(f, T.data(), n);
  macis::read_fcidump_2body(f, V.data(), n);
  if(T[n * n] != G || V[pw(n, 4)] != G) mc::fail("%s: wrote past an array", who);
  T.pop_back(), V.pop_back();
  if(T != I.T) mc::fail("%s: one-body %s read, %s written", who, mc::str(T).c_str(), mc::str(I.T).c_str());
  if(V != I.V) mc::fail("%s: two-body integrals differ", who);
}
void mc_main() {
  spdlog::set_level(spdlog::level::info);
  mc::suite("single-line", [&] {
    for(int n = 1; n <= 3; ++n) {
      auto L = lines(n);
      for(size_t k = 0; k < L.size(); ++k)
        mc::test([&] { return str({L[k]}); }, [&] {
          mc::nontrivial();
          int c = mc::index();
          for(auto& y : styles()) {
            std::vector<Line> f{L[k]};
            f[0].v = val(c++);
            put(f, y, n);
            get(f, mc::fmt("index-first %d separator %d CRLF %d header %d number form %d blank lines %d", y.order, y.sep, y.eol, y.header, y.num, y.blank).c_str());
          }
        });
    }
  });
  for(int len = 2; len <= (mc::thorough ? 3 : 2); ++len)
    mc::suite(mc::fmt("lines-%d", len).c_str(), [&] {
      for(int n = 1; n <= (len == 2 ? 2 : 1) + mc::thorough; ++n) {
        if(len == 3 && n == 3) break;
        auto L = lines(n);
        for(size_t k = 0; k < pw(L.size(), len); ++k) {
          std::vector<Line> f;
          size_t t = k;
          for(int i = 0; i < len; ++i) f.push_back(L[t % L.size()]), f.back().v = val(k + i * 3), t /= L.size();
          mc::test([&] { return str(f); }, [&] {
            mc::nontrivial();
            static const auto S = styles();
            const auto& y = S[k % S.size()];
            put(f, y, n);
            get(f, mc::fmt("index-first %d separator %d CRLF %d header %d number form %d blank lines %d", y.order, y.sep, y.eol, y.header, y.num, y.blank).c_str());
          });
        }
      }
    });
  mc::suite("full", [&] {
    for(int n : {1, 2, 3, 4, 5, 11, 18})
      for(int s = n > 11 ? 5 : 0; s < 24; s += n > 11 ? 100 : n > 5 ? 11 : 1)
        mc::test([&] { return mc::fmt("full file of %d orbitals, style %d", n, s); }, [&] {
          mc::nontrivial();
          auto I = make(n, s % 3);
          std::vector<Line> f;
          // unique entries only, mixed order
          for(int i = 1; i <= n; ++i) for(int j = 1; j <= i; ++j) for(int k = 1; k <= i; ++k) for(int l = 1; l <= (k == i ? j : k); ++l)
            f.push_back({i, j, k, l, I.V[i - 1 + n * (j - 1 + n * (k - 1 + n * (l - 1)))]});
          for(int i = 1; i <= n; ++i) for(int j = 1; j <= i; ++j) f.push_back({i, j, 0, 0, I.T[i - 1 + n * (j - 1)]});
          for(int i = 1; i <= n; ++i) f.push_back({i, 0, 0, 0, val(i)});
          f.push_back({0, 0, 0, 0, I.core});
          if(s % 2) std::reverse(f.begin(), f.end());
          put(f, styles()[s], n);
          get(f, "full");
        });
  });
  // all sequences of up to three (four) writes into two files, then both files are read
  mc::suite("write-read", [&] {
    for(int len = 1; len <= (mc::thorough ? 4 : 3); ++len)
      for(size_t code = 0; code < pw(12, len); ++code)
        mc::test([&] { return mc::fmt("%d writes, code %zu", len, code); }, [&] {
          mc::nontrivial();
          std::string fn[2] = {mc::scratch() + "/a", mc::scratch() + "/b"};
          for(auto& s : fn) std::remove(s.c_str());
          std::map<int, Ints> now;
          size_t t = code;
          for(int i = 0; i < len; ++i, t /= 12) {
            int w = t % 2, n = t / 2 % 2 + 1 + (code % 7 == 0), kind = t / 4 % 3;
            auto I = make(n, kind);
            write(I, fn[w], i % 3, (i + kind) % 2);
            now[w] = I;
            for(auto& x : now) verify(x.second, fn[x.first], mc::fmt("file %d after write %d", x.first, i + 1).c_str());
          }
        });
    for(int n : {0, 1, 2, 3, 4, 10})
      for(int pad = 0; pad < 9; pad += n > 4 ? 5 : 1)
        for(int lev = 0; lev < (n > 4 ? 1 : 3); ++lev)
          mc::test([&] { return mc::fmt("%d orbitals, paddings %d %d, log level %d", n, pad % 3, pad / 3, lev); }, [&] {
            mc::nontrivial();
            std::remove(file().c_str());
            auto I = make(n, pad % 3);
            spdlog::set_level(lev == 0 ? spdlog::level::info : lev == 1 ? spdlog::level::debug : spdlog::level::off);
            write(I, file(), pad % 3, pad / 3);
            spdlog::set_level(spdlog::level::info);
            verify(I, file(), "written");
          });
  });
  // files of many orbitals, read back here
  mc::suite("written-large", [&] {
    for(int n : {14, 18, 20, 33})
      for(int kind = 0; kind < 3; ++kind)
        mc::test([&] { return mc::fmt("%d orbitals, integrals %d", n, kind); }, [&] {
          mc::nontrivial();
          mc::executions(1);
          auto I = make(n, kind);
          write(I, file(), kind, kind / 2);
          std::ifstream in(file());
          std::string w[5], line;
          Ints R{n, vec(n * n, G), vec(pw(n, 4), G), G};
          while(std::getline(in, line)) {
            std::istringstream ss(line);
            int m = 0;
            while(m < 5 && ss >> w[m]) ++m;
            auto whole = [](const std::string& s) { return s.find_first_not_of("+-0123456789") == std::string::npos; };
            if(m < 5 || ss >> w[0]) continue;
            const bool last = whole(w[0]);
            for(int i = 0; i < 4; ++i) if(!whole(w[i + !last])) m = 0;
            if(!m) continue;
            const double v = std::strtod(w[last ? 4 : 0].c_str(), nullptr);
            int x[4];
            for(int i = 0; i < 4; ++i) if((x[i] = std::atoi(w[i + !last].c_str()) - 1) >= n) mc::fail("the file names orbital %d", x[i] + 1);
            if(x[0] < 0) R.core = v;
            else if(x[2] < 0) { if(x[1] >= 0) R.T[x[0] + n * x[1]] = R.T[x[1] + n * x[0]] = v; }
            else for(int c = 0; c < 8; ++c) {
              int i = x[0], j = x[1], k = x[2], l = x[3];
              if(c & 1) std::swap(i, j);
              if(c & 2) std::swap(k, l);
              if(c & 4) std::swap(i, k), std::swap(j, l);
              R.V[i + n * (j + n * (k + size_t(n) * l))] = v;
            }
          }
          // an element left out of the file is a zero
          for(auto a : {&R.T, &R.V}) for(double& v : *a) if(v == G) v = 0;
          if(R.core != I.core) mc::fail("core energy %.17g in the file, %.17g written", R.core, I.core);
          for(size_t k = 0; k < R.T.size(); ++k) if(R.T[k] != I.T[k]) mc::fail("one-body (%zu,%zu) is %.17g in the file, %.17g written", k % n, k / n, R.T[k], I.T[k]);
          for(size_t k = 0; k < R.V.size(); ++k) if(R.V[k] != I.V[k]) mc::fail("two-body element %zu is %.17g in the file, %.17g written", k, R.V[k], I.V[k]);
        });
  });
  // orbitals of two and three digits
  mc::suite("many-orbitals", [&] {
    for(int n : {9, 10, 11, 33, 99, 100, 101, 128, 130, 257, 300})
      for(int s = n % 5; s < 24; s += 5)
        mc::test([&] { return mc::fmt("%d orbitals, style %d", n, s); }, [&] {
          mc::nontrivial();
          mc::executions(1);
          std::vector<Line> f{{0, 0, 0, 0, val(s)}};
          vec T(size_t(n) * n, 0.);
          for(int i = n; i > 0; i -= 1 + (n > 40) * 6) for(int j : {i, i - 1, i / 2, 1}) if(j > 0) {
            const int p = (i + j + s) % 2 ? i : j, q = p == i ? j : i;
            f.push_back({p, q, 0, 0, val(i * 3 + j)});
          }
          f.push_back({n, 0, 0, 0, 0.5});
          put(f, styles()[s], n);
          for(auto& l : f) if(l.q) T[l.p - 1 + (l.q - 1) * n] = T[l.q - 1 + (l.p - 1) * n] = l.v;
          if((int)macis::read_fcidump_norb(file()) != n) mc::fail("%d orbitals reported, file has %d", (int)macis::read_fcidump_norb(file()), n);
          if(macis::read_fcidump_core(file()) != f[0].v) mc::fail("core energy differs");
          vec t(T.size() + 1, 0.);
          t.back() = G;
          macis::read_fcidump_1body(file(), t.data(), n);
          if(t.back() != G) mc::fail("wrote past an array");
          for(size_t k = 0; k < T.size(); ++k) if(t[k] != T[k]) mc::fail("one-body position (%zu,%zu) holds %.17g, expected %.17g", k % n, k / n, t[k], T[k]);
          if(n > 33) return;
          const int x[4] = {n - 1, n / 2, n - 2, s % n};
          const double u = val(s + 1);
          put(f = {{x[0] + 1, x[1] + 1, x[2] + 1, x[3] + 1, u}, {n, n, n, n, 2.5}}, styles()[s], n);
          vec v(pw(n, 4), 0.), w(v);
          w.back() = f[1].v;
          for(int c = 0; c < 8; ++c) {
            int i = x[0], j = x[1], k = x[2], l = x[3];
            if(c & 1) std::swap(i, j);
            if(c & 2) std::swap(k, l);
            if(c & 4) std::swap(i, k), std::swap(j, l);
            w[i + n * (j + n * (k + n * l))] = f[0].v;
          }
          macis::read_fcidump_2body(file(), v.data(), n);
          if(v != w) mc::fail("two-body integrals differ");
        });
  });
  // a line that names a negative orbital is refused, wherever it stands
  mc::suite("negative", [&] {
    for(int pos = 0; pos < 4; ++pos)
      for(int kind = 0; kind < 3; ++kind)
        for(int at = 0; at < 3; ++at)
          for(int order = 0; order < 2; ++order)
            mc::test([&] { return mc::fmt("index %d negative in %s line, line %d, index-first %d", pos, kind == 0 ? "a core" : kind == 1 ? "a one-body" : "a two-body", at, order); }, [&] {
              mc::nontrivial();
              std::vector<Line> f{{1, 1, 1, 1, 0.5}, {2, 1, 0, 0, 0.25}};
              Line b{kind > 0, kind > 0, kind > 1, kind > 1, 0.125};
              (pos == 0 ? b.p : pos == 1 ? b.q : pos == 2 ? b.r : b.s) = -1;
              f.insert(f.begin() + at, b);
              f.push_back({0, 0, 0, 0, 1.});
              put(f, Style{order}, 2);
              int ok = 0;
              vec t(4 * 4 * 4 * 4);
              try { macis::read_fcidump_norb(file()), ok |= 1; } catch(const std::exception&) {}
              try { macis::read_fcidump_core(file()), ok |= 2; } catch(const std::exception&) {}
              try { macis::read_fcidump_1body(file(), t.data(), 4), ok |= 4; } catch(const std::exception&) {}
              try { macis::read_fcidump_2body(file(), t.data(), 4), ok |= 8; } catch(const std::exception&) {}
              if(ok) mc::fail("accepted by readers %d", ok);
            });
  });
  mc::suite("missing", [&] {
    mc::test([] { return std::string("missing file"); }, [] {
      mc::nontrivial();
      auto f = mc::scratch() + "/none";
      int ok = 0;
      vec a(4);
      try { macis::read_fcidump_norb(f), ++ok; } catch(const std::exception&) {}
      try { macis::read_fcidump_core(f), ++ok; } catch(const std::exception&) {}
      try { macis::read_fcidump_1body(f, a.data(), 1), ++ok; } catch(const std::exception&) {}
      try { macis::read_fcidump_2body(f, a.data(), 1), ++ok; } catch(const std::exception&) {}
      if(ok) mc::fail("a missing file is read as an empty one");
    });
  });
}
