// G03: input, vector and matrix files and elementary vector operations of the legacy library.
#include "mc.hpp"
#include <complex>
#include <cmath>
#include <fstream>
#include <map>
#include <cmz_ed/utils.h++>
#include "omp/simomp.hpp"
namespace ed = cmz::ed;
using cd = std::complex<double>;
static std::string file() { return mc::scratch() + "/in"; }
static void put(const std::string& s) { std::ofstream(file(), std::ios::binary) << s; }
template <class F> bool throws(const F& f) {
  try { f(); } catch(const mc::Failure&) { throw; } catch(...) { return true; }
  return false;
}
template <class F> void guarded(const F& f) {
  try { f(); }
  catch(const std::string& s) { mc::fail("threw \"%s\"", s.c_str()); }
  catch(const char* s) { mc::fail("threw \"%s\"", s); }
}
struct Line { const char* text; const char* key; const char* val; };  // key null: not a parameter
static const Line lines[] = {
  {"norbs 4", "norbs", "4"}, {"  nups\t 2", "nups", "2"}, {"# norbs 7", nullptr, ""}, {"", nullptr, ""}, {"   ", nullptr, ""}, {"!x 1", nullptr, ""}, {"%", nullptr, ""},
  {"list 1 2  3", "list", "1 2  3"}, {"flag T", "flag", "T"}, {"empty", "empty", ""}, {"thresh 1.E-4", "thresh", "1.E-4"}, {"name a/b c", "name", "a/b c"},
};
static const int nl = sizeof lines / sizeof *lines;
static void inputs(const std::vector<int>& which, bool last_newline, int preset) {
  mc::executions(1);
  std::string t;
  std::map<std::string, std::string> want;
  bool twice = false;
  if(preset >= 0) want[lines[preset].key] = "before";
  ed::Input_t in(want.begin(), want.end());
  for(size_t i = 0; i < which.size(); ++i) {
    const auto& l = lines[which[i]];
    t += l.text;
    if(i + 1 < which.size() || last_newline) t += "\n";
    if(l.key) twice = twice || want.count(l.key), want.emplace(l.key, l.val);
  }
  put(t);
  bool thrown = false;
  try { if(!ed::ReadInput(file(), in)) mc::fail("reported as failed"); } catch(const std::string&) { thrown = true; }
  if(thrown != twice) mc::fail(twice ? "a parameter given twice is accepted" : "rejected");
  if(thrown) return;
  for(auto& [k, v] : want) {
    if(!in.count(k)) mc::fail("parameter %s is missing", k.c_str());
    if(in[k] != v) mc::fail("parameter %s is \"%s\", expected \"%s\"", k.c_str(), in[k].c_str(), v.c_str());
  }
  if(in.size() != want.size()) mc::fail("%zu parameters, expected %zu", in.size(), want.size());
}
static void values() {
  ed::Input_t in;
  ed::addParam(in, "a", "1");
  if(!throws([&] { ed::addParam(in, "a", "2"); }) || in["a"] != "1") mc::fail("a parameter is added twice");
  if(!throws([&] { ed::setParam(in, "b", "2"); }) || in.count("b")) mc::fail("a parameter that is not there is set");
  ed::setParam(in, "a", "3");
  if(in["a"] != "3" || in.size() != 1) mc::fail("a parameter is not set");
  if(!throws([&] { ed::getParam<int>(in, "c"); }) || !throws([&] { ed::getParam<double>(in, "c"); }) || !throws([&] { ed::getParam<bool>(in, "c"); }) || !throws([&] { ed::getParam<std::string>(in, "c"); }) || !throws([&] { ed::getParam<ed::VecInt>(in, "c"); }) || !throws([&] { ed::getParam<ed::VecD>(in, "c"); }) || !throws([&] { ed::getParam<std::vector<bool>>(in, "c"); }) || !throws([&] { ed::getParam<std::vector<std::string>>(in, "c"); }))
    mc::fail("a missing parameter is returned");
  for(int x : {0, 1, -1, 17, 2147483647, -2147483647 - 1}) {
    in["x"] = std::to_string(x);
    if(ed::getParam<int>(in, "x") != x) mc::fail("int %d", x);
  }
  for(double x : {0., -0.5, 1e-300, 1.7976931348623157e308, 1. / 3, -12345.678}) {
    in["x"] = mc::fmt("%.17g", x);
    if(ed::getParam<double>(in, "x") != x) mc::fail("double %g", x);
    if(ed::getParam<std::string>(in, "x") != in["x"]) mc::fail("string");
  }
  for(const char* s : {"T", "F", "", "t", "true", "TF", "T ", "0"}) {
    in["x"] = s;
    const bool ok = in["x"] == "T" || in["x"] == "F";
    bool v = false, th = throws([&] { v = ed::getParam<bool>(in, "x"); });
    if(th == ok || (ok && v != (in["x"] == "T"))) mc::fail("bool \"%s\"", s);
  }
}
static void words(unsigned code, int n) {  // n words over four
  mc::executions(1);
  static const char* sep[] = {" ", "  ", "\t"};
  ed::Input_t in;
  std::string a, b, c;
  ed::VecInt wi;
  ed::VecD wd;
  std::vector<bool> wb;
  std::vector<std::string> ws_;
  bool bad = false;
  for(int i = 0; i < n; ++i, code /= 4) {
    const int k = code % 4;
    const std::string s = i ? sep[(k + i) % 3] : "";
    a += s + std::to_string(k * k * 37 - 50), wi.push_back(k * k * 37 - 50);
    b += s + mc::fmt("%.17g", k / 7. - 0.2), wd.push_back(k / 7. - 0.2);
    static const char* w[] = {"T", "F", "T", "X"};
    c += s + w[k], ws_.push_back(w[k]), wb.push_back(k % 2 == 0), bad = bad || k == 3;
  }
  in["a"] = a, in["b"] = b, in["c"] = c;
  guarded([&] {
    if(ed::getParam<ed::VecInt>(in, "a") != wi) mc::fail("integers of \"%s\"", a.c_str());
    if(ed::getParam<ed::VecD>(in, "b") != wd) mc::fail("numbers of \"%s\"", b.c_str());
    if(ed::getParam<std::vector<std::string>>(in, "c") != ws_) mc::fail("words of \"%s\"", c.c_str());
    if(!bad && ed::getParam<std::vector<bool>>(in, "c") != wb) mc::fail("flags of \"%s\"", c.c_str());
  });
  if(bad && !throws([&] { ed::getParam<std::vector<bool>>(in, "c"); })) mc::fail("flags of \"%s\" are accepted", c.c_str());
}
static void vector_file(int count, int given, unsigned code, int style) {  // count announced
  mc::executions(1);
  std::string t = std::to_string(count);
  std::vector<double> v;
  for(int i = 0; i < given; ++i, code /= 3) {
    v.push_back(code % 3 / 3. - 0.5 + i);
    t += (style == 0 ? "\n" : style == 1 ? " " : "\n\n") + mc::fmt("%.17g", v.back());
  }
  if(style != 1) t += "\n";
  put(t);
  for(int old : {0, 1, 9}) {
    ed::VecD d(old, 77.);
    Eigen::VectorXcd z = Eigen::VectorXcd::Constant(old, cd(7, 7));
    const bool a = ed::ReadVec(file(), d), b = ed::ReadVec(file(), z);
    if(given < count) {
      if(a || b) mc::fail("an incomplete file is accepted");
      continue;
    }
    if(given > count) continue;  // trailing values: only memory safety
    if(!a || !b) mc::fail("rejected");
    if(d != v) mc::fail("read as %s, expected %s", mc::str(d).c_str(), mc::str(v).c_str());
    if(z.size() != count) mc::fail("read with %d elements", int(z.size()));
    for(int i = 0; i < count; ++i) if(z(i) != cd(v[i], 0)) mc::fail("complex element %d", i);
  }
}
static void matrix_file(int n, const std::vector<std::pair<int, int>>& at, int style) {
  mc::executions(1);
  std::string t = mc::fmt("%d %d %zu\n", n, n, at.size());
  Eigen::MatrixXd want = Eigen::MatrixXd::Zero(n, n);
  for(size_t k = 0; k < at.size(); ++k) {
    auto [r, c] = at[k];
    const double x = 1. / (k + 3) - 0.2 * r + c;
    t += mc::fmt(style & 1 ? "  %d\t%d   %.17g" : "%d %d %.17g", r, c, x);
    if(k + 1 < at.size() || !(style & 2)) t += "\n";
    if((style & 4) && k == 0) t += "\n";
    want(r, c) = want(c, r) = x;
  }
  if(style & 8) t += "\n";
  put(t);
  if(ed::ReadMatSize(file()) != size_t(n)) mc::fail("dimension read as %zu", ed::ReadMatSize(file()));
  ed::SpMatD M(n, n), W(n + 1, n);
  if(!ed::ReadMat(file(), M)) mc::fail("rejected");
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(M.coeff(i, j) != want(i, j)) mc::fail("element (%d,%d) is %g, expected %g", i, j, M.coeff(i, j), want(i, j));
  if(ed::ReadMat(file(), W)) mc::fail("read into a matrix of another size");
  // matrix elements
  Eigen::VectorXcd a(n), b(n);
  Eigen::VectorXd x(n), y(n);
  ed::VecD u(n), v(n);
  for(int i = 0; i < n; ++i) a(i) = cd(i - 1, 2), b(i) = cd(0.5, -i), x(i) = u[i] = i - 1.5, y(i) = v[i] = 2 * i + 1;
  cd e = 0;
  double f = 0;
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) e += std::conj(a(i)) * want(i, j) * b(j), f += x(i) * want(i, j) * y(j);
  if(std::abs(ed::GetMatrixEl(a, M, b) - e) > 1e-12 * (1 + std::abs(e))) mc::fail("complex matrix element");
  if(std::abs(ed::GetMatrixEl(x, ed::eigMatD(want), y) - f) > 1e-12 * (1 + std::abs(f)) || std::abs(ed::GetMatrixEl(u, ed::eigMatD(want), v) - f) > 1e-12 * (1 + std::abs(f))) mc::fail("real matrix element");
}
static void products(int n, int kind) {
  ed::VecD a(n), b(n);
  ed::VecCompD x(n), y(n);
  double ab = 0;
  cd xy = 0, xb = 0;
  for(int i = 0; i < n; ++i) {
    a[i] = (i * 7 + kind) % 5 - 2, b[i] = (i * 3 + kind) % 4 - 1;
    x[i] = cd(b[i], (i + kind) % 3 - 1), y[i] = cd(1 - i, a[i]);
    ab += a[i] * b[i], xy += std::conj(x[i]) * y[i], xb += std::conj(x[i]) * b[i];
  }
  ed::VecD r(n, 9.);
  ed::VecCompD rc(n, cd(9, 9));
  const double s = ed::MyInnProd(a, b);
  const cd t = ed::MyInnProd(x, y), u = ed::MyInnProd(x, b);
  ed::MyAdd(2., a, -3., b, r);
  ed::MyAdd(cd(2, 1), x, cd(0, -1), y, rc);
  if(s != ab || t != xy || u != xb) mc::fail("%d elements: inner products %g (%g,%g) (%g,%g), expected %g (%g,%g) (%g,%g)", n, s, t.real(), t.imag(), u.real(), u.imag(), ab, xy.real(), xy.imag(), xb.real(), xb.imag());
  for(int i = 0; i < n; ++i) if(r[i] != 2 * a[i] - 3 * b[i] || rc[i] != cd(2, 1) * x[i] + cd(0, -1) * y[i]) mc::fail("%d elements: sum wrong in element %d", n, i);
  ed::VecD shorter(n + 1);
  if(!throws([&] { ed::MyAdd(1., a, 1., b, shorter); }) || !throws([&] { ed::MyAdd(1., shorter, 1., b, r); }) || !throws([&] { ed::MyAdd(1., a, 1., shorter, r); })) mc::fail("vectors of different lengths are added");
  Eigen::VectorXd ea(n), eb(n), er;
  Eigen::VectorXcd ex(n), ey(n), ez;
  for(int i = 0; i < n; ++i) ea(i) = a[i], eb(i) = b[i], ex(i) = x[i], ey(i) = y[i];
  if(ed::MyInnProd(ea, eb) != ab || ed::MyInnProd(ex, ey) != xy) mc::fail("inner products of dense vectors");
  ed::MyAdd(2., ea, -3., eb, er);
  ed::MyAdd(cd(2, 1), ex, cd(0, -1), ey, ez);
  for(int i = 0; i < n; ++i) if(er(i) != r[i] || ez(i) != rc[i]) mc::fail("sum of dense vectors wrong in element %d", i);
}
void mc_main() {
  somp::set(somp::Config{});
  mc::suite("input", [&] {
    const int top = mc::thorough ? 4 : 3;
    for(int len = 0; len <= top; ++len) {
      std::vector<int> w(len, 0);
      for(;;) {
        mc::test([&] { return mc::fmt("lines %s", mc::str(w).c_str()); }, [&] {
          if(len) mc::nontrivial();
          for(int nlast = 0; nlast < 2; ++nlast) for(int pre : {-1, 0, 9}) inputs(w, nlast, pre);
        });
        int i = 0;
        while(i < len && ++w[i] == nl) w[i++] = 0;
        if(i == len) break;
      }
    }
    mc::test([] { return std::string("a missing file"); }, [] {
      mc::nontrivial();
      ed::Input_t in;
      if(!throws([&] { ed::ReadInput(mc::scratch() + "/none", in); })) mc::fail("a missing file is accepted");
      ed::VecD v;
      Eigen::VectorXcd z;
      ed::SpMatD M(2, 2);
      if(ed::ReadVec(mc::scratch() + "/none", v) || ed::ReadVec(mc::scratch() + "/none", z) || ed::ReadMat(mc::scratch() + "/none", M) || ed::ReadMatSize(mc::scratch() + "/none")) mc::fail("a missing file is accepted");
    });
    mc::test([] { return std::string("single values"); }, [] { mc::nontrivial(); values(); });
    for(int n = 0; n <= (mc::thorough ? 6 : 4); ++n)
      mc::test([&] { return mc::fmt("lists of %d words", n); }, [&] { mc::nontrivial(); for(unsigned c = 0; c < 1u << 2 * n; ++c) words(c, n); });
  });
  mc::suite("vectors", [&] {
    for(int count = 0; count <= (mc::thorough ? 5 : 4); ++count) for(int given = 0; given <= count + 2; ++given)
      mc::test([&] { return mc::fmt("%d values announced, %d given", count, given); }, [&] {
        if(given) mc::nontrivial();
        unsigned tot = 1;
        for(int i = 0; i < given; ++i) tot *= 3;
        for(unsigned c = 0; c < tot; ++c) for(int style = 0; style < 3; ++style) vector_file(count, given, c, style);
      });
    for(int count : {10, 17, 100, 1000}) for(int less : {0, 1, 5})
      mc::test([&] { return mc::fmt("%d values announced, %d given", count, count - less); }, [&] {
        mc::nontrivial();
        for(int style = 0; style < 3; ++style) vector_file(count, count - less, 2000000011, style);
      });
    mc::test([] { return std::string("no count"); }, [] {
      mc::nontrivial();
      for(const char* t : {"", "\n", "x 1 2", "-1", "-3 1 2"}) {
        put(t);
        ed::VecD v;
        Eigen::VectorXcd z;
        if(ed::ReadVec(file(), v) || ed::ReadVec(file(), z)) mc::fail("\"%s\" is accepted", t);
      }
    });
  });
  mc::suite("matrices", [&] {
    for(int n = 1; n <= 3; ++n) for(unsigned s = 0; s < 1u << (n * (n + 1) / 2); ++s) for(int upper = 0; upper < 3; ++upper)
      mc::test([&] { return mc::fmt("dimension %d, pattern %x, side %d", n, s, upper); }, [&] {
        if(s) mc::nontrivial();
        std::vector<std::pair<int, int>> at;
        unsigned k = 0;
        for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j, ++k)
          if(s >> k & 1) (upper == 1 || (upper == 2 && k % 2)) ? at.push_back({j, i}) : at.push_back({i, j});
        for(int r = 0; r < 2; ++r, std::reverse(at.begin(), at.end())) for(int style = 0; style < 16; ++style) matrix_file(n, at, style);
      });
    for(int n : {8, 11, 33, 64}) for(int step : {1, 3, 7}) for(int upper = 0; upper < 3; ++upper)
      mc::test([&] { return mc::fmt("dimension %d, every %d-th element, side %d", n, step, upper); }, [&] {
        mc::nontrivial();
        std::vector<std::pair<int, int>> at;
        int k = 0;
        for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j, ++k)
          if(k % step == 0) (upper == 1 || (upper == 2 && k % 2)) ? at.push_back({j, i}) : at.push_back({i, j});
        for(int r = 0; r < 2; ++r, std::reverse(at.begin(), at.end())) for(int style = 0; style < 16; style += 5) matrix_file(n, at, style);
      });
    mc::test([] { return std::string("malformed lines"); }, [] {
      mc::nontrivial();
      for(const char* l : {"0 0", "0", "0 2 1.", "2 0 1.", "-1 0 1.", "0 -1 1.", "x 0 1.", "0 x 1.", "0 0 x", "5 5 5"})
        for(int where = 0; where < 3; ++where) {
          mc::executions(1);
          put(std::string("2 2 3\n") + (where > 0 ? "1 1 2.\n" : "") + l + "\n" + (where > 1 ? "1 0 3.\n" : ""));
          ed::SpMatD M(2, 2);
          if(ed::ReadMat(file(), M)) mc::fail("a file with the line \"%s\" is accepted", l);
        }
      for(const char* h : {"", "\n", "2", "2 2", "x y z"}) {
        put(h);
        ed::SpMatD M(2, 2);
        if(ed::ReadMat(file(), M) || ed::ReadMatSize(file())) mc::fail("a file with the first line \"%s\" is accepted", h);
      }
    });
  });
  mc::suite("products", [&] {
    for(int n = 0; n <= (mc::thorough ? 9 : 6); ++n) for(int kind = 0; kind < 5; ++kind) for(int t = 1; t <= 3; ++t)
      mc::test([&] { return mc::fmt("%d elements, values %d, %d threads", n, kind, t); }, [&] { if(n) mc::nontrivial(); mc::omp(t, 1, [&] { products(n, kind); }); });
    for(int n : {16, 17, 33, 100, 1000}) for(int t : {1, 2, 4, 7})
      mc::test([&] { return mc::fmt("%d elements, %d threads", n, t); }, [&] {
        mc::nontrivial();
        somp::Config c;
        c.threads = t;
        somp::set(c);
        products(n, t);
        somp::set(somp::Config{});
      });
  });
}
