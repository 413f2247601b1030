// Operations whose results are compared between a fresh process and one with a history.
#pragma once
#include "orb.hpp"
#include <functional>
namespace hist {
using fock::vec;
constexpr int INPUTS = 4;  // the first three have the same number of orbitals
struct Op { const char* name; double tol; std::function<vec(int)> run; };
inline std::vector<Op>& ops() { static std::vector<Op> o; return o; }
inline void op(const char* name, double tol, std::function<vec(int)> f) { ops().push_back({name, tol, std::move(f)}); }
// splits, integrals and paddings of the inputs
struct In { int n, ni, na, kind, pad, a, b; orb::Split s() const { return {n, ni, na}; } int nv() const { return n - ni - na; } };
inline const In& in(int v) {
  static const In t[INPUTS] = {{4, 1, 2, 0, 0, 1, 1}, {4, 1, 2, 1, 0, 2, 1}, {4, 0, 3, 2, 0, 1, 2}, {5, 1, 3, 0, 1, 2, 1}};
  return t[v];
}
inline fock::Ints ints(int v) { return fock::generic(in(v).n, in(v).kind); }
inline vec wavy(size_t n, double a) { vec x(n); for(size_t i = 0; i < n; ++i) x[i] = std::cos(a + 0.7 * i) + 0.1 * (i % 3); return x; }
inline void put(vec& r, const vec& x) { r.push_back(x.size()), r.insert(r.end(), x.begin(), x.end()); }
template <class M> void put_sparse(vec& r, const M& A) {
  r.push_back(A.m()), r.push_back(A.n()), r.push_back(A.nnz());
  for(auto x : A.rowptr()) r.push_back(x);
  for(auto x : A.colind()) r.push_back(x);
  for(auto x : A.nzval()) r.push_back(x);
}
inline smpi::Opts cheap() { auto o = mc::few_schedules(); o.modes = {0}, o.all_prios = false; return o; }
inline void clean(const smpi::Result& R) {
  if(!R.error.empty()) mc::fail("%s", R.error.c_str());
  for(auto& t : R.threw) if(!t.empty()) mc::fail("%s", t.c_str());
}
// runs f(rank, result) on two processes; the results one after the other
inline vec two(const std::function<void(int, vec&)>& f) {
  std::vector<vec> out;
  mc::mpi(2, [&] { out.assign(2, {}); return [&](int r) { f(r, out[r]); }; }, clean, cheap());
  vec r = out[0];
  put(r, out[1]);
  return r;
}
}  // namespace hist
