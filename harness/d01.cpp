// D01: k-th ranked element over distributed arrays.
#include "pre.hpp"
#include <macis/util/dist_quickselect.hpp>

template <class F>
void partitions(int n, int p, const F& f) {
  std::vector<int> s(p, 0);
  std::function<void(int, int)> rec = [&](int i, int left) {
    if(i == p - 1) { s[i] = left; f(s); return; }
    for(int k = 0; k <= left; ++k) { s[i] = k; rec(i + 1, left - k); }
  };
  rec(0, n);
}
smpi::Opts one_order() {
  auto o = mc::few_schedules();
  o.modes = {0};
  return o;
}
template <class T>
T conv(int v) { return T(v); }

// ord: 0 ascending, 1 descending, 2 by v/2 (classes of equals; the class of the result is decided)
template <class T>
void select(const std::vector<int>& seq, const std::vector<int>& sizes, int k, int ord, const smpi::Opts& o) {
  const int p = sizes.size();
  auto key = [ord](double v) { return ord == 0 ? v : ord == 1 ? -v : std::floor(v / 2); };
  std::vector<double> keys;
  for(int v : seq) keys.push_back(key(v));
  std::sort(keys.begin(), keys.end());
  const double want = keys[k - 1];
  std::vector<std::vector<T>> got(p);
  std::vector<double> res(p);
  mc::mpi(p, [&]() {
    std::fill(res.begin(), res.end(), -1e9);
    return [&](int r) {
      int lo = std::accumulate(sizes.begin(), sizes.begin() + r, 0);
      std::vector<T> x;
      for(int i = 0; i < sizes[r]; ++i) x.push_back(T(seq[lo + i]));
      auto less = [&](const T& a, const T& b) { return key(double(a)) < key(double(b)); };
      auto eq = [&](const T& a, const T& b) { return key(double(a)) == key(double(b)); };
      res[r] = double(macis::dist_quickselect(x.begin(), x.end(), k, mc::comm(), less, eq));
      std::vector<T> a, b = x;
      for(int i = 0; i < sizes[r]; ++i) a.push_back(T(seq[lo + i]));
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      if(a != b) mc::fail("rank %d no longer holds its own elements", r);
    };
  }, [&](const smpi::Result& r) {
    if(!r.error.empty()) mc::fail("%s", r.error.c_str());
    for(auto& t : r.threw) if(!t.empty()) mc::fail("%s", t.c_str());
    for(int q = 0; q < p; ++q) {
      if(key(res[q]) != want) mc::fail("k=%d: rank %d got %g", k, q, res[q]);
      if(res[q] != res[0]) mc::fail("k=%d: ranks 0 and %d got %g and %g", k, q, res[0], res[q]);
      if(std::find(seq.begin(), seq.end(), (int)res[q]) == seq.end()) mc::fail("k=%d: %g is not an element", k, res[q]);
    }
    if(r.live_user_types) mc::fail("%d user datatypes not released", r.live_user_types);
  }, o);
}
void go(const std::vector<int>& seq, int p, const smpi::Opts& o, int orders) {
  const int n = seq.size();
  int c = 0;
  partitions(n, p, [&](const std::vector<int>& s) {
    for(int k = 1; k <= n; ++k)
      for(int ord = 0; ord < orders; ++ord) {
        ++c;
        try {
          if(c % 3 == 0) select<int>(seq, s, k, ord, o);
          else if(c % 3 == 1) select<double>(seq, s, k, ord, o);
          else select<size_t>(seq, s, k, ord, o);
        } catch(const mc::Failure& e) {
          mc::fail("%s | split %s order %d", e.what(), mc::str(s).c_str(), ord);
        }
      }
  });
}
void sequences(const char* name, int nlo, int nhi, int vals, int plo, int phi, const smpi::Opts& o, int orders) {
  mc::suite(name, [&] {
    for(int n = nlo; n <= nhi; ++n)
      for(int p = plo; p <= phi; ++p) {
        int tot = 1;
        for(int i = 0; i < n; ++i) tot *= vals;
        for(int c = 0; c < tot; ++c) {
          std::vector<int> seq;
          for(int i = 0, x = c; i < n; ++i, x /= vals) seq.push_back(x % vals);
          mc::test([&] { return mc::str(seq) + mc::fmt(" over %d processes", p); }, [&] {
            if(n >= p && p > 1) mc::nontrivial();
            go(seq, p, o, orders);
          });
        }
      }
  });
}
void permutations(const char* name, int nlo, int nhi, int plo, int phi, const smpi::Opts& o) {
  mc::suite(name, [&] {
    for(int n = nlo; n <= nhi; ++n)
      for(int p = plo; p <= phi; ++p) {
        std::vector<int> seq(n);
        std::iota(seq.begin(), seq.end(), 0);
        do
          mc::test([&] { return mc::str(seq) + mc::fmt(" over %d processes", p); }, [&] {
            mc::nontrivial();
            go(seq, p, o, 1);
          });
        while(std::next_permutation(seq.begin(), seq.end()));
      }
  });
}
// larger distinct / repeated arrays dealt in several ways: many rounds of narrowing
void large() {
  mc::suite("large", [&] {
    for(int n : {12, 25, 60})
      for(int p = 2; p <= 4; ++p)
        for(int mul : {1, 5, 7, 11})
          for(int mod : {3, 8, 1000})
            for(int deal = 0; deal < 4; ++deal)
              mc::test([&] { return mc::fmt("%d elements, %d processes, multiplier %d mod %d, deal %d", n, p, mul, mod, deal); }, [&] {
                mc::nontrivial();
                std::vector<int> seq, s(p, 0);
                for(int i = 0; i < n; ++i) seq.push_back((i * mul % 61) % mod);
                if(deal == 0) for(int i = 0; i < p; ++i) s[i] = n / p + (i < n % p);
                if(deal == 1) s[p - 1] = n;
                if(deal == 2) s[0] = n;
                if(deal == 3) s[0] = 1, s[p - 1] = n - 1;
                for(int k = 1; k <= n; ++k) select<double>(seq, s, k, k % 3, one_order());
              });
  });
}
// more processes than a handful, also more than elements
void many() {
  mc::suite("many-processes", [&] {
    for(int p : {5, 9, 17})
      for(int n : {1, 8, 20, 70})
        for(int mul : {1, 7})
          for(int mod : {2, 9, 1000})
            for(int deal = 0; deal < 5; ++deal)
              mc::test([&] { return mc::fmt("%d elements, %d processes, multiplier %d mod %d, deal %d", n, p, mul, mod, deal); }, [&] {
                mc::nontrivial();
                std::vector<int> seq, s(p, 0);
                for(int i = 0; i < n; ++i) seq.push_back((i * mul % 71) % mod);
                if(deal == 0) for(int i = 0; i < p; ++i) s[i] = n / p + (i < n % p);
                if(deal == 1) s[p - 1] = n;
                if(deal == 2) s[0] = n;
                if(deal == 3) for(int i = 0; i < n; ++i) s[std::min(p - 1, i % 4 * 3)]++;
                if(deal == 4) for(int i = 0; i < n; ++i) s[p - 1 - i * i % p]++;
                auto o = one_order();
                o.modes = {0};
                for(int k = 1; k <= n; k += n > 20 && k > 3 && k < n - 4 ? 5 : 1) select<double>(seq, s, k, k % 3, o);
              });
  });
}
void mc_main() {
  auto full = mc::full_schedules();
  sequences("repeated", 1, mc::thorough ? 6 : 5, 3, 1, 4, one_order(), 3);
  permutations("distinct", 5, 6, 2, mc::thorough ? 4 : 3, one_order());
  if(mc::thorough) permutations("distinct7", 7, 7, 2, 3, one_order());
  sequences("all-orders", 2, 3, 3, 2, 3, full, 2);
  sequences("deviations", mc::thorough ? 2 : 3, mc::thorough ? 4 : 3, 2, 2, 3, mc::deep_schedules(mc::thorough ? 3 : 2, mc::thorough ? 8 : 1), 1);
  large();
  many();
}
