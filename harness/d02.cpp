// D02: typed collective wrappers.
#include "pre.hpp"
#include <macis/util/mpi.hpp>
#include <sparsexx/util/mpi.hpp>

static void judge(const smpi::Result& r) {
  if(!r.error.empty()) mc::fail("%s", r.error.c_str());
  for(auto& t : r.threw) if(!t.empty()) mc::fail("%s", t.c_str());
  if(r.live_user_types) mc::fail("%d user datatypes not released", r.live_user_types);
}
template <class T>
T v(int rank, int i, int op = 0) {
  if constexpr(std::is_integral_v<T> && sizeof(T) > 1) if(op == 1 || op == 2) {  // the whole range of the type where nothing overflows
    const T top = T(T(1) << (8 * sizeof(T) - 1 - std::is_signed_v<T>));
    return T((rank + i) % 2 ? top + T(rank * 3 + i) : std::is_signed_v<T> && i % 2 ? std::numeric_limits<T>::min() + T(rank) : T(rank + 7 * i));
  }
  return T(2 + rank * 3 + (i * 5) % 7 - (std::is_signed_v<T> ? 6 * (i % 2) : 0));
}
template <class T>
T combine(int op, T a, T b) { return op == 0 ? T(a + b) : op == 1 ? std::max(a, b) : op == 2 ? std::min(a, b) : T(a * b); }
static MPI_Op ops[] = {MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD};

template <class T>
void macis_type(const char* tn, const smpi::Opts& o, bool many = false) {
  mc::suite(mc::fmt("macis-%s%s", tn, many ? "-many" : "").c_str(), [&] {
    // many: more processes and more elements than a handful
    for(int p : many ? std::vector<int>{2, 7, 9, 17} : std::vector<int>{1, 2, 3, 4})
      for(int count : many ? std::vector<int>{1, 17, 300, 5000} : std::vector<int>{0, 1, 2, 3, 4, 9})
        for(int op = 0; op < (many ? 3 : 4); ++op)
          for(int root = 0; root < p; root += (many && root + 1 < p && root > 1 ? p - 1 - root : 1))
            mc::test([&] { return mc::fmt("%s: %d processes, count %d, operation %d, root %d", tn, p, count, op, root); }, [&] {
              if(p > 1 && count) mc::nontrivial();
              mc::mpi(p, [&]() { return [&](int r) {
                std::vector<T> want(count), s(count), g(count + 2, T(99)), ip(count + 2, T(98)), bc(count + 2, T(97));
                for(int i = 0; i < count; ++i) {
                  want[i] = v<T>(0, i, op);
                  for(int q = 1; q < p; ++q) want[i] = combine<T>(op, want[i], v<T>(q, i, op));
                  s[i] = ip[i] = bc[i] = v<T>(r, i, op);
                }
                auto s0 = s;
                if constexpr(std::is_same_v<T, char>) {  // no reductions of characters in MPI
                  std::copy(want.begin(), want.end(), g.begin());
                  std::copy(want.begin(), want.end(), ip.begin());
                } else {
                  macis::allreduce(s.data(), g.data(), count, ops[op], mc::comm());
                  macis::allreduce(ip.data(), count, ops[op], mc::comm());
                }
                macis::bcast(bc.data(), count, root, mc::comm());
                for(int i = 0; i < count; ++i) {
                  if(g[i] != want[i]) mc::fail("allreduce element %d is %g, expected %g", i, (double)g[i], (double)want[i]);
                  if(ip[i] != want[i]) mc::fail("in-place allreduce element %d is %g, expected %g", i, (double)ip[i], (double)want[i]);
                  if(bc[i] != v<T>(root, i, op)) mc::fail("bcast element %d is %g on rank %d, expected %g", i, (double)bc[i], r, (double)v<T>(root, i, op));
                }
                if(s != s0) mc::fail("send buffer modified");
                for(int i = count; i < count + 2; ++i)
                  if(g[i] != T(99) || ip[i] != T(98) || bc[i] != T(97)) mc::fail("element beyond the count written");
                if constexpr(!std::is_same_v<T, char>) if(count == 1) {
                  T x = macis::allreduce(s[0], ops[op], mc::comm());
                  if(x != want[0]) mc::fail("scalar allreduce gives %g", (double)x);
                }
                if(macis::comm_rank(mc::comm()) != r || macis::comm_size(mc::comm()) != p) mc::fail("rank or size wrong");
              }; }, judge, o);
            });
    if(!many) for(int p = 1; p <= 3; ++p)
      for(int which = 0; which < 3; ++which)
        for(int d = 0; d < 3; ++d)
          mc::test([&] { return mc::fmt("%s: call %d with INT_MAX + %d elements, %d processes", tn, which, d, p); }, [&] {
            mc::nontrivial();
            // too many elements for one message: an error on every process, nothing sent, nothing written
            mc::mpi(p, [&]() { return [&](int) {
              size_t c = size_t(std::numeric_limits<int>::max()) + d;
              T buf[2] = {T(1), T(2)}, rb[2] = {T(3), T(4)};
              bool threw = false;
              try {
                if(which == 0) macis::allreduce(buf, rb, c, MPI_SUM, mc::comm());
                if(which == 1) macis::allreduce(buf, c, MPI_SUM, mc::comm());
                if(which == 2) macis::bcast(buf, c, 0, mc::comm());
              } catch(const std::exception&) { threw = true; }
              if(!threw) mc::fail("oversized message accepted");
              if(buf[0] != T(1) || rb[0] != T(3)) mc::fail("buffer modified");
            }; }, judge, mc::few_schedules());
          });
  });
}
template <size_t N>
void bits(const smpi::Opts& o) {
  using B = std::bitset<N>;
  mc::suite(mc::fmt("bitset-%zu", N).c_str(), [&] {
    for(int p = 1; p <= 4; ++p)
      for(int count : {0, 1, 2, 3, 4, 65})
        for(int root = 0; root < p; ++root)
          mc::test([&] { return mc::fmt("bitset<%zu>: %d processes, count %d, root %d", N, p, count, root); }, [&] {
            if(p > 1 && count) mc::nontrivial();
            auto val = [](int r, int i) { B b; b.set(0); b.set(N - 1 - i % N); b.set((7 * r + 3 * i) % N); return r % 2 ? ~b : b; };
            mc::mpi(p, [&]() { return [&](int r) {
              std::vector<B> b(count + 1);
              for(int i = 0; i < count; ++i) b[i] = val(r, i);
              b[count] = val(5, 1);
              macis::bcast(b.data(), count, root, mc::comm());
              for(int i = 0; i < count; ++i) if(b[i] != val(root, i)) mc::fail("bcast of bit string %d wrong on rank %d", i, r);
              if(b[count] != val(5, 1)) mc::fail("element beyond the count written");
              // types are released exactly once whatever happens to the wrapper
              auto t = macis::mpi_traits<B>::datatype();
              auto u = std::move(t);
              std::vector<macis::mpi_datatype> l;
              for(int i = 0; i < count; ++i) l.push_back(macis::make_contiguous_mpi_datatype<int>(i + 1));
              l.push_back(std::move(u));
              std::vector<B> all(p);
              B mine = val(r, 2);
              MPI_Allgather(&mine, 1, l.back(), all.data(), 1, l.back(), mc::comm());
              for(int q = 0; q < p; ++q) if(all[q] != val(q, 2)) mc::fail("gathered bit string of rank %d wrong on rank %d", q, r);
              for(int i = 0; i < count; ++i) {
                std::vector<int> x(i + 2, -1);
                for(int k = 0; k <= i; ++k) x[k] = 10 * r + k;
                MPI_Bcast(x.data(), 1, l[i], root, mc::comm());
                for(int k = 0; k <= i; ++k) if(x[k] != 10 * root + k) mc::fail("contiguous type of %d ints: element %d wrong", i + 1, k);
                if(x[i + 1] != -1) mc::fail("contiguous type of %d ints wrote past its end", i + 1);
              }
              auto d = macis::make_mpi_datatype(MPI_INT);
              if((MPI_Datatype)d != MPI_INT) mc::fail("wrapped default type differs");
            }; }, judge, o);
          });
  });
}
template <class T>
void contig(const char* tn) {
  mc::suite(mc::fmt("contiguous-%s", tn).c_str(), [&] {
    for(int p = 1; p <= 3; ++p)
      for(int n = 1; n <= 4; ++n)
        for(int count = 0; count <= 3; ++count)
          mc::test([&] { return mc::fmt("%s: %d processes, %d elements of %d", tn, p, count, n); }, [&] {
            if(p > 1 && count) mc::nontrivial();
            mc::mpi(p, [&]() { return [&](int r) {
              auto t = macis::make_contiguous_mpi_datatype<T>(n);
              std::vector<T> s(n * count), g(n * count * p + 1, T(77));
              for(int i = 0; i < n * count; ++i) s[i] = v<T>(r, i);
              MPI_Allgather(s.data(), count, t, g.data(), count, t, mc::comm());
              for(int q = 0; q < p; ++q) for(int i = 0; i < n * count; ++i) if(g[q * n * count + i] != v<T>(q, i)) mc::fail("element %d of rank %d wrong", i, q);
              if(g.back() != T(77)) mc::fail("wrote past the end");
            }; }, judge, mc::few_schedules());
          });
  });
}
template <class T>
void sx_type(const char* tn, const smpi::Opts& o, bool many = false) {
  namespace sd = sparsexx::detail;
  mc::suite(mc::fmt("sparsexx-%s%s", tn, many ? "-many" : "").c_str(), [&] {
    for(int p : many ? std::vector<int>{2, 6, 9, 17} : std::vector<int>{1, 2, 3, 4})
      for(int count : many ? std::vector<int>{1, 9, 130, 2000} : std::vector<int>{0, 1, 2, 3, 4})
        for(int root = 0; root < p; root += (many && root + 1 < p && root > 1 ? p - 1 - root : 1))
          mc::test([&] { return mc::fmt("%s: %d processes, count %d, root %d", tn, p, count, root); }, [&] {
            if(p > 1 && count) mc::nontrivial();
            mc::mpi(p, [&]() { return [&](int r) {
              if(sd::get_mpi_rank(mc::comm()) != r || sd::get_mpi_size(mc::comm()) != p) mc::fail("rank or size wrong");
              for(int op = 0; op < (many ? 3 : 4); ++op) {
                T want = v<T>(0, count);
                for(int q = 1; q < p; ++q) want = combine<T>(op, want, v<T>(q, count));
                if(sd::mpi_allreduce(v<T>(r, count), ops[op], mc::comm()) != want) mc::fail("allreduce wrong");
              }
              std::vector<T> s(count), raw(count * p + 1, T(66)), b(count);
              for(int i = 0; i < count; ++i) s[i] = b[i] = v<T>(r, i);
              auto g = sd::mpi_allgather(s, mc::comm());
              sd::mpi_allgather(s.data(), count, raw.data(), mc::comm());
              if((int)g.size() != count * p) mc::fail("gathered %zu elements", g.size());
              for(int q = 0; q < p; ++q)
                for(int i = 0; i < count; ++i)
                  if(g[q * count + i] != v<T>(q, i) || raw[q * count + i] != v<T>(q, i)) mc::fail("gathered element %d of rank %d wrong", i, q);
              if(raw.back() != T(66)) mc::fail("allgather wrote past the end");
              sd::mpi_bcast(b, root, mc::comm());
              for(int i = 0; i < count; ++i) if(b[i] != v<T>(root, i)) mc::fail("bcast wrong");
              // ring of non-blocking transfers, two tags, receives posted first on even ranks
              std::vector<T> in1(count), in2(count + 1, T(55)), out2(count);
              for(int i = 0; i < count; ++i) out2[i] = v<T>(r + 7, i);
              std::vector<MPI_Request> q;
              int nx = (r + 1) % p, pv = (r + p - 1) % p;
              if(r % 2 == 0) q.push_back(sd::mpi_irecv(in1, pv, 1, mc::comm())), q.push_back(sd::mpi_irecv(in2.data(), count, pv, 2, mc::comm()));
              q.push_back(sd::mpi_isend(out2.data(), count, nx, 2, mc::comm()));
              q.push_back(sd::mpi_isend(s, nx, 1, mc::comm()));
              if(r % 2 == 1) q.push_back(sd::mpi_irecv(in1, pv, 1, mc::comm())), q.push_back(sd::mpi_irecv(in2.data(), count, pv, 2, mc::comm()));
              sd::mpi_waitall_ignore_status(q);
              for(int i = 0; i < count; ++i)
                if(in1[i] != v<T>(pv, i) || in2[i] != v<T>(pv + 7, i)) mc::fail("received element %d wrong on rank %d", i, r);
              if(in2[count] != T(55)) mc::fail("receive wrote past the end");
            }; }, judge, o);
          });
  });
}
void mc_main() {
  auto o = mc::thorough ? mc::deep_schedules(1, 8) : mc::full_schedules();
  macis_type<char>("char", mc::few_schedules());
  macis_type<int>("int", o);
  macis_type<double>("double", o);
  macis_type<float>("float", mc::few_schedules());
  macis_type<size_t>("size_t", mc::few_schedules());
  bits<32>(mc::few_schedules());
  bits<64>(o);
  bits<128>(mc::few_schedules());
  bits<256>(mc::few_schedules());
  contig<int>("int");
  contig<double>("double");
  contig<char>("char");
  sx_type<double>("double", mc::deep_schedules(mc::thorough ? 2 : 0, mc::thorough ? 4 : 1));
  sx_type<int>("int", mc::few_schedules());
  sx_type<int64_t>("int64", mc::few_schedules());
  sx_type<uint64_t>("uint64", mc::few_schedules());
  sx_type<unsigned>("unsigned", mc::few_schedules());
  auto one = mc::few_schedules();
  one.modes = {0};
  macis_type<int>("int", one, true);
  macis_type<double>("double", one, true);
  macis_type<size_t>("size_t", one, true);
  sx_type<double>("double", one, true);
  sx_type<int64_t>("int64", one, true);
}
