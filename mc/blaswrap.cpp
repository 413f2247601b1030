// The numerical libraries are not instrumented: check the extents of the arrays given to them against
// the address sanitizer's shadow memory before each call.  (Linked with -Wl,--wrap=<symbol>.)
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <unistd.h>
extern "C" void* __asan_region_is_poisoned(void*, size_t);
namespace {
using I = int;
[[noreturn]] void bad(const char* f, const char* arg) {
  fprintf(stderr, "ERROR: AddressSanitizer: array %s of %s is smaller than the call needs\n", arg, f);
  fflush(stderr);
  _exit(77);
}
void reg(const char* f, const char* arg, const void* p, size_t bytes) {
  if(bytes && __asan_region_is_poisoned(const_cast<void*>(p), bytes)) bad(f, arg);
}
template <class T>
void vec(const char* f, const char* arg, const T* x, I n, I inc) {
  if(n <= 0) return;
  if(inc < 0) inc = -inc;
  if(inc == 1) return reg(f, arg, x, size_t(n) * sizeof(T));
  for(I i = 0; i < n; ++i) reg(f, arg, x + size_t(i) * inc, sizeof(T));
}
template <class T>
void mat(const char* f, const char* arg, const T* a, I m, I n, I ld) {
  if(m <= 0) return;
  for(I j = 0; j < n; ++j) reg(f, arg, a + size_t(j) * ld, size_t(m) * sizeof(T));
}
bool nt(const char* c) { return *c == 'N' || *c == 'n'; }
bool yes(const char* c, char k) { return *c == k || *c == k + 32; }
}  // namespace
#define Z size_t z0, size_t z1, size_t z2, size_t z3
#define ZZ z0, z1, z2, z3
#define W(T, p, n) extern "C" T __real_##p##n##_
#define DEF(p, T)                                                                                                                         \
  extern "C" {                                                                                                                            \
  void __real_##p##gemm_(const char*, const char*, const I*, const I*, const I*, const T*, const T*, const I*, const T*, const I*, const T*, T*, const I*, Z); \
  void __wrap_##p##gemm_(const char* ta, const char* tb, const I* m, const I* n, const I* k, const T* al, const T* a, const I* lda, const T* b, const I* ldb, const T* be, T* c, const I* ldc, Z) { \
    if(*m > 0 && *n > 0) {                                                                                                                \
      if(*al != 0) {                                                                                                                      \
        nt(ta) ? mat(#p "gemm", "A", a, *m, *k, *lda) : mat(#p "gemm", "A", a, *k, *m, *lda);                                              \
        nt(tb) ? mat(#p "gemm", "B", b, *k, *n, *ldb) : mat(#p "gemm", "B", b, *n, *k, *ldb);                                              \
      }                                                                                                                                   \
      mat(#p "gemm", "C", c, *m, *n, *ldc);                                                                                                \
    }                                                                                                                                     \
    __real_##p##gemm_(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc, ZZ);                                                                \
  }                                                                                                                                       \
  void __real_##p##trsm_(const char*, const char*, const char*, const char*, const I*, const I*, const T*, const T*, const I*, T*, const I*, Z); \
  void __wrap_##p##trsm_(const char* s, const char* u, const char* t, const char* d, const I* m, const I* n, const T* al, const T* a, const I* lda, T* b, const I* ldb, Z) { \
    I q = yes(s, 'L') ? *m : *n;                                                                                                          \
    if(*m > 0 && *n > 0) { for(I j = 0; j < q; ++j) reg(#p "trsm", "A", a + size_t(j) * *lda + (yes(u, 'L') ? j : 0), (yes(u, 'L') ? q - j : j + 1) * sizeof(T)); mat(#p "trsm", "B", b, *m, *n, *ldb); } \
    __real_##p##trsm_(s, u, t, d, m, n, al, a, lda, b, ldb, ZZ);                                                                           \
  }                                                                                                                                       \
  void __real_##p##axpy_(const I*, const T*, const T*, const I*, T*, const I*);                                                           \
  void __wrap_##p##axpy_(const I* n, const T* a, const T* x, const I* ix, T* y, const I* iy) {                                            \
    vec(#p "axpy", "X", x, *n, *ix); vec(#p "axpy", "Y", y, *n, *iy);                                                                      \
    __real_##p##axpy_(n, a, x, ix, y, iy);                                                                                                \
  }                                                                                                                                       \
  void __real_##p##copy_(const I*, const T*, const I*, T*, const I*);                                                                     \
  void __wrap_##p##copy_(const I* n, const T* x, const I* ix, T* y, const I* iy) {                                                        \
    vec(#p "copy", "X", x, *n, *ix); vec(#p "copy", "Y", y, *n, *iy);                                                                      \
    __real_##p##copy_(n, x, ix, y, iy);                                                                                                   \
  }                                                                                                                                       \
  void __real_##p##swap_(const I*, T*, const I*, T*, const I*);                                                                           \
  void __wrap_##p##swap_(const I* n, T* x, const I* ix, T* y, const I* iy) {                                                              \
    vec(#p "swap", "X", x, *n, *ix); vec(#p "swap", "Y", y, *n, *iy);                                                                      \
    __real_##p##swap_(n, x, ix, y, iy);                                                                                                   \
  }                                                                                                                                       \
  void __real_##p##scal_(const I*, const T*, T*, const I*);                                                                               \
  void __wrap_##p##scal_(const I* n, const T* a, T* x, const I* ix) { vec(#p "scal", "X", x, *n, *ix); __real_##p##scal_(n, a, x, ix); }    \
  T __real_##p##dot_(const I*, const T*, const I*, const T*, const I*);                                                                   \
  T __wrap_##p##dot_(const I* n, const T* x, const I* ix, const T* y, const I* iy) {                                                      \
    vec(#p "dot", "X", x, *n, *ix); vec(#p "dot", "Y", y, *n, *iy);                                                                        \
    return __real_##p##dot_(n, x, ix, y, iy);                                                                                             \
  }                                                                                                                                       \
  T __real_##p##nrm2_(const I*, const T*, const I*);                                                                                      \
  T __wrap_##p##nrm2_(const I* n, const T* x, const I* ix) { vec(#p "nrm2", "X", x, *n, *ix); return __real_##p##nrm2_(n, x, ix); }        \
  void __real_##p##syev_(const char*, const char*, const I*, T*, const I*, T*, T*, const I*, I*, Z);                                      \
  void __wrap_##p##syev_(const char* j, const char* u, const I* n, T* a, const I* lda, T* w, T* k, const I* lw, I* info, Z) {             \
    if(*lw != -1) { mat(#p "syev", "A", a, *n, *n, *lda); vec(#p "syev", "W", w, *n, 1); vec(#p "syev", "WORK", k, *lw, 1); }               \
    __real_##p##syev_(j, u, n, a, lda, w, k, lw, info, ZZ);                                                                                \
  }                                                                                                                                       \
  void __real_##p##potrf_(const char*, const I*, T*, const I*, I*, Z);                                                                    \
  void __wrap_##p##potrf_(const char* u, const I* n, T* a, const I* lda, I* info, Z) {                                                    \
    for(I j = 0; j < *n; ++j) reg(#p "potrf", "A", a + size_t(j) * *lda + (yes(u, 'L') ? j : 0), (yes(u, 'L') ? *n - j : j + 1) * sizeof(T)); \
    __real_##p##potrf_(u, n, a, lda, info, ZZ);                                                                                            \
  }                                                                                                                                       \
  void __real_##p##lacpy_(const char*, const I*, const I*, const T*, const I*, T*, const I*, Z);                                          \
  void __wrap_##p##lacpy_(const char* u, const I* m, const I* n, const T* a, const I* lda, T* b, const I* ldb, Z) {                        \
    if(!yes(u, 'U') && !yes(u, 'L')) { mat(#p "lacpy", "A", a, *m, *n, *lda); mat(#p "lacpy", "B", b, *m, *n, *ldb); }                      \
    __real_##p##lacpy_(u, m, n, a, lda, b, ldb, ZZ);                                                                                       \
  }                                                                                                                                       \
  void __real_##p##gelss_(const I*, const I*, const I*, T*, const I*, T*, const I*, T*, const T*, I*, T*, const I*, I*);                  \
  void __wrap_##p##gelss_(const I* m, const I* n, const I* r, T* a, const I* lda, T* b, const I* ldb, T* s, const T* rc, I* rank, T* k, const I* lw, I* info) { \
    if(*lw != -1) { mat(#p "gelss", "A", a, *m, *n, *lda); mat(#p "gelss", "B", b, std::max(*m, *n), *r, *ldb); vec(#p "gelss", "S", s, std::min(*m, *n), 1); } \
    __real_##p##gelss_(m, n, r, a, lda, b, ldb, s, rc, rank, k, lw, info);                                                                 \
  }                                                                                                                                       \
  void __real_##p##gesvd_(const char*, const char*, const I*, const I*, T*, const I*, T*, T*, const I*, T*, const I*, T*, const I*, I*, Z); \
  void __wrap_##p##gesvd_(const char* ju, const char* jv, const I* m, const I* n, T* a, const I* lda, T* s, T* u, const I* ldu, T* v, const I* ldv, T* k, const I* lw, I* info, Z) { \
    if(*lw != -1) {                                                                                                                       \
      I q = std::min(*m, *n);                                                                                                             \
      mat(#p "gesvd", "A", a, *m, *n, *lda); vec(#p "gesvd", "S", s, q, 1);                                                                \
      if(yes(ju, 'A') || yes(ju, 'S')) mat(#p "gesvd", "U", u, *m, yes(ju, 'A') ? *m : q, *ldu);                                           \
      if(yes(jv, 'A') || yes(jv, 'S')) mat(#p "gesvd", "VT", v, yes(jv, 'A') ? *n : q, *n, *ldv);                                          \
    }                                                                                                                                     \
    __real_##p##gesvd_(ju, jv, m, n, a, lda, s, u, ldu, v, ldv, k, lw, info, ZZ);                                                          \
  }                                                                                                                                       \
  void __real_##p##gelqf_(const I*, const I*, T*, const I*, T*, T*, const I*, I*);                                                        \
  void __wrap_##p##gelqf_(const I* m, const I* n, T* a, const I* lda, T* tau, T* k, const I* lw, I* info) {                                \
    if(*lw != -1) { mat(#p "gelqf", "A", a, *m, *n, *lda); vec(#p "gelqf", "TAU", tau, std::min(*m, *n), 1); }                              \
    __real_##p##gelqf_(m, n, a, lda, tau, k, lw, info);                                                                                    \
  }                                                                                                                                       \
  void __real_##p##ormlq_(const char*, const char*, const I*, const I*, const I*, const T*, const I*, const T*, T*, const I*, T*, const I*, I*, Z); \
  void __wrap_##p##ormlq_(const char* s, const char* t, const I* m, const I* n, const I* q, const T* a, const I* lda, const T* tau, T* c, const I* ldc, T* k, const I* lw, I* info, Z) { \
    if(*lw != -1) { mat(#p "ormlq", "A", a, *q, yes(s, 'L') ? *m : *n, *lda); vec(#p "ormlq", "TAU", tau, *q, 1); mat(#p "ormlq", "C", c, *m, *n, *ldc); } \
    __real_##p##ormlq_(s, t, m, n, q, a, lda, tau, c, ldc, k, lw, info, ZZ);                                                               \
  }                                                                                                                                       \
  void __real_##p##geqrf_(const I*, const I*, T*, const I*, T*, T*, const I*, I*);                                                        \
  void __wrap_##p##geqrf_(const I* m, const I* n, T* a, const I* lda, T* tau, T* k, const I* lw, I* info) {                                \
    if(*lw != -1) { mat(#p "geqrf", "A", a, *m, *n, *lda); vec(#p "geqrf", "TAU", tau, std::min(*m, *n), 1); vec(#p "geqrf", "WORK", k, *lw, 1); } \
    __real_##p##geqrf_(m, n, a, lda, tau, k, lw, info);                                                                                    \
  }                                                                                                                                       \
  void __real_##p##orgqr_(const I*, const I*, const I*, T*, const I*, const T*, T*, const I*, I*);                                        \
  void __wrap_##p##orgqr_(const I* m, const I* n, const I* q, T* a, const I* lda, const T* tau, T* k, const I* lw, I* info) {              \
    if(*lw != -1) { mat(#p "orgqr", "A", a, *m, *n, *lda); vec(#p "orgqr", "TAU", tau, *q, 1); vec(#p "orgqr", "WORK", k, *lw, 1); }        \
    __real_##p##orgqr_(m, n, q, a, lda, tau, k, lw, info);                                                                                 \
  }                                                                                                                                       \
  void __real_##p##sytrd_(const char*, const I*, T*, const I*, T*, T*, T*, T*, const I*, I*, Z);                                          \
  void __wrap_##p##sytrd_(const char* u, const I* n, T* a, const I* lda, T* d, T* e, T* tau, T* k, const I* lw, I* info, Z) {              \
    if(*lw != -1) { mat(#p "sytrd", "A", a, *n, *n, *lda); vec(#p "sytrd", "D", d, *n, 1); vec(#p "sytrd", "E", e, *n - 1, 1); vec(#p "sytrd", "TAU", tau, *n - 1, 1); vec(#p "sytrd", "WORK", k, *lw, 1); } \
    __real_##p##sytrd_(u, n, a, lda, d, e, tau, k, lw, info, ZZ);                                                                          \
  }                                                                                                                                       \
  void __real_##p##orgtr_(const char*, const I*, T*, const I*, const T*, T*, const I*, I*, Z);                                            \
  void __wrap_##p##orgtr_(const char* u, const I* n, T* a, const I* lda, const T* tau, T* k, const I* lw, I* info, Z) {                    \
    if(*lw != -1) { mat(#p "orgtr", "A", a, *n, *n, *lda); vec(#p "orgtr", "TAU", tau, *n - 1, 1); vec(#p "orgtr", "WORK", k, *lw, 1); }     \
    __real_##p##orgtr_(u, n, a, lda, tau, k, lw, info, ZZ);                                                                                \
  }                                                                                                                                       \
  void __real_##p##steqr_(const char*, const I*, T*, T*, T*, const I*, T*, I*, Z);                                                        \
  void __wrap_##p##steqr_(const char* z, const I* n, T* d, T* e, T* q, const I* ldq, T* k, I* info, Z) {                                   \
    vec(#p "steqr", "D", d, *n, 1); vec(#p "steqr", "E", e, *n - 1, 1);                                                                    \
    if(!nt(z)) { mat(#p "steqr", "Z", q, *n, *n, *ldq); vec(#p "steqr", "WORK", k, 2 * *n - 2, 1); }                                        \
    __real_##p##steqr_(z, n, d, e, q, ldq, k, info, ZZ);                                                                                   \
  }                                                                                                                                       \
  void __real_##p##sbtrd_(const char*, const char*, const I*, const I*, T*, const I*, T*, T*, T*, const I*, T*, I*, Z);                    \
  void __wrap_##p##sbtrd_(const char* v, const char* u, const I* n, const I* kd, T* ab, const I* ldab, T* d, T* e, T* q, const I* ldq, T* k, I* info, Z) { \
    mat(#p "sbtrd", "AB", ab, *kd + 1, *n, *ldab); vec(#p "sbtrd", "D", d, *n, 1); vec(#p "sbtrd", "E", e, *n - 1, 1);                      \
    if(!nt(v)) mat(#p "sbtrd", "Q", q, *n, *n, *ldq);                                                                                      \
    vec(#p "sbtrd", "WORK", k, *n, 1);                                                                                                     \
    __real_##p##sbtrd_(v, u, n, kd, ab, ldab, d, e, q, ldq, k, info, ZZ);                                                                  \
  }                                                                                                                                       \
  }
DEF(d, double)
DEF(s, float)
