// generated by genblas.py -- do not edit
#include "vg.h"
#include <complex>
#include <cstdlib>
using namespace vg;
#define EX extern "C" __attribute__((visibility("default")))

enum { Col = 102, NoT = 111, Up = 121, Lo = 122, NonU = 131, UnitD = 132, LeftS = 141 };
static inline bool nz(float x) { return x != 0; }
static inline bool nz(double x) { return x != 0; }
static inline bool nzc(const void *p) { return ((const float *)p)[0] != 0 || ((const float *)p)[1] != 0; }
static inline bool nzz(const void *p) { return ((const double *)p)[0] != 0 || ((const double *)p)[1] != 0; }

extern "C" void __real_cblas_sgemm(int o, int ta, int tb, int m, int n, int k, float  al, const float * a, int lda, const float * b, int ldb, float  be, float * cc, int ldc) __asm__("cblas_sgemm");
EX void __wrap_cblas_sgemm(int o, int ta, int tb, int m, int n, int k, float  al, const float * a, int lda, const float * b, int ldb, float  be, float * cc, int ldc) {
  if (m > 0 && n > 0) { if (nz(al) && k > 0) { if (ta == NoT) region(a, 4, m, k, lda, RD); else region(a, 4, k, m, lda, RD);
    if (tb == NoT) region(b, 4, k, n, ldb, RD); else region(b, 4, n, k, ldb, RD); }
    if (nz(be)) region(cc, 4, m, n, ldc, RD); region(cc, 4, m, n, ldc, WR); }
  return __real_cblas_sgemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_ssymm(int o, int sd, int up, int m, int n, float  al, const float * a, int lda, const float * b, int ldb, float  be, float * cc, int ldc) __asm__("cblas_ssymm");
EX void __wrap_cblas_ssymm(int o, int sd, int up, int m, int n, float  al, const float * a, int lda, const float * b, int ldb, float  be, float * cc, int ldc) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nz(al)) { trap(a, 4, up == Lo, false, q, q, lda, RD); region(b, 4, m, n, ldb, RD); }
    if (nz(be)) region(cc, 4, m, n, ldc, RD); region(cc, 4, m, n, ldc, WR); }
  return __real_cblas_ssymm(o, sd, up, m, n, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_ssyrk(int o, int up, int tr, int n, int k, float  al, const float * a, int lda, float  be, float * cc, int ldc) __asm__("cblas_ssyrk");
EX void __wrap_cblas_ssyrk(int o, int up, int tr, int n, int k, float  al, const float * a, int lda, float  be, float * cc, int ldc) {
  if (n > 0) { if (nz(al) && k > 0) { if (tr == NoT) region(a, 4, n, k, lda, RD); else region(a, 4, k, n, lda, RD); }
    if (nz(be)) trap(cc, 4, up == Lo, false, n, n, ldc, RD); trap(cc, 4, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_ssyrk(o, up, tr, n, k, al, a, lda, be, cc, ldc);
}
extern "C" void __real_cblas_ssyr2k(int o, int up, int tr, int n, int k, float  al, const float * a, int lda, const float * b, int ldb, float  be, float * cc, int ldc) __asm__("cblas_ssyr2k");
EX void __wrap_cblas_ssyr2k(int o, int up, int tr, int n, int k, float  al, const float * a, int lda, const float * b, int ldb, float  be, float * cc, int ldc) {
  if (n > 0) { if (nz(al) && k > 0) { if (tr == NoT) { region(a, 4, n, k, lda, RD); region(b, 4, n, k, ldb, RD); } else { region(a, 4, k, n, lda, RD); region(b, 4, k, n, ldb, RD); } }
    if (nz(be)) trap(cc, 4, up == Lo, false, n, n, ldc, RD); trap(cc, 4, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_ssyr2k(o, up, tr, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_strmm(int o, int sd, int up, int ta, int di, int m, int n, float  al, const float * a, int lda, float * b, int ldb) __asm__("cblas_strmm");
EX void __wrap_cblas_strmm(int o, int sd, int up, int ta, int di, int m, int n, float  al, const float * a, int lda, float * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nz(al)) { trap(a, 4, up == Lo, di == UnitD, q, q, lda, RD); region(b, 4, m, n, ldb, RD); } region(b, 4, m, n, ldb, WR); }
  return __real_cblas_strmm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_strsm(int o, int sd, int up, int ta, int di, int m, int n, float  al, const float * a, int lda, float * b, int ldb) __asm__("cblas_strsm");
EX void __wrap_cblas_strsm(int o, int sd, int up, int ta, int di, int m, int n, float  al, const float * a, int lda, float * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nz(al)) { trap(a, 4, up == Lo, di == UnitD, q, q, lda, RD); region(b, 4, m, n, ldb, RD); } region(b, 4, m, n, ldb, WR); }
  return __real_cblas_strsm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_strmv(int o, int up, int ta, int di, int n, const float * a, int lda, float * x, int ix) __asm__("cblas_strmv");
EX void __wrap_cblas_strmv(int o, int up, int ta, int di, int n, const float * a, int lda, float * x, int ix) {
  trap(a, 4, up == Lo, di == UnitD, n, n, lda, RD); vec(x, 4, n, ix, RD); vec(x, 4, n, ix, WR);
  return __real_cblas_strmv(o, up, ta, di, n, a, lda, x, ix);
}
extern "C" void __real_cblas_sgemv(int o, int ta, int m, int n, float  al, const float * a, int lda, const float * x, int ix, float  be, float * y, int iy) __asm__("cblas_sgemv");
EX void __wrap_cblas_sgemv(int o, int ta, int m, int n, float  al, const float * a, int lda, const float * x, int ix, float  be, float * y, int iy) {
  if (m > 0 && n > 0) { int lx = ta == NoT ? n : m, ly = ta == NoT ? m : n; if (nz(al)) { region(a, 4, m, n, lda, RD); vec(x, 4, lx, ix, RD); } if (nz(be)) vec(y, 4, ly, iy, RD); vec(y, 4, ly, iy, WR); }
  return __real_cblas_sgemv(o, ta, m, n, al, a, lda, x, ix, be, y, iy);
}
extern "C" void __real_cblas_sger(int o, int m, int n, float  al, const float * x, int ix, const float * y, int iy, float * a, int lda) __asm__("cblas_sger");
EX void __wrap_cblas_sger(int o, int m, int n, float  al, const float * x, int ix, const float * y, int iy, float * a, int lda) {
  if (m > 0 && n > 0 && nz(al)) { vec(x, 4, m, ix, RD); vec(y, 4, n, iy, RD); region(a, 4, m, n, lda, RD); region(a, 4, m, n, lda, WR); }
  return __real_cblas_sger(o, m, n, al, x, ix, y, iy, a, lda);
}
extern "C" void __real_cblas_saxpy(int n, float  al, const float * x, int ix, float * y, int iy) __asm__("cblas_saxpy");
EX void __wrap_cblas_saxpy(int n, float  al, const float * x, int ix, float * y, int iy) {
  vec(x, 4, n, ix, RD); vec(y, 4, n, iy, RD); vec(y, 4, n, iy, WR);
  return __real_cblas_saxpy(n, al, x, ix, y, iy);
}
extern "C" void __real_cblas_scopy(int n, const float * x, int ix, float * y, int iy) __asm__("cblas_scopy");
EX void __wrap_cblas_scopy(int n, const float * x, int ix, float * y, int iy) {
  vec(x, 4, n, ix, RD); vec(y, 4, n, iy, WR);
  return __real_cblas_scopy(n, x, ix, y, iy);
}
extern "C" void __real_cblas_sscal(int n, float  al, float * x, int ix) __asm__("cblas_sscal");
EX void __wrap_cblas_sscal(int n, float  al, float * x, int ix) {
  vec(x, 4, n, ix, RD); vec(x, 4, n, ix, WR);
  return __real_cblas_sscal(n, al, x, ix);
}
extern "C" void __real_cblas_sswap(int n, float * x, int ix, float * y, int iy) __asm__("cblas_sswap");
EX void __wrap_cblas_sswap(int n, float * x, int ix, float * y, int iy) {
  vec(x, 4, n, ix, RD); vec(y, 4, n, iy, RD); vec(x, 4, n, ix, WR); vec(y, 4, n, iy, WR);
  return __real_cblas_sswap(n, x, ix, y, iy);
}
extern "C" int __real_LAPACKE_sgelq2_work(int l, int m, int n, float * a, int lda, float * tau, float * wk) __asm__("LAPACKE_sgelq2_work");
EX int __wrap_LAPACKE_sgelq2_work(int l, int m, int n, float * a, int lda, float * tau, float * wk) {
  region(a, 4, m, n, lda, RD); region(a, 4, m, n, lda, WR); access(tau, 4 * (size_t)(m < n ? m : n), WR); access(wk, 4 * (size_t)m, WR);
  return __real_LAPACKE_sgelq2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_sgeqr2_work(int l, int m, int n, float * a, int lda, float * tau, float * wk) __asm__("LAPACKE_sgeqr2_work");
EX int __wrap_LAPACKE_sgeqr2_work(int l, int m, int n, float * a, int lda, float * tau, float * wk) {
  region(a, 4, m, n, lda, RD); region(a, 4, m, n, lda, WR); access(tau, 4 * (size_t)(m < n ? m : n), WR); access(wk, 4 * (size_t)n, WR);
  return __real_LAPACKE_sgeqr2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_slacpy_work(int l, char up, int m, int n, const float * a, int lda, float * b, int ldb) __asm__("LAPACKE_slacpy_work");
EX int __wrap_LAPACKE_slacpy_work(int l, char up, int m, int n, const float * a, int lda, float * b, int ldb) {
  if (up == 'U' || up == 'u') { trap(a, 4, false, false, m, n, lda, RD); trap(b, 4, false, false, m, n, ldb, WR); } else if (up == 'L' || up == 'l') { trap(a, 4, true, false, m, n, lda, RD); trap(b, 4, true, false, m, n, ldb, WR); }
  else { region(a, 4, m, n, lda, RD); region(b, 4, m, n, ldb, WR); }
  return __real_LAPACKE_slacpy_work(l, up, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_slaset_work(int l, char up, int m, int n, float al, float be, float * a, int lda) __asm__("LAPACKE_slaset_work");
EX int __wrap_LAPACKE_slaset_work(int l, char up, int m, int n, float al, float be, float * a, int lda) {
  if (up == 'U' || up == 'u') trap(a, 4, false, false, m, n, lda, WR); else if (up == 'L' || up == 'l') trap(a, 4, true, false, m, n, lda, WR); else region(a, 4, m, n, lda, WR);
  return __real_LAPACKE_slaset_work(l, up, m, n, al, be, a, lda);
}
extern "C" int __real_LAPACKE_slauum_work(int l, char up, int n, float * a, int lda) __asm__("LAPACKE_slauum_work");
EX int __wrap_LAPACKE_slauum_work(int l, char up, int n, float * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 4, lo, false, n, n, lda, RD); trap(a, 4, lo, false, n, n, lda, WR);
  return __real_LAPACKE_slauum_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_spotrf_work(int l, char up, int n, float * a, int lda) __asm__("LAPACKE_spotrf_work");
EX int __wrap_LAPACKE_spotrf_work(int l, char up, int n, float * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 4, lo, false, n, n, lda, RD); trap(a, 4, lo, false, n, n, lda, WR);
  return __real_LAPACKE_spotrf_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_strtri_work(int l, char up, char di, int n, float * a, int lda) __asm__("LAPACKE_strtri_work");
EX int __wrap_LAPACKE_strtri_work(int l, char up, char di, int n, float * a, int lda) {
  bool lo = up == 'L' || up == 'l', u = di == 'U' || di == 'u'; trap(a, 4, lo, u, n, n, lda, RD); trap(a, 4, lo, u, n, n, lda, WR);
  return __real_LAPACKE_strtri_work(l, up, di, n, a, lda);
}
extern "C" int __real_LAPACKE_slarft_work(int l, char d, char sv, int n, int k, const float * v, int ldv, const float * tau, float * t, int ldt) __asm__("LAPACKE_slarft_work");
EX int __wrap_LAPACKE_slarft_work(int l, char d, char sv, int n, int k, const float * v, int ldv, const float * tau, float * t, int ldt) {
  if (n > 0) { if (sv == 'C' || sv == 'c') trap(v, 4, true, true, n, k, ldv, RD); else trap(v, 4, false, true, k, n, ldv, RD);
  access(tau, 4 * (size_t)k, RD); trap(t, 4, false, false, k, k, ldt, WR); }
  return __real_LAPACKE_slarft_work(l, d, sv, n, k, v, ldv, tau, t, ldt);
}
extern "C" int __real_LAPACKE_slarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const float * v, int ldv, const float * t, int ldt, float * cc, int ldc, float * wk, int ldw) __asm__("LAPACKE_slarfb_work");
EX int __wrap_LAPACKE_slarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const float * v, int ldv, const float * t, int ldt, float * cc, int ldc, float * wk, int ldw) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; int q = lf ? m : n; if (sv == 'C' || sv == 'c') trap(v, 4, true, true, q, k, ldv, RD); else trap(v, 4, false, true, k, q, ldv, RD);
  trap(t, 4, false, false, k, k, ldt, RD); region(cc, 4, m, n, ldc, RD); region(cc, 4, m, n, ldc, WR); region(wk, 4, lf ? n : m, k, ldw, WR); }
  return __real_LAPACKE_slarfb_work(l, sd, tr, d, sv, m, n, k, v, ldv, t, ldt, cc, ldc, wk, ldw);
}
extern "C" int __real_LAPACKE_slarfg_work(int n, float * al, float * x, int ix, float * tau) __asm__("LAPACKE_slarfg_work");
EX int __wrap_LAPACKE_slarfg_work(int n, float * al, float * x, int ix, float * tau) {
  if (n > 0) { if (n > 1) { access(al, 4, RD); vec(x, 4, n - 1, ix, RD); access(al, 4, WR); vec(x, 4, n - 1, ix, WR); } access(tau, 4, WR); }
  return __real_LAPACKE_slarfg_work(n, al, x, ix, tau);
}
extern "C" int __real_LAPACKE_slarfx_work(int l, char sd, int m, int n, const float * v, float tau, float * cc, int ldc, float * wk) __asm__("LAPACKE_slarfx_work");
EX int __wrap_LAPACKE_slarfx_work(int l, char sd, int m, int n, const float * v, float tau, float * cc, int ldc, float * wk) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; access(v, 4 * (size_t)(lf ? m : n), RD); region(cc, 4, m, n, ldc, RD); region(cc, 4, m, n, ldc, WR); if ((lf ? m : n) > 10) access(wk, 4 * (size_t)(lf ? n : m), WR); }
  return __real_LAPACKE_slarfx_work(l, sd, m, n, v, tau, cc, ldc, wk);
}
extern "C" float __real_LAPACKE_slange_work(int l, char nm, int m, int n, const float * a, int lda, float * wk) __asm__("LAPACKE_slange_work");
EX float __wrap_LAPACKE_slange_work(int l, char nm, int m, int n, const float * a, int lda, float * wk) {
  region(a, 4, m, n, lda, RD); if (nm == 'I' || nm == 'i') access(wk, 4 * (size_t)m, WR);
  return __real_LAPACKE_slange_work(l, nm, m, n, a, lda, wk);
}
extern "C" float __real_LAPACKE_slansy_work(int l, char nm, char up, int n, const float * a, int lda, float * wk) __asm__("LAPACKE_slansy_work");
EX float __wrap_LAPACKE_slansy_work(int l, char nm, char up, int n, const float * a, int lda, float * wk) {
  trap(a, 4, up == 'L' || up == 'l', false, n, n, lda, RD); if (nm != 'M' && nm != 'm' && nm != 'F' && nm != 'f') access(wk, 4 * (size_t)n, WR);
  return __real_LAPACKE_slansy_work(l, nm, up, n, a, lda, wk);
}
extern "C" int __real_LAPACKE_ssygst_work(int l, int it, char up, int n, float * a, int lda, const float * b, int ldb) __asm__("LAPACKE_ssygst_work");
EX int __wrap_LAPACKE_ssygst_work(int l, int it, char up, int n, float * a, int lda, const float * b, int ldb) {
  bool lo = up == 'L' || up == 'l'; trap(a, 4, lo, false, n, n, lda, RD); trap(a, 4, lo, false, n, n, lda, WR); trap(b, 4, lo, false, n, n, ldb, RD);
  return __real_LAPACKE_ssygst_work(l, it, up, n, a, lda, b, ldb);
}
extern "C" void __real_cblas_dgemm(int o, int ta, int tb, int m, int n, int k, double  al, const double * a, int lda, const double * b, int ldb, double  be, double * cc, int ldc) __asm__("cblas_dgemm");
EX void __wrap_cblas_dgemm(int o, int ta, int tb, int m, int n, int k, double  al, const double * a, int lda, const double * b, int ldb, double  be, double * cc, int ldc) {
  if (m > 0 && n > 0) { if (nz(al) && k > 0) { if (ta == NoT) region(a, 8, m, k, lda, RD); else region(a, 8, k, m, lda, RD);
    if (tb == NoT) region(b, 8, k, n, ldb, RD); else region(b, 8, n, k, ldb, RD); }
    if (nz(be)) region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); }
  return __real_cblas_dgemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_dsymm(int o, int sd, int up, int m, int n, double  al, const double * a, int lda, const double * b, int ldb, double  be, double * cc, int ldc) __asm__("cblas_dsymm");
EX void __wrap_cblas_dsymm(int o, int sd, int up, int m, int n, double  al, const double * a, int lda, const double * b, int ldb, double  be, double * cc, int ldc) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nz(al)) { trap(a, 8, up == Lo, false, q, q, lda, RD); region(b, 8, m, n, ldb, RD); }
    if (nz(be)) region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); }
  return __real_cblas_dsymm(o, sd, up, m, n, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_dsyrk(int o, int up, int tr, int n, int k, double  al, const double * a, int lda, double  be, double * cc, int ldc) __asm__("cblas_dsyrk");
EX void __wrap_cblas_dsyrk(int o, int up, int tr, int n, int k, double  al, const double * a, int lda, double  be, double * cc, int ldc) {
  if (n > 0) { if (nz(al) && k > 0) { if (tr == NoT) region(a, 8, n, k, lda, RD); else region(a, 8, k, n, lda, RD); }
    if (nz(be)) trap(cc, 8, up == Lo, false, n, n, ldc, RD); trap(cc, 8, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_dsyrk(o, up, tr, n, k, al, a, lda, be, cc, ldc);
}
extern "C" void __real_cblas_dsyr2k(int o, int up, int tr, int n, int k, double  al, const double * a, int lda, const double * b, int ldb, double  be, double * cc, int ldc) __asm__("cblas_dsyr2k");
EX void __wrap_cblas_dsyr2k(int o, int up, int tr, int n, int k, double  al, const double * a, int lda, const double * b, int ldb, double  be, double * cc, int ldc) {
  if (n > 0) { if (nz(al) && k > 0) { if (tr == NoT) { region(a, 8, n, k, lda, RD); region(b, 8, n, k, ldb, RD); } else { region(a, 8, k, n, lda, RD); region(b, 8, k, n, ldb, RD); } }
    if (nz(be)) trap(cc, 8, up == Lo, false, n, n, ldc, RD); trap(cc, 8, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_dsyr2k(o, up, tr, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_dtrmm(int o, int sd, int up, int ta, int di, int m, int n, double  al, const double * a, int lda, double * b, int ldb) __asm__("cblas_dtrmm");
EX void __wrap_cblas_dtrmm(int o, int sd, int up, int ta, int di, int m, int n, double  al, const double * a, int lda, double * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nz(al)) { trap(a, 8, up == Lo, di == UnitD, q, q, lda, RD); region(b, 8, m, n, ldb, RD); } region(b, 8, m, n, ldb, WR); }
  return __real_cblas_dtrmm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_dtrsm(int o, int sd, int up, int ta, int di, int m, int n, double  al, const double * a, int lda, double * b, int ldb) __asm__("cblas_dtrsm");
EX void __wrap_cblas_dtrsm(int o, int sd, int up, int ta, int di, int m, int n, double  al, const double * a, int lda, double * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nz(al)) { trap(a, 8, up == Lo, di == UnitD, q, q, lda, RD); region(b, 8, m, n, ldb, RD); } region(b, 8, m, n, ldb, WR); }
  return __real_cblas_dtrsm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_dtrmv(int o, int up, int ta, int di, int n, const double * a, int lda, double * x, int ix) __asm__("cblas_dtrmv");
EX void __wrap_cblas_dtrmv(int o, int up, int ta, int di, int n, const double * a, int lda, double * x, int ix) {
  trap(a, 8, up == Lo, di == UnitD, n, n, lda, RD); vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);
  return __real_cblas_dtrmv(o, up, ta, di, n, a, lda, x, ix);
}
extern "C" void __real_cblas_dgemv(int o, int ta, int m, int n, double  al, const double * a, int lda, const double * x, int ix, double  be, double * y, int iy) __asm__("cblas_dgemv");
EX void __wrap_cblas_dgemv(int o, int ta, int m, int n, double  al, const double * a, int lda, const double * x, int ix, double  be, double * y, int iy) {
  if (m > 0 && n > 0) { int lx = ta == NoT ? n : m, ly = ta == NoT ? m : n; if (nz(al)) { region(a, 8, m, n, lda, RD); vec(x, 8, lx, ix, RD); } if (nz(be)) vec(y, 8, ly, iy, RD); vec(y, 8, ly, iy, WR); }
  return __real_cblas_dgemv(o, ta, m, n, al, a, lda, x, ix, be, y, iy);
}
extern "C" void __real_cblas_dger(int o, int m, int n, double  al, const double * x, int ix, const double * y, int iy, double * a, int lda) __asm__("cblas_dger");
EX void __wrap_cblas_dger(int o, int m, int n, double  al, const double * x, int ix, const double * y, int iy, double * a, int lda) {
  if (m > 0 && n > 0 && nz(al)) { vec(x, 8, m, ix, RD); vec(y, 8, n, iy, RD); region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); }
  return __real_cblas_dger(o, m, n, al, x, ix, y, iy, a, lda);
}
extern "C" void __real_cblas_daxpy(int n, double  al, const double * x, int ix, double * y, int iy) __asm__("cblas_daxpy");
EX void __wrap_cblas_daxpy(int n, double  al, const double * x, int ix, double * y, int iy) {
  vec(x, 8, n, ix, RD); vec(y, 8, n, iy, RD); vec(y, 8, n, iy, WR);
  return __real_cblas_daxpy(n, al, x, ix, y, iy);
}
extern "C" void __real_cblas_dcopy(int n, const double * x, int ix, double * y, int iy) __asm__("cblas_dcopy");
EX void __wrap_cblas_dcopy(int n, const double * x, int ix, double * y, int iy) {
  vec(x, 8, n, ix, RD); vec(y, 8, n, iy, WR);
  return __real_cblas_dcopy(n, x, ix, y, iy);
}
extern "C" void __real_cblas_dscal(int n, double  al, double * x, int ix) __asm__("cblas_dscal");
EX void __wrap_cblas_dscal(int n, double  al, double * x, int ix) {
  vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);
  return __real_cblas_dscal(n, al, x, ix);
}
extern "C" void __real_cblas_dswap(int n, double * x, int ix, double * y, int iy) __asm__("cblas_dswap");
EX void __wrap_cblas_dswap(int n, double * x, int ix, double * y, int iy) {
  vec(x, 8, n, ix, RD); vec(y, 8, n, iy, RD); vec(x, 8, n, ix, WR); vec(y, 8, n, iy, WR);
  return __real_cblas_dswap(n, x, ix, y, iy);
}
extern "C" int __real_LAPACKE_dgelq2_work(int l, int m, int n, double * a, int lda, double * tau, double * wk) __asm__("LAPACKE_dgelq2_work");
EX int __wrap_LAPACKE_dgelq2_work(int l, int m, int n, double * a, int lda, double * tau, double * wk) {
  region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); access(tau, 8 * (size_t)(m < n ? m : n), WR); access(wk, 8 * (size_t)m, WR);
  return __real_LAPACKE_dgelq2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_dgeqr2_work(int l, int m, int n, double * a, int lda, double * tau, double * wk) __asm__("LAPACKE_dgeqr2_work");
EX int __wrap_LAPACKE_dgeqr2_work(int l, int m, int n, double * a, int lda, double * tau, double * wk) {
  region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); access(tau, 8 * (size_t)(m < n ? m : n), WR); access(wk, 8 * (size_t)n, WR);
  return __real_LAPACKE_dgeqr2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_dlacpy_work(int l, char up, int m, int n, const double * a, int lda, double * b, int ldb) __asm__("LAPACKE_dlacpy_work");
EX int __wrap_LAPACKE_dlacpy_work(int l, char up, int m, int n, const double * a, int lda, double * b, int ldb) {
  if (up == 'U' || up == 'u') { trap(a, 8, false, false, m, n, lda, RD); trap(b, 8, false, false, m, n, ldb, WR); } else if (up == 'L' || up == 'l') { trap(a, 8, true, false, m, n, lda, RD); trap(b, 8, true, false, m, n, ldb, WR); }
  else { region(a, 8, m, n, lda, RD); region(b, 8, m, n, ldb, WR); }
  return __real_LAPACKE_dlacpy_work(l, up, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_dlaset_work(int l, char up, int m, int n, double al, double be, double * a, int lda) __asm__("LAPACKE_dlaset_work");
EX int __wrap_LAPACKE_dlaset_work(int l, char up, int m, int n, double al, double be, double * a, int lda) {
  if (up == 'U' || up == 'u') trap(a, 8, false, false, m, n, lda, WR); else if (up == 'L' || up == 'l') trap(a, 8, true, false, m, n, lda, WR); else region(a, 8, m, n, lda, WR);
  return __real_LAPACKE_dlaset_work(l, up, m, n, al, be, a, lda);
}
extern "C" int __real_LAPACKE_dlauum_work(int l, char up, int n, double * a, int lda) __asm__("LAPACKE_dlauum_work");
EX int __wrap_LAPACKE_dlauum_work(int l, char up, int n, double * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 8, lo, false, n, n, lda, RD); trap(a, 8, lo, false, n, n, lda, WR);
  return __real_LAPACKE_dlauum_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_dpotrf_work(int l, char up, int n, double * a, int lda) __asm__("LAPACKE_dpotrf_work");
EX int __wrap_LAPACKE_dpotrf_work(int l, char up, int n, double * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 8, lo, false, n, n, lda, RD); trap(a, 8, lo, false, n, n, lda, WR);
  return __real_LAPACKE_dpotrf_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_dtrtri_work(int l, char up, char di, int n, double * a, int lda) __asm__("LAPACKE_dtrtri_work");
EX int __wrap_LAPACKE_dtrtri_work(int l, char up, char di, int n, double * a, int lda) {
  bool lo = up == 'L' || up == 'l', u = di == 'U' || di == 'u'; trap(a, 8, lo, u, n, n, lda, RD); trap(a, 8, lo, u, n, n, lda, WR);
  return __real_LAPACKE_dtrtri_work(l, up, di, n, a, lda);
}
extern "C" int __real_LAPACKE_dlarft_work(int l, char d, char sv, int n, int k, const double * v, int ldv, const double * tau, double * t, int ldt) __asm__("LAPACKE_dlarft_work");
EX int __wrap_LAPACKE_dlarft_work(int l, char d, char sv, int n, int k, const double * v, int ldv, const double * tau, double * t, int ldt) {
  if (n > 0) { if (sv == 'C' || sv == 'c') trap(v, 8, true, true, n, k, ldv, RD); else trap(v, 8, false, true, k, n, ldv, RD);
  access(tau, 8 * (size_t)k, RD); trap(t, 8, false, false, k, k, ldt, WR); }
  return __real_LAPACKE_dlarft_work(l, d, sv, n, k, v, ldv, tau, t, ldt);
}
extern "C" int __real_LAPACKE_dlarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const double * v, int ldv, const double * t, int ldt, double * cc, int ldc, double * wk, int ldw) __asm__("LAPACKE_dlarfb_work");
EX int __wrap_LAPACKE_dlarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const double * v, int ldv, const double * t, int ldt, double * cc, int ldc, double * wk, int ldw) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; int q = lf ? m : n; if (sv == 'C' || sv == 'c') trap(v, 8, true, true, q, k, ldv, RD); else trap(v, 8, false, true, k, q, ldv, RD);
  trap(t, 8, false, false, k, k, ldt, RD); region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); region(wk, 8, lf ? n : m, k, ldw, WR); }
  return __real_LAPACKE_dlarfb_work(l, sd, tr, d, sv, m, n, k, v, ldv, t, ldt, cc, ldc, wk, ldw);
}
extern "C" int __real_LAPACKE_dlarfg_work(int n, double * al, double * x, int ix, double * tau) __asm__("LAPACKE_dlarfg_work");
EX int __wrap_LAPACKE_dlarfg_work(int n, double * al, double * x, int ix, double * tau) {
  if (n > 0) { if (n > 1) { access(al, 8, RD); vec(x, 8, n - 1, ix, RD); access(al, 8, WR); vec(x, 8, n - 1, ix, WR); } access(tau, 8, WR); }
  return __real_LAPACKE_dlarfg_work(n, al, x, ix, tau);
}
extern "C" int __real_LAPACKE_dlarfx_work(int l, char sd, int m, int n, const double * v, double tau, double * cc, int ldc, double * wk) __asm__("LAPACKE_dlarfx_work");
EX int __wrap_LAPACKE_dlarfx_work(int l, char sd, int m, int n, const double * v, double tau, double * cc, int ldc, double * wk) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; access(v, 8 * (size_t)(lf ? m : n), RD); region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); if ((lf ? m : n) > 10) access(wk, 8 * (size_t)(lf ? n : m), WR); }
  return __real_LAPACKE_dlarfx_work(l, sd, m, n, v, tau, cc, ldc, wk);
}
extern "C" double __real_LAPACKE_dlange_work(int l, char nm, int m, int n, const double * a, int lda, double * wk) __asm__("LAPACKE_dlange_work");
EX double __wrap_LAPACKE_dlange_work(int l, char nm, int m, int n, const double * a, int lda, double * wk) {
  region(a, 8, m, n, lda, RD); if (nm == 'I' || nm == 'i') access(wk, 8 * (size_t)m, WR);
  return __real_LAPACKE_dlange_work(l, nm, m, n, a, lda, wk);
}
extern "C" double __real_LAPACKE_dlansy_work(int l, char nm, char up, int n, const double * a, int lda, double * wk) __asm__("LAPACKE_dlansy_work");
EX double __wrap_LAPACKE_dlansy_work(int l, char nm, char up, int n, const double * a, int lda, double * wk) {
  trap(a, 8, up == 'L' || up == 'l', false, n, n, lda, RD); if (nm != 'M' && nm != 'm' && nm != 'F' && nm != 'f') access(wk, 8 * (size_t)n, WR);
  return __real_LAPACKE_dlansy_work(l, nm, up, n, a, lda, wk);
}
extern "C" int __real_LAPACKE_dsygst_work(int l, int it, char up, int n, double * a, int lda, const double * b, int ldb) __asm__("LAPACKE_dsygst_work");
EX int __wrap_LAPACKE_dsygst_work(int l, int it, char up, int n, double * a, int lda, const double * b, int ldb) {
  bool lo = up == 'L' || up == 'l'; trap(a, 8, lo, false, n, n, lda, RD); trap(a, 8, lo, false, n, n, lda, WR); trap(b, 8, lo, false, n, n, ldb, RD);
  return __real_LAPACKE_dsygst_work(l, it, up, n, a, lda, b, ldb);
}
extern "C" void __real_cblas_cgemm(int o, int ta, int tb, int m, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_cgemm");
EX void __wrap_cblas_cgemm(int o, int ta, int tb, int m, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (m > 0 && n > 0) { if (nzc(al) && k > 0) { if (ta == NoT) region(a, 8, m, k, lda, RD); else region(a, 8, k, m, lda, RD);
    if (tb == NoT) region(b, 8, k, n, ldb, RD); else region(b, 8, n, k, ldb, RD); }
    if (nzc(be)) region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); }
  return __real_cblas_cgemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_csymm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_csymm");
EX void __wrap_cblas_csymm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzc(al)) { trap(a, 8, up == Lo, false, q, q, lda, RD); region(b, 8, m, n, ldb, RD); }
    if (nzc(be)) region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); }
  return __real_cblas_csymm(o, sd, up, m, n, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_chemm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_chemm");
EX void __wrap_cblas_chemm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzc(al)) { trap(a, 8, up == Lo, false, q, q, lda, RD); region(b, 8, m, n, ldb, RD); }
    if (nzc(be)) region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); }
  return __real_cblas_chemm(o, sd, up, m, n, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_csyrk(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * be, void * cc, int ldc) __asm__("cblas_csyrk");
EX void __wrap_cblas_csyrk(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * be, void * cc, int ldc) {
  if (n > 0) { if (nzc(al) && k > 0) { if (tr == NoT) region(a, 8, n, k, lda, RD); else region(a, 8, k, n, lda, RD); }
    if (nzc(be)) trap(cc, 8, up == Lo, false, n, n, ldc, RD); trap(cc, 8, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_csyrk(o, up, tr, n, k, al, a, lda, be, cc, ldc);
}
extern "C" void __real_cblas_cherk(int o, int up, int tr, int n, int k, float  al, const void * a, int lda, float  be, void * cc, int ldc) __asm__("cblas_cherk");
EX void __wrap_cblas_cherk(int o, int up, int tr, int n, int k, float  al, const void * a, int lda, float  be, void * cc, int ldc) {
  if (n > 0) { if (nz(al) && k > 0) { if (tr == NoT) region(a, 8, n, k, lda, RD); else region(a, 8, k, n, lda, RD); }
    if (nz(be)) trap(cc, 8, up == Lo, false, n, n, ldc, RD); trap(cc, 8, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_cherk(o, up, tr, n, k, al, a, lda, be, cc, ldc);
}
extern "C" void __real_cblas_csyr2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_csyr2k");
EX void __wrap_cblas_csyr2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (n > 0) { if (nzc(al) && k > 0) { if (tr == NoT) { region(a, 8, n, k, lda, RD); region(b, 8, n, k, ldb, RD); } else { region(a, 8, k, n, lda, RD); region(b, 8, k, n, ldb, RD); } }
    if (nzc(be)) trap(cc, 8, up == Lo, false, n, n, ldc, RD); trap(cc, 8, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_csyr2k(o, up, tr, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_cher2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, float  be, void * cc, int ldc) __asm__("cblas_cher2k");
EX void __wrap_cblas_cher2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, float  be, void * cc, int ldc) {
  if (n > 0) { if (nzc(al) && k > 0) { if (tr == NoT) { region(a, 8, n, k, lda, RD); region(b, 8, n, k, ldb, RD); } else { region(a, 8, k, n, lda, RD); region(b, 8, k, n, ldb, RD); } }
    if (nz(be)) trap(cc, 8, up == Lo, false, n, n, ldc, RD); trap(cc, 8, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_cher2k(o, up, tr, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_ctrmm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ctrmm");
EX void __wrap_cblas_ctrmm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzc(al)) { trap(a, 8, up == Lo, di == UnitD, q, q, lda, RD); region(b, 8, m, n, ldb, RD); } region(b, 8, m, n, ldb, WR); }
  return __real_cblas_ctrmm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_ctrsm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ctrsm");
EX void __wrap_cblas_ctrsm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzc(al)) { trap(a, 8, up == Lo, di == UnitD, q, q, lda, RD); region(b, 8, m, n, ldb, RD); } region(b, 8, m, n, ldb, WR); }
  return __real_cblas_ctrsm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_ctrmv(int o, int up, int ta, int di, int n, const void * a, int lda, void * x, int ix) __asm__("cblas_ctrmv");
EX void __wrap_cblas_ctrmv(int o, int up, int ta, int di, int n, const void * a, int lda, void * x, int ix) {
  trap(a, 8, up == Lo, di == UnitD, n, n, lda, RD); vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);
  return __real_cblas_ctrmv(o, up, ta, di, n, a, lda, x, ix);
}
extern "C" void __real_cblas_cgemv(int o, int ta, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) __asm__("cblas_cgemv");
EX void __wrap_cblas_cgemv(int o, int ta, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) {
  if (m > 0 && n > 0) { int lx = ta == NoT ? n : m, ly = ta == NoT ? m : n; if (nzc(al)) { region(a, 8, m, n, lda, RD); vec(x, 8, lx, ix, RD); } if (nzc(be)) vec(y, 8, ly, iy, RD); vec(y, 8, ly, iy, WR); }
  return __real_cblas_cgemv(o, ta, m, n, al, a, lda, x, ix, be, y, iy);
}
extern "C" void __real_cblas_cgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_cgerc");
EX void __wrap_cblas_cgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) {
  if (m > 0 && n > 0 && nzc(al)) { vec(x, 8, m, ix, RD); vec(y, 8, n, iy, RD); region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); }
  return __real_cblas_cgerc(o, m, n, al, x, ix, y, iy, a, lda);
}
extern "C" void __real_cblas_cgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_cgeru");
EX void __wrap_cblas_cgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) {
  if (m > 0 && n > 0 && nzc(al)) { vec(x, 8, m, ix, RD); vec(y, 8, n, iy, RD); region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); }
  return __real_cblas_cgeru(o, m, n, al, x, ix, y, iy, a, lda);
}
extern "C" void __real_cblas_caxpy(int n, const void * al, const void * x, int ix, void * y, int iy) __asm__("cblas_caxpy");
EX void __wrap_cblas_caxpy(int n, const void * al, const void * x, int ix, void * y, int iy) {
  vec(x, 8, n, ix, RD); vec(y, 8, n, iy, RD); vec(y, 8, n, iy, WR);
  return __real_cblas_caxpy(n, al, x, ix, y, iy);
}
extern "C" void __real_cblas_ccopy(int n, const void * x, int ix, void * y, int iy) __asm__("cblas_ccopy");
EX void __wrap_cblas_ccopy(int n, const void * x, int ix, void * y, int iy) {
  vec(x, 8, n, ix, RD); vec(y, 8, n, iy, WR);
  return __real_cblas_ccopy(n, x, ix, y, iy);
}
extern "C" void __real_cblas_cscal(int n, const void * al, void * x, int ix) __asm__("cblas_cscal");
EX void __wrap_cblas_cscal(int n, const void * al, void * x, int ix) {
  vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);
  return __real_cblas_cscal(n, al, x, ix);
}
extern "C" void __real_cblas_cswap(int n, void * x, int ix, void * y, int iy) __asm__("cblas_cswap");
EX void __wrap_cblas_cswap(int n, void * x, int ix, void * y, int iy) {
  vec(x, 8, n, ix, RD); vec(y, 8, n, iy, RD); vec(x, 8, n, ix, WR); vec(y, 8, n, iy, WR);
  return __real_cblas_cswap(n, x, ix, y, iy);
}
extern "C" int __real_LAPACKE_cgelq2_work(int l, int m, int n, std::complex<float> * a, int lda, std::complex<float> * tau, std::complex<float> * wk) __asm__("LAPACKE_cgelq2_work");
EX int __wrap_LAPACKE_cgelq2_work(int l, int m, int n, std::complex<float> * a, int lda, std::complex<float> * tau, std::complex<float> * wk) {
  region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); access(tau, 8 * (size_t)(m < n ? m : n), WR); access(wk, 8 * (size_t)m, WR);
  return __real_LAPACKE_cgelq2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_cgeqr2_work(int l, int m, int n, std::complex<float> * a, int lda, std::complex<float> * tau, std::complex<float> * wk) __asm__("LAPACKE_cgeqr2_work");
EX int __wrap_LAPACKE_cgeqr2_work(int l, int m, int n, std::complex<float> * a, int lda, std::complex<float> * tau, std::complex<float> * wk) {
  region(a, 8, m, n, lda, RD); region(a, 8, m, n, lda, WR); access(tau, 8 * (size_t)(m < n ? m : n), WR); access(wk, 8 * (size_t)n, WR);
  return __real_LAPACKE_cgeqr2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_clacpy_work(int l, char up, int m, int n, const std::complex<float> * a, int lda, std::complex<float> * b, int ldb) __asm__("LAPACKE_clacpy_work");
EX int __wrap_LAPACKE_clacpy_work(int l, char up, int m, int n, const std::complex<float> * a, int lda, std::complex<float> * b, int ldb) {
  if (up == 'U' || up == 'u') { trap(a, 8, false, false, m, n, lda, RD); trap(b, 8, false, false, m, n, ldb, WR); } else if (up == 'L' || up == 'l') { trap(a, 8, true, false, m, n, lda, RD); trap(b, 8, true, false, m, n, ldb, WR); }
  else { region(a, 8, m, n, lda, RD); region(b, 8, m, n, ldb, WR); }
  return __real_LAPACKE_clacpy_work(l, up, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_claset_work(int l, char up, int m, int n, std::complex<float> al, std::complex<float> be, std::complex<float> * a, int lda) __asm__("LAPACKE_claset_work");
EX int __wrap_LAPACKE_claset_work(int l, char up, int m, int n, std::complex<float> al, std::complex<float> be, std::complex<float> * a, int lda) {
  if (up == 'U' || up == 'u') trap(a, 8, false, false, m, n, lda, WR); else if (up == 'L' || up == 'l') trap(a, 8, true, false, m, n, lda, WR); else region(a, 8, m, n, lda, WR);
  return __real_LAPACKE_claset_work(l, up, m, n, al, be, a, lda);
}
extern "C" int __real_LAPACKE_clauum_work(int l, char up, int n, std::complex<float> * a, int lda) __asm__("LAPACKE_clauum_work");
EX int __wrap_LAPACKE_clauum_work(int l, char up, int n, std::complex<float> * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 8, lo, false, n, n, lda, RD); trap(a, 8, lo, false, n, n, lda, WR);
  return __real_LAPACKE_clauum_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_cpotrf_work(int l, char up, int n, std::complex<float> * a, int lda) __asm__("LAPACKE_cpotrf_work");
EX int __wrap_LAPACKE_cpotrf_work(int l, char up, int n, std::complex<float> * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 8, lo, false, n, n, lda, RD); trap(a, 8, lo, false, n, n, lda, WR);
  return __real_LAPACKE_cpotrf_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_ctrtri_work(int l, char up, char di, int n, std::complex<float> * a, int lda) __asm__("LAPACKE_ctrtri_work");
EX int __wrap_LAPACKE_ctrtri_work(int l, char up, char di, int n, std::complex<float> * a, int lda) {
  bool lo = up == 'L' || up == 'l', u = di == 'U' || di == 'u'; trap(a, 8, lo, u, n, n, lda, RD); trap(a, 8, lo, u, n, n, lda, WR);
  return __real_LAPACKE_ctrtri_work(l, up, di, n, a, lda);
}
extern "C" int __real_LAPACKE_clarft_work(int l, char d, char sv, int n, int k, const std::complex<float> * v, int ldv, const std::complex<float> * tau, std::complex<float> * t, int ldt) __asm__("LAPACKE_clarft_work");
EX int __wrap_LAPACKE_clarft_work(int l, char d, char sv, int n, int k, const std::complex<float> * v, int ldv, const std::complex<float> * tau, std::complex<float> * t, int ldt) {
  if (n > 0) { if (sv == 'C' || sv == 'c') trap(v, 8, true, true, n, k, ldv, RD); else trap(v, 8, false, true, k, n, ldv, RD);
  access(tau, 8 * (size_t)k, RD); trap(t, 8, false, false, k, k, ldt, WR); }
  return __real_LAPACKE_clarft_work(l, d, sv, n, k, v, ldv, tau, t, ldt);
}
extern "C" int __real_LAPACKE_clarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const std::complex<float> * v, int ldv, const std::complex<float> * t, int ldt, std::complex<float> * cc, int ldc, std::complex<float> * wk, int ldw) __asm__("LAPACKE_clarfb_work");
EX int __wrap_LAPACKE_clarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const std::complex<float> * v, int ldv, const std::complex<float> * t, int ldt, std::complex<float> * cc, int ldc, std::complex<float> * wk, int ldw) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; int q = lf ? m : n; if (sv == 'C' || sv == 'c') trap(v, 8, true, true, q, k, ldv, RD); else trap(v, 8, false, true, k, q, ldv, RD);
  trap(t, 8, false, false, k, k, ldt, RD); region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); region(wk, 8, lf ? n : m, k, ldw, WR); }
  return __real_LAPACKE_clarfb_work(l, sd, tr, d, sv, m, n, k, v, ldv, t, ldt, cc, ldc, wk, ldw);
}
extern "C" int __real_LAPACKE_clarfg_work(int n, std::complex<float> * al, std::complex<float> * x, int ix, std::complex<float> * tau) __asm__("LAPACKE_clarfg_work");
EX int __wrap_LAPACKE_clarfg_work(int n, std::complex<float> * al, std::complex<float> * x, int ix, std::complex<float> * tau) {
  if (n > 0) { if (n > 1) { access(al, 8, RD); vec(x, 8, n - 1, ix, RD); access(al, 8, WR); vec(x, 8, n - 1, ix, WR); } access(tau, 8, WR); }
  return __real_LAPACKE_clarfg_work(n, al, x, ix, tau);
}
extern "C" int __real_LAPACKE_clarfx_work(int l, char sd, int m, int n, const std::complex<float> * v, std::complex<float> tau, std::complex<float> * cc, int ldc, std::complex<float> * wk) __asm__("LAPACKE_clarfx_work");
EX int __wrap_LAPACKE_clarfx_work(int l, char sd, int m, int n, const std::complex<float> * v, std::complex<float> tau, std::complex<float> * cc, int ldc, std::complex<float> * wk) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; access(v, 8 * (size_t)(lf ? m : n), RD); region(cc, 8, m, n, ldc, RD); region(cc, 8, m, n, ldc, WR); if ((lf ? m : n) > 10) access(wk, 8 * (size_t)(lf ? n : m), WR); }
  return __real_LAPACKE_clarfx_work(l, sd, m, n, v, tau, cc, ldc, wk);
}
extern "C" float __real_LAPACKE_clange_work(int l, char nm, int m, int n, const std::complex<float> * a, int lda, float * wk) __asm__("LAPACKE_clange_work");
EX float __wrap_LAPACKE_clange_work(int l, char nm, int m, int n, const std::complex<float> * a, int lda, float * wk) {
  region(a, 8, m, n, lda, RD); if (nm == 'I' || nm == 'i') access(wk, 4 * (size_t)m, WR);
  return __real_LAPACKE_clange_work(l, nm, m, n, a, lda, wk);
}
extern "C" float __real_LAPACKE_clansy_work(int l, char nm, char up, int n, const std::complex<float> * a, int lda, float * wk) __asm__("LAPACKE_clansy_work");
EX float __wrap_LAPACKE_clansy_work(int l, char nm, char up, int n, const std::complex<float> * a, int lda, float * wk) {
  trap(a, 8, up == 'L' || up == 'l', false, n, n, lda, RD); if (nm != 'M' && nm != 'm' && nm != 'F' && nm != 'f') access(wk, 4 * (size_t)n, WR);
  return __real_LAPACKE_clansy_work(l, nm, up, n, a, lda, wk);
}
extern "C" float __real_LAPACKE_clanhe_work(int l, char nm, char up, int n, const std::complex<float> * a, int lda, float * wk) __asm__("LAPACKE_clanhe_work");
EX float __wrap_LAPACKE_clanhe_work(int l, char nm, char up, int n, const std::complex<float> * a, int lda, float * wk) {
  trap(a, 8, up == 'L' || up == 'l', false, n, n, lda, RD); if (nm != 'M' && nm != 'm' && nm != 'F' && nm != 'f') access(wk, 4 * (size_t)n, WR);
  return __real_LAPACKE_clanhe_work(l, nm, up, n, a, lda, wk);
}
extern "C" int __real_LAPACKE_clacgv_work(int n, std::complex<float> * x, int ix) __asm__("LAPACKE_clacgv_work");
EX int __wrap_LAPACKE_clacgv_work(int n, std::complex<float> * x, int ix) {
  vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);
  return __real_LAPACKE_clacgv_work(n, x, ix);
}
extern "C" int __real_LAPACKE_chegst_work(int l, int it, char up, int n, std::complex<float> * a, int lda, const std::complex<float> * b, int ldb) __asm__("LAPACKE_chegst_work");
EX int __wrap_LAPACKE_chegst_work(int l, int it, char up, int n, std::complex<float> * a, int lda, const std::complex<float> * b, int ldb) {
  bool lo = up == 'L' || up == 'l'; trap(a, 8, lo, false, n, n, lda, RD); trap(a, 8, lo, false, n, n, lda, WR); trap(b, 8, lo, false, n, n, ldb, RD);
  return __real_LAPACKE_chegst_work(l, it, up, n, a, lda, b, ldb);
}
extern "C" void __real_cblas_zgemm(int o, int ta, int tb, int m, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_zgemm");
EX void __wrap_cblas_zgemm(int o, int ta, int tb, int m, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (m > 0 && n > 0) { if (nzz(al) && k > 0) { if (ta == NoT) region(a, 16, m, k, lda, RD); else region(a, 16, k, m, lda, RD);
    if (tb == NoT) region(b, 16, k, n, ldb, RD); else region(b, 16, n, k, ldb, RD); }
    if (nzz(be)) region(cc, 16, m, n, ldc, RD); region(cc, 16, m, n, ldc, WR); }
  return __real_cblas_zgemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_zsymm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_zsymm");
EX void __wrap_cblas_zsymm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzz(al)) { trap(a, 16, up == Lo, false, q, q, lda, RD); region(b, 16, m, n, ldb, RD); }
    if (nzz(be)) region(cc, 16, m, n, ldc, RD); region(cc, 16, m, n, ldc, WR); }
  return __real_cblas_zsymm(o, sd, up, m, n, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_zhemm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_zhemm");
EX void __wrap_cblas_zhemm(int o, int sd, int up, int m, int n, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzz(al)) { trap(a, 16, up == Lo, false, q, q, lda, RD); region(b, 16, m, n, ldb, RD); }
    if (nzz(be)) region(cc, 16, m, n, ldc, RD); region(cc, 16, m, n, ldc, WR); }
  return __real_cblas_zhemm(o, sd, up, m, n, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_zsyrk(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * be, void * cc, int ldc) __asm__("cblas_zsyrk");
EX void __wrap_cblas_zsyrk(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * be, void * cc, int ldc) {
  if (n > 0) { if (nzz(al) && k > 0) { if (tr == NoT) region(a, 16, n, k, lda, RD); else region(a, 16, k, n, lda, RD); }
    if (nzz(be)) trap(cc, 16, up == Lo, false, n, n, ldc, RD); trap(cc, 16, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_zsyrk(o, up, tr, n, k, al, a, lda, be, cc, ldc);
}
extern "C" void __real_cblas_zherk(int o, int up, int tr, int n, int k, double  al, const void * a, int lda, double  be, void * cc, int ldc) __asm__("cblas_zherk");
EX void __wrap_cblas_zherk(int o, int up, int tr, int n, int k, double  al, const void * a, int lda, double  be, void * cc, int ldc) {
  if (n > 0) { if (nz(al) && k > 0) { if (tr == NoT) region(a, 16, n, k, lda, RD); else region(a, 16, k, n, lda, RD); }
    if (nz(be)) trap(cc, 16, up == Lo, false, n, n, ldc, RD); trap(cc, 16, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_zherk(o, up, tr, n, k, al, a, lda, be, cc, ldc);
}
extern "C" void __real_cblas_zsyr2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) __asm__("cblas_zsyr2k");
EX void __wrap_cblas_zsyr2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, const void * be, void * cc, int ldc) {
  if (n > 0) { if (nzz(al) && k > 0) { if (tr == NoT) { region(a, 16, n, k, lda, RD); region(b, 16, n, k, ldb, RD); } else { region(a, 16, k, n, lda, RD); region(b, 16, k, n, ldb, RD); } }
    if (nzz(be)) trap(cc, 16, up == Lo, false, n, n, ldc, RD); trap(cc, 16, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_zsyr2k(o, up, tr, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_zher2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, double  be, void * cc, int ldc) __asm__("cblas_zher2k");
EX void __wrap_cblas_zher2k(int o, int up, int tr, int n, int k, const void * al, const void * a, int lda, const void * b, int ldb, double  be, void * cc, int ldc) {
  if (n > 0) { if (nzz(al) && k > 0) { if (tr == NoT) { region(a, 16, n, k, lda, RD); region(b, 16, n, k, ldb, RD); } else { region(a, 16, k, n, lda, RD); region(b, 16, k, n, ldb, RD); } }
    if (nz(be)) trap(cc, 16, up == Lo, false, n, n, ldc, RD); trap(cc, 16, up == Lo, false, n, n, ldc, WR); }
  return __real_cblas_zher2k(o, up, tr, n, k, al, a, lda, b, ldb, be, cc, ldc);
}
extern "C" void __real_cblas_ztrmm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ztrmm");
EX void __wrap_cblas_ztrmm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzz(al)) { trap(a, 16, up == Lo, di == UnitD, q, q, lda, RD); region(b, 16, m, n, ldb, RD); } region(b, 16, m, n, ldb, WR); }
  return __real_cblas_ztrmm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_ztrsm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) __asm__("cblas_ztrsm");
EX void __wrap_cblas_ztrsm(int o, int sd, int up, int ta, int di, int m, int n, const void * al, const void * a, int lda, void * b, int ldb) {
  if (m > 0 && n > 0) { int q = sd == LeftS ? m : n; if (nzz(al)) { trap(a, 16, up == Lo, di == UnitD, q, q, lda, RD); region(b, 16, m, n, ldb, RD); } region(b, 16, m, n, ldb, WR); }
  return __real_cblas_ztrsm(o, sd, up, ta, di, m, n, al, a, lda, b, ldb);
}
extern "C" void __real_cblas_ztrmv(int o, int up, int ta, int di, int n, const void * a, int lda, void * x, int ix) __asm__("cblas_ztrmv");
EX void __wrap_cblas_ztrmv(int o, int up, int ta, int di, int n, const void * a, int lda, void * x, int ix) {
  trap(a, 16, up == Lo, di == UnitD, n, n, lda, RD); vec(x, 16, n, ix, RD); vec(x, 16, n, ix, WR);
  return __real_cblas_ztrmv(o, up, ta, di, n, a, lda, x, ix);
}
extern "C" void __real_cblas_zgemv(int o, int ta, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) __asm__("cblas_zgemv");
EX void __wrap_cblas_zgemv(int o, int ta, int m, int n, const void * al, const void * a, int lda, const void * x, int ix, const void * be, void * y, int iy) {
  if (m > 0 && n > 0) { int lx = ta == NoT ? n : m, ly = ta == NoT ? m : n; if (nzz(al)) { region(a, 16, m, n, lda, RD); vec(x, 16, lx, ix, RD); } if (nzz(be)) vec(y, 16, ly, iy, RD); vec(y, 16, ly, iy, WR); }
  return __real_cblas_zgemv(o, ta, m, n, al, a, lda, x, ix, be, y, iy);
}
extern "C" void __real_cblas_zgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_zgerc");
EX void __wrap_cblas_zgerc(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) {
  if (m > 0 && n > 0 && nzz(al)) { vec(x, 16, m, ix, RD); vec(y, 16, n, iy, RD); region(a, 16, m, n, lda, RD); region(a, 16, m, n, lda, WR); }
  return __real_cblas_zgerc(o, m, n, al, x, ix, y, iy, a, lda);
}
extern "C" void __real_cblas_zgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) __asm__("cblas_zgeru");
EX void __wrap_cblas_zgeru(int o, int m, int n, const void * al, const void * x, int ix, const void * y, int iy, void * a, int lda) {
  if (m > 0 && n > 0 && nzz(al)) { vec(x, 16, m, ix, RD); vec(y, 16, n, iy, RD); region(a, 16, m, n, lda, RD); region(a, 16, m, n, lda, WR); }
  return __real_cblas_zgeru(o, m, n, al, x, ix, y, iy, a, lda);
}
extern "C" void __real_cblas_zaxpy(int n, const void * al, const void * x, int ix, void * y, int iy) __asm__("cblas_zaxpy");
EX void __wrap_cblas_zaxpy(int n, const void * al, const void * x, int ix, void * y, int iy) {
  vec(x, 16, n, ix, RD); vec(y, 16, n, iy, RD); vec(y, 16, n, iy, WR);
  return __real_cblas_zaxpy(n, al, x, ix, y, iy);
}
extern "C" void __real_cblas_zcopy(int n, const void * x, int ix, void * y, int iy) __asm__("cblas_zcopy");
EX void __wrap_cblas_zcopy(int n, const void * x, int ix, void * y, int iy) {
  vec(x, 16, n, ix, RD); vec(y, 16, n, iy, WR);
  return __real_cblas_zcopy(n, x, ix, y, iy);
}
extern "C" void __real_cblas_zscal(int n, const void * al, void * x, int ix) __asm__("cblas_zscal");
EX void __wrap_cblas_zscal(int n, const void * al, void * x, int ix) {
  vec(x, 16, n, ix, RD); vec(x, 16, n, ix, WR);
  return __real_cblas_zscal(n, al, x, ix);
}
extern "C" void __real_cblas_zswap(int n, void * x, int ix, void * y, int iy) __asm__("cblas_zswap");
EX void __wrap_cblas_zswap(int n, void * x, int ix, void * y, int iy) {
  vec(x, 16, n, ix, RD); vec(y, 16, n, iy, RD); vec(x, 16, n, ix, WR); vec(y, 16, n, iy, WR);
  return __real_cblas_zswap(n, x, ix, y, iy);
}
extern "C" int __real_LAPACKE_zgelq2_work(int l, int m, int n, std::complex<double> * a, int lda, std::complex<double> * tau, std::complex<double> * wk) __asm__("LAPACKE_zgelq2_work");
EX int __wrap_LAPACKE_zgelq2_work(int l, int m, int n, std::complex<double> * a, int lda, std::complex<double> * tau, std::complex<double> * wk) {
  region(a, 16, m, n, lda, RD); region(a, 16, m, n, lda, WR); access(tau, 16 * (size_t)(m < n ? m : n), WR); access(wk, 16 * (size_t)m, WR);
  return __real_LAPACKE_zgelq2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_zgeqr2_work(int l, int m, int n, std::complex<double> * a, int lda, std::complex<double> * tau, std::complex<double> * wk) __asm__("LAPACKE_zgeqr2_work");
EX int __wrap_LAPACKE_zgeqr2_work(int l, int m, int n, std::complex<double> * a, int lda, std::complex<double> * tau, std::complex<double> * wk) {
  region(a, 16, m, n, lda, RD); region(a, 16, m, n, lda, WR); access(tau, 16 * (size_t)(m < n ? m : n), WR); access(wk, 16 * (size_t)n, WR);
  return __real_LAPACKE_zgeqr2_work(l, m, n, a, lda, tau, wk);
}
extern "C" int __real_LAPACKE_zlacpy_work(int l, char up, int m, int n, const std::complex<double> * a, int lda, std::complex<double> * b, int ldb) __asm__("LAPACKE_zlacpy_work");
EX int __wrap_LAPACKE_zlacpy_work(int l, char up, int m, int n, const std::complex<double> * a, int lda, std::complex<double> * b, int ldb) {
  if (up == 'U' || up == 'u') { trap(a, 16, false, false, m, n, lda, RD); trap(b, 16, false, false, m, n, ldb, WR); } else if (up == 'L' || up == 'l') { trap(a, 16, true, false, m, n, lda, RD); trap(b, 16, true, false, m, n, ldb, WR); }
  else { region(a, 16, m, n, lda, RD); region(b, 16, m, n, ldb, WR); }
  return __real_LAPACKE_zlacpy_work(l, up, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_zlaset_work(int l, char up, int m, int n, std::complex<double> al, std::complex<double> be, std::complex<double> * a, int lda) __asm__("LAPACKE_zlaset_work");
EX int __wrap_LAPACKE_zlaset_work(int l, char up, int m, int n, std::complex<double> al, std::complex<double> be, std::complex<double> * a, int lda) {
  if (up == 'U' || up == 'u') trap(a, 16, false, false, m, n, lda, WR); else if (up == 'L' || up == 'l') trap(a, 16, true, false, m, n, lda, WR); else region(a, 16, m, n, lda, WR);
  return __real_LAPACKE_zlaset_work(l, up, m, n, al, be, a, lda);
}
extern "C" int __real_LAPACKE_zlauum_work(int l, char up, int n, std::complex<double> * a, int lda) __asm__("LAPACKE_zlauum_work");
EX int __wrap_LAPACKE_zlauum_work(int l, char up, int n, std::complex<double> * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 16, lo, false, n, n, lda, RD); trap(a, 16, lo, false, n, n, lda, WR);
  return __real_LAPACKE_zlauum_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_zpotrf_work(int l, char up, int n, std::complex<double> * a, int lda) __asm__("LAPACKE_zpotrf_work");
EX int __wrap_LAPACKE_zpotrf_work(int l, char up, int n, std::complex<double> * a, int lda) {
  bool lo = up == 'L' || up == 'l'; trap(a, 16, lo, false, n, n, lda, RD); trap(a, 16, lo, false, n, n, lda, WR);
  return __real_LAPACKE_zpotrf_work(l, up, n, a, lda);
}
extern "C" int __real_LAPACKE_ztrtri_work(int l, char up, char di, int n, std::complex<double> * a, int lda) __asm__("LAPACKE_ztrtri_work");
EX int __wrap_LAPACKE_ztrtri_work(int l, char up, char di, int n, std::complex<double> * a, int lda) {
  bool lo = up == 'L' || up == 'l', u = di == 'U' || di == 'u'; trap(a, 16, lo, u, n, n, lda, RD); trap(a, 16, lo, u, n, n, lda, WR);
  return __real_LAPACKE_ztrtri_work(l, up, di, n, a, lda);
}
extern "C" int __real_LAPACKE_zlarft_work(int l, char d, char sv, int n, int k, const std::complex<double> * v, int ldv, const std::complex<double> * tau, std::complex<double> * t, int ldt) __asm__("LAPACKE_zlarft_work");
EX int __wrap_LAPACKE_zlarft_work(int l, char d, char sv, int n, int k, const std::complex<double> * v, int ldv, const std::complex<double> * tau, std::complex<double> * t, int ldt) {
  if (n > 0) { if (sv == 'C' || sv == 'c') trap(v, 16, true, true, n, k, ldv, RD); else trap(v, 16, false, true, k, n, ldv, RD);
  access(tau, 16 * (size_t)k, RD); trap(t, 16, false, false, k, k, ldt, WR); }
  return __real_LAPACKE_zlarft_work(l, d, sv, n, k, v, ldv, tau, t, ldt);
}
extern "C" int __real_LAPACKE_zlarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const std::complex<double> * v, int ldv, const std::complex<double> * t, int ldt, std::complex<double> * cc, int ldc, std::complex<double> * wk, int ldw) __asm__("LAPACKE_zlarfb_work");
EX int __wrap_LAPACKE_zlarfb_work(int l, char sd, char tr, char d, char sv, int m, int n, int k, const std::complex<double> * v, int ldv, const std::complex<double> * t, int ldt, std::complex<double> * cc, int ldc, std::complex<double> * wk, int ldw) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; int q = lf ? m : n; if (sv == 'C' || sv == 'c') trap(v, 16, true, true, q, k, ldv, RD); else trap(v, 16, false, true, k, q, ldv, RD);
  trap(t, 16, false, false, k, k, ldt, RD); region(cc, 16, m, n, ldc, RD); region(cc, 16, m, n, ldc, WR); region(wk, 16, lf ? n : m, k, ldw, WR); }
  return __real_LAPACKE_zlarfb_work(l, sd, tr, d, sv, m, n, k, v, ldv, t, ldt, cc, ldc, wk, ldw);
}
extern "C" int __real_LAPACKE_zlarfg_work(int n, std::complex<double> * al, std::complex<double> * x, int ix, std::complex<double> * tau) __asm__("LAPACKE_zlarfg_work");
EX int __wrap_LAPACKE_zlarfg_work(int n, std::complex<double> * al, std::complex<double> * x, int ix, std::complex<double> * tau) {
  if (n > 0) { if (n > 1) { access(al, 16, RD); vec(x, 16, n - 1, ix, RD); access(al, 16, WR); vec(x, 16, n - 1, ix, WR); } access(tau, 16, WR); }
  return __real_LAPACKE_zlarfg_work(n, al, x, ix, tau);
}
extern "C" int __real_LAPACKE_zlarfx_work(int l, char sd, int m, int n, const std::complex<double> * v, std::complex<double> tau, std::complex<double> * cc, int ldc, std::complex<double> * wk) __asm__("LAPACKE_zlarfx_work");
EX int __wrap_LAPACKE_zlarfx_work(int l, char sd, int m, int n, const std::complex<double> * v, std::complex<double> tau, std::complex<double> * cc, int ldc, std::complex<double> * wk) {
  if (m > 0 && n > 0) { bool lf = sd == 'L' || sd == 'l'; access(v, 16 * (size_t)(lf ? m : n), RD); region(cc, 16, m, n, ldc, RD); region(cc, 16, m, n, ldc, WR); if ((lf ? m : n) > 10) access(wk, 16 * (size_t)(lf ? n : m), WR); }
  return __real_LAPACKE_zlarfx_work(l, sd, m, n, v, tau, cc, ldc, wk);
}
extern "C" double __real_LAPACKE_zlange_work(int l, char nm, int m, int n, const std::complex<double> * a, int lda, double * wk) __asm__("LAPACKE_zlange_work");
EX double __wrap_LAPACKE_zlange_work(int l, char nm, int m, int n, const std::complex<double> * a, int lda, double * wk) {
  region(a, 16, m, n, lda, RD); if (nm == 'I' || nm == 'i') access(wk, 8 * (size_t)m, WR);
  return __real_LAPACKE_zlange_work(l, nm, m, n, a, lda, wk);
}
extern "C" double __real_LAPACKE_zlansy_work(int l, char nm, char up, int n, const std::complex<double> * a, int lda, double * wk) __asm__("LAPACKE_zlansy_work");
EX double __wrap_LAPACKE_zlansy_work(int l, char nm, char up, int n, const std::complex<double> * a, int lda, double * wk) {
  trap(a, 16, up == 'L' || up == 'l', false, n, n, lda, RD); if (nm != 'M' && nm != 'm' && nm != 'F' && nm != 'f') access(wk, 8 * (size_t)n, WR);
  return __real_LAPACKE_zlansy_work(l, nm, up, n, a, lda, wk);
}
extern "C" double __real_LAPACKE_zlanhe_work(int l, char nm, char up, int n, const std::complex<double> * a, int lda, double * wk) __asm__("LAPACKE_zlanhe_work");
EX double __wrap_LAPACKE_zlanhe_work(int l, char nm, char up, int n, const std::complex<double> * a, int lda, double * wk) {
  trap(a, 16, up == 'L' || up == 'l', false, n, n, lda, RD); if (nm != 'M' && nm != 'm' && nm != 'F' && nm != 'f') access(wk, 8 * (size_t)n, WR);
  return __real_LAPACKE_zlanhe_work(l, nm, up, n, a, lda, wk);
}
extern "C" int __real_LAPACKE_zlacgv_work(int n, std::complex<double> * x, int ix) __asm__("LAPACKE_zlacgv_work");
EX int __wrap_LAPACKE_zlacgv_work(int n, std::complex<double> * x, int ix) {
  vec(x, 16, n, ix, RD); vec(x, 16, n, ix, WR);
  return __real_LAPACKE_zlacgv_work(n, x, ix);
}
extern "C" int __real_LAPACKE_zhegst_work(int l, int it, char up, int n, std::complex<double> * a, int lda, const std::complex<double> * b, int ldb) __asm__("LAPACKE_zhegst_work");
EX int __wrap_LAPACKE_zhegst_work(int l, int it, char up, int n, std::complex<double> * a, int lda, const std::complex<double> * b, int ldb) {
  bool lo = up == 'L' || up == 'l'; trap(a, 16, lo, false, n, n, lda, RD); trap(a, 16, lo, false, n, n, lda, WR); trap(b, 16, lo, false, n, n, ldb, RD);
  return __real_LAPACKE_zhegst_work(l, it, up, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_zlag2c_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_zlag2c_work");
EX int __wrap_LAPACKE_zlag2c_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) {
  region(a, 16, m, n, lda, RD); region(b, 8, m, n, ldb, WR);
  return __real_LAPACKE_zlag2c_work(l, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_clag2z_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_clag2z_work");
EX int __wrap_LAPACKE_clag2z_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) {
  region(a, 8, m, n, lda, RD); region(b, 16, m, n, ldb, WR);
  return __real_LAPACKE_clag2z_work(l, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_dlag2s_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_dlag2s_work");
EX int __wrap_LAPACKE_dlag2s_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) {
  region(a, 8, m, n, lda, RD); region(b, 4, m, n, ldb, WR);
  return __real_LAPACKE_dlag2s_work(l, m, n, a, lda, b, ldb);
}
extern "C" int __real_LAPACKE_slag2d_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) __asm__("LAPACKE_slag2d_work");
EX int __wrap_LAPACKE_slag2d_work(int l, int m, int n, const void * a, int lda, void * b, int ldb) {
  region(a, 4, m, n, lda, RD); region(b, 8, m, n, ldb, WR);
  return __real_LAPACKE_slag2d_work(l, m, n, a, lda, b, ldb);
}
extern "C" void __real_cblas_zdscal(int n, double  al, void * x, int ix) __asm__("cblas_zdscal");
EX void __wrap_cblas_zdscal(int n, double  al, void * x, int ix) {
  vec(x, 16, n, ix, RD); vec(x, 16, n, ix, WR);
  return __real_cblas_zdscal(n, al, x, ix);
}
extern "C" void __real_cblas_csscal(int n, float  al, void * x, int ix) __asm__("cblas_csscal");
EX void __wrap_cblas_csscal(int n, float  al, void * x, int ix) {
  vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);
  return __real_cblas_csscal(n, al, x, ix);
}
extern "C" void __real_slassq_(int * n, void * x, int * ix, float * sc, float * sq) __asm__("slassq_");
EX void __wrap_slassq_(int * n, void * x, int * ix, float * sc, float * sq) {
  vec(x, 4, *n, *ix, RD); access(sc, 4, RD); access(sq, 4, RD); access(sc, 4, WR); access(sq, 4, WR);
  return __real_slassq_(n, x, ix, sc, sq);
}
extern "C" float __real_slantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) __asm__("slantr_");
EX float __wrap_slantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) {
  trap(a, 4, *up == 'L' || *up == 'l', *di == 'U' || *di == 'u', *m, *n, *lda, RD); if (*nm == 'I' || *nm == 'i') access(wk, 4 * (size_t)*m, WR);
  return __real_slantr_(nm, up, di, m, n, a, lda, wk);
}
extern "C" void __real_slascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) __asm__("slascl_");
EX void __wrap_slascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) {
  char t = *ty & ~32; if (t == 'G') { region(a, 4, *m, *n, *lda, RD); region(a, 4, *m, *n, *lda, WR); } else if (t == 'L' || t == 'U') { trap(a, 4, t == 'L', false, *m, *n, *lda, RD); trap(a, 4, t == 'L', false, *m, *n, *lda, WR); }
  return __real_slascl_(ty, kl, ku, cf, ct, m, n, a, lda, info);
}
extern "C" void __real_dlassq_(int * n, void * x, int * ix, double * sc, double * sq) __asm__("dlassq_");
EX void __wrap_dlassq_(int * n, void * x, int * ix, double * sc, double * sq) {
  vec(x, 8, *n, *ix, RD); access(sc, 8, RD); access(sq, 8, RD); access(sc, 8, WR); access(sq, 8, WR);
  return __real_dlassq_(n, x, ix, sc, sq);
}
extern "C" double __real_dlantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) __asm__("dlantr_");
EX double __wrap_dlantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) {
  trap(a, 8, *up == 'L' || *up == 'l', *di == 'U' || *di == 'u', *m, *n, *lda, RD); if (*nm == 'I' || *nm == 'i') access(wk, 8 * (size_t)*m, WR);
  return __real_dlantr_(nm, up, di, m, n, a, lda, wk);
}
extern "C" void __real_dlascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) __asm__("dlascl_");
EX void __wrap_dlascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) {
  char t = *ty & ~32; if (t == 'G') { region(a, 8, *m, *n, *lda, RD); region(a, 8, *m, *n, *lda, WR); } else if (t == 'L' || t == 'U') { trap(a, 8, t == 'L', false, *m, *n, *lda, RD); trap(a, 8, t == 'L', false, *m, *n, *lda, WR); }
  return __real_dlascl_(ty, kl, ku, cf, ct, m, n, a, lda, info);
}
extern "C" void __real_classq_(int * n, void * x, int * ix, float * sc, float * sq) __asm__("classq_");
EX void __wrap_classq_(int * n, void * x, int * ix, float * sc, float * sq) {
  vec(x, 8, *n, *ix, RD); access(sc, 4, RD); access(sq, 4, RD); access(sc, 4, WR); access(sq, 4, WR);
  return __real_classq_(n, x, ix, sc, sq);
}
extern "C" float __real_clantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) __asm__("clantr_");
EX float __wrap_clantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) {
  trap(a, 8, *up == 'L' || *up == 'l', *di == 'U' || *di == 'u', *m, *n, *lda, RD); if (*nm == 'I' || *nm == 'i') access(wk, 4 * (size_t)*m, WR);
  return __real_clantr_(nm, up, di, m, n, a, lda, wk);
}
extern "C" void __real_clascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) __asm__("clascl_");
EX void __wrap_clascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) {
  char t = *ty & ~32; if (t == 'G') { region(a, 8, *m, *n, *lda, RD); region(a, 8, *m, *n, *lda, WR); } else if (t == 'L' || t == 'U') { trap(a, 8, t == 'L', false, *m, *n, *lda, RD); trap(a, 8, t == 'L', false, *m, *n, *lda, WR); }
  return __real_clascl_(ty, kl, ku, cf, ct, m, n, a, lda, info);
}
extern "C" void __real_zlassq_(int * n, void * x, int * ix, double * sc, double * sq) __asm__("zlassq_");
EX void __wrap_zlassq_(int * n, void * x, int * ix, double * sc, double * sq) {
  vec(x, 16, *n, *ix, RD); access(sc, 8, RD); access(sq, 8, RD); access(sc, 8, WR); access(sq, 8, WR);
  return __real_zlassq_(n, x, ix, sc, sq);
}
extern "C" double __real_zlantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) __asm__("zlantr_");
EX double __wrap_zlantr_(char * nm, char * up, char * di, int * m, int * n, void * a, int * lda, void * wk) {
  trap(a, 16, *up == 'L' || *up == 'l', *di == 'U' || *di == 'u', *m, *n, *lda, RD); if (*nm == 'I' || *nm == 'i') access(wk, 8 * (size_t)*m, WR);
  return __real_zlantr_(nm, up, di, m, n, a, lda, wk);
}
extern "C" void __real_zlascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) __asm__("zlascl_");
EX void __wrap_zlascl_(char * ty, int * kl, int * ku, void * cf, void * ct, int * m, int * n, void * a, int * lda, int * info) {
  char t = *ty & ~32; if (t == 'G') { region(a, 16, *m, *n, *lda, RD); region(a, 16, *m, *n, *lda, WR); } else if (t == 'L' || t == 'U') { trap(a, 16, t == 'L', false, *m, *n, *lda, RD); trap(a, 16, t == 'L', false, *m, *n, *lda, WR); }
  return __real_zlascl_(ty, kl, ku, cf, ct, m, n, a, lda, info);
}
