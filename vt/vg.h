// Shared between vgomp.cpp (tasking runtime, recorder) and vgblas.cpp (BLAS/LAPACK footprints).
#pragma once
#include <cstdint>
#include <cstddef>
namespace vg {
enum { RD = 0, WR = 1 };
void access(const void *addr, size_t len, int rw, bool vol = false);
// column-major region rows r0..r1-1 of columns c0..c1-1
inline void region(const void *a, size_t es, long rows, long cols, long ld, int rw) {
    const char *p = (const char *)a;
    if (rows <= 0 || cols <= 0 || !a) return;
    if (ld == rows) { access(p, es * (size_t)rows * (size_t)cols, rw); return; }
    for (long j = 0; j < cols; j++) access(p + (size_t)j * (size_t)ld * es, es * (size_t)rows, rw);
}
// trapezoid: lower = rows j..m-1 (off=0) / j+1.. (unit); upper = rows 0..min(j,m-1) / 0..j-1 (unit)
inline void trap(const void *a, size_t es, bool lower, bool unit, long m, long n, long ld, int rw) {
    const char *p = (const char *)a;
    if (!a) return;
    for (long j = 0; j < n; j++) {
        long lo = lower ? (unit ? j + 1 : j) : 0;
        long hi = lower ? m : (unit ? j : j + 1);
        if (hi > m) hi = m;
        if (hi > lo) access(p + ((size_t)j * (size_t)ld + (size_t)lo) * es, es * (size_t)(hi - lo), rw);
    }
}
inline void vec(const void *x, size_t es, long n, long inc, int rw) {
    const char *p = (const char *)x;
    if (n <= 0 || !x) return;
    if (inc == 1) { access(p, es * (size_t)n, rw); return; }
    if (inc < 0) p += (size_t)((1 - n) * inc) * es;
    long s = inc;
    for (long i = 0; i < n; i++) access(p + i * s * (long)es, es, rw);
}
}
