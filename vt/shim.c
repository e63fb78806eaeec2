/* Exports what the headers of the library under test define inline, and a parallel region for asynchronous calls. */
#include "plasma.h"
#include "plasma_descriptor.h"
#define EXPORT __attribute__((visibility("default")))
EXPORT void *vt_tile_addr(plasma_desc_t A, int m, int n) { return plasma_tile_addr(A, m, n); }
EXPORT int vt_mmain(plasma_desc_t A, int m, int n) { return A.type == PlasmaGeneralBand ? plasma_tile_mmain_band(A, m, n) : plasma_tile_mmain(A, m); }
EXPORT int vt_nmain(plasma_desc_t A, int n) { return plasma_tile_nmain(A, n); }
EXPORT int vt_mview(plasma_desc_t A, int m) { return plasma_tile_mview(A, m); }
EXPORT int vt_nview(plasma_desc_t A, int n) { return plasma_tile_nview(A, n); }
EXPORT void vt_parallel(void (*f)(void *), void *x) {
    #pragma omp parallel
    #pragma omp master
    f(x);
}
