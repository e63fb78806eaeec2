#!/usr/bin/env python3
"""Generates vgblas.cpp: wrappers that log the documented read/write footprint of every BLAS/LAPACK
routine PLASMA calls, then call the real one."""
P = {'s': ('float', 4, False), 'd': ('double', 8, False), 'c': ('void', 8, True), 'z': ('void', 16, True)}
REAL = {'s': 'float', 'd': 'double', 'c': 'float', 'z': 'double'}
RS = {'s': 4, 'd': 8, 'c': 4, 'z': 8}
out = []
w = out.append
w('// generated by genblas.py -- do not edit')
w('#include "vg.h"\n#include <complex>\n#include <cstdlib>\nusing namespace vg;')
w('#define EX extern "C" __attribute__((visibility("default")))')
w('''
enum { Col = 102, NoT = 111, Up = 121, Lo = 122, NonU = 131, UnitD = 132, LeftS = 141 };
static inline bool nz(float x) { return x != 0; }
static inline bool nz(double x) { return x != 0; }
static inline bool nzc(const void *p) { return ((const float *)p)[0] != 0 || ((const float *)p)[1] != 0; }
static inline bool nzz(const void *p) { return ((const double *)p)[0] != 0 || ((const double *)p)[1] != 0; }
''')


def fn(name, ret, params, body, retval=True):
    """params: list of (type, name)"""
    decl = ', '.join('%s %s' % p for p in params)
    args = ', '.join(p[1] for p in params)
    w('extern "C" %s __real_%s(%s) __asm__("%s");' % (ret, name, decl, name))
    w('EX %s __wrap_%s(%s) {\n%s\n  return __real_%s(%s);\n}' % (ret, name, decl, body, name, args))


for p, (T, es, cx) in P.items():
    A = ('const %s *' % T)
    B = ('%s *' % T)
    S = ('const void *' if cx else T + ' ')          # scalar
    R = REAL[p]
    nz = lambda s: ('nz%s(%s)' % (p, s)) if cx else 'nz(%s)' % s
    nzr = lambda s: 'nz(%s)' % s
    I = 'int'
    c = 'cblas_' + p
    fn(c + 'gemm', 'void', [(I, 'o'), (I, 'ta'), (I, 'tb'), (I, 'm'), (I, 'n'), (I, 'k'), (S, 'al'), (A, 'a'), (I, 'lda'), (A, 'b'), (I, 'ldb'), (S, 'be'), (B, 'cc'), (I, 'ldc')],
       f'  if (m > 0 && n > 0) {{ if ({nz("al")} && k > 0) {{ if (ta == NoT) region(a, {es}, m, k, lda, RD); else region(a, {es}, k, m, lda, RD);\n'
       f'    if (tb == NoT) region(b, {es}, k, n, ldb, RD); else region(b, {es}, n, k, ldb, RD); }}\n'
       f'    if ({nz("be")}) region(cc, {es}, m, n, ldc, RD); region(cc, {es}, m, n, ldc, WR); }}')
    for nm, herm in (('symm', 0),) + ((('hemm', 1),) if cx else ()):
        fn(c + nm, 'void', [(I, 'o'), (I, 'sd'), (I, 'up'), (I, 'm'), (I, 'n'), (S, 'al'), (A, 'a'), (I, 'lda'), (A, 'b'), (I, 'ldb'), (S, 'be'), (B, 'cc'), (I, 'ldc')],
           f'  if (m > 0 && n > 0) {{ int q = sd == LeftS ? m : n; if ({nz("al")}) {{ trap(a, {es}, up == Lo, false, q, q, lda, RD); region(b, {es}, m, n, ldb, RD); }}\n'
           f'    if ({nz("be")}) region(cc, {es}, m, n, ldc, RD); region(cc, {es}, m, n, ldc, WR); }}')
    for nm, herm in (('syrk', 0),) + ((('herk', 1),) if cx else ()):
        SS = (R + ' ') if herm else S
        z = nzr if herm else nz
        fn(c + nm, 'void', [(I, 'o'), (I, 'up'), (I, 'tr'), (I, 'n'), (I, 'k'), (SS, 'al'), (A, 'a'), (I, 'lda'), (SS, 'be'), (B, 'cc'), (I, 'ldc')],
           f'  if (n > 0) {{ if ({z("al")} && k > 0) {{ if (tr == NoT) region(a, {es}, n, k, lda, RD); else region(a, {es}, k, n, lda, RD); }}\n'
           f'    if ({z("be")}) trap(cc, {es}, up == Lo, false, n, n, ldc, RD); trap(cc, {es}, up == Lo, false, n, n, ldc, WR); }}')
    for nm, herm in (('syr2k', 0),) + ((('her2k', 1),) if cx else ()):
        SB = (R + ' ') if herm else S
        z = nzr if herm else nz
        fn(c + nm, 'void', [(I, 'o'), (I, 'up'), (I, 'tr'), (I, 'n'), (I, 'k'), (S, 'al'), (A, 'a'), (I, 'lda'), (A, 'b'), (I, 'ldb'), (SB, 'be'), (B, 'cc'), (I, 'ldc')],
           f'  if (n > 0) {{ if ({nz("al")} && k > 0) {{ if (tr == NoT) {{ region(a, {es}, n, k, lda, RD); region(b, {es}, n, k, ldb, RD); }} else {{ region(a, {es}, k, n, lda, RD); region(b, {es}, k, n, ldb, RD); }} }}\n'
           f'    if ({z("be")}) trap(cc, {es}, up == Lo, false, n, n, ldc, RD); trap(cc, {es}, up == Lo, false, n, n, ldc, WR); }}')
    for nm in ('trmm', 'trsm'):
        fn(c + nm, 'void', [(I, 'o'), (I, 'sd'), (I, 'up'), (I, 'ta'), (I, 'di'), (I, 'm'), (I, 'n'), (S, 'al'), (A, 'a'), (I, 'lda'), (B, 'b'), (I, 'ldb')],
           f'  if (m > 0 && n > 0) {{ int q = sd == LeftS ? m : n; if ({nz("al")}) {{ trap(a, {es}, up == Lo, di == UnitD, q, q, lda, RD); region(b, {es}, m, n, ldb, RD); }} region(b, {es}, m, n, ldb, WR); }}')
    fn(c + 'trmv', 'void', [(I, 'o'), (I, 'up'), (I, 'ta'), (I, 'di'), (I, 'n'), (A, 'a'), (I, 'lda'), (B, 'x'), (I, 'ix')],
       f'  trap(a, {es}, up == Lo, di == UnitD, n, n, lda, RD); vec(x, {es}, n, ix, RD); vec(x, {es}, n, ix, WR);')
    fn(c + 'gemv', 'void', [(I, 'o'), (I, 'ta'), (I, 'm'), (I, 'n'), (S, 'al'), (A, 'a'), (I, 'lda'), (A, 'x'), (I, 'ix'), (S, 'be'), (B, 'y'), (I, 'iy')],
       f'  if (m > 0 && n > 0) {{ int lx = ta == NoT ? n : m, ly = ta == NoT ? m : n; if ({nz("al")}) {{ region(a, {es}, m, n, lda, RD); vec(x, {es}, lx, ix, RD); }} if ({nz("be")}) vec(y, {es}, ly, iy, RD); vec(y, {es}, ly, iy, WR); }}')
    for nm in (('gerc', 'geru') if cx else ('ger',)):
        fn(c + nm, 'void', [(I, 'o'), (I, 'm'), (I, 'n'), (S, 'al'), (A, 'x'), (I, 'ix'), (A, 'y'), (I, 'iy'), (B, 'a'), (I, 'lda')],
           f'  if (m > 0 && n > 0 && {nz("al")}) {{ vec(x, {es}, m, ix, RD); vec(y, {es}, n, iy, RD); region(a, {es}, m, n, lda, RD); region(a, {es}, m, n, lda, WR); }}')
    fn(c + 'axpy', 'void', [(I, 'n'), (S, 'al'), (A, 'x'), (I, 'ix'), (B, 'y'), (I, 'iy')],
       f'  vec(x, {es}, n, ix, RD); vec(y, {es}, n, iy, RD); vec(y, {es}, n, iy, WR);')
    fn(c + 'copy', 'void', [(I, 'n'), (A, 'x'), (I, 'ix'), (B, 'y'), (I, 'iy')], f'  vec(x, {es}, n, ix, RD); vec(y, {es}, n, iy, WR);')
    fn(c + 'scal', 'void', [(I, 'n'), (S, 'al'), (B, 'x'), (I, 'ix')], f'  vec(x, {es}, n, ix, RD); vec(x, {es}, n, ix, WR);')
    fn(c + 'swap', 'void', [(I, 'n'), (B, 'x'), (I, 'ix'), (B, 'y'), (I, 'iy')],
       f'  vec(x, {es}, n, ix, RD); vec(y, {es}, n, iy, RD); vec(x, {es}, n, ix, WR); vec(y, {es}, n, iy, WR);')
    # LAPACKE
    L = 'LAPACKE_' + p
    C = 'char'
    CT = {'s': 'float', 'd': 'double', 'c': 'std::complex<float>', 'z': 'std::complex<double>'}[p]
    V = ('const %s *' % CT); X = ('%s *' % CT)
    RT = '%s *' % R; rs = RS[p]
    for nm, k in (('gelq2', 'm'), ('geqr2', 'n')):
        fn(L + nm + '_work', I, [(I, 'l'), (I, 'm'), (I, 'n'), (X, 'a'), (I, 'lda'), (X, 'tau'), (X, 'wk')],
           f'  region(a, {es}, m, n, lda, RD); region(a, {es}, m, n, lda, WR); access(tau, {es} * (size_t)(m < n ? m : n), WR); access(wk, {es} * (size_t){k}, WR);')
    fn(L + 'lacpy_work', I, [(I, 'l'), (C, 'up'), (I, 'm'), (I, 'n'), (V, 'a'), (I, 'lda'), (X, 'b'), (I, 'ldb')],
       f'  if (up == \'U\' || up == \'u\') {{ trap(a, {es}, false, false, m, n, lda, RD); trap(b, {es}, false, false, m, n, ldb, WR); }} else if (up == \'L\' || up == \'l\') {{ trap(a, {es}, true, false, m, n, lda, RD); trap(b, {es}, true, false, m, n, ldb, WR); }}\n'
       f'  else {{ region(a, {es}, m, n, lda, RD); region(b, {es}, m, n, ldb, WR); }}')
    fn(L + 'laset_work', I, [(I, 'l'), (C, 'up'), (I, 'm'), (I, 'n'), (CT, 'al'), (CT, 'be'), (X, 'a'), (I, 'lda')],
       f'  if (up == \'U\' || up == \'u\') trap(a, {es}, false, false, m, n, lda, WR); else if (up == \'L\' || up == \'l\') trap(a, {es}, true, false, m, n, lda, WR); else region(a, {es}, m, n, lda, WR);')
    fn(L + 'lauum_work', I, [(I, 'l'), (C, 'up'), (I, 'n'), (X, 'a'), (I, 'lda')],
       f'  bool lo = up == \'L\' || up == \'l\'; trap(a, {es}, lo, false, n, n, lda, RD); trap(a, {es}, lo, false, n, n, lda, WR);')
    fn(L + 'potrf_work', I, [(I, 'l'), (C, 'up'), (I, 'n'), (X, 'a'), (I, 'lda')],
       f'  bool lo = up == \'L\' || up == \'l\'; trap(a, {es}, lo, false, n, n, lda, RD); trap(a, {es}, lo, false, n, n, lda, WR);')
    fn(L + 'trtri_work', I, [(I, 'l'), (C, 'up'), (C, 'di'), (I, 'n'), (X, 'a'), (I, 'lda')],
       f'  bool lo = up == \'L\' || up == \'l\', u = di == \'U\' || di == \'u\'; trap(a, {es}, lo, u, n, n, lda, RD); trap(a, {es}, lo, u, n, n, lda, WR);')
    fn(L + 'larft_work', I, [(I, 'l'), (C, 'd'), (C, 'sv'), (I, 'n'), (I, 'k'), (V, 'v'), (I, 'ldv'), (V, 'tau'), (X, 't'), (I, 'ldt')],
       f'  if (n > 0) {{ if (sv == \'C\' || sv == \'c\') trap(v, {es}, true, true, n, k, ldv, RD); else trap(v, {es}, false, true, k, n, ldv, RD);\n  access(tau, {es} * (size_t)k, RD); trap(t, {es}, false, false, k, k, ldt, WR); }}')
    fn(L + 'larfb_work', I, [(I, 'l'), (C, 'sd'), (C, 'tr'), (C, 'd'), (C, 'sv'), (I, 'm'), (I, 'n'), (I, 'k'), (V, 'v'), (I, 'ldv'), (V, 't'), (I, 'ldt'), (X, 'cc'), (I, 'ldc'), (X, 'wk'), (I, 'ldw')],
       f'  if (m > 0 && n > 0) {{ bool lf = sd == \'L\' || sd == \'l\'; int q = lf ? m : n; if (sv == \'C\' || sv == \'c\') trap(v, {es}, true, true, q, k, ldv, RD); else trap(v, {es}, false, true, k, q, ldv, RD);\n'
       f'  trap(t, {es}, false, false, k, k, ldt, RD); region(cc, {es}, m, n, ldc, RD); region(cc, {es}, m, n, ldc, WR); region(wk, {es}, lf ? n : m, k, ldw, WR); }}')
    fn(L + 'larfg_work', I, [(I, 'n'), (X, 'al'), (X, 'x'), (I, 'ix'), (X, 'tau')],
       f'  if (n > 0) {{ if (n > 1) {{ access(al, {es}, RD); vec(x, {es}, n - 1, ix, RD); access(al, {es}, WR); vec(x, {es}, n - 1, ix, WR); }} access(tau, {es}, WR); }}')
    fn(L + 'larfx_work', I, [(I, 'l'), (C, 'sd'), (I, 'm'), (I, 'n'), (V, 'v'), (CT, 'tau'), (X, 'cc'), (I, 'ldc'), (X, 'wk')],
       f'  if (m > 0 && n > 0) {{ bool lf = sd == \'L\' || sd == \'l\'; access(v, {es} * (size_t)(lf ? m : n), RD); region(cc, {es}, m, n, ldc, RD); region(cc, {es}, m, n, ldc, WR); if ((lf ? m : n) > 10) access(wk, {es} * (size_t)(lf ? n : m), WR); }}')
    fn(L + 'lange_work', R, [(I, 'l'), (C, 'nm'), (I, 'm'), (I, 'n'), (V, 'a'), (I, 'lda'), (RT, 'wk')],
       f'  region(a, {es}, m, n, lda, RD); if (nm == \'I\' || nm == \'i\') access(wk, {rs} * (size_t)m, WR);')
    for nm in ('lansy',) + (('lanhe',) if cx else ()):
        fn(L + nm + '_work', R, [(I, 'l'), (C, 'nm'), (C, 'up'), (I, 'n'), (V, 'a'), (I, 'lda'), (RT, 'wk')],
           f'  trap(a, {es}, up == \'L\' || up == \'l\', false, n, n, lda, RD); if (nm != \'M\' && nm != \'m\' && nm != \'F\' && nm != \'f\') access(wk, {rs} * (size_t)n, WR);')
    if cx:
        fn(L + 'lacgv_work', I, [(I, 'n'), (X, 'x'), (I, 'ix')], f'  vec(x, {es}, n, ix, RD); vec(x, {es}, n, ix, WR);')
    fn(L + ('hegst' if cx else 'sygst') + '_work', I, [(I, 'l'), (I, 'it'), (C, 'up'), (I, 'n'), (X, 'a'), (I, 'lda'), (V, 'b'), (I, 'ldb')],
       f'  bool lo = up == \'L\' || up == \'l\'; trap(a, {es}, lo, false, n, n, lda, RD); trap(a, {es}, lo, false, n, n, lda, WR); trap(b, {es}, lo, false, n, n, ldb, RD);')
for nm, s, d in (('zlag2c', 16, 8), ('clag2z', 8, 16), ('dlag2s', 8, 4), ('slag2d', 4, 8)):
    fn('LAPACKE_%s_work' % nm, 'int', [('int', 'l'), ('int', 'm'), ('int', 'n'), ('const void *', 'a'), ('int', 'lda'), ('void *', 'b'), ('int', 'ldb')],
       f'  region(a, {s}, m, n, lda, RD); region(b, {d}, m, n, ldb, WR);')
fn('cblas_zdscal', 'void', [('int', 'n'), ('double ', 'al'), ('void *', 'x'), ('int', 'ix')], '  vec(x, 16, n, ix, RD); vec(x, 16, n, ix, WR);')
fn('cblas_csscal', 'void', [('int', 'n'), ('float ', 'al'), ('void *', 'x'), ('int', 'ix')], '  vec(x, 8, n, ix, RD); vec(x, 8, n, ix, WR);')
# Fortran entry points
for p, (T, es, cx) in P.items():
    R = REAL[p]; rs = RS[p]
    fn(p + 'lassq_', 'void', [('int *', 'n'), ('void *', 'x'), ('int *', 'ix'), (R + ' *', 'sc'), (R + ' *', 'sq')],
       f'  vec(x, {es}, *n, *ix, RD); access(sc, {rs}, RD); access(sq, {rs}, RD); access(sc, {rs}, WR); access(sq, {rs}, WR);')
    fn(p + 'lantr_', R if False else ('double' if rs == 8 else 'float'), [('char *', 'nm'), ('char *', 'up'), ('char *', 'di'), ('int *', 'm'), ('int *', 'n'), ('void *', 'a'), ('int *', 'lda'), ('void *', 'wk')],
       f'  trap(a, {es}, *up == \'L\' || *up == \'l\', *di == \'U\' || *di == \'u\', *m, *n, *lda, RD); if (*nm == \'I\' || *nm == \'i\') access(wk, {rs} * (size_t)*m, WR);')
    fn(p + 'lascl_', 'void', [('char *', 'ty'), ('int *', 'kl'), ('int *', 'ku'), ('void *', 'cf'), ('void *', 'ct'), ('int *', 'm'), ('int *', 'n'), ('void *', 'a'), ('int *', 'lda'), ('int *', 'info')],
       f'  char t = *ty & ~32; if (t == \'G\') {{ region(a, {es}, *m, *n, *lda, RD); region(a, {es}, *m, *n, *lda, WR); }} else if (t == \'L\' || t == \'U\') {{ trap(a, {es}, t == \'L\', false, *m, *n, *lda, RD); trap(a, {es}, t == \'L\', false, *m, *n, *lda, WR); }}')

if __name__ == '__main__':
    import os
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vgblas.cpp'), 'w').write('\n'.join(out) + '\n')
    import re
    names = sorted(set(re.findall(r'__wrap_(\w+)\(', '\n'.join(out))))
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'wrap.txt'), 'w').write('\n'.join(names) + '\n')
