"""Generators of programs of public calls, one family per routine group.  fam(c) builds operands, calls c.go(), then calls."""
import numpy as np
from plib import K, Desc
from ctx import LOW, encmat

FAM = {}


def fam(name, q=1, precs='sdcz', weight=1.0):
    def deco(f):
        FAM[name] = dict(f=f, q=q, precs=precs, weight=weight)
        return f
    return deco


N, T, CT = K['NoTrans'], K['Trans'], K['ConjTrans']
UP, LO, GE, UNIT, NONU, LEFT, RIGHT = K['Upper'], K['Lower'], K['General'], K['Unit'], K['NonUnit'], K['Left'], K['Right']


def tri(uplo, diag=NONU):
    """mask of a stored triangle / trapezoid"""
    if uplo == GE:
        return None
    d = 1 if diag == UNIT else 0
    if uplo == UP:
        return lambda i, j: i <= j - d
    return lambda i, j: i >= j + d


def sw(c):
    """real entries on some programs: element range"""
    return -3, 3


# ------------------------------------------------------------------ BLAS-like, exact integers
@fam('gemm', weight=1.5)
def gemm(c):
    ta, tb = c.trans(), c.trans()
    m, n, k = c.dim(), c.dim(), c.dim()
    A = c.mat('A', c.ints(*((m, k) if ta == N else (k, m))))
    B = c.mat('B', c.ints(*((k, n) if tb == N else (n, k))))
    C = c.mat('C', c.ints(m, n))
    al, be = c.scal(), c.scal()
    c.go()
    c.zcall('zgemm', ta, tb, m, n, k, al, A, A.ld, B, B.ld, be, C, C.ld)


def _symm(c, z, he):
    side, uplo = c.e('Left', 'Right'), c.e('Upper', 'Lower')
    m, n = c.dim(), c.dim()
    na = m if side == LEFT else n
    V = c.ints(na, na)
    if he:
        V = c.herm(V)
    A = c.mat('A', V, tri(uplo))
    B = c.mat('B', c.ints(m, n))
    C = c.mat('C', c.ints(m, n))
    al, be = c.scal(), c.scal()
    c.go()
    c.zcall(z, side, uplo, m, n, al, A, A.ld, B, B.ld, be, C, C.ld)


@fam('symm')
def symm(c): _symm(c, 'zsymm', False)


@fam('hemm', precs='cz')
def hemm(c): _symm(c, 'zhemm', True)


def _syrk(c, z, he, two):
    uplo = c.e('Upper', 'Lower')
    tr = c.pick(N, CT if he else T) if c.cx else c.pick(N, T, T, CT)
    if not he and not c.cx and tr == CT:
        tr = T
    n, k = c.dim(), c.dim()
    dims = (n, k) if tr == N else (k, n)
    A = c.mat('A', c.ints(*dims))
    B = c.mat('B', c.ints(*dims)) if two else None
    V = c.ints(n, n)
    if he:
        V = c.herm(V)
    C = c.mat('C', V, tri(uplo))
    al = c.rscal() if he and not two else c.scal()
    be = c.rscal() if he else c.scal()
    c.go()
    if two:
        c.zcall(z, uplo, tr, n, k, al, A, A.ld, B, B.ld, be, C, C.ld)
    else:
        c.zcall(z, uplo, tr, n, k, al, A, A.ld, be, C, C.ld)


@fam('syrk')
def syrk(c): _syrk(c, 'zsyrk', False, False)


@fam('herk', precs='cz')
def herk(c): _syrk(c, 'zherk', True, False)


@fam('syr2k')
def syr2k(c): _syrk(c, 'zsyr2k', False, True)


@fam('her2k', precs='cz')
def her2k(c): _syrk(c, 'zher2k', True, True)


@fam('trmm', weight=1.5)
def trmm(c):
    side, uplo, ta, diag = c.e('Left', 'Right'), c.e('Upper', 'Lower'), c.trans(), c.e('Unit', 'NonUnit')
    m, n = c.dim(), c.dim()
    na = m if side == LEFT else n
    A = c.mat('A', c.ints(na, na), tri(uplo, diag))
    B = c.mat('B', c.ints(m, n))
    al = c.scal()
    c.go()
    c.zcall('ztrmm', side, uplo, ta, diag, m, n, al, A, A.ld, B, B.ld)


@fam('trsm', q=512, weight=1.5)
def trsm(c):
    side, uplo, ta, diag = c.e('Left', 'Right'), c.e('Upper', 'Lower'), c.trans(), c.e('Unit', 'NonUnit')
    m, n = c.dim(), c.dim()
    na = m if side == LEFT else n
    U = c.goodmat(na, kind='tr')
    if uplo == LO:
        U = U.T.copy()
    op = U.copy()
    if diag == UNIT:
        op[np.diag_indices(na)] = 1
    op = {N: op, T: op.T, CT: op.conj().T}[ta]
    X = c.ints(m, n)
    B0 = op @ X if side == LEFT else X @ op
    while abs(B0).max(initial=0) > 20:
        X = X * (np.random.RandomState(c.r.randrange(1 << 30)).rand(m, n) < .6)
        B0 = op @ X if side == LEFT else X @ op
    A = c.mat('A', U, tri(uplo, diag))
    B = c.mat('B', B0)
    al = c.pick(1.0, 1.0, -1.0, 2.0, 0.0, 1j if c.cx else 1.0)
    c.go()
    c.zcall('ztrsm', side, uplo, ta, diag, m, n, al, A, A.ld, B, B.ld)


@fam('geadd')
def geadd(c):
    ta = c.trans()
    m, n = c.dim(), c.dim()
    A = c.mat('A', c.ints(*((m, n) if ta == N else (n, m))))
    B = c.mat('B', c.ints(m, n))
    al, be = c.scal(), c.scal()
    c.go()
    c.zcall('zgeadd', ta, m, n, al, A, A.ld, be, B, B.ld)


@fam('tradd')
def tradd(c):
    ta, uplo = c.trans(), c.e('Upper', 'Lower')
    m = c.dim()
    n = m if c.r.random() < .5 or ta != N else c.dim()
    # op(A) occupies the part uplo of B
    au = uplo if ta == N else (LO if uplo == UP else UP)
    A = c.mat('A', c.ints(*((m, n) if ta == N else (n, m))), tri(au))
    B = c.mat('B', c.ints(m, n), tri(uplo))
    al, be = c.scal(), c.scal()
    c.go()
    c.zcall('ztradd', uplo, ta, m, n, al, A, A.ld, be, B, B.ld)


@fam('lacpy')
def lacpy(c):
    uplo, ta = c.e('General', 'Upper', 'Lower'), c.trans()
    m = c.dim()
    n = c.dim() if ta == N else m
    A = c.mat('A', c.ints(m, n), tri(uplo))
    B = c.mat('B', c.ints(m, n))
    c.go()
    c.zcall('zlacpy', uplo, ta, m, n, A, A.ld, B, B.ld)


@fam('laset')
def laset(c):
    uplo = c.e('General', 'Upper', 'Lower')
    m, n = c.dim(), c.dim()
    A = c.mat('A', c.ints(m, n))
    c.go()
    c.zcall('zlaset', uplo, m, n, c.scal(), c.scal(), A, A.ld)


@fam('lascl')
def lascl(c):
    uplo = c.e('General', 'Upper', 'Lower')
    m, n = c.dim(), c.dim()
    cf, ct = c.pick((1, 3), (2, 6), (-1, 2), (4, 4), (0.5, 1), (1, 0), (2, -8))
    A = c.mat('A', c.ints(m, n), tri(uplo))
    c.go()
    c.zcall('zlascl', uplo, cf, ct, m, n, A, A.ld, sq=2)


@fam('geswp')
def geswp(c):
    cr, m, n, inc = c.e('Rowwise', 'Columnwise'), c.dim(1), c.dim(1), c.pick(1, -1)
    k = m if cr == K['Rowwise'] else n
    A = c.mat('A', c.ints(m, n, -9, 9))
    P = c.ivec('P', k, [c.r.randint(i + 1, k) for i in range(k)])
    c.go()
    c.zcall('zgeswp', cr, m, n, A, A.ld, P, inc)


@fam('gbmm')
def gbmm(c):
    ta, tb = c.trans(), c.trans()
    m, n, k = c.dim(1), c.dim(1), c.dim(1)
    am, an = (m, k) if ta == N else (k, m)
    kl, ku = c.r.randint(0, am - 1), c.r.randint(0, an - 1)
    V = c.ints(am, an)
    for i in range(am):
        for j in range(an):
            if not (-kl <= j - i <= ku):
                V[i, j] = 0
    A = c.mat('A', V)
    B = c.mat('B', c.ints(*((k, n) if tb == N else (n, k))))
    C = c.mat('C', c.ints(m, n))
    al, be = c.scal(), c.scal()
    c.go()
    c.zcall('zgbmm', ta, tb, m, n, k, kl, ku, al, A, A.ld, B, B.ld, be, C, C.ld)


@fam('gbset', weight=0.5)
def gbset(c):
    m, n = c.dim(1), c.dim(1)
    kl, ku = c.r.randint(0, m - 1), c.r.randint(0, n - 1)
    A = c.mat('A', c.ints(m, n))
    c.go()
    c.zcall('zgbset', m, n, kl, ku, A, A.ld)


@fam('lauum')
def lauum(c):
    uplo, n = c.e('Upper', 'Lower'), c.dim()
    V = c.ints(n, n, -2, 2)
    V[np.diag_indices(n)] = V.diagonal().real
    A = c.mat('A', V, tri(uplo))
    c.go()
    c.zcall('zlauum', uplo, n, A, A.ld)


@fam('getri_aux', q=64)
def getri_aux(c):
    n = c.dim()
    U = np.triu(c.ints(n, n, -2, 2, 4))
    Lw = np.tril(c.ints(n, n, -1, 1, 4), -1) / 2
    Lw = np.round(Lw * 8) / 8
    A = c.mat('A', U + Lw)
    c.go()
    c.zcall('zgetri_aux', n, A, A.ld)


@fam('lag2c', precs='dz')
def lag2c(c):
    m, n = c.dim(), c.dim()
    A = c.mat('A', c.ints(m, n))
    B = c.out('As', m, n, prec=LOW[c.p])
    c.go()
    c.zcall('zlag2c', m, n, A, A.ld, B, B.ld)


@fam('clag2z', precs='dz')
def clag2z(c):
    m, n = c.dim(), c.dim()
    A = c.mat('As', c.ints(m, n), prec=LOW[c.p])
    B = c.out('A', m, n)
    c.go()
    c.zcall('clag2z', m, n, A, A.ld, B, B.ld)


# ------------------------------------------------------------------ norms (moduli are integers)
PYTH = [(0, 0), (3, 4), (4, -3), (-5, 0), (0, 5), (0, -2), (1, 0), (6, 8), (-8, 6), (2, 0), (5, 12), (-3, -4)]


def pyth(c, m, n):
    A = np.zeros((m, n), complex if c.cx else float)
    for i in range(m):
        for j in range(n):
            a, b = c.r.choice(PYTH)
            A[i, j] = complex(a, b) if c.cx else float(c.r.choice((a, b, -a)))
    return A


NRM = ('MaxNorm', 'OneNorm', 'InfNorm', 'FrobeniusNorm')


@fam('lange', q=512)
def lange(c):
    m, n = c.dim(), c.dim()
    A = c.mat('A', pyth(c, m, n) if m and n else np.zeros((m, n)))
    c.go()
    c.zcall('zlange', c.e(*NRM), m, n, A, A.ld)


def _lanhe(c, z, he):
    uplo, n = c.e('Upper', 'Lower'), c.dim()
    V = pyth(c, n, n)
    if he:
        V[np.diag_indices(n)] = V.diagonal().real
    A = c.mat('A', V, tri(uplo))
    c.go()
    c.zcall(z, c.e(*NRM), uplo, n, A, A.ld)


@fam('lansy', q=512)
def lansy(c): _lanhe(c, 'zlansy', False)


@fam('lanhe', q=512, precs='cz')
def lanhe(c): _lanhe(c, 'zlanhe', True)


@fam('lantr', q=512)
def lantr(c):
    uplo, diag = c.e('Upper', 'Lower'), c.e('Unit', 'NonUnit')
    m, n = c.dim(), c.dim()
    A = c.mat('A', pyth(c, m, n), tri(uplo, diag))
    c.go()
    c.zcall('zlantr', c.e(*NRM), uplo, diag, m, n, A, A.ld)


@fam('langb', q=512)
def langb(c):
    m = c.dim(1)
    n = m if c.r.random() < .5 else c.dim(1)
    kl, ku = c.r.randint(0, m - 1), c.r.randint(0, n - 1)
    # the storage of the band factorisations: AB(kl+ku+i-j, j), room for fill-in above, whole tiles
    nb = c.cfg['nb']
    rows = ((ku + kl + nb - 1) // nb + (kl + nb - 1) // nb + 1) * nb
    V = pyth(c, rows, n)
    for j in range(n):
        for b in range(rows):
            if not (kl <= b <= 2 * kl + ku and 0 <= b - kl - ku + j < m):
                V[b, j] = 0
    A = c.mat('AB', V)
    c.go()
    c.zcall('zlangb', c.e(*NRM), m, n, kl, ku, A, A.ld)


@fam('amax', q=512)
def amax(c):
    m, n = c.dim(1), c.dim(1)
    cr = c.e('Columnwise', 'Rowwise')
    A = c.mat('A', pyth(c, m, n))
    V = c.out('values', n if cr == K['Columnwise'] else m, 1, dtype=np.float64 if c.p in 'dz' else np.float32, ld=None)
    c.go()
    c.zcall('zamax', cr, m, n, A, A.ld, V)


# ------------------------------------------------------------------ Cholesky
def spd_mat(c, n, uplo, name='A'):
    V = c.spd(n)
    return V, c.mat(name, V, tri(uplo))


def rhs(c, V, nrhs, name='B', lim=45):
    n = len(V)
    X = c.ints(n, nrhs)
    B0 = V @ X
    while abs(B0).max(initial=0) > lim:
        X = np.array(X) * (np.random.RandomState(c.r.randrange(1 << 30)).rand(n, nrhs) < .6)
        B0 = V @ X
    return c.mat(name, B0)


@fam('potrf', q=512, weight=1.5)
def potrf(c):
    uplo, n = c.e('Upper', 'Lower'), c.dim()
    V, A = spd_mat(c, n, uplo)
    r = c.dim()
    B = rhs(c, V, r)
    c.go()
    c.zcall('zpotrf', uplo, n, A, A.ld)
    nxt = c.pick('potrs', 'potri', 'none', 'potrs')
    if nxt == 'potrs':
        c.zcall('zpotrs', uplo, n, r, A, A.ld, B, B.ld)
    if nxt == 'potri':
        c.zcall('zpotri', uplo, n, A, A.ld)


@fam('posv', q=512)
def posv(c):
    uplo, n, r = c.e('Upper', 'Lower'), c.dim(), c.dim()
    V, A = spd_mat(c, n, uplo)
    B = rhs(c, V, r)
    B2 = rhs(c, V, r, 'B2')
    c.go()
    c.zcall('zposv', uplo, n, r, A, A.ld, B, B.ld)
    if c.r.random() < .3 and r:   # the factor left in A works for another right-hand side
        c.zcall('zpotrs', uplo, n, r, A, A.ld, B2, B2.ld)


@fam('poinv', q=512)
def poinv(c):
    uplo, n = c.e('Upper', 'Lower'), c.dim()
    V, A = spd_mat(c, n, uplo)
    c.go()
    c.zcall('zpoinv', uplo, n, A, A.ld)


@fam('trtri', q=512)
def trtri(c):
    uplo, diag, n = c.e('Upper', 'Lower'), c.e('Unit', 'NonUnit'), c.dim()
    U = c.goodmat(n, kind='tr')
    if uplo == LO:
        U = U.T.copy()
    A = c.mat('A', U, tri(uplo, diag))
    c.go()
    c.zcall('ztrtri', uplo, diag, n, A, A.ld)


# ------------------------------------------------------------------ LU
@fam('getrf', q=512, weight=2)
def getrf(c):
    sq = c.r.random() < .6
    m = c.dim()
    n = m if sq else c.dim()
    V = c.goodmat(n) if sq else c.ints(m, n, -2, 2, 16)
    A = c.mat('A', V)
    P = c.ivec('P', min(m, n))
    r = c.dim()
    B = rhs(c, V, r) if sq else None
    c.go()
    c.zcall('zgetrf', m, n, A, A.ld, P)
    if sq:
        nxt = c.pick('getrs', 'getrs', 'getri', 'none')
        if nxt == 'getrs':
            c.zcall('zgetrs', c.trans(), n, r, A, A.ld, P, B, B.ld)
        if nxt == 'getri':
            c.zcall('zgetri', n, A, A.ld, P)


@fam('gesv', q=512)
def gesv(c):
    n, r = c.dim(), c.dim()
    V = c.goodmat(n)
    A, P, B, B2 = c.mat('A', V), c.ivec('P', n), rhs(c, V, r), rhs(c, V, r, 'B2')
    c.go()
    c.zcall('zgesv', n, r, A, A.ld, P, B, B.ld)
    if c.r.random() < .3 and r:
        c.zcall('zgetrs', c.trans(), n, r, A, A.ld, P, B2, B2.ld)


@fam('geinv', q=512)
def geinv(c):
    n = c.dim()
    V = c.goodmat(n)
    A, P = c.mat('A', V), c.ivec('P', n)
    c.go()
    c.zcall('zgeinv', n, n, A, A.ld, P)


# ------------------------------------------------------------------ band
def band_store(c, V, kl, ku, name, lower_off, rows, ld=None, herm=None):
    """store the band of V in LAPACK band format: row = off + i - j"""
    n = V.shape[1]
    S = np.zeros((rows, n), V.dtype)
    for j in range(n):
        for i in range(V.shape[0]):
            b = lower_off + i - j
            if -kl <= j - i <= ku and 0 <= b < rows:
                S[b, j] = V[i, j]
    return S


def pb_mat(c, n, kd, uplo, name='AB'):
    V = c.spd(n)
    for i in range(n):
        for j in range(n):
            if abs(i - j) > kd:
                V[i, j] = 0
    w = np.linalg.eigvalsh(V)[0] if n else 1
    if w < 1:
        V = V + (int(1 - w) + 1) * np.eye(n)
    if uplo == UP:
        S = band_store(c, V, 0, kd, name, kd, kd + 1)
        mask = lambda b, j: b - kd + j >= 0
    else:
        S = band_store(c, V, kd, 0, name, 0, kd + 1)
        mask = lambda b, j: b + j < n
    return V, c.mat(name, S, mask)


@fam('pbtrf', q=512, weight=1.5)
def pbtrf(c):
    uplo, n, r = c.e('Upper', 'Lower'), c.dim(1, 10), c.dim()
    kd = c.r.randint(0, min(n - 1, 5))
    V, A = pb_mat(c, n, kd, uplo)
    B, B2 = rhs(c, V, r), rhs(c, V, r, 'B2')
    c.go()
    if c.r.random() < .6:
        c.zcall('zpbtrf', uplo, n, kd, A, A.ld)
        c.zcall('zpbtrs', uplo, n, kd, r, A, A.ld, B, B.ld)
    else:
        c.zcall('zpbsv', uplo, n, kd, r, A, A.ld, B, B.ld)
        if c.r.random() < .3 and r:
            c.zcall('zpbtrs', uplo, n, kd, r, A, A.ld, B2, B2.ld)


def gb_mat(c, n, kl, ku, name='AB'):
    nb = c.cfg['nb']
    V = c.goodmat(n, kl=kl, ku=ku)
    kut, klt = (ku + kl + nb - 1) // nb, (kl + nb - 1) // nb
    rows = (kut + klt + 1) * nb
    S = band_store(c, V, kl, ku, name, kl + ku, rows)
    # the rows that receive fill-in have to be zero on entry (see test_zgbsv.c)
    return V, c.mat(name, S, None, ld=rows + c.pick(0, 0, 1, 3))


@fam('gbtrf', q=512, weight=2)
def gbtrf(c):
    n, r = c.dim(1, 10), c.dim()
    kl, ku = c.r.randint(0, min(n - 1, 4)), c.r.randint(0, min(n - 1, 4))
    V, A = gb_mat(c, n, kl, ku)
    P, B, B2 = c.ivec('P', n), rhs(c, V, r), rhs(c, V, r, 'B2')
    c.go()
    if c.r.random() < .6:
        c.zcall('zgbtrf', n, n, kl, ku, A, A.ld, P)
        c.zcall('zgbtrs', c.trans() if GBTRANS else N, n, kl, ku, r, A, A.ld, P, B, B.ld)
    else:
        c.zcall('zgbsv', n, kl, ku, r, A, A.ld, P, B, B.ld)
        if c.r.random() < .3 and r:
            c.zcall('zgbtrs', N, n, kl, ku, r, A, A.ld, P, B2, B2.ld)


GBTRANS = True


# ------------------------------------------------------------------ QR / LQ
def cq(c):
    return c.pick(N, CT if c.cx else T)


def td():
    return Desc()


@fam('geqrf', q=512, weight=2)
def geqrf(c):
    m, n = c.dim(), c.dim()
    V = c.ints(m, n, -2, 2, 16)
    A = c.mat('A', V)
    k = min(m, n)
    Q = c.out('Q', m, m)
    nn = c.r.randint(1, max(1, m))
    Q2 = c.out('Q2', m, nn)
    side, tr = c.e('Left', 'Right'), cq(c)
    o = c.dim()
    C = c.mat('C', c.ints(*((m, o) if side == LEFT else (o, m))))
    t = td()
    c.go()
    c.zcall('zgeqrf', m, n, A, A.ld, t)
    if k == 0:
        c.L.call('plasma_desc_destroy', t)
        return
    # Q in full, then a leading part, then applied
    c.zcall('zungqr', m, m, k, A, A.ld, t, Q, Q.ld)
    if c.r.random() < .5:
        c.zcall('zungqr', m, nn, min(k, nn), A, A.ld, t, Q2, Q2.ld) if nn >= k else None
    kk = k
    if side == LEFT:
        c.zcall('zunmqr', side, tr, m, o, kk, A, A.ld, t, C, C.ld)
    else:
        c.zcall('zunmqr', side, tr, o, m, kk, A, A.ld, t, C, C.ld)
    c.L.call('plasma_desc_destroy', t)


@fam('gelqf', q=512, weight=2)
def gelqf(c):
    m, n = c.dim(), c.dim()
    V = c.ints(m, n, -2, 2, 16)
    A = c.mat('A', V, ld=max(m, n, 1) + c.pick(0, 0, 2))
    k = min(m, n)
    Q = c.out('Q', n, n)
    mm = c.r.randint(1, max(1, n))
    Q2 = c.out('Q2', mm, n)
    side, tr = c.e('Left', 'Right'), cq(c)
    o = c.dim()
    C = c.mat('C', c.ints(*((n, o) if side == LEFT else (o, n))))
    t = td()
    c.go()
    c.zcall('zgelqf', m, n, A, A.ld, t)
    if k == 0:
        c.L.call('plasma_desc_destroy', t)
        return
    c.zcall('zunglq', n, n, k, A, A.ld, t, Q, Q.ld)
    if c.r.random() < .5 and mm >= k:
        c.zcall('zunglq', mm, n, k, A, A.ld, t, Q2, Q2.ld)
    if side == LEFT:
        c.zcall('zunmlq', side, tr, n, o, k, A, A.ld, t, C, C.ld)
    else:
        c.zcall('zunmlq', side, tr, o, n, k, A, A.ld, t, C, C.ld)
    c.L.call('plasma_desc_destroy', t)


def tall_good(c, m, n):
    """m x n (m >= n) with singular values bounded away from 0"""
    if m == 0 or n == 0:
        return c.ints(m, n)
    best, bc = None, 1e300
    for t in range(20):
        A = c.ints(m, n, -2, 2, 16)
        s = np.linalg.svd(A, compute_uv=False)
        x = 1 / s[-1] if len(s) and s[-1] > 1e-6 else 1e299
        if x < bc:
            best, bc = A, x
        if x < 1.5:
            break
    if bc > 3:
        best[np.diag_indices(n)] += 6
    return best


def witness(c, A, B):
    """y with (minimum norm solution of A x = b) = A^H y"""
    ma, na = A.shape
    if ma >= na or ma == 0:
        return []
    Y = np.linalg.solve(A @ A.conj().T, B)
    return encmat(Y if c.cx else Y.real, c.q, c.cx)


@fam('gels', q=512, weight=1.5)
def gels(c):
    m, n, r = c.dim(), c.dim(), c.dim(0, 5)
    V = tall_good(c, m, n) if m >= n else tall_good(c, n, m).T.copy()
    tr = cq(c)
    A = c.mat('A', V)
    rowsb = m if tr == N else n
    ldb = max(m, n, 1) + c.pick(0, 0, 2)
    B0 = c.ints(max(m, n), r)
    B = c.mat('B', B0, (lambda i, j: i < rowsb), ld=ldb)
    t = td()
    c.go()
    c.zcall('zgels', tr, m, n, r, A, A.ld, t, B, B.ld, extra=dict(wit=witness(c, V if tr == N else V.conj().T, B0[:rowsb])))
    c.L.call('plasma_desc_destroy', t)


@fam('geqrs', q=512)
def geqrs(c):
    lq = c.r.random() < .5
    m, n, r = c.dim(1), c.dim(1), c.dim(0, 5)
    if lq != (m < n):
        m, n = n, m
    if lq and m >= n:
        n = m
    V = tall_good(c, m, n) if m >= n else tall_good(c, n, m).T.copy()
    A = c.mat('A', V)
    B0 = c.ints(max(m, n), r)
    w = witness(c, V, B0[:m])
    B = c.mat('B', B0, (lambda i, j: i < m), ld=max(m, n) + c.pick(0, 0, 2))
    t = td()
    c.go()
    if lq:
        c.zcall('zgelqf', m, n, A, A.ld, t)
        c.zcall('zgelqs', m, n, r, A, A.ld, t, B, B.ld, extra=dict(wit=w))
    else:
        c.zcall('zgeqrf', m, n, A, A.ld, t)
        c.zcall('zgeqrs', m, n, r, A, A.ld, t, B, B.ld, extra=dict(wit=w))
    c.L.call('plasma_desc_destroy', t)


# ------------------------------------------------------------------ Aasen
@fam('hetrf', q=512, weight=1.5)
def hetrf(c):
    n, r = c.dim(1), c.dim(1, 5)
    nb = c.cfg['nb']
    V = c.goodmat(n, kind='he')
    A = c.mat('A', V, tri(LO))
    kut, klt = (2 * nb + nb - 1) // nb, 1
    ldt = (kut + klt + 1) * nb
    ldt += c.pick(0, 0, 0, 1, 3, nb)
    TT = c.out('TT', ldt, n, ld=ldt)
    P, P2 = c.ivec('P', n), c.ivec('P2', n)
    B, B2 = rhs(c, V, r), rhs(c, V, r, 'B2')
    c.go()
    if c.r.random() < .5:
        if c.zcall('zhetrf', LO, n, A, A.ld, P, TT, ldt, P2):
            return
        c.zcall('zhetrs', LO, n, r, A, A.ld, P, TT, ldt, P2, B, B.ld)
    else:
        if c.zcall('zhesv', LO, n, r, A, A.ld, P, TT, ldt, P2, B, B.ld):
            return
    if c.r.random() < .3 and r:
        c.zcall('zhetrs', LO, n, r, A, A.ld, P, TT, ldt, P2, B2, B2.ld)


# ------------------------------------------------------------------ SVD
@fam('gesdd', q=512, weight=1.5)
def gesdd(c):
    m, n = c.dim(1, 10), c.dim(1, 10)
    nb = c.cfg['nb']
    if min(m, n) < nb:      # smaller problems are not supported
        c.cfg['nb'] = nb = c.r.randint(1, min(m, n))
        c.cfg['ib'] = c.r.randint(1, nb)
    V = c.ints(m, n, -2, 2, 16)
    k = min(m, n)
    rt = np.float64 if c.p in 'dz' else np.float32
    job = c.e('AllVec', 'SomeVec', 'AllVec')
    A = c.mat('A', V)
    A2 = c.mat('A2', V)
    S, S2 = c.out('S', k, 1, dtype=rt, ld=k), c.out('S2', k, 1, dtype=rt, ld=k)
    U = c.out('U', m, m if job == K['AllVec'] else k)
    VT = c.out('VT', n if job == K['AllVec'] else k, n)
    t, t2 = td(), td()
    novec = c.r.random() < .5
    c.go()
    c.zcall('zgesdd', job, job, m, n, A, A.ld, t, S, U, U.ld, VT, VT.ld)
    c.L.call('plasma_desc_destroy', t)
    if novec:
        c.zcall('zgesdd', K['NoVec'], K['NoVec'], m, n, A2, A2.ld, t2, S2, U, U.ld, VT, VT.ld)
        c.L.call('plasma_desc_destroy', t2)


@fam('stevx2', q=512, precs='sd', weight=1.5)
def stevx2(c):
    """tridiagonal matrices with integer eigenvalues: single rows and pairs [[a, b], [b, a]]"""
    job, rg = c.e('NoVec', 'Vec', 'Count'), c.e('RangeV', 'RangeI')
    n = c.dim()
    d, e, i = np.zeros((n, 1)), np.zeros((max(0, n - 1), 1)), 0
    while i < n:
        d[i] = c.r.randint(-3, 3)
        if i + 1 < n and c.r.random() < .6:
            d[i + 1] = d[i]
            e[i] = c.r.choice((-2, -1, 1, 2))
            i += 1
        i += 1
    vl, vu = sorted(c.r.sample(range(-6, 7), 2))
    il, iu = sorted((c.r.randint(1, max(1, n)), c.r.randint(1, max(1, n))))
    if n == 0:
        il, iu = 1, 0
    k = n if c.r.random() < .85 or 'obs' in c.cfg else c.r.randint(0, n)
    D, E = c.mat('diag', d), c.mat('offd', e)
    F, V, M = c.ivec('Found', 1), c.out('Val', n, 1, ld=max(1, n)), c.ivec('Mul', n)
    W = c.out('Vec', n, n, ld=max(1, n))
    c.go()
    c.zcall('zstevx2', job, rg, n, k, D, E, vl, vu, il, iu, F, V, M, W)


# ------------------------------------------------------------------ mixed precision
@fam('cgesv', q=512, precs='dz')
def cgesv(c):
    n, r = c.dim(), c.dim()
    V = c.goodmat(n)
    A, P, B = c.mat('A', V), c.ivec('P', n), rhs(c, V, r)
    X, it = c.out('X', n, r), c.ivec('iter', 1)
    c.go()
    c.zcall('zcgesv', n, r, A, A.ld, P, B, B.ld, X, X.ld, it)


@fam('cposv', q=512, precs='dz')
def cposv(c):
    uplo, n, r = c.e('Upper', 'Lower'), c.dim(), c.dim()
    V, A = spd_mat(c, n, uplo)
    B = rhs(c, V, r)
    X, it = c.out('X', n, r), c.ivec('iter', 1)
    c.go()
    c.zcall('zcposv', uplo, n, r, A, A.ld, B, B.ld, X, X.ld, it)


@fam('cgbsv', q=512, precs='dz')
def cgbsv(c):
    n, r = c.dim(1), c.dim()
    kl, ku = c.r.randint(0, min(n - 1, 4)), c.r.randint(0, min(n - 1, 4))
    V, A = gb_mat(c, n, kl, ku)
    P, B = c.ivec('P', n), rhs(c, V, r)
    X, it = c.out('X', n, r), c.ivec('iter', 1)
    c.go()
    c.zcall('zcgbsv', n, kl, ku, r, A, A.ld, P, B, B.ld, X, X.ld, it)
