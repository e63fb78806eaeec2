"""Programs of factorisations and solvers on matrices whose failing pivots are known exactly."""
import numpy as np
from ctx import K
from families import UP, LO, N, T, CT, tri, band_store

FAIL = {}


def fam(name, precs='sdcz'):
    def d(f):
        FAIL[name] = dict(f=f, precs=precs, q=16)
        return f
    return d


def fails(c, n):
    """positions (0-based) of the failing pivots: often none, tile edges over-represented"""
    if n == 0 or c.r.random() < .25:
        return set()
    nb = c.cfg['nb']
    cand = [0, n - 1, nb - 1, nb, 2 * nb - 1, 2 * nb] + [c.r.randrange(n) for _ in range(4)]
    cand = [x for x in cand if x < n]
    return set(c.r.sample(cand, min(len(cand), c.r.choice((1, 1, 2, 2, 3)))))


def unit(c):
    return c.pick(1, -1, 1j, -1j) if c.cx else c.pick(1, -1)


def ldl(c, n, kd=None):
    """A = L*D*L^H with exact square roots of the positive D"""
    f = fails(c, n)
    Lm = np.eye(n, dtype=complex)
    for j in range(n):
        for i in range(j + 1, n):
            if (kd is None or i - j <= kd) and c.r.random() < .4:
                Lm[i, j] = unit(c)
    D = [c.pick(0, 0, -1, -4) if i in f else c.pick(1, 1, 4) for i in range(n)]
    return Lm @ np.diag(D) @ Lm.conj().T if n else Lm, Lm, D


def lu(c, m, n, kl=None, ku=None):
    """a row permutation of L*U whose pivots and multipliers are exact under partial pivoting"""
    k = min(m, n)
    f = fails(c, k)
    perm = list(range(m))
    if kl is None:
        c.r.shuffle(perm)
        l2, u2 = m, n
    else:
        l2, u2 = kl, ku
        if kl > 0 and c.r.random() < .7:        # interchanges of neighbours widen the band by one
            l2, u2 = kl - 1, ku - 1 if ku > 0 else 0
            if ku > 0:
                i = 0
                while i + 1 < m:
                    if c.r.random() < .5:
                        perm[i], perm[i + 1] = perm[i + 1], perm[i]
                        i += 1
                    i += 1
    Lm = np.eye(m, k, dtype=complex)
    U = np.zeros((k, n), complex)
    for j in range(k):
        for i in range(j + 1, m):
            if i - j <= l2 and c.r.random() < .5:
                Lm[i, j] = unit(c) * c.pick(.5, .25)
    for i in range(k):
        U[i, i] = 0 if i in f else unit(c) * c.pick(1, 2, 4)
        for j in range(i + 1, n):
            if j - i <= u2 and c.r.random() < .5:
                U[i, j] = unit(c) * c.pick(1, 2)
    return (Lm @ U)[perm]


def rhs(c, n, r, name='B'):
    return c.mat(name, c.ints(n, r))


def call(c, z, x, Bm, *args, **kw):
    """x: what Failure.tla gets to know about the factored matrix"""
    before = Bm.buf.tobytes() if Bm is not None else b''
    ret = c.zcall(z, *args, **kw)
    x.update(op=c.opname(z), ret=int(ret), solve=Bm is not None, same=Bm is None or Bm.buf.tobytes() == before)
    c.calls.append(x)
    return ret


def ints(c, V, q=1):
    V = np.asarray(V) * q
    f = (lambda z: [int(round(z.real)), int(round(z.imag))]) if c.cx else (lambda z: int(round(z.real)))
    return [[f(z) for z in row] for row in V.tolist()]


def pd(c, V, Lm, D):
    return dict(kind='pd', n=len(D), V=ints(c, V), L=ints(c, Lm), D=[int(d) for d in D])


def ge(c, V):
    return dict(kind='lu', m=V.shape[0], n=V.shape[1], V=ints(c, V, 16))


def tr(c, d, unitdiag=False):
    return dict(kind='tri', n=len(d), unit=unitdiag, V=[ints(c, np.array(d).reshape(1, -1))[0]] if len(d) else [])


@fam('potrf')
def potrf(c):
    n = c.dim(1)
    ops = []
    for t in range(c.r.randint(1, 3)):
        uplo, r = c.e('Upper', 'Lower'), c.dim(1, 5)
        V, Lm, D = ldl(c, n)
        ops.append((uplo, r, V, Lm, D, c.mat('A%d' % t, V, tri(uplo)), rhs(c, n, r, 'B%d' % t), c.pick('potrf', 'posv', 'poinv')))
    c.go()
    for uplo, r, V, Lm, D, A, B, o in ops:
        x = pd(c, V, Lm, D)
        if o == 'potrf':
            call(c, 'zpotrf', x, None, uplo, n, A, A.ld)
        elif o == 'posv':
            call(c, 'zposv', x, B, uplo, n, r, A, A.ld, B, B.ld)
        else:
            call(c, 'zpoinv', x, None, uplo, n, A, A.ld)


@fam('pbtrf')
def pbtrf(c):
    n = c.dim(1)
    ops = []
    for t in range(c.r.randint(1, 3)):
        uplo, r, kd = c.e('Upper', 'Lower'), c.dim(1, 5), c.r.randint(0, min(n - 1, 5))
        V, Lm, D = ldl(c, n, kd)
        if uplo == UP:
            A = c.mat('A%d' % t, band_store(c, V, 0, kd, 'A', kd, kd + 1), lambda b, j, kd=kd: b - kd + j >= 0)
        else:
            A = c.mat('A%d' % t, band_store(c, V, kd, 0, 'A', 0, kd + 1), lambda b, j: b + j < n)
        ops.append((uplo, r, kd, V, Lm, D, A, rhs(c, n, r, 'B%d' % t), c.pick('pbtrf', 'pbsv')))
    c.go()
    for uplo, r, kd, V, Lm, D, A, B, o in ops:
        if o == 'pbtrf':
            call(c, 'zpbtrf', pd(c, V, Lm, D), None, uplo, n, kd, A, A.ld)
        else:
            # rows of a diagonal system are independent: those before the failure may already be solved
            call(c, 'zpbsv', pd(c, V, Lm, D), B if kd else None, uplo, n, kd, r, A, A.ld, B, B.ld)


@fam('getrf')
def getrf(c):
    ops = []
    for t in range(c.r.randint(1, 3)):
        o = c.pick('getrf', 'getrf', 'gesv', 'geinv')
        m = c.dim(1)
        n = c.dim(1) if o == 'getrf' and c.r.random() < .5 else m
        r = c.dim(1, 5)
        V = lu(c, m, n)
        ops.append((o, m, n, r, V, c.mat('A%d' % t, V), c.ivec('P%d' % t, min(m, n)), rhs(c, m, r, 'B%d' % t)))
    c.go()
    for o, m, n, r, V, A, P, B in ops:
        if o == 'getrf':
            call(c, 'zgetrf', ge(c, V), None, m, n, A, A.ld, P)
        elif o == 'gesv':
            call(c, 'zgesv', ge(c, V), B, n, r, A, A.ld, P, B, B.ld)
        else:
            call(c, 'zgeinv', ge(c, V), None, n, n, A, A.ld, P)


def gb_mat(c, V, kl, ku, name):
    nb = c.cfg['nb']
    rows = ((ku + kl + nb - 1) // nb + (kl + nb - 1) // nb + 1) * nb
    return c.mat(name, band_store(c, V, kl, ku, name, kl + ku, rows), None, ld=rows + c.pick(0, 0, 1, 3))


@fam('gbtrf')
def gbtrf(c):
    ops = []
    for t in range(c.r.randint(1, 3)):
        n, r = c.dim(1, 10), c.dim(1, 5)
        kl, ku = c.r.randint(0, min(n - 1, 4)), c.r.randint(0, min(n - 1, 4))
        V = lu(c, n, n, kl, ku)
        ops.append((c.pick('gbtrf', 'gbsv'), n, kl, ku, r, V, gb_mat(c, V, kl, ku, 'A%d' % t), c.ivec('P%d' % t, n), rhs(c, n, r, 'B%d' % t)))
    c.go()
    for o, n, kl, ku, r, V, A, P, B in ops:
        if o == 'gbtrf':
            call(c, 'zgbtrf', ge(c, V), None, n, n, kl, ku, A, A.ld, P)
        else:
            call(c, 'zgbsv', ge(c, V), B, n, kl, ku, r, A, A.ld, P, B, B.ld)


@fam('trtri')
def trtri(c):
    ops = []
    for t in range(c.r.randint(1, 3)):
        o = c.pick('trtri', 'trtri', 'potri', 'getri')
        n, uplo, diag = c.dim(1), c.e('Upper', 'Lower'), c.e('NonUnit', 'NonUnit', 'Unit')
        f = fails(c, n)
        V = np.round(c.ints(n, n, -1, 1))
        for i in range(n):
            V[i, i] = 0 if i in f else (c.pick(1, 2) if o == 'potri' else unit(c) * c.pick(1, 2))
        P = c.ivec('P%d' % t, n, [c.r.randint(i, n - 1) + 1 for i in range(n)])
        ops.append((o, n, uplo, diag, V, c.mat('A%d' % t, V, None if o == 'getri' else tri(uplo, diag if o == 'trtri' else K['NonUnit'])), P))
    c.go()
    for o, n, uplo, diag, V, A, P in ops:
        d = [V[i, i] for i in range(n)]
        if o == 'trtri':
            call(c, 'ztrtri', tr(c, d, diag == K['Unit']), None, uplo, diag, n, A, A.ld)
        elif o == 'potri':
            call(c, 'zpotri', tr(c, d), None, uplo, n, A, A.ld)
        else:
            call(c, 'zgetri', tr(c, d), None, n, A, A.ld, P)


@fam('mixed', 'dz')
def mixed(c):
    n, r = c.dim(1), c.dim(1, 5)
    o = c.pick('cposv', 'cgesv', 'cgbsv')
    B, X, it = rhs(c, n, r), c.out('X', n, r), c.ivec('iter', 1)
    P = c.ivec('P', n)
    if o == 'cposv':
        uplo = c.e('Upper', 'Lower')
        V, Lm, D = ldl(c, n)
        A = c.mat('A', V, tri(uplo))
        c.go()
        call(c, 'zcposv', pd(c, V, Lm, D), B, uplo, n, r, A, A.ld, B, B.ld, X, X.ld, it)
    elif o == 'cgesv':
        V = lu(c, n, n)
        A = c.mat('A', V)
        c.go()
        call(c, 'zcgesv', ge(c, V), B, n, r, A, A.ld, P, B, B.ld, X, X.ld, it)
    else:
        kl, ku = c.r.randint(0, min(n - 1, 4)), c.r.randint(0, min(n - 1, 4))
        V = lu(c, n, n, kl, ku)
        A = gb_mat(c, V, kl, ku, 'A')
        c.go()
        call(c, 'zcgbsv', ge(c, V), B, n, kl, ku, r, A, A.ld, P, B, B.ld, X, X.ld, it)
