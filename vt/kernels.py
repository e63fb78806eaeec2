"""Programs of direct calls of the tile kernels (plasma_core_*): generators and execution (contract: spec/Kernel.tla)."""
import numpy as np
import cases
from plib import K, RDT
from ctx import Ctx, Mat, rname, ENUMARGS, ENUMN, encnum
from families import FAM, tri, cq, pyth, NRM, N, T, CT, UP, LO, LEFT, RIGHT

KFAM = {}
SHARED = ('gemm symm hemm syrk herk syr2k her2k trmm trsm geadd tradd lacpy laset lascl lauum trtri potrf lag2c clag2z').split()
# kernels that document and check every argument
STRICT = ('geadd tradd geqrt gelqt unmqr unmlq tsqrt tslqt ttqrt ttlqt tsmqr tsmlq ttmqr ttmlq parfb pamm pemv').split()
ENUMS = ENUMARGS | {'storev', 'direct', 'op'}
NAMES = dict(ENUMN)
for _k in ('Forward', 'Backward'):
    NAMES[K[_k]] = _k
PAMM = dict(W=501, A2=502)
NAMES.update({v: k for k, v in PAMM.items()})


def fam(name, q=1, precs='sdcz', weight=1.0):
    def deco(f):
        KFAM[name] = dict(f=f, q=q, precs=precs, weight=weight)
        return f
    return deco


class KCtx(Ctx):
    """like Ctx, for kernels: no library context, one thread, gaps between columns are watched"""

    def start(self, rec=1):
        self.L.dll.vg_begin(rec)
        for m in self.mats:
            m.touch[:] = 0
            m.hist = [m.buf.tobytes()]

    def stop(self):
        self.L.dll.vg_end()

    def zcall(self, z, *args, **kw):
        if kw.get('sole'):                     # families shared with the public routines stop after the first call
            pass
        if getattr(self, 'once', False) and self.events:
            return 0
        self.kcall(z, *args, **kw)

    def enc_args(self, proto, args, sq=1):
        a, cargs = {}, []
        for v, (t, ptr, an) in zip(args, proto):
            key = 'value' if an == 'result' else an
            if isinstance(v, Mat):
                a[key] = v.name
                cargs.append(v.p)
            elif v is None:
                a[key] = 'null'
                cargs.append(v)
            elif key in ENUMS:
                a[key] = NAMES.get(v, 'bad')
                cargs.append(v)
            elif t in ('float', 'double', 'plasma_complex32_t', 'plasma_complex64_t'):
                cargs.append(v)
                w = complex(v)
                a[key] = [encnum(w.real, sq), encnum(w.imag, sq)] if t.startswith('plasma') and self.cx else encnum(w.real, sq)
            else:
                a[key] = int(v)
                cargs.append(v)
        return a, cargs

    def gaps(self):
        """operands whose memory changed between or behind the columns"""
        out = []
        for m in self.mats:
            old, new = np.frombuffer(m.last, m.dtype), np.frombuffer(m.buf.tobytes(), m.dtype)
            x = old.view(np.uint8).reshape(-1, m.dtype.itemsize)
            y = new.view(np.uint8).reshape(-1, m.dtype.itemsize)
            if any(k % m.ld >= m.m for k in np.nonzero((x != y).any(axis=1))[0]):
                out.append(m.name)
        return out

    def kcall(self, z, *args, wrong=0, sq=1, lead=None, **kw):
        op = self.opname(z)
        name = 'plasma_core_' + rname(z, self.p).replace('dhegst', 'dsygst').replace('shegst', 'ssygst')
        ret, proto = self.L.protos[name]
        if not wrong and op in STRICT:
            for i, b in self.illegal(op, proto, args, lead or {}):
                self.kcall(z, *b, wrong=i, sq=sq)
        a, cargs = self.enc_args(proto, args, sq)
        rv = self.L.call(name, *cargs)
        ev = dict(a=a, wrong=wrong,
                  ret=0 if ret == 'void' else int(rv), gap=self.gaps())
        ev['op'] = op if (op in SHARED or op == 'zlag2c') and not wrong else 'k_' + op
        self.snap(ev)
        self.events.append(ev)

    def illegal(self, op, proto, args, lead):
        """calls with one illegal argument: (its number, arguments).  lead: documented minimum of leading dimensions"""
        keys = [an for _, _, an in proto]
        val = dict(zip(keys, args))
        pos = [d for k, d in val.items() if k in ('m', 'n', 'm1', 'n1', 'm2', 'n2', 'k', 'ib')]
        some = all(d > 0 for d in pos)
        if op in ('geadd', 'tradd'):
            lead = dict(lda=val['m'] if val['transa'] == N else val['n'], ldb=val['m'])
        todo = []
        for i, (t, ptr, k) in enumerate(proto):
            v, bad = args[i], []
            if ptr:
                # an operand of size zero may be absent
                if some and op != 'pemv':
                    bad = [None]
            elif k in ENUMS:
                bad = [0, 99, -1]
                if k == 'uplo':
                    bad.append(K['General'])
                if k == 'trans' and op not in ('pemv',):
                    bad.append(T if self.cx else 114)
                if k == 'direct':
                    bad = [0, 99]
            elif k in ('m', 'n', 'k', 'ib', 'm1', 'n1', 'm2', 'n2'):
                bad = [-1, -3]
                if op in ('geqrt', 'gelqt') and k == 'ib' and some:
                    bad.append(0)
                if op in ('unmqr', 'unmlq') and k == 'k':
                    bad.append((val['m'] if val['side'] == LEFT else val['n']) + 1)
                if op[:2] in ('ts', 'tt') and k == 'k':
                    bad.append((val['m1'] if val['side'] == LEFT else val['n1']) + 1)
            elif k == 'l' and op == 'pemv':
                bad = [min(val['m'], val['n']) + 1]
            elif k in ('incx', 'incy'):
                bad = [0, -1]
            elif k == 'l' and op == 'pamm':
                bad = [-1, -2]
            elif k.startswith('ld') and some:
                bad = [-1] if op in ('parfb', 'pamm') else [0, -1] + ([lead[k] - 1] * 3 if k in lead else [])
            if bad:
                todo.append((i, bad))
        out = []
        for i, bad in self.r.sample(todo, min(len(todo), 4)):
            b = list(args)
            b[i] = self.r.choice(bad)
            out.append((i + 1, b))
        return out


def real(c, name, v=None):
    M = c.out(name, 1, 1, dtype=RDT[c.p])
    if v is not None:
        M.set(np.array([[float(v)]]))
    return M


def shared(name):
    """the first call of a family of the public routines"""
    def f(c):
        c.once = True
        FAM[name]['f'](c)
    KFAM[name] = dict(f=f, q=FAM[name]['q'], precs=FAM[name]['precs'], weight=1.0)


for _n in SHARED:
    shared(_n)


# ------------------------------------------------------------------ norms
@fam('k_lange', q=512)
def k_lange(c):
    m, n = c.dim(), c.dim()
    A = c.mat('A', pyth(c, m, n) if m and n else np.zeros((m, n)))
    w, v = c.out('W', max(m, n, 1), 1, dtype=RDT[c.p]), real(c, 'V')
    c.go()
    c.kcall('zlange', c.e(*NRM), m, n, A, A.ld, w, v)


def _lansy(c, z, he):
    uplo, n = c.e('Upper', 'Lower'), c.dim()
    V = pyth(c, n, n)
    if he:
        V[np.diag_indices(n)] = V.diagonal().real
    A = c.mat('A', V, tri(uplo))
    w, v = c.out('W', max(n, 1), 1, dtype=RDT[c.p]), real(c, 'V')
    c.go()
    c.kcall(z, c.e(*NRM), uplo, n, A, A.ld, w, v)


@fam('k_lansy', q=512)
def k_lansy(c): _lansy(c, 'zlansy', False)


@fam('k_lanhe', q=512, precs='cz')
def k_lanhe(c): _lansy(c, 'zlanhe', True)


@fam('k_lantr', q=512)
def k_lantr(c):
    uplo, diag = c.e('Upper', 'Lower'), c.e('Unit', 'NonUnit')
    m, n = c.dim(1), c.dim(1)
    A = c.mat('A', pyth(c, m, n), tri(uplo, diag))
    w, v = c.out('W', max(m, n), 1, dtype=RDT[c.p]), real(c, 'V')
    c.go()
    c.kcall('zlantr', c.e(*NRM), uplo, diag, m, n, A, A.ld, w, v)


def axis(c, m, n):
    """entries on one of the axes: their moduli are integers"""
    V = np.zeros((m, n), complex if c.cx else float)
    for i in range(m):
        for j in range(n):
            V[i, j] = c.r.randint(-2, 2) * (c.r.choice((1, 1j)) if c.cx else 1)
    return V


@fam('k_gessq', q=512)
def k_gessq(c):
    m, n = c.dim(1), c.dim()
    A = c.mat('A', axis(c, m, n))
    s0 = c.r.randint(0, 3)
    s, q = real(c, 'S', s0), real(c, 'Z', c.r.randint(1, 4))
    c.go()
    c.kcall('zgessq', m, n, A, A.ld, s, q)
    if c.r.random() < .5:
        c.kcall('zgessq', m, n, A, A.ld, s, q)


def _syssq(c, z, he):
    uplo, n = c.e('Upper', 'Lower'), c.dim()
    V = axis(c, n, n)
    if he:
        V[np.diag_indices(n)] = np.round(V.diagonal().real)
    A = c.mat('A', V, tri(uplo))
    s, q = real(c, 'S', 0), real(c, 'Z', 1)
    c.go()
    c.kcall(z, uplo, n, A, A.ld, s, q)


@fam('k_syssq', q=512)
def k_syssq(c): _syssq(c, 'zsyssq', False)


@fam('k_hessq', q=512, precs='cz')
def k_hessq(c): _syssq(c, 'zhessq', True)


@fam('k_trssq', q=512)
def k_trssq(c):
    uplo, diag = c.e('Upper', 'Lower'), c.e('Unit', 'NonUnit')
    m, n = c.dim(1), c.dim(1)
    A = c.mat('A', axis(c, m, n), tri(uplo, diag))
    s, q = real(c, 'S', c.r.randint(0, 3)), real(c, 'Z', c.r.randint(1, 4))
    c.go()
    c.kcall('ztrssq', uplo, diag, m, n, A, A.ld, s, q)


# ------------------------------------------------------------------ generalised eigenproblem
@fam('k_hegst')
def k_hegst(c):
    ity, uplo, n = c.pick(1, 2, 3), c.e('Upper', 'Lower'), c.dim()
    U = np.triu(c.ints(n, n, -1, 1))
    U[np.diag_indices(n)] = [c.pick(1, 1, 2) for _ in range(n)]
    if uplo == LO:
        U = U.conj().T.copy()
    X = c.herm(c.ints(n, n, -2, 2))
    if ity == 1:
        X = U.conj().T @ X @ U if uplo == UP else U @ X @ U.conj().T
    A = c.mat('A', X, tri(uplo))
    B = c.mat('B', U, tri(uplo))
    c.go()
    c.kcall('zhegst', ity, uplo, n, A, A.ld, B, B.ld)


# ------------------------------------------------------------------ reflectors of one tile
def _geqrt(c, qr):
    m, n = c.dim(), c.dim()
    k = min(m, n)
    ib = c.r.randint(1, max(1, k + 1))
    A = c.mat('A', c.ints(m, n, -2, 2, 16))
    Tm = c.out('T', ib, max(k, 1), ld=ib + c.pick(0, 0, 1, 3))
    tau = c.out('tau', n if qr else m, 1)
    w = c.out('W', ib * max(1, m, n), 1)
    o = m if qr else n
    E = c.mat('E', np.eye(o))
    side, tr = c.e('Left', 'Right'), cq(c)
    x = c.dim(1)
    C = c.mat('C', c.ints(*((o, x) if side == LEFT else (x, o))))
    kp = c.r.randint(1, k) if k else 0
    P = c.mat('P', np.eye(o)[:, :kp] if qr else np.eye(o)[:kp, :])
    ldw = max(ib, o, x, 1) + c.pick(0, 0, 2)
    W2 = c.out('W2', ldw * max(ib, o, x, 1), 1)
    c.go()
    f, u = ('zgeqrt', 'zunmqr') if qr else ('zgelqt', 'zunmlq')
    c.kcall(f, m, n, ib, A, A.ld, Tm, Tm.ld, tau, w, lead=dict(lda=m, ldt=ib))
    if k == 0:
        return
    ld = dict(lda=o if qr else k, ldt=ib)
    c.kcall(u, LEFT, N, o, o, k, ib, A, A.ld, Tm, Tm.ld, E, E.ld, W2, ldw, lead=dict(ld, ldc=o))
    if side == LEFT:
        c.kcall(u, side, tr, o, x, k, ib, A, A.ld, Tm, Tm.ld, C, C.ld, W2, ldw, lead=dict(ld, ldc=o))
    else:
        c.kcall(u, side, tr, x, o, k, ib, A, A.ld, Tm, Tm.ld, C, C.ld, W2, ldw, lead=dict(ld, ldc=x))
    if qr:
        c.kcall(u, LEFT, N, o, kp, kp, ib, A, A.ld, Tm, Tm.ld, P, P.ld, W2, ldw, lead=dict(ld, ldc=o))
    else:
        c.kcall(u, RIGHT, N, kp, o, kp, ib, A, A.ld, Tm, Tm.ld, P, P.ld, W2, ldw, lead=dict(lda=kp, ldt=ib, ldc=kp))


@fam('k_geqrt', q=512, weight=2)
def k_geqrt(c): _geqrt(c, True)


@fam('k_gelqt', q=512, weight=2)
def k_gelqt(c): _geqrt(c, False)


# ------------------------------------------------------------------ reflectors of two coupled tiles
def _pair(c, qr, tt):
    k = c.dim(1)                                        # order of the triangle
    p = c.r.randint(1, k) if tt else c.dim(1)           # rows (columns) of the other tile
    ib = c.r.randint(1, k + 1)
    # the leading dimension of A1 is checked against m, which may exceed its order
    l1 = max(k, p) + c.pick(0, 0, 1, 4)
    part = (lambda i, j: i <= j) if qr else (lambda i, j: i >= j)
    A1 = c.mat('A1', c.ints(k, k, -2, 2, 16), part, ld=l1)
    s2 = (p, k) if qr else (k, p)
    A2 = c.mat('A2', c.ints(*s2, -2, 2, 16), part if tt else None)
    Tm = c.out('T', ib, k, ld=ib + c.pick(0, 0, 1, 3))
    tau = c.out('tau', k, 1)
    w = c.out('W', ib * max(k, p), 1)
    o = k + p
    I = np.eye(o)
    E1, E2 = c.mat('E1', I[:k, :]), c.mat('E2', I[k:, :])
    side, tr, x = c.e('Left', 'Right'), cq(c), c.dim(1)
    more = c.pick(0, 0, 1, 3)                           # rows (columns) of the first tile beyond the k that take part
    if side == LEFT:
        C1, C2 = c.mat('C1', c.ints(k + more, x)), c.mat('C2', c.ints(p, x))
    else:
        C1, C2 = c.mat('C1', c.ints(x, k + more)), c.mat('C2', c.ints(x, p))
    big = max(ib, o, x, k + more)
    ldw = big + c.pick(0, 0, 2)
    W2 = c.out('W2', ldw * big, 1)
    c.go()
    f = ('ztt' if tt else 'zts') + ('qrt' if qr else 'lqt')
    g = ('ztt' if tt else 'zts') + ('mqr' if qr else 'mlq')
    m, n = (p, k) if qr else (k, p)
    c.kcall(f, m, n, ib, A1, A1.ld, A2, A2.ld, Tm, Tm.ld, tau, w, lead=dict(lda2=m, ldt=ib))
    ld = dict(ldv=p if qr else k, ldt=ib)
    c.kcall(g, LEFT, N, k, o, p, o, k, ib, E1, E1.ld, E2, E2.ld, A2, A2.ld, Tm, Tm.ld, W2, ldw, lead=dict(ld, lda1=k, lda2=p))
    c.kcall(g, side, tr, C1.m, C1.n, C2.m, C2.n, k, ib, C1, C1.ld, C2, C2.ld, A2, A2.ld, Tm, Tm.ld, W2, ldw,
            lead=dict(ld, lda1=C1.m, lda2=C2.m))


for _a in ('ts', 'tt'):
    for _b in ('qrt', 'lqt'):
        fam('k_' + _a + _b, q=512, weight=1.5)(lambda c, q=_b == 'qrt', t=_a == 'tt': _pair(c, q, t))


# ------------------------------------------------------------------ pentagonal operands
def pmask(m, n, l, col):
    if col:
        return lambda i, j: not (j < l and i > m - l + j)
    return lambda i, j: not (i < l and j > n - l + i)


@fam('k_pemv', weight=3)
def k_pemv(c):
    col = c.r.random() < .5
    m, n = c.dim(1), c.dim(1)
    l = c.r.choice((0, 1, min(m, n), c.r.randint(0, min(m, n)), c.r.randint(0, min(m, n))))
    if c.r.random() < .3:                      # every block of the pentagon there
        l = c.r.randint(2, 4)
        m, n = l + c.r.randint(1, 4), l + c.r.randint(1, 4)
    tr = N if not col else c.pick(T, CT) if c.cx else T
    d = (m, n) if tr == N else (n, m)
    A = c.mat('A', c.ints(m, n), pmask(m, n, l, col))
    X = c.mat('X', c.ints(1, d[1]), ld=c.pick(1, 1, 2, 3))
    Y = c.mat('Y', c.ints(1, d[0]), ld=c.pick(1, 1, 2, 3))
    w = c.out('W', max(l, 1), 1)
    al, be = c.scal(), c.scal()
    c.go()
    c.kcall('zpemv', tr, K['Columnwise'] if col else K['Rowwise'], m, n, l, al, A, A.ld, X, X.ld, be, Y, Y.ld, w, lead=dict(lda=m))


@fam('k_parfb', weight=2)
def k_parfb(c):
    col = c.r.random() < .5
    side, tr = c.e('Left', 'Right'), cq(c)
    k, p, x = c.dim(1, 6), c.dim(1, 6), c.dim(1, 6)
    l = c.r.choice((0, min(k, p), c.r.randint(0, min(k, p))))
    more = c.pick(0, 0, 2)
    V = c.mat('V', c.ints(*((p, k) if col else (k, p)), -2, 2), pmask(p, k, l, True) if col else pmask(k, p, l, False))
    Tm = c.mat('T', c.ints(k, k, -2, 2), lambda i, j: i <= j)
    if side == LEFT:
        A1, A2 = c.mat('A1', c.ints(k + more, x)), c.mat('A2', c.ints(p, x))
    else:
        A1, A2 = c.mat('A1', c.ints(x, k + more)), c.mat('A2', c.ints(x, p))
    ldw = max(k, x, p) + c.pick(0, 0, 2)
    w = c.out('W', ldw * max(k, x, p), 1)
    c.go()
    c.kcall('zparfb', side, tr, K['Forward'], K['Columnwise'] if col else K['Rowwise'], A1.m, A1.n, A2.m, A2.n, k, l,
            A1, A1.ld, A2, A2.ld, V, V.ld, Tm, Tm.ld, w, ldw)


@fam('k_pamm', weight=2)
def k_pamm(c):
    col = c.r.random() < .5
    op, side = c.pick('W', 'A2'), c.e('Left', 'Right')
    m, n, k = c.dim(1, 7), c.dim(1, 7), c.dim(1, 7)
    d = (m, k) if side == LEFT else (k, n)                     # op(V)
    tr = col == ((side == LEFT) == (op == 'W'))
    v = d[::-1] if tr else d
    l = c.r.choice((0, min(v), c.r.randint(0, min(v))))
    V = c.mat('V', c.ints(*v, -2, 2), pmask(*v, l, col))
    A1 = c.mat('A1', c.ints(m, n))
    o = (k, n) if side == LEFT else (m, k)
    A2 = c.mat('A2', c.ints(*(o if op == 'W' else (m, n))))
    W = c.mat('W', c.ints(*(o if op == 'A2' else (m, n))))
    c.go()
    c.kcall('zpamm', PAMM[op], side, K['Columnwise'] if col else K['Rowwise'], m, n, k, l, A1, A1.ld, A2, A2.ld, V, V.ld, W, W.ld)


@fam('k_larfb', weight=1)
def k_larfb(c):
    side, tr = c.e('Left', 'Right'), cq(c)
    m, n = c.dim(1, 7), c.dim(1, 7)
    o = m if side == LEFT else n
    k = c.r.randint(1, o)
    v = c.ints(o, k, -2, 2)
    for i in range(k):
        v[i, i:] = 0
        v[i, i] = 1
    V = c.mat('V', v)
    Tm = c.mat('T', c.ints(k, k, -2, 2), lambda i, j: i <= j)
    C = c.mat('C', c.ints(m, n))
    ldw = (n if side == LEFT else m) + c.pick(0, 0, 2)
    w = c.out('WORK', ldw * k, 1)
    c.go()
    c.kcall('zlarfb_gemm', side, tr, K['Forward'], K['Columnwise'], m, n, k, V, V.ld, Tm, Tm.ld, C, C.ld, w, ldw)


# ------------------------------------------------------------------ cases
def gen(seed, per_family, only=()):
    import os
    only = only or os.environ.get('VT_FAMS', '').split()
    out = []
    for f in KFAM:
        if only and f not in only:
            continue
        n = max(1, int(per_family * KFAM[f]['weight']))
        for s in range(n):
            for p in KFAM[f]['precs']:
                out.append(dict(id='%s/%d/%s' % (f, s, p), f=f, seed=cases.seedof(seed, 'k', f, s, p), p=p,
                                strat=(cases.seedof(seed, f, p) % 100000 + s, n)))
    import random
    random.Random(seed).shuffle(out)
    return out


def fn(L, case):
    L.reset()
    F = KFAM[case['f']]
    c = KCtx(L, case['seed'], case['p'], F['q'])
    c.rec = 1
    c.strat = case.get('strat')
    c.setup(dict(nb=4, ib=2, mtpf=1, threads=1, policy=0, imm=0))
    F['f'](c)
    c.stop()
    return dict(prog=dict(id=case['id'], q=c.q, mem=c.init, ev=c.events), viols=L.viols()[:3], live=L.dll.vg_live())
