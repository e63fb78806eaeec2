"""P13: asynchronous calls on one sequence have the effect of the sequential program (Sequence.tla)."""
import ctypes as C, json, os, random
import numpy as np
import build, cases, pool, tlc
from ctx import rname
from plib import parse_headers, EV, K, DT, PREC, Desc, Sequence, Request, Workspace
LEVEL = 'model_checking'
# operands: A B X general, P lower or upper triangular, T of a QR/LQ factorisation, W column of tiles, u v user arrays, ip pivots, val norm
OPS = {}


def op(name, w=1):
    def g(f):
        OPS[name] = (w, f)
        return f
    return g


def cdiv(a, b):
    return -(-a // b)


class G:
    """generates the arguments of one call"""
    def __init__(self, r, p):
        self.r, self.p, self.cx = r, p, p in 'cz'

    def tr(self):
        return self.r.choice(('NoTrans', 'Trans', 'ConjTrans') if self.cx else ('NoTrans', 'Trans'))

    def up(self):
        return self.r.choice(('Upper', 'Lower'))

    def gs(self, k):
        """k different general operands"""
        return self.r.sample('ABX', k)

    def al(self):
        return self.r.choice((1.0, -1.0, 0.0, 2.0, 0.5))


op('gemm', 3)(lambda g: (lambda a, b, c: [g.tr(), g.tr(), g.al(), a, b, g.al(), c])(*g.gs(3)))
op('symm')(lambda g: (lambda a, b, c: [g.r.choice(('Left', 'Right')), g.up(), g.al(), a, b, g.al(), c])(*g.gs(3)))
op('hemm')(OPS['symm'][1])
op('syrk')(lambda g: (lambda a, c: [g.up(), g.r.choice(('NoTrans', 'Trans')), g.al(), a, g.al(), c])(*g.gs(2)))
op('herk')(lambda g: (lambda a, c: [g.up(), g.r.choice(('NoTrans', 'ConjTrans')), g.al(), a, g.al(), c])(*g.gs(2)))
op('syr2k')(lambda g: (lambda a, b, c: [g.up(), g.r.choice(('NoTrans', 'Trans')), g.al(), a, b, g.al(), c])(*g.gs(3)))
op('her2k')(lambda g: (lambda a, b, c: [g.up(), g.r.choice(('NoTrans', 'ConjTrans')), g.al(), a, b, g.al(), c])(*g.gs(3)))
op('trmm', 2)(lambda g: (lambda a, b: [g.r.choice(('Left', 'Right')), g.up(), g.tr(), g.r.choice(('Unit', 'NonUnit')), g.al(), a, b])(*g.gs(2)))
op('trsm', 2)(lambda g: (lambda a, b: [g.r.choice(('Left', 'Right')), g.up(), g.tr(), 'Unit', g.al(), a, b])(*g.gs(2)))
op('geadd')(lambda g: (lambda a, b: [g.tr(), g.al(), a, g.al(), b])(*g.gs(2)))
op('tradd')(lambda g: (lambda a, b: [g.up(), g.tr(), g.al(), a, g.al(), b])(*g.gs(2)))
op('lacpy')(lambda g: (lambda a, b: [g.r.choice(('General', 'Upper', 'Lower')), 'NoTrans', a, b])(*g.gs(2)))
op('laset')(lambda g: [g.r.choice(('General', 'Upper', 'Lower')), g.al(), g.al(), g.r.choice('ABX')])
op('lascl')(lambda g: [g.r.choice(('General', 'Upper', 'Lower')), 2.0, g.r.choice((1.0, -2.0, 4.0)), g.r.choice('ABX')])
op('potrf', 2)(lambda g: ['=P', 'P'] if g.r.random() < .7 else [g.up(), g.r.choice('ABX')])
op('potrs')(lambda g: ['=P', 'P', g.r.choice('ABX')])
op('posv', 2)(lambda g: ['=P', 'P', g.r.choice('ABX')])
op('potri')(lambda g: ['=P', 'P'])
op('poinv')(lambda g: ['=P', 'P'])
op('lauum')(lambda g: [g.up(), g.r.choice('ABX')])
op('trtri', 2)(lambda g: [g.up(), g.r.choice(('Unit', 'NonUnit')), g.r.choice('ABX')])
op('getrf', 2)(lambda g: [g.r.choice('ABX'), 'ip'])
op('getrs')(lambda g: (lambda a, b: [g.r.choice(('NoTrans', 'Trans') + (('ConjTrans',) if g.cx else ())), a, 'ip', b])(*g.gs(2)))
op('gesv', 2)(lambda g: (lambda a, b: [a, 'ip', b])(*g.gs(2)))
op('geswp')(lambda g: [g.r.choice(('Rowwise', 'Columnwise')), g.r.choice('ABX'), 'ip', g.r.choice((1, -1))])
op('getri')(lambda g: [g.r.choice('ABX'), 'ip', 'W'])
op('geinv')(lambda g: [g.r.choice('ABX'), 'ip', 'W'])
op('geqrf', 2)(lambda g: [g.r.choice('ABX'), 'T', 'ws'])
op('gelqf', 2)(lambda g: [g.r.choice('ABX'), 'T', 'ws'])
for o in ('geqrs', 'gelqs'):
    op(o)(lambda g: (lambda a, b: [a, 'T', b, 'ws'])(*g.gs(2)))
op('gels')(lambda g: (lambda a, b: ['NoTrans', a, 'T', b, 'ws'])(*g.gs(2)))
for o in ('ungqr', 'unglq'):
    op(o)(lambda g: (lambda a, b: [a, 'T', b, 'ws'])(*g.gs(2)))
for o in ('unmqr', 'unmlq'):
    op(o)(lambda g: (lambda a, b: [g.r.choice(('Left', 'Right')), g.r.choice(('NoTrans', 'ConjTrans')) if g.cx else g.r.choice(('NoTrans', 'Trans')), a, 'T', b, 'ws'])(*g.gs(2)))
op('ge2desc', 2)(lambda g: [g.r.choice('uv'), 'ld', g.r.choice('ABX')])
op('desc2ge', 2)(lambda g: [g.r.choice('ABX'), g.r.choice('uv'), 'ld'])
op('tr2desc')(lambda g: [g.r.choice('uv'), 'ld', 'P'])
op('desc2tr')(lambda g: ['P', g.r.choice('uv'), 'ld'])
op('lange')(lambda g: [g.r.choice(('MaxNorm', 'OneNorm', 'InfNorm', 'FrobeniusNorm')), g.r.choice('ABX'), 'nw', 'val'])
op('lansy')(lambda g: [g.r.choice(('MaxNorm', 'OneNorm', 'InfNorm', 'FrobeniusNorm')), g.up(), g.r.choice('ABX'), 'nw', 'val'])
op('lanhe')(OPS['lansy'][1])
op('lantr')(lambda g: [g.r.choice(('MaxNorm', 'OneNorm', 'InfNorm', 'FrobeniusNorm')), g.up(), g.r.choice(('Unit', 'NonUnit')), g.r.choice('ABX'), 'nw', 'val'])
# band: H lower or upper part of a band, G general band, h g their user arrays, jp pivots of G
op('pbtrf', 2)(lambda g: ['=P', 'H'])
op('pbtrs')(lambda g: ['=P', 'H', g.r.choice('ABX')])
op('pbsv')(lambda g: ['=P', 'H', g.r.choice('ABX')])
op('gbtrf', 2)(lambda g: ['G', 'jp'])
op('gbtrs')(lambda g: [g.tr(), 'G', 'jp', g.r.choice('ABX')])
op('gbsv')(lambda g: ['G', 'jp', g.r.choice('ABX')])
op('pb2desc')(lambda g: g.r.choice((['h', 'ldh', 'H'], ['g', 'ldg', 'G'])))
op('desc2pb')(lambda g: g.r.choice((['H', 'h', 'ldh'], ['G', 'g', 'ldg'])))
op('langb')(lambda g: [g.r.choice(('MaxNorm', 'OneNorm', 'InfNorm', 'FrobeniusNorm')), 'G', 'nw', 'val'])
# translations of bands go on after a failure: what was computed until then is returned
COPIES = ('pb2desc', 'desc2pb')
CXONLY = ('hemm', 'herk', 'her2k', 'lanhe')
PAIRS = [('getrf', 'getrs'), ('getrf', 'getri'), ('potrf', 'potrs'), ('potrf', 'potri'), ('geqrf', 'unmqr'), ('geqrf', 'ungqr'), ('gelqf', 'unmlq'),
         ('gelqf', 'unglq'), ('geqrf', 'geqrs'), ('gelqf', 'gelqs'), ('getrf', 'geswp'), ('lacpy', 'potrf'), ('trtri', 'lauum'),
         ('gbtrf', 'gbtrs'), ('gbtrf', 'desc2pb'), ('pb2desc', 'gbtrf'), ('pbtrf', 'pbtrs'), ('pbtrf', 'desc2pb'), ('gbtrf', 'langb')]


def gen(seed, n):
    r = random.Random(seed)
    out = []
    names = [o for o in OPS for _ in range(OPS[o][0])]
    for s in range(n):
        p = r.choice('sdcz')
        nb = r.choice((2, 2, 3, 4))
        g = G(r, p)
        nn = r.choice((nb, 2 * nb, 2 * nb, 3 * nb, r.randint(1, 3 * nb), r.randint(nb + 1, 3 * nb)))
        prog = []
        want = r.randint(2, 5)
        bad = r.choice((0, 0, .05, .3))
        while len(prog) < want:
            if r.random() < .25:
                a, b = r.choice(PAIRS)
                x, y = OPS[a][1](g), OPS[b][1](g)
                if a[:2] in ('ge', 'tr'):       # on the same operand
                    pa, pb = [k for k, v in enumerate(x) if v in list('ABX')][0], [k for k, v in enumerate(y) if v in list('ABX')][0]
                    old = y[pb]
                    y = [x[pa] if k == pb else old if v == x[pa] else v for k, v in enumerate(y)]
                prog += [[a, x], [b, y]]
                continue
            o = r.choice(names)
            if p in 'sd' and o in CXONLY:
                continue
            a = OPS[o][1](g)
            if r.random() < bad:
                e = [k for k, v in enumerate(a) if isinstance(v, str) and v in K and v not in ('Nb', 'Ib')]
                if e:
                    a[r.choice(e)] = 'bad'
            prog.append([o, a])
        out.append(dict(id='%d/%s' % (s, p), p=p, n=nn, nb=nb, ib=r.randint(1, nb), hmode=r.choice(('Flat', 'Tree')), puplo=r.choice(('Upper', 'Lower')), kl=r.randint(0, min(nn - 1, 4)), ku=r.randint(0, min(nn - 1, 4)),
                        spd=r.random() < .75, sing=r.random() < .2, prog=prog, seed=r.randrange(1 << 30),
                        threads=r.choice((1, 2, 3, 4)), runs=[dict(policy=r.choice((0, 1, 1, 2, 4, 5)), imm=r.choice((0, 0, 0, 30)), seed=r.randrange(1 << 30)) for _ in range(2)]))
    return out


CB = C.CFUNCTYPE(None, C.c_void_p)


def execute(L, case, cfg, ref):
    p, n, nb = case['p'], case['n'], case['nb']
    dt = np.dtype(DT[p])
    es = dt.itemsize
    r = random.Random(case['seed'])
    L.reset()
    L.dll.vg_config(case['threads'], 0 if ref else cfg['policy'], 1 if ref else cfg['seed'], 100 if ref else cfg['imm'])
    L.dll.vg_begin(0)
    L.call('plasma_init')
    for k, v in (('Tuning', 0), ('Nb', nb), ('Ib', case['ib']), ('NumPanelThreads', 1), ('HouseholderMode', K[case['hmode']])):
        L.call('plasma_set', K[k], v)
    f = L.dll.vt_tile_addr
    f.restype, f.argtypes = C.c_void_p, [Desc, C.c_int, C.c_int]
    L.dll.vt_mmain.argtypes = [Desc, C.c_int, C.c_int]
    L.dll.vt_nmain.argtypes = [Desc, C.c_int]
    D, watch, names = {}, [], []

    def vals(m, k):
        A = np.array([[r.randint(-3, 3) + (1j * r.randint(-3, 3) if p in 'cz' else 0) for _ in range(k)] for _ in range(m)])
        return A

    def tiles(name, E, V, live=lambda i, j: True):
        for i in range(E.mt):
            for j in range(E.nt):
                if not live(i, j):
                    continue
                h, w, a = L.dll.vt_mmain(E, i, j), L.dll.vt_nmain(E, j), f(E, i, j)
                b = np.frombuffer((C.c_char * (h * w * es)).from_address(a), dt)
                t = V[i * E.mb:i * E.mb + h, j * E.nb:j * E.nb + w]
                q = np.zeros((w, h), complex)
                q[:t.shape[1], :t.shape[0]] = t.T
                b[:] = np.real(q.reshape(-1)) if p in 'sd' else q.reshape(-1)
                watch.append((a, h * w * es, 0, 1))
                names.append('%s(%d,%d)' % (name, i, j))
    for x in 'ABX':
        D[x] = Desc()
        assert L.call('plasma_desc_general_create', PREC[p], nb, nb, n, n, 0, 0, n, n, D[x]) == 0
        V = vals(n, n)
        if case['sing'] and n > 1:
            V[:, r.randrange(n)] = 0
        elif r.random() < .6:
            V = V + 8 * np.eye(n)
        tiles(x, D[x], V)
    D['P'] = Desc()
    lo = case['puplo'] == 'Lower'
    assert L.call('plasma_desc_triangular_create', PREC[p], K[case['puplo']], nb, nb, n, n, 0, 0, n, n, D['P']) == 0
    V = vals(n, n)
    V = V + np.conj(V.T)
    V = V + (6 * n + 2) * np.eye(n) if case['spd'] else V + 3 * np.eye(n)
    tiles('P', D['P'], V, (lambda i, j: i >= j) if lo else (lambda i, j: i <= j))
    used = {v for _, a in case['prog'] for v in a if isinstance(v, str)}
    kl, ku = case['kl'], case['ku']
    I, J = np.indices((n, n))
    if 'G' in used:
        D['G'] = Desc()
        ldg = (cdiv(ku + kl, nb) + cdiv(kl, nb) + 1) * nb
        assert L.call('plasma_desc_general_band_create', PREC[p], K['General'], nb, nb, ldg, n, 0, 0, n, n, kl, ku, D['G']) == 0
        V = np.where((I - J <= kl) & (J - I <= ku), vals(n, n) + (8 * np.eye(n) if r.random() < .6 else 0), 0)
        if case['sing'] and n > 1:
            V[:, r.randrange(n)] = 0
        tiles('G', D['G'], V, lambda i, j: i - j <= cdiv(kl, nb) and j - i <= cdiv(ku + kl, nb))
    if 'H' in used:
        D['H'] = Desc()
        ldh = kl + 1
        assert L.call('plasma_desc_general_band_create', PREC[p], K[case['puplo']], nb, nb, nb * (1 + cdiv(kl, nb)), n, 0, 0, n, n, kl, kl, D['H']) == 0
        V = vals(n, n)
        V = V + np.conj(V.T) + ((6 * n + 2) * np.eye(n) if case['spd'] else 3 * np.eye(n))
        V = np.where((I >= J if lo else I <= J) & (abs(I - J) <= kl), V, 0)
        tiles('H', D['H'], V, (lambda i, j: 0 <= i - j <= cdiv(kl, nb)) if lo else (lambda i, j: 0 <= j - i <= cdiv(kl, nb)))
    D['T'] = Desc()
    assert L.call('plasma_descT_create', D['A'], case['ib'], K[case['hmode']], D['T']) == 0
    tiles('T', D['T'], np.zeros((D['T'].m, D['T'].n)))
    D['W'] = Desc()
    assert L.call('plasma_desc_general_create', PREC[p], nb, nb, n, nb, 0, 0, n, nb, D['W']) == 0
    ws = Workspace()
    assert L.call('plasma_workspace_create', ws, nb + case['ib'] * nb, PREC[p]) == 0
    ld = n + 1
    U = {}
    for x in 'uv':
        U[x], a = L.array(ld * n, dt)
        V = vals(ld, n)
        a[:] = np.real(V.T.reshape(-1)) if p in 'sd' else V.T.reshape(-1)
        for i in range(0, n, nb):
            for j in range(0, n, nb):
                watch.append((U[x] + (i + j * ld) * es, min(nb, n - i) * es, ld * es, min(nb, n - j)))
                names.append('%s[%d:,%d:]' % (x, i, j))
    for x, l in (('g', 'G'), ('h', 'H')):
        if l in used:
            ld1 = ldg if x == 'g' else ldh
            U[x], a = L.array(ld1 * n, dt)
            V = vals(ld1, n)
            if x == 'g':                                # rows of the fill-in and outside the band are zero
                i, j = np.indices((ld1, n))
                i = i - (kl + ku) + j                   # row of the matrix
                V = np.where((i >= 0) & (i < n) & (i - j <= kl) & (j - i <= ku), V, 0)
            a[:] = np.real(V.T.reshape(-1)) if p in 'sd' else V.T.reshape(-1)
            for k in range(ld1 * n):
                watch.append((U[x] + k * es, es, 0, 1))
                names.append('%s[%d,%d]' % (x, k % ld1, k // ld1))
    jp, a = L.array(n, np.int32)
    a[:] = range(1, n + 1)
    if 'jp' in used:
        for i in range(n):
            watch.append((jp + 4 * i, 4, 0, 1))
            names.append('jpiv[%d]' % i)
    ip, a = L.array(n, np.int32)
    a[:] = [r.randint(k, n) for k in range(1, n + 1)]
    for i in range(0, n, nb):
        watch.append((ip + 4 * i, 4 * min(nb, n - i), 0, 1))
        names.append('ipiv[%d:]' % i)
    val, a = L.array(1, np.float64)
    a[:] = 0
    watch.append((val, 8, 0, 1))
    names.append('value')
    nw, _ = L.array(8 * (n + 3) * (n + 3), np.float64)
    seq = [Sequence() for _ in case['prog']] if ref else [Sequence()]
    reqs = [Request() for _ in case['prog']]
    for s in seq:
        L.call('plasma_sequence_init', s)
        L.dll.vg_syncrange(C.addressof(s), C.sizeof(s))
    for q in reqs:
        L.call('plasma_request_init', q)
        L.dll.vg_syncrange(C.addressof(q), C.sizeof(q))
    for w in watch:
        L.dll.vg_watch(*w)
    n0 = L.dll.vg_nevents()

    def arg(v, t):
        if v in D:
            return D[v]
        if v in U:
            return U[v]
        if not isinstance(v, str):
            return v
        return dict(ip=ip, jp=jp, ldg=n and (cdiv(ku + kl, nb) + cdiv(kl, nb) + 1) * nb, ldh=kl + 1, ws=ws, ld=ld, val=val, nw=nw, bad=999).get(v, K[case['puplo']] if v == '=P' else K.get(v))

    def issue(k):
        o, a = case['prog'][k]
        name = 'plasma_omp_' + rname('z' + o, p)
        protos = L.protos[name][1]
        L.call(name, *([arg(v, t) for v, t in zip(a, protos)] + [seq[k if ref else 0], reqs[k]]))
    err = []

    def body(ks):
        def b(_):
            try:
                for k in ks:
                    L.dll.vg_mark(k, 0)
                    issue(k)
                    L.dll.vg_mark(k, 1)
            except Exception as x:
                err.append(repr(x))
        return CB(b)
    ks = list(range(len(case['prog'])))
    for part in ([[k] for k in ks] if ref else [ks]):
        for q in [seq[part[0] if ref else 0]] + [reqs[k] for k in part]:
            L.dll.vg_watch_status(C.addressof(q) + type(q).status.offset, int(ref))
        L.dll.vt_parallel(body(part), None)
        L.dll.vg_mark(-1, 0)
        L.dll.vg_watch_status(None, 0)
    if err:
        raise RuntimeError(err[0])
    ev = L.events()[n0:].tolist()
    # ---- who is who
    parent, top, call, out, cur = {}, {}, {}, [], 0
    for k, t, a, b, c, d in ev:
        if k == EV['MARK']:
            cur = a if b == 0 and a >= 0 else cur
        elif k == EV['CREATE']:
            top[a] = top.get(t, a)
            call[a] = call.get(t, cur)
        elif k == EV['START'] and top.get(t, t) == t and t in call:
            out.append(dict(k='s', t=t, c=call[t] + 1))
        elif k == EV['VER']:
            out.append(dict(k='v', t=top.get(t, 0), c=call.get(t, cur) + 1, b=a + 1, v=b))
        elif k == EV['STAT']:
            out.append(dict(k='f', c=call.get(t, cur) + 1, code=a, r=(cur + 1 if ref else b) if b else 0, sub=int(t not in call)))
    out.append(dict(k='end', status=0 if ref else seq[0].status, req=[q.status for q in reqs]))
    return out, names, L.viols()[:2], L.dll.vg_ntasks()


LEGAL = dict(side='Left', uplo='Lower', trans='NoTrans', transa='NoTrans', transb='NoTrans', diag='NonUnit', norm='OneNorm', colrow='Rowwise', jobu='NoVec', jobvt='NoVec')
HOW = ('precision', 'tile', 'rows', 'columns', 'below', 'right', 'aligned', 'type')
ILLEGAL, NOTSUP = -103, -102


def async_names():
    return sorted(k for k, (ret, a) in parse_headers(os.path.join(build.SRC, 'include')).items() if k.startswith('plasma_omp_') and a[-1][0] == 'plasma_request_t' and ret == 'void')


def spoil(d, how, i):
    e = Desc.from_buffer_copy(d)
    if how == 'precision':
        e.precision = (0, 1, 6, 77)[i % 4]
    elif how == 'tile':
        e.mb, e.nb = ((0, e.nb), (e.mb, 0), (-1, e.nb), (e.mb, -e.nb))[i % 4]
    elif how == 'rows':
        e.m = (-1, -e.m - 5, e.gm + 1)[i % 3]
    elif how == 'columns':
        e.n = (-1, -e.n - 5, e.gn + 1)[i % 3]
    elif how == 'below':
        e.i = (e.mb, e.gm, 5 * e.gm)[i % 3]
    elif how == 'right':
        e.j = (e.nb, e.gn, 5 * e.gn)[i % 3]
    elif how == 'aligned':
        if i % 2:
            e.i, e.m = 1, e.m - 1
        else:
            e.j, e.n = 1, e.n - 1
    else:
        e.type = (0, 5, 77, -1)[i % 4]
    return e


def refuse(L, case):
    """one routine with one illegal argument after the other, as programs of one call"""
    r = random.Random(case['seed'])
    name, p = case['name'], case['p']
    protos = L.protos[name][1]
    out, viols = [], []
    plan = [(k, 'enum') for k, a in enumerate(protos) if a[0] == 'plasma_enum_t'] + [(k, h) for k, a in enumerate(protos) if a[0] == 'plasma_desc_t' for h in HOW]
    for k, how in plan:
        L.reset()
        L.dll.vg_config(r.randint(1, 3), r.choice((0, 1)), r.randrange(1 << 30), 0)
        L.dll.vg_begin(0)
        L.call('plasma_init')
        nb = r.choice((2, 3))
        n = r.choice((nb + 1, 2 * nb, 2 * nb + 1))
        L.call('plasma_set', K['Nb'], nb)
        blocks, args = [], []
        for j, (t, ptr, an) in enumerate(protos[:-2]):
            if t == 'plasma_enum_t':
                args.append((r.choice((0, -1, 999, 7)) if an != 'norm' else 999) if j == k else K[LEGAL[an]])
            elif t == 'plasma_desc_t':
                # a low precision operand is one of the conversions
                q = {'z': 'c', 'd': 's'}[p] if an in ('As', 'Xs') and p in 'zd' else p
                d = Desc()
                assert L.call('plasma_desc_general_create', PREC[q], nb, nb, n, n, 0, 0, n, n, d) == 0
                x = np.frombuffer((C.c_char * (n * n * np.dtype(DT[q]).itemsize)).from_address(d.matrix), DT[q])
                x[:] = [r.randint(1, 9) for _ in range(n * n)]
                blocks.append(x)
                args.append(spoil(d, how, r.randrange(12)) if j == k else d)
            elif t == 'plasma_workspace_t':
                ws = Workspace()
                assert L.call('plasma_workspace_create', ws, 4 * nb * nb + nb, PREC[p]) == 0
                args.append(ws)
            elif ptr:
                q, x = L.array(8 * (n + 3) * (n + 3), np.float64)
                x = x.view(np.uint8)
                x[:] = r.randrange(1, 250)
                if t == 'int':
                    x.view(np.int32)[:] = an == 'ipiv' or an == 'ipiv2'
                blocks.append(x)
                args.append(q)
            else:
                args.append(n if an.startswith('ld') else 1)
        old = [x.tobytes() for x in blocks]
        seq, req = Sequence(), Request()
        L.call('plasma_sequence_init', seq)
        L.call('plasma_request_init', req)
        nt = L.dll.vg_ntasks()
        err = []

        def body(_):
            try:
                L.call(name, *(args + [seq, req]))
            except Exception as x:
                err.append(repr(x))
        cb = CB(body)
        L.dll.vt_parallel(cb, None)
        if err:
            raise RuntimeError(err[0])
        ev = []
        if seq.status:
            ev.append(dict(k='f', c=1, r=0, code=seq.status))
        if req.status:
            ev.append(dict(k='f', c=1, r=1, code=req.status))
        if any(x.tobytes() != o for x, o in zip(blocks, old)):
            ev += [dict(k='s', t=1, c=1), dict(k='v', t=1, c=1, b=1, v=1)]
        ev.append(dict(k='end', status=seq.status, req=[req.status]))
        out.append(dict(id='%s:%s:%s' % (name, protos[k][2] + str(k + 1), how), calls=[[name, NOTSUP if 'gels' in name and how == 'enum' else ILLEGAL, 1, 0]], hist=[[0]], ev=ev))
        viols += L.viols()[:2]
        L.call('plasma_finalize')
    return dict(progs=out, names=['operands'], viols=viols, tasks=0)


def fn(L, case):
    if case.get('k') == 'refuse':
        return refuse(L, case)
    ref, names, v0, nt = execute(L, case, None, True)
    hist = [[-1] for _ in names]
    code, sub = [0] * len(case['prog']), [0] * len(case['prog'])
    for e in ref:
        if e['k'] == 'v':
            hist[e['b'] - 1].append(e['v'])
        if e['k'] == 'f' and not code[e['c'] - 1]:
            code[e['c'] - 1] = e['code']
            sub[e['c'] - 1] = e['sub']
    calls = [[o, code[k], sub[k], int(o in COPIES)] for k, (o, _) in enumerate(case['prog'])]
    progs, viols = [], v0
    for i, cfg in enumerate(case['runs']):
        ev, _, v, _ = execute(L, case, cfg, False)
        viols = viols + v
        progs.append(dict(id='%s#%d' % (case['id'], i), calls=calls, hist=hist, ev=ev))
    return dict(progs=progs, names=names, viols=viols, tasks=nt)


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        n = 3 if f.quick else 4
        out, st = tlc.tlc('Sequence', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Prefix\nINVARIANT Complete\nINVARIANT NeverLost\nINVARIANT Reported\n'
                          'CONSTANT Mode = "gen"\nCONSTANT N = %d\n' % n, f.scratch, 'gen', workers=8, heap='8g', timeout=800)
        if st['rc'] != 0:
            raise RuntimeError('Sequence.tla: ' + out[-3000:])
        f.tlc(st)
        f.cov['model'] = dict(calls=n, **st)
        f.log('model: %d states' % st['distinct'])
        cs = gen(f.seed + 13, 4500 if f.quick else 12000)
        r = random.Random(f.seed)
        for x in range(1 if f.quick else 4):
            for name in async_names():
                p = {'clag2z': 'z', 'slag2d': 'd', 'dzamax': 'z', 'scamax': 'c'}.get(name[11:], name[11])
                cs.append(dict(id='%s#%d' % (name, x), k='refuse', name=name, p=p, seed=r.randrange(1 << 30), prog=[[name, []]]))
    res = cases.checked(pool.run(cs, fn, f.scratch))
    ps, by = [], {}
    for c, r in zip(cs, res):
        ops = '+'.join(o for o, _ in c['prog'])
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (ops, r['status']), '%s: %s %s; %s' % (c['id'], r['status'], r.get('text', ''), c['prog']), c)
            continue
        for v in r['viols']:
            f.violation('memory:%s' % ops, '%s: access outside live memory %s; %s' % (c['id'], v, c['prog']), c)
        for p in r['progs']:
            by[p['id']] = (c, r, p)
            ps.append(p)
    f.log('%d executions' % len(ps))
    rej, st = tlc.validate('Sequence', ps, f.scratch, dict(Mode='"check"', N=1), costs=[len(json.dumps(p)) for p in ps])
    f.tlc(st)
    first = {}
    for q in rej:
        if q[0] not in first or int(q[1]) < int(first[q[0]][1]):
            first[q[0]] = q                           # later rejections of the same execution follow from the first
    for q in first.values():
        c, r, p = by[q[0]]
        e = p['ev'][int(q[1]) - 1]
        why = ','.join(q[4:]).strip('{}').replace('\\', '').replace('"', '')
        o = p['calls'][e['c'] - 1][0] if 'c' in e else '-'
        blk = r['names'][e['b'] - 1] if 'b' in e else ''
        prior = '+'.join(x[0] for x in c['prog'])
        if c.get('k') == 'refuse':
            f.violation('refuse:%s' % p['id'], '%s (%s with an illegal value or descriptor): %s; sequence %s, request %s' % (p['id'], c['name'], why, p['ev'][-1]['status'], p['ev'][-1]['req']), c)
            continue
        f.violation('%s:%s:%s' % (q[2], prior, o), '%s event %s: %s %s in call %s (%s); program %s; n %d nb %d; run %s' % (
            q[0], q[1], why, blk, e.get('c', '-'), o, c['prog'], c['n'], c['nb'], c['runs'][int(q[0].split('#')[1])]), c)
    f.traces += len(ps)
    f.cov.update(programs=len(cs), executions=len(ps), failing=sum(any(x[1] for x in p['calls']) for p in ps), events=sum(len(p['ev']) for p in ps),
                 operations=sorted({x[0] for p in ps for x in p['calls']}), blocks=sum(len(p['hist']) for p in ps))
    f.sample(dict(id=ps[0]['id'], calls=ps[0]['calls'], first=ps[0]['ev'][:6]) if ps else None)
    f.assume = ['the sequential execution of the same calls on the same kernels defines the intended versions of every tile',
                'memory is observed at the scheduling points of OpenMP; kernels between two of them are one step']
