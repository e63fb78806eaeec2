"""P10: mixed-precision solves (Refine.tla): the outcomes of the steps are recorded one public call at a time, the result of the solve has to be reachable."""
import json, random, re
import numpy as np
import build, cases, pool, tlc
from ctx import rname
from plib import K, DT, RDT
LEVEL = 'model_checking'
ITMAX = 30
LOWP = {'d': 's', 'z': 'c'}
EPS = 2.0 ** -53
KINDS = ('well', 'well', 'scaled', 'ill', 'ill', 'lowsing', 'worse', 'sing', 'huge', 'tiny', 'edge', 'bzero', 'bhuge', 'btiny', 'bmixed', 'nan', 'rhsill')


def scenario(r, g, p, o, nmax):
    """matrix and right-hand side of one solve"""
    cx = p == 'z'
    n = r.choice((1, 2, 3, r.randint(1, nmax), r.randint(4, nmax)))
    nrhs = r.choice((1, 1, 2, 3, 5, 7))
    kind = r.choice(KINDS)
    R = lambda *s: g.standard_normal(s) + (1j * g.standard_normal(s) if cx else 0)
    Q = lambda: np.linalg.qr(R(n, n))[0]
    cond = {'well': 10 ** r.uniform(0, 2), 'ill': 10 ** r.uniform(3, 7), 'rhsill': 10 ** r.uniform(5, 7.5), 'lowsing': 10 ** r.uniform(8, 11), 'worse': 10 ** r.uniform(12, 14)}.get(kind, 10 ** r.uniform(0, 3))
    s = np.geomspace(1, 1 / cond, n) if n > 1 else np.ones(1)
    if o == 'cposv':
        U = Q()
        A = (U * s) @ U.conj().T
        A = (A + A.conj().T) / 2
    else:
        A = (Q() * s) @ Q()
    kl = ku = 0
    if o == 'cgbsv':
        kl, ku = r.randint(0, min(n - 1, 4)), r.randint(0, min(n - 1, 4))
        i, j = np.indices((n, n))
        A = np.where((i - j <= kl) & (j - i <= ku), R(n, n), 0)
        if kind in ('well', 'scaled'):
            A = A + np.diag(np.sign(g.standard_normal(n)) * 3.0)
        elif kind in ('ill', 'rhsill', 'lowsing', 'worse'):
            A[:, r.randrange(n)] /= cond
            k = r.randrange(n)
            if k:                       # nearly dependent columns inside the band
                A[:, k] = np.where(A[:, k] != 0, A[:, k - 1] + R(n) / cond, 0)
    B = R(n, nrhs)
    if kind == 'scaled':
        d = 10.0 ** r.randint(-12, 12)
        A, B = A * d, B * 10.0 ** r.randint(-10, 10)
    elif kind == 'sing':
        A = np.round(A * 8) if o != 'cposv' else A
        k = r.randrange(n)
        if o == 'cposv':
            A[k, k] = r.choice((0, -1))
        else:
            A[:, k] = 0
    elif kind == 'huge':
        if r.random() < .5:
            A = A * 1e60
        else:
            k = r.randrange(n)
            A[k, k] = 1e200 if r.random() < .5 else 4e38
    elif kind == 'tiny':
        A = A * 10.0 ** r.choice((-60, -42, -40, -300))
    elif kind == 'edge':
        A = A / np.abs(A).max() * 3.3e38
        B = B * 10.0 ** r.randint(-20, 38)
    elif kind == 'bzero':
        B = B * 0
    elif kind == 'bhuge':
        B = B * 10.0 ** r.choice((39, 60, 150))
    elif kind == 'btiny':
        B = B * 10.0 ** r.choice((-40, -44, -60, -100))
    elif kind == 'bmixed':
        for j in range(nrhs):
            B[:, j] *= 10.0 ** r.choice((0, 0, -60, -43, 30, 37))
            if r.random() < .3:
                B[:, j] = 0
    elif kind == 'nan':
        if r.random() < .6:
            B[r.randrange(n), r.randrange(nrhs)] = r.choice((np.nan, np.inf))
        else:
            k = r.randrange(n)
            A[k, k] = np.nan
    elif kind == 'rhsill' and nrhs > 1:   # one right-hand side is easy, another is not
        v = np.linalg.svd(A)[0] if np.isfinite(A).all() else np.eye(n)
        for j in range(nrhs):
            B[:, j] = v[:, 0 if j % 2 == r.randint(0, 1) else n - 1]
    return dict(kind=kind, n=n, nrhs=nrhs, kl=kl, ku=ku, A=A.astype(DT[p]), B=B.astype(DT[p]), uplo=r.choice(('Upper', 'Lower')))


def mat(L, V, ld, dt):
    h, w = V.shape
    q, a = L.array(ld * w, dt)
    a.reshape(w, ld)[:, :h] = V.T
    return q, a.reshape(w, ld).T[:h]


def cabs1(V):
    return np.abs(V.real) + np.abs(V.imag)


def thou(r, x, scale):
    """1000*r/(x*scale) for each column"""
    out = []
    for a, b in zip(r, x):
        with np.errstate(all='ignore'):
            t = np.longdouble(b) * np.longdouble(scale)
            if not (np.isfinite(a) and np.isfinite(b)) or not np.isfinite(t):
                out.append(-1)
            elif a == 0:
                out.append(0)
            elif t == 0:
                out.append(10 ** 6)
            else:
                out.append(int(min(10 ** 6, np.ceil(1000 * np.longdouble(a) / t))))
    return out


def solve(L, case, r, g):
    p, o, cfg = case['p'], case['o'], case['cfg']
    q, dt, ldt = LOWP[p], DT[p], DT[LOWP[p]]
    S = scenario(r, g, p, o, 5 if cfg['nb'] == 1 else 14)
    n, nrhs, kl, ku, up = S['n'], S['nrhs'], S['kl'], S['ku'], K[S['uplo']]
    A0, B0 = S['A'], S['B']
    Lc = lambda name, prec, *a: L.call('plasma_' + rname('z' + name, prec), *a)
    tri = np.tril if S['uplo'] == 'Lower' else np.triu
    if o == 'cgbsv':
        nb = cfg['nb']
        ldab = (-(-(ku + kl) // nb) + -(-kl // nb) + 1) * nb
        AB = np.zeros((ldab, n), dt)
        for j in range(n):
            for i in range(max(0, j - ku), min(n, j + kl + 1)):
                AB[kl + ku + i - j, j] = A0[i, j]
        stored, lda = AB, ldab
    else:
        stored, lda = (A0 if o == 'cgesv' else tri(A0)), n + r.randint(0, 2)
    hd = r.randint(0, 2)
    pA, vA = mat(L, stored, lda, dt)
    pB, vB = mat(L, B0, n + hd, dt)
    pX, vX = mat(L, np.full((n, nrhs), np.nan, dt), n + 1, dt)
    pP, vP = L.array(n, np.int32)
    pI, vI = L.array(1, np.int32)
    vI[0] = 77
    name = 'plasma_' + {'d': 'ds', 'z': 'zc'}[p] + o[1:]
    if o == 'cgesv':
        st = L.call(name, n, nrhs, pA, lda, pP, pB, n + hd, pX, n + 1, pI)
    elif o == 'cposv':
        st = L.call(name, up, n, nrhs, pA, lda, pB, n + hd, pX, n + 1, pI)
    else:
        st = L.call(name, n, kl, ku, nrhs, pA, lda, pP, pB, n + hd, pX, n + 1, pI)
    X = vX.copy()
    ev = dict(id='', kind=S['kind'], op=o, n=n, nrhs=nrhs, iter=int(vI[0]), status=int(st),
              bsame=vB.copy().tobytes() == B0.tobytes(), asame=bool(np.array_equal(vA.copy(), stored, equal_nan=True)) or o == 'cgbsv')
    L.dll.vg_recycle()
    # ---- the direct solve
    pA, vA = mat(L, stored, lda, dt)
    pD, vD = mat(L, B0, n + 1, dt)
    if o == 'cgesv':
        ev['direct'] = int(Lc('gesv', p, n, nrhs, pA, lda, pP, pD, n + 1))
    elif o == 'cposv':
        ev['direct'] = int(Lc('posv', p, up, n, nrhs, pA, lda, pD, n + 1))
    else:
        ev['direct'] = int(Lc('gbsv', p, n, kl, ku, nrhs, pA, lda, pP, pD, n + 1))
    ev['same'] = bool(np.array_equal(X, vD, equal_nan=True))
    # ---- the steps of the low-precision path
    H = A0 if o != 'cposv' else tri(A0) + tri(A0, -1 if S['uplo'] == 'Lower' else 1).conj().T
    with np.errstate(all='ignore'):
        anorm = float(np.abs(H).sum(axis=1).max()) if n else 0.0
        big = float(np.finfo(RDT[q]).max)
        fits = lambda V: not bool((np.abs(V.real) > big).any() or (np.abs(V.imag) > big).any())
        scale = np.longdouble(anorm) * np.longdouble(EPS) * np.sqrt(np.longdouble(n))
        ev['fits'] = fits(stored) and fits(B0)
        ev['ratio'], ev['back'], ev['low'] = [], [], 0
        if ev['fits']:
            pl, vl = mat(L, stored.astype(ldt), lda, ldt)
            if o == 'cgesv':
                ev['low'] = int(Lc('getrf', q, n, n, pl, lda, pP))
            elif o == 'cposv':
                ev['low'] = int(Lc('potrf', q, up, n, pl, lda))
            else:
                ev['low'] = int(Lc('gbtrf', q, n, n, kl, ku, pl, lda, pP))

        def lowsolve(V):
            ps, vs = mat(L, V.astype(ldt), n, ldt)
            if o == 'cgesv':
                Lc('getrs', q, K['NoTrans'], n, nrhs, pl, lda, pP, ps, n)
            elif o == 'cposv':
                Lc('potrs', q, up, n, nrhs, pl, lda, ps, n)
            else:
                Lc('gbtrs', q, K['NoTrans'], n, kl, ku, nrhs, pl, lda, pP, ps, n)
            return vs.astype(dt)
        if ev['fits'] and ev['low'] == 0:
            x = lowsolve(B0)
            for k in range(ITMAX + 1):
                L.dll.vg_recycle()
                pr, vr = mat(L, B0, n, dt)
                px, _ = mat(L, x, n, dt)
                ph, _ = mat(L, H if o != 'cposv' else stored, n, dt)
                if o == 'cposv':
                    Lc('hemm' if p == 'z' else 'symm', p, K['Left'], up, n, nrhs, -1.0, ph, n, px, n, 1.0, pr, n)
                else:
                    Lc('gemm', p, K['NoTrans'], K['NoTrans'], n, nrhs, n, -1.0, ph, n, px, n, 1.0, pr, n)
                R = vr.copy()
                ev['ratio'].append(thou(cabs1(R).max(axis=0), cabs1(x).max(axis=0), scale))
                ev['back'].append(fits(R))
                if max(ev['ratio'][-1]) <= LO and min(ev['ratio'][-1]) >= 0 or not ev['back'][-1]:
                    break
                x = x + lowsolve(R)
        W = H.astype(np.clongdouble) @ X.astype(np.clongdouble) if n else X
        ev['true'] = thou(cabs1(B0 - W).max(axis=0), cabs1(X).max(axis=0), scale)
    return ev


LO, HI = 850, 1180


def fn(L, case):
    L.reset()
    cfg = case['cfg']
    r = random.Random(case['seed'])
    g = np.random.default_rng(case['seed'])
    L.dll.vg_config(cfg['threads'], cfg['policy'], cfg['seed'], cfg['imm'])
    L.dll.vg_begin(0)
    L.call('plasma_init')
    for k, v in (('Tuning', 0), ('Nb', cfg['nb']), ('Ib', cfg['ib']), ('NumPanelThreads', cfg['mtpf'])):
        L.call('plasma_set', K[k], v)
    ev = []
    for i in range(2):
        L.dll.vg_recycle()
        ev.append(solve(L, case, r, g))
        ev[-1]['id'] = '%s#%d' % (case['id'], i)
    L.call('plasma_finalize')
    return dict(ev=ev, viols=L.viols()[:2])


def machine(f):
    out, st = tlc.tlc('Refine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Gen = TRUE\nCONSTANT ItMax = 30\nCONSTANT Lo = 600\nCONSTANT Hi = 1600\nINVARIANT IterInv\nINVARIANT DoneInv\nPROPERTY Ends\n', f.scratch, 'gen')
    if st['rc'] != 0:
        raise RuntimeError('harness: the state machine is wrong: ' + out[-2000:])
    f.tlc(st)


def run(f):
    build.build()
    f.log('built')
    machine(f)
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 10)
        cs = []
        for o in ('cgesv', 'cposv', 'cgbsv'):
            for p in 'dz':
                for s in range(600 if f.quick else 3000):
                    nb = r.choice((1, 2, 3, 3, 4, 5, 7, 16))
                    mt = r.choice((1, 1, 1, 2))
                    cs.append(dict(id='%s/%s/%d' % (o, p, s), o=o, p=p, seed=r.randrange(1 << 30), cfg=dict(nb=nb, ib=r.randint(1, nb), mtpf=mt, threads=r.choice((1, 2, 3, 4)),
                                   policy=r.choice((0, 1, 1, 2, 4)), seed=r.randrange(1 << 30), imm=0 if mt > 1 else r.choice((0, 0, 30, 100)))))
        r.shuffle(cs)
    res = cases.checked(pool.run(cs, fn, f.scratch))
    evs, by = [], {}
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['o'], r['status']), '%s: %s %s' % (c['id'], r['status'], r.get('text', '')), c)
            continue
        for v in r['viols']:
            f.violation('memory:%s:%s:%s' % (c['o'], v['kind'], v['where']), '%s: %s' % (c['id'], v), c)
        for e in r['ev']:
            evs.append(e)
            by[e['id']] = (c, e)
    f.log('%d solves' % len(evs))
    good = set()
    from concurrent.futures import ThreadPoolExecutor

    def job(k):
        part = evs[k::8]
        if not part:
            return ''
        p = '%s/refine%d.ndjson' % (f.scratch, k)
        with open(p, 'w') as h:
            for e in part:
                h.write(json.dumps(e) + '\n')
        out, st = tlc.tlc('Refine', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Gen = FALSE\nCONSTANT ItMax = 30\nCONSTANT Lo = %d\nCONSTANT Hi = %d\nINVARIANT IterInv\nINVARIANT DoneInv\n' % (LO, HI), f.scratch, 'c%d' % k, env=dict(TRACE=p))
        if st['rc'] != 0:
            raise RuntimeError('harness: ' + out[-2000:])
        f.tlc(st)
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(job, range(8)))
    can = {}
    for out in outs:
        good |= set(re.findall(r'<<"ACCEPT", "(.*?)">>', out))
        for m in re.finditer(r'<<"DIFF", "(.*?)", (-?\d+), (-?\d+), "(\w+)">>', out):
            can.setdefault(m.group(1), []).append(dict(iter=int(m.group(2)), status=int(m.group(3)), x=m.group(4)))
    for i, (c, e) in by.items():
        if i in good:
            continue
        if i not in can:
            raise RuntimeError('harness: no verdict on %s' % i)
        want = can[i]
        what = ('B changed' if not e['bsame'] else 'A changed' if not e['asame'] else 'iter' if e['iter'] not in [w['iter'] for w in want] else
                'status' if e['status'] not in [w['status'] for w in want] else 'solution')
        f.violation('%s:%s' % (e['op'], what), '%s (%s n=%d nrhs=%d cfg %s): returns %s iter %s, solution %s the direct one, backward errors %s; possible: %s; conversion fits %s, low factorisation %s, direct %s, last ratios %s' % (
            i, e['kind'], e['n'], e['nrhs'], c['cfg'], e['status'], e['iter'], 'is' if e['same'] else 'is not', e['true'], want, e['fits'], e['low'], e['direct'], e['ratio'][-2:]), c)
    f.traces += len(evs)
    f.cov.update(solves=len(evs), converged_at_once=sum(e['iter'] == 0 for e in evs), refined=sum(0 < e['iter'] for e in evs), fell_back=sum(e['iter'] < 0 for e in evs),
                 conversion_overflows=sum(not e['fits'] for e in evs), low_factorisation_failures=sum(e['low'] != 0 for e in evs), failures=sum(e['status'] != 0 for e in evs),
                 largest_iter=max(e['iter'] for e in evs), stopping_test_near_its_bound=sum(any(LO < x <= HI for s in e['ratio'] for x in s) for e in evs),
                 kinds={k: sum(e['kind'] == k for e in evs) for k in sorted(set(KINDS))})
    for e in evs[:3]:
        f.sample(e)
    f.assume = ['the low-precision factorisation and solve called separately do the same as inside the mixed solver (same tiles)', 'stopping tests within a factor %.2f of their bound are not judged' % (HI / 1000.0)]
