"""P09: bulge chasing under every schedule (BulgeSteps.tla, Bulge.tla, BulgeTrace.tla)."""
import json, os, random, re
import ctypes as C
import numpy as np
import build, pool, tlc, omptrace
from concurrent.futures import ThreadPoolExecutor
from plib import parse_headers, K, DT, RDT, EV, ISC, PREC, Desc, Workspace, Sequence, Request
LEVEL = 'model_checking'
INV = ''.join('INVARIANT %s\n' % x for x in ('Ordered', 'Apart', 'InTable', 'Live', 'Kept'))
EPS = {'s': 2.0 ** -24, 'c': 2.0 ** -24, 'd': 2.0 ** -53, 'z': 2.0 ** -53}
NAME = {v: k for k, v in EV.items()}


def cfg(mode, hist, inv=''):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "%s"\nCONSTANT Shift = 3\nCONSTANT Hist = %s\n%s' % (mode, 'TRUE' if hist else 'FALSE', inv)


def confs(f, name, lst):
    p = os.path.join(f.scratch, name + '.ndjson')
    with open(p, 'w') as o:
        for i, (n, nb, k, w) in enumerate(lst):
            o.write(json.dumps(dict(id=str(i), n=n, nb=nb, p=k, w=w)) + '\n')
    return dict(CONF=p)


def behaviours(out):
    """conf -> list of schedules"""
    res = {}
    for m in re.finditer(r'<<\s*"BEHAVIOUR",\s*"(\d+)",\s*<<([\d,\s]*)>>\s*>>', out):
        res.setdefault(int(m.group(1)), []).append([int(x) for x in m.group(2).replace('\n', ' ').split(',') if x.strip()])
    return res


# ------------------------------------------------------------------ the real code
def args_of(n, nb, code):
    s, k = code // 1000, code % 1000
    j = (k + 1) // 2
    return 1 if k == 1 else 2 if k % 2 == 0 else 3, (j - 1) * nb + s, min(j * nb + s, n) - 1, s - 1


def last(n, nb, s):
    k = 1
    while True:
        j = (k + 1) // 2
        if k % 2 == 0:
            if j * nb + s >= n - 1:
                return k
        elif min(j * nb + s, n) == n and (j - 1) * nb + s + 1 >= n - 1:
            return k
        k += 1


def sizes(n, nb, vb, wz):
    if not wz:
        return 2 * n, 2 * n
    cnt = 1 + sum(max(0, -(-(n - (b * vb + 2)) // nb)) for b in range(-(-(n - 1) // vb)))
    return cnt * vb * (nb + vb - 1), cnt * vb


def problem(c):
    """dense band matrix"""
    g = np.random.default_rng(c['data'])
    n, nb = c['n'], c['nb']
    M = g.integers(-4, 5, (n, n)).astype(float)
    if c['flavour'] == 'real':
        M = g.standard_normal((n, n))
    if c['flavour'] == 'sparse':
        M = M * (g.random((n, n)) < .4)
    if c['flavour'] == 'scaled':
        M = g.standard_normal((n, n)) * 10.0 ** g.integers(-3, 4, (n, n))
    if ISC(c['p']):
        M = M + 1j * g.integers(-4, 5, (n, n)) * (np.abs(M) > 0)
        # the QR and LQ factors a band matrix is made of have real diagonals: its diagonal and its outermost band
        for i in range(n):
            for j in (i, i + nb):
                if j < n:
                    M[i, j] = M[i, j].real
                    M[j, i] = M[j, i].real
    keep = np.triu(np.ones((n, n))) * np.tril(np.ones((n, n)), nb)
    return (M * (keep if c['uplo'] == 'Upper' else keep.T)).astype(DT[c['p']])


def setup(L, c):
    n, nb, vb, wz, p = c['n'], c['nb'], c['vb'], c['wz'], c['p']
    ld = 3 * nb + 1
    M = problem(c)
    a, A = L.array(ld * n, DT[p])
    A[:] = 0
    B = A.reshape(n, ld)
    for j in range(n):
        for i in range(n):
            if M[i, j]:
                B[j, nb + (i - j) + (nb if c['uplo'] == 'Upper' else 0)] = M[i, j]
    nv, nt = sizes(n, nb, vb, wz)
    out = [(a, A)]
    for k in (nv, nt, nv, nt):
        q, V = L.array(k, DT[p])
        V[:] = 0
        out.append((q, V))
    for k in (n, n):
        q, V = L.array(k, RDT[p])
        V[:] = 0
        out.append((q, V))
    return M, ld, out


def snap(arrs, n):
    a = [x.copy() for _, x in arrs]
    return a


def kernels(L, c, order):
    """the real kernels one after another"""
    M, ld, arrs = setup(L, c)
    n, nb, p = c['n'], c['nb'], c['p']
    w, _ = L.array(4 * nb * nb + 64, DT[p])
    for code in order:
        k, st, ed, s = args_of(n, nb, code)
        L.call('plasma_core_%sgbtype%dcb' % (p, k), K[c['uplo']], n, nb, arrs[0][0], ld, arrs[1][0], arrs[2][0], arrs[3][0], arrs[4][0], st, ed, s, c['vb'], c['wz'], w)
    A = arrs[0][1].reshape(n, ld)
    o = nb + (nb if c['uplo'] == 'Upper' else 0)
    for i in range(n):
        arrs[5][1][i] = np.real(A[i, o])
        if i < n - 1:
            arrs[6][1][i] = np.real(A[i + 1, o - 1] if c['uplo'] == 'Upper' else A[i, o + 1])
    return M, snap(arrs, n)


WANT = 'plasma_enum_t int int int T* int T* T* T* T* R* R* int plasma_workspace_t plasma_sequence_t* plasma_request_t*'.split()


def internal(L):
    """adds the internal reduction routine to the known prototypes, if it is still the routine this check knows"""
    P = parse_headers(os.path.join(build.SRC, 'include'), True)
    for p in 'sdcz':
        n = 'plasma_p%sgbbrd_static' % p
        t = dict(s=('float', 'float'), d=('double', 'double'), c=('plasma_complex32_t', 'float'), z=('plasma_complex64_t', 'double'))[p]
        if n not in P or not hasattr(L.dll, n) or [x + ('*' if y else '') for x, y, _ in P[n][1]] != [x.replace('T*', t[0] + '*').replace('R*', t[1] + '*') for x in WANT]:
            return False
        L.protos[n] = P[n]
    return True


def start(d, run):
    # the number of threads may be changed after plasma_init
    d.vg_config(run.get('init', run['threads']), run['policy'], run['seed'], 0)
    d.vg_limits(400 * run['threads'] + 4000, 3000000)


def chase(L, c, run):
    d = L.dll
    start(d, run)
    if run.get('pref') is not None:
        a = (C.c_int * len(run['pref']))(*run['pref'])
        d.vg_prefer(a, len(run['pref']))
    d.vg_begin(1 if run['record'] else 0)
    L.call('plasma_init')
    d.omp_set_num_threads(run['threads'])
    M, ld, arrs = setup(L, c)
    W, q, r = Workspace(), Sequence(), Request()
    d.plasma_workspace_create(C.byref(W), C.c_size_t(4 * c['nb'] ** 2 + 64), C.c_int(PREC[c["p"]]))
    d.plasma_sequence_init(C.byref(q))
    d.plasma_request_init(C.byref(r))
    L.call('plasma_p%sgbbrd_static' % c['p'], K[c['uplo']], c['n'], c['nb'], c['vb'], arrs[0][0], ld, arrs[1][0], arrs[2][0], arrs[3][0], arrs[4][0],
           arrs[5][0], arrs[6][0], c['wz'], W, q, r)
    res = snap(arrs, c['n'])
    d.plasma_workspace_destroy(C.byref(W))
    L.call('plasma_finalize')
    d.vg_end()
    return res, q.status, M


def bidiagonal(c, D, E):
    n = c['n']
    return np.diag(D.astype(float)) + np.diag(E[:n - 1].astype(float), 1 if c['uplo'] == 'Upper' else -1)


def steptrace(L, pid, n, nb, w):
    """the program for BulgeTrace; threads that never touch a step are reduced to what connects the others"""
    t, segtask, _ = omptrace.trace(L, pid)
    conf, _ = omptrace.conflicts(L)
    cur, segstep, out, it = {}, {}, [], iter(t['ev'])
    evs = L.events().tolist()
    # the events of omptrace in order, with the steps put between them
    KEPT = ('CREATE', 'START', 'FINISH', 'SEG', 'WAITED', 'GRPBEG', 'GRPEND', 'IMPL', 'BARARR', 'BARDEP', 'PAREND', 'ACQ', 'REL')
    for k, task, a, b, c, d in evs:
        k = NAME[k]
        if k == 'STEP':
            s, j = d + 1, b - d - 1
            code = s * 1000 + (1 if a == 1 else 2 * (j // nb) + 2 if a == 2 else 2 * (j // nb) + 1)
            cur[task] = code
            out.append(['step', task, a, b, c, d])
        elif k == 'SEG':
            next(it)
            segstep[a] = cur.get(task)
            cs = conf.get(a, ((), ()))
            x = sorted({segstep[y] for y in list(cs[0]) + list(cs[1]) if segtask[y] != task and segstep.get(y)} if cur.get(task) else ())
            if x:
                out.append(['touch', task, x])
        elif k in KEPT:
            e = next(it)
            if k in ('ACQ', 'REL', 'BARARR', 'BARDEP', 'FINISH'):
                cur[task] = None
            if out and e[0] == 'acq' and out[-1] == e:
                continue
            out.append(e)
    out.append(['end'])
    t['ev'] = out
    t.update(n=n, nb=nb, w=bool(w), of={'t': [0]}, thr={'t': [0]})
    return t


def same(a, b):
    for x, y, nm in zip(a, b, ('A', 'VQ', 'TAUQ', 'VP', 'TAUP', 'D', 'E')):
        if nm == 'E':
            x, y = x[:-1], y[:-1]
        if x.tobytes() != y.tobytes():
            k = np.flatnonzero(x.view(np.uint8).reshape(len(x), -1).__ne__(y.view(np.uint8).reshape(len(x), -1)).any(1))
            return '%s differs at %s: %s, expected %s' % (nm, k[:3].tolist(), x[k[:2]].tolist(), y[k[:2]].tolist())
    return None


def execute(L, c):
    if c['k'] == 'gesdd':
        return full(L, c)
    if not internal(L):
        return dict(bad=[], traces=[], skipped=True)
    n, nb = c['n'], c['nb']
    L.reset()
    seq = [s * 1000 + k for s in range(1, n) for k in range(1, last(n, nb, s) + 1)]
    L.dll.vg_config(1, 0, 1, 0)
    M, ref = kernels(L, c, seq)
    out = dict(bad=[], traces=[])
    # the reference itself: a bidiagonal matrix with the singular values of the band matrix
    sv = np.linalg.svd(M.astype(np.complex128 if ISC(c['p']) else float), compute_uv=False)
    sb = np.linalg.svd(bidiagonal(c, ref[5], ref[6]), compute_uv=False)
    err = np.abs(sv - sb).max() / (max(sv[0], 1e-300) * EPS[c['p']] * max(8, n))
    if not err <= 40:
        out['bad'].append(['sequential', 'singular values of the bidiagonal matrix %s, of the band matrix %s' % (sb[:4].tolist(), sv[:4].tolist())])
    A = ref[0].reshape(n, 3 * nb + 1)
    o = nb + (nb if c['uplo'] == 'Upper' else 0)
    off = o - 1 if c['uplo'] == 'Upper' else o + 1
    rest = [A[j, r] for j in range(n) for r in range(3 * nb + 1) if r not in (o, off)]
    if any(rest):
        out['bad'].append(['sequential', 'elements outside the bidiagonal are left: %s' % [x for x in rest if x][:3]])
    for i, od in enumerate(c['orders']):
        L.reset()
        _, res = kernels(L, c, od)
        e = same(res, ref)
        if e:
            out['bad'].append(['order', 'order %d %s: %s' % (i, od, e)])
    for i, run in enumerate(c['runs']):
        L.reset()
        res, st, _ = chase(L, c, run)
        if st:
            out['bad'].append(['status', 'run %d %s: status %d' % (i, run, st)])
            continue
        e = same(res, ref)
        if e:
            out['bad'].append(['result', 'run %d (%d threads, policy %d, seed %d): %s' % (i, run['threads'], run['policy'], run['seed'], e)])
        v = L.viols()
        if v:
            out['bad'].append(['memory', 'run %d (%d threads): %s' % (i, run['threads'], json.dumps(v[0]))])
        if run['record']:
            out['traces'].append(steptrace(L, '%s/%d' % (c['id'], i), n, nb, c['wz']))
    return out


def full(L, c):
    m, n, nb, p = c['m'], c['n'], c['nb'], c['p']
    g = np.random.default_rng(c['data'])
    V = g.standard_normal((m, n))
    if ISC(p):
        V = V + 1j * g.standard_normal((m, n))
    if c['flavour'] == 'sparse':
        V = V * (g.random((m, n)) < .4)
    V = V.astype(DT[p])
    k = min(m, n)
    out, ref = dict(bad=[], traces=[]), None
    for i, run in enumerate(c['runs']):
        L.reset()
        d = L.dll
        start(d, run)
        d.vg_begin(1 if run['record'] else 0)
        L.call('plasma_init')
        d.omp_set_num_threads(run['threads'])
        L.call('plasma_set', K['Tuning'], K['Disabled'])
        L.call('plasma_set', K['Nb'], nb)
        L.call('plasma_set', K['Ib'], max(1, nb // 2))
        a, A = L.array(m * n, DT[p])
        A[:] = V.T.reshape(-1)
        s, S = L.array(k, RDT[p])
        all_ = c['job'] == 'AllVec'
        un, vm = (m, n) if all_ else (k, k)
        u, U = L.array(m * un, DT[p])
        v, W = L.array(vm * n, DT[p])
        T = Desc()
        rc = L.call('plasma_%sgesdd' % p, K[c['job']], K[c['job']], m, n, a, m, T, s, u, m, v, vm)
        d.plasma_desc_destroy(C.byref(T))
        L.call('plasma_finalize')
        d.vg_end()
        where = 'run %d (%d threads, policy %d, seed %d)' % (i, run['threads'], run['policy'], run['seed'])
        v = L.viols()
        if v:
            out['bad'].append(['memory', '%s: %s' % (where, json.dumps(v[0]))])
        if rc:
            out['bad'].append(['gesdd', '%s returns %d' % (where, rc)])
            continue
        S = S.copy()
        if ref is None:
            ref = S
            sv = np.linalg.svd(V.astype(np.complex128), compute_uv=False)
            if not np.abs(sv - S).max() <= 100 * max(m, n) * EPS[p] * max(sv[0], 1e-30):
                out['bad'].append(['values', '%s: singular values %s, should be %s' % (where, S[:4].tolist(), sv[:4].tolist())])
        elif S.tobytes() != ref.tobytes():
            out['bad'].append(['result', '%s: singular values differ from those of another schedule' % where])
        if c['job'] != 'NoVec':
            Um, Vm = U.reshape(un, m).T.astype(np.complex128), W.reshape(n, vm).T.astype(np.complex128)
            R = V - (Um[:, :k] * S) @ Vm[:k]
            tol = 200 * max(m, n) * EPS[p]
            for nm, x in (('residual', np.abs(R).max() / max(np.abs(V).max(), 1e-30)), ('U', np.abs(Um.conj().T @ Um - np.eye(un)).max()), ('VT', np.abs(Vm @ Vm.conj().T - np.eye(vm)).max())):
                if not x <= tol:
                    out['bad'].append(['vectors', '%s: %s %g' % (where, nm, x)])
        if run['record'] == 1:
            out['traces'].append(steptrace(L, '%s/%d' % (c['id'], i), k, nb, c['job'] != 'NoVec'))
    return out


def run(f):
    build.build(verbose=False)
    r = random.Random(f.seed * 9 + 1)
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        # the protocol over all interleavings
        N = 7 if f.quick else 10
        P = 4 if f.quick else 6
        small = [(n, nb, k, w) for n in range(1, N + 1) for nb in range(1, 4 if f.quick else 6) for k in range(1, P + 1) for w in (False, True)]
        r.shuffle(small)
        parts = [small[i::6] for i in range(6)]
        sim = [(r.randint(2, 9 if f.quick else 11), r.randint(1, 4), r.randint(2, 5), r.random() < .5) for _ in range(40 if f.quick else 200)]

        def model(i):
            return tlc.tlc('Bulge', cfg('table', False, INV), f.scratch, 'm%d' % i, env=confs(f, 'm%d' % i, parts[i]), heap='3g', timeout=850)

        def simulate(mode):
            return tlc.tlc('Bulge', cfg(mode, True), f.scratch, 's' + mode, env=confs(f, 's' + mode, sim), heap='2g', timeout=850,
                           args=['-simulate', 'num=%d' % (150 if f.quick else 2000), '-depth', '4000', '-seed', str(f.seed)])
        with ThreadPoolExecutor(8) as ex:
            ms = [ex.submit(model, i) for i in range(6)]
            ss = {m: ex.submit(simulate, m) for m in ('table', 'free')}
            for x in ms:
                out, st = x.result()
                f.tlc(st)
                if st['rc']:
                    raise tlc.TlcError(out[-3000:])
            sched = {}
            for m, x in ss.items():
                out, st = x.result()
                sched[m] = behaviours(out)
                if not sched[m]:
                    raise tlc.TlcError('no behaviours\n' + out[-2000:])
        f.cov['protocol_configurations_over_all_interleavings'] = len(small)
        f.cov['schedules_generated_by_TLC'] = sum(map(len, sched['table'].values()))
        f.cov['orders_generated_by_TLC'] = sum(map(len, sched['free'].values()))
        f.log('model: %d states, %d schedules, %d orders' % (f.states, f.cov['schedules_generated_by_TLC'], f.cov['orders_generated_by_TLC']))
        cs = gen(f, r, sim, sched)
    res = pool.run(cs, execute, f.scratch)
    progs, nrun, norder = [], 0, 0
    byid, skipped = {}, 0
    for c, o in zip(cs, res):
        byid[c['id']] = c
        what = '%s %s n=%d nb=%d %s' % (c['id'], c['k'], c['n'], c['nb'], c.get('uplo', c.get('job')))
        nrun += len(c['runs'])
        norder += len(c.get('orders', ()))
        if o is None or o['status'] == 'exc':
            raise RuntimeError('%s: %s' % (what, o))
        if o['status'] != 'ok':
            f.violation('%s:%s' % (c['k'], 'terminates' if o['status'] in ('abort', 'timeout') else o['status']), '%s: %s' % (what, o['text']), c)
            continue
        for key, text in o['bad']:
            f.violation('%s:%s' % (c['k'], key), '%s wz=%s %s: %s' % (what, c.get('wz'), c['p'], text), c)
        progs += o['traces']
        skipped += bool(o.get('skipped'))
    f.log('%d problems, %d runs, %d orders executed' % (len(cs), nrun, norder))
    rej, st = tlc.validate('BulgeTrace', progs, f.scratch, {}, costs=[len(p['ev']) * (p['n'] ** 2 / p['nb']) for p in progs], heap='2g', tag='t', spec='Spec2', timeout=850)
    f.tlc(st)
    f.traces += len(progs)
    steps = sum(1 for p in progs for e in p['ev'] if e[0] == 'step')
    f.cov['problems'] = len(cs) - skipped
    f.cov['runs_of_the_real_reduction'] = nrun
    f.cov['orders_replayed_into_the_real_kernels'] = norder
    f.cov['steps_validated'] = steps
    for x in rej:
        c = byid[x[0].split('/')[0]]
        p = next(p for p in progs if p['id'] == x[0])
        f.violation('%s:%s' % (c['k'], x[2].lower()), '%s n=%d nb=%d %s: event %s %s, %s' % (x[0], p['n'], p['nb'], c.get('uplo', c.get('job')), x[1], p['ev'][int(x[1]) - 1], x[2:]), c)
    for p in progs[:2]:
        f.sample(dict(n=p['n'], nb=p['nb'], events=p['ev'][:12]))
    f.assume = ['volatile accesses to the progress table synchronise in program order (x86 store order, kernels are opaque calls)',
                'the kernels of one step are judged by their results, not step by step']


def gen(f, r, sim, sched):
    cs = []

    def runs(n, k, record, prefs=()):
        out = []
        for pr in prefs:
            out.append(dict(threads=pr[0], policy=7, seed=1, pref=pr[1], record=record))
        for i in range(k):
            out.append(dict(threads=r.choice((1, 2, 2, 3, 3, 4, 4, 5, 6, 8)), policy=r.choice((0, 1, 1, 1, 4, 5)), seed=r.randrange(1 << 30), record=record))
            if r.random() < .25:
                out[-1]['init'] = r.choice((1, 2, 4, 8))
        return out
    for i, (n, nb, k, w) in enumerate(sim):
        wz = 2 if w else 0
        for uplo in ('Upper', 'Lower'):
            tb, fr = sched['table'].get(i, []), sched['free'].get(i, [])
            if r.random() < .5:
                tb, fr = tb[::-1], fr[::-1]
            q = 3 if f.quick else 8
            cs.append(dict(k='direct', id='s%d%s' % (i, uplo[0]), n=n, nb=nb, vb=r.choice((1, 1, 2, 3, 5)), wz=wz, p=r.choice('sdcz'), uplo=uplo, data=r.randrange(1 << 30),
                           flavour=r.choice(('int', 'real', 'sparse', 'scaled')), orders=fr[:4 * q], runs=runs(n, 2, True, [(k, x) for x in tb[:q]])))
    for i in range(250 if f.quick else 4000):
        n, nb = r.choice(((r.randint(1, 12), r.randint(1, 5)), (r.randint(8, 40), r.randint(1, 8))))
        cs.append(dict(k='direct', id='d%d' % i, n=n, nb=nb, vb=r.choice((1, 2, 3, 5)), wz=r.choice((0, 2)), p=r.choice('sdcz'), uplo=r.choice(('Upper', 'Lower')), data=r.randrange(1 << 30),
                       flavour=r.choice(('int', 'real', 'sparse', 'scaled')), orders=[], runs=runs(n, 2, n <= 10) + runs(n, 5, False)))
    for i in range(6 if f.quick else 60):
        # more threads than a small team
        n = r.randint(12, 26)
        cs.append(dict(k='direct', id='t%d' % i, n=n, nb=r.choice((1, 1, 2)), vb=r.choice((2, 5)), wz=r.choice((0, 2)), p=r.choice('sdcz'), uplo=('Upper', 'Lower')[i % 2], data=r.randrange(1 << 30),
                       flavour='real', orders=[], runs=[dict(threads=r.randint(10, 24), policy=r.choice((0, 1, 4)), seed=r.randrange(1 << 30), record=n < 17)]))
    for i in range(6 if f.quick else 60):
        # blocks wide enough for the kernels to use their workspace
        n, nb = r.randint(34, 48), r.randint(11, 12)
        cs.append(dict(k='direct', id='w%d' % i, n=n, nb=nb, vb=r.choice((2, 5)), wz=(0, 2)[i % 2], p=r.choice('sdcz'), uplo=('Upper', 'Lower')[i // 2 % 2], data=r.randrange(1 << 30),
                       flavour='real', orders=[], runs=runs(n, 2, False) + [dict(threads=r.randint(3, 5), policy=1, seed=r.randrange(1 << 30), record=True)]))
    for i in range(60 if f.quick else 800):
        nb = r.randint(1, 4)
        m, n = r.randint(nb, nb + 7), r.randint(nb, nb + 7)
        cs.append(dict(k='gesdd', id='g%d' % i, m=m, n=n, nb=nb, p=r.choice('sdcz'), data=r.randrange(1 << 30), job=r.choice(('AllVec', 'SomeVec', 'NoVec')),
                       flavour=r.choice(('real', 'sparse')), runs=runs(n, 1, i % 2 == 0) + runs(n, 3, False)))
    for i in range(16 if f.quick else 150):
        # wider than one block of the back-transformation (memory accesses recorded, steps not validated)
        nb = (2, 1, 2, 3, 2, 5)[i % 6]
        m, n = r.randint(nb + 10, nb + 24), r.randint(nb + 10, nb + 24)
        cs.append(dict(k='gesdd', id='h%d' % i, m=m, n=n, nb=nb, p=r.choice('sdcz'), data=r.randrange(1 << 30), job=('AllVec', 'SomeVec', 'AllVec', 'NoVec')[i // 6 % 4],
                       flavour='real', runs=runs(n, 1, 2) + runs(n, 2, False)))
    for i in range(10 if f.quick else 60):
        nb = r.randint(3, 12)
        m, n = r.randint(nb + 20, 90), r.randint(nb + 20, 90)
        cs.append(dict(k='gesdd', id='j%d' % i, m=m, n=n, nb=nb, p=r.choice('sdcz'), data=r.randrange(1 << 30), job=r.choice(('AllVec', 'SomeVec', 'AllVec', 'NoVec')),
                       flavour='real', runs=runs(n, 3, False)))
    return cs
