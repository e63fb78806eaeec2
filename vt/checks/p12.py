"""P12: the bisection eigensolver returns exactly the requested eigenvalues (Bisect.tla)."""
import json, random, re
import numpy as np
import build, cases, pool, tlc
from plib import K, RDT
from concurrent.futures import ThreadPoolExecutor
LEVEL = 'model_checking'
KINDS = ('exact', 'exact', 'exact', 'grid', 'clement', 'toeplitz', 'pairs', 'random', 'random', 'blocks', 'wilkinson', 'one')
EPSR = {'s': 2.0 ** -23, 'd': 2.0 ** -52}


def spectrum(r, p, kind, given):
    """(diagonal, off-diagonal, spectrum or None, integer matrix or None, scale)"""
    ft = RDT[p]
    if kind == 'grid':
        # a diagonal matrix whose distinct entries are the grid positions: neighbours in the number system, or far apart
        pos = [ft(r.choice((-1, 1)) * r.choice((0, 0, 1, 1.5, 1000, 2.0 ** -20)))]
        while len(pos) < 8:
            if r.random() < .5 and abs(pos[-1]) > 1e-9:
                pos.append(np.nextafter(pos[-1], ft(np.inf)))
            else:
                pos.append(ft(pos[-1] + ft(r.choice((1, 0.5, 3, 2.0 ** -10)))))
        ev = [pos[x] for x in given['ev']]
        d = list(ev)
        r.shuffle(d)
        n = len(d)
        return np.array(d, ft), np.zeros(max(0, n - 1), ft), np.array(sorted(ev), np.float64), None, pos
    if kind == 'exact':
        n = r.choice((1, 2, 2, 3, 3, 4, 4, 5))
        b = 3 if n < 5 else 2
        d = [r.randint(-b, b) for _ in range(n)]
        e = [r.choice((0, 0, 1, 1, -1, 2, -2, r.randint(-b, b))) for _ in range(n - 1)]
        if r.random() < .3:
            d = [d[0]] * n
        s = 2.0 ** r.choice((0, 0, 0, -1, -10, 12))
        return np.array(d, ft) * ft(s), np.array(e, ft) * ft(s), None, (d, e), s
    n = r.choice((2, 3, 5, 8, r.randint(2, 30)))
    s = 2.0 ** r.choice((0, 0, 0, 3, -8, 20, -20))
    if kind == 'one':
        n = 1
        d = np.array([r.uniform(-3, 3)])
        return (d * s).astype(ft), np.zeros(0, ft), (d.astype(ft) * ft(s)).astype(np.float64), None, s
    if kind == 'clement':
        e = np.sqrt(np.arange(1, n) * (n - np.arange(1, n)).astype(float))
        sh = r.choice((0, 0, 1.5, -n - 3.0))
        d = np.full(n, sh)
        ev = np.arange(-(n - 1), n, 2) + sh
    elif kind == 'toeplitz':
        a, b = r.choice((0, 1, -2.5)), r.choice((1, 0.25, -1))
        d, e = np.full(n, a), np.full(n - 1, b)
        ev = np.sort(a + 2 * b * np.cos(np.arange(1, n + 1) * np.pi / (n + 1)))
    elif kind == 'pairs':            # decoupled 2x2 blocks [[a, b], [b, a]]: a-b and a+b, often several times
        n -= n % 2
        d, e, ev = np.zeros(n), np.zeros(n - 1), []
        for i in range(0, n, 2):
            a, b = r.choice((0.5, 1, 2, 2.25, r.uniform(-2, 2))), r.choice((0, 1, 1, 0.25, r.uniform(-1, 1)))
            d[i] = d[i + 1] = a
            e[i] = b
            ev += [a - b, a + b]
        ev = np.sort(ev)
    else:
        g = np.random.default_rng(r.randrange(1 << 30))
        d, e = g.uniform(-2, 2, n), g.uniform(-1.5, 1.5, n - 1)
        if kind == 'blocks':
            h = max(1, n // 2)
            e[h - 1] = 0
            d[h:2 * h], e[h:2 * h - 1] = d[:h], e[:h - 1]
            for i in range(n - 1):
                if r.random() < .2:
                    e[i] = 0
            if r.random() < .4 and n > 2:
                d[r.randrange(n)] = d[r.randrange(n)]
        if kind == 'wilkinson':
            n = r.choice((n, 21, 23, 27))
            d, e = np.abs(np.arange(n) - (n - 1) / 2.0), np.ones(n - 1)
            if r.random() < .3:              # glued: three copies with weak links
                n = 3 * r.choice((5, 7, 9))
                d, e = np.tile(np.abs(np.arange(n // 3) - (n // 3 - 1) / 2.0), 3), np.ones(n - 1)
                e[n // 3 - 1::n // 3] = 10.0 ** -r.randint(6, 14)
        d, e = d.astype(ft).astype(float), e.astype(ft).astype(float)
        ev = None
    d, e = (d * s).astype(ft), (e * s).astype(ft)
    return d, e, None if ev is None else np.array(ev, float) * s, None, s


def solve(L, case, r, ident):
    p, kind = case['p'], case['kind']
    ft, eps = RDT[p], EPSR[p]
    given = r.choice(case['grid']) if kind == 'grid' else None
    d, e, ev, ints, aux = spectrum(r, p, kind, given)
    n = len(d)
    full = np.diag(d.astype(float)) + (np.diag(e.astype(float), 1) + np.diag(e.astype(float), -1) if n > 1 else 0)
    if ev is None:
        ev = np.linalg.eigvalsh(full)
    norm = max(float(np.abs(full).sum(axis=1).max()), 1e-30)
    tol = 8 * n * eps * norm
    cl, reps = [1], [[float(ev[0])]]
    for x in ev[1:]:
        if x - reps[-1][-1] <= 4 * tol:
            reps[-1].append(float(x))
        else:
            reps.append([float(x)])
        cl.append(len(reps))
    out = dict(id=ident, matrix=kind, n=n, cl=cl, d=[], e=[], nl=-1, nu=-1, a=0, b=0, job=r.choice(('NoVec', 'Vec', 'Vec', 'Count')))
    vl, vu, il, iu = 0.0, 0.0, 0, 0
    rk = given['kind'] if given else r.choice('VI')
    if rk == 'I':
        il, iu = (given['a'], given['b']) if given else sorted((r.randint(1, n), r.randint(1, n)))
        if not given and r.random() < .2:
            il, iu = 1, n
        out.update(kind='I', a=il, b=iu)
        nl, nu = il - 1, iu
    else:
        if given:
            vl, vu = float(aux[given['a']]), float(aux[given['b']])
            nl, nu = int((ev < vl).sum()), int((ev < vu).sum())
        elif ints:
            a, b = sorted(r.sample(range(-14, 15), 2))         # half-integers, often eigenvalues
            if r.random() < .6:
                a, b = 2 * (a // 2), 2 * (b // 2) + 2
            vl, vu = a * aux / 2, b * aux / 2
            out.update(d=[2 * x for x in ints[0]], e=[2 * x for x in ints[1]], a=a, b=b)
            nl = nu = -1
        else:
            for _ in range(50):
                c = [float(x) for x in ev] + [float(ev[0]) - norm * r.uniform(0, 2), float(ev[-1]) + norm * r.uniform(0, 2)]
                vl, vu = sorted(float(ft(r.choice(c) + r.choice((-1, 1)) * norm * 10 ** r.uniform(-3, 0))) for _ in 'xx')
                if vl < vu and min(abs(x - v) for x in ev for v in (vl, vu)) > 8 * tol:
                    break
            else:
                return None
            nl, nu = int((ev < vl).sum()), int((ev < vu).sum())
        out.update(kind='V', nl=nl, nu=nu)
    if ints and rk == 'V':
        lo = np.linalg.eigvalsh(full) / aux
        cnt = int(((lo >= vl / aux - 1e-4) & (lo < vu / aux + 1e-4)).sum())
    else:
        cnt = nu - nl
    k = max(0, cnt + r.choice((0, 0, 0, 1, 3, -1)))
    if ints and rk == 'V':
        k = n
    out['k'] = k
    pd, vd = L.array(n, ft)
    pe, ve = L.array(max(n - 1, 1), ft)
    vd[:], ve[:] = d, 0
    ve[:n - 1] = e
    pf, vf = L.array(1, np.int32)
    pv, vv = L.array(k, ft)
    pm, vm = L.array(k, np.int32)
    pz, vz = L.array(n * k if out['job'] == 'Vec' or r.random() < .5 else 0, ft)
    vv[:], vz[:], vf[0] = np.nan, np.nan, -777
    vm[:] = r.choice((0, -777, 5, 1))
    m0, null = vm.copy(), len(vz) == 0
    j = out['job']
    out['ret'] = int(L.call('plasma_%sstevx2' % p, K[j], K['Range' + rk], n, k, pd, pe, vl, vu, il, iu, pf, pv, pm, None if null and j != 'Vec' else pz))
    out['found'] = int(vf[0])
    kept = np.array_equal(vd, d) and np.array_equal(ve[:n - 1], e)
    if j != 'Vec':
        kept = kept and np.isnan(vz).all()
    if j == 'Count':
        kept = kept and np.isnan(vv).all() and np.array_equal(vm, m0)
    m = min(max(out['found'], 0), k) if j != 'Count' and out['ret'] == 0 else 0
    val = [float(x) for x in vv[:m]]
    out.update(kept=bool(kept), mul=[int(x) for x in vm[:m]], raw=['%.9g' % x for x in val])
    out['val'] = [next((c + 1 for c, g in enumerate(reps) if g[0] - tol <= x <= g[-1] + tol), 0) for x in val]
    order = sorted(set(x for x in val if x == x))
    out['rank'] = [order.index(x) if x == x else -1 for x in val]
    out['res'] = out['orth'] = 0
    seen = [x for x in out['val'] if x]
    gap = min([reps[c][0] - reps[c - 1][-1] for c in range(1, len(reps))] or [norm]) / norm
    out['vectors'] = j == 'Vec' and m > 0 and len(set(seen)) == m and gap > (1e-2 if p == 's' else 1e-4)
    if j == 'Vec' and m > 0:
        V = vz[:n * m].reshape(m, n).astype(float).T
        if np.isfinite(V).all():
            b = 20 * (n + 5) * eps + 20 * eps / gap
            if out['vectors']:
                out['res'] = int(min(1e6, 1000 * np.abs(full @ V - V * np.array(val)).max() / (b * norm)))
            out['orth'] = int(min(1e6, 1000 * np.abs(V.T @ V - np.eye(m)).max() / (20 * (n + 5) * eps)))
        else:
            out['res'] = out['orth'] = 10 ** 6
    return out


def fn(L, case):
    L.reset()
    cfg = case['cfg']
    r = random.Random(case['seed'])
    L.dll.vg_config(cfg['threads'], cfg['policy'], cfg['seed'], cfg['imm'])
    L.dll.vg_begin(0)
    L.call('plasma_init')
    for k, v in (('Tuning', 0), ('Nb', cfg['nb']), ('Ib', cfg['ib'])):
        L.call('plasma_set', K[k], v)
    ev = []
    for i in range(case['count']):
        L.dll.vg_recycle()
        e = solve(L, case, r, '%s#%d' % (case['id'], i))
        if e:
            ev.append(e)
    L.call('plasma_finalize')
    return dict(ev=ev, viols=L.viols()[:2])


def machine(f):
    """the state machine on every spectrum of a small grid; the instances"""
    inst = {}
    for n, m in ((3, 6), (4, 5)) if f.quick else ((3, 8), (4, 7), (5, 6)):
        out, st = tlc.tlc('Bisect', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Gen = TRUE\nCONSTANT N = %d\nCONSTANT M = %d\nINVARIANT Disjoint\nINVARIANT Counted\n'
                          'INVARIANT Slots\nINVARIANT Covered\nINVARIANT Result\nINVARIANT Emit\nPROPERTY Ends\n' % (n, m), f.scratch, 'gen%d' % n, workers=4)
        if st['rc'] != 0:
            raise RuntimeError('harness: the state machine is wrong: ' + out[-2000:])
        f.tlc(st)
        for s in set(re.findall(r'<<"CASE", "(.*?)">>', out)):
            o = json.loads(s.replace('\\"', '"'))
            if max(o['ev'] + ([o['b']] if o['kind'] == 'V' else [])) < 8:
                inst[json.dumps(o, sort_keys=True)] = o
    return [inst[k] for k in sorted(inst)]


def run(f):
    build.build()
    f.log('built')
    grid = machine(f)
    f.log('%d instances of the state machine' % len(grid))
    f.cov['instances_enumerated'] = len(grid)
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 12)
        cs = []

        def add(kind, p, count, s, g=None):
            nb = r.choice((1, 2, 3, 5, 8))
            cs.append(dict(id='%s/%s/%d' % (kind, p, s), kind=kind, p=p, count=count, seed=r.randrange(1 << 30), grid=g, cfg=dict(nb=nb, ib=r.randint(1, nb), threads=r.choice((1, 1, 2, 3, 4)),
                           policy=r.choice((0, 1, 1, 2, 4)), seed=r.randrange(1 << 30), imm=r.choice((0, 0, 30, 100)))))
        for p in 'sd':
            g = list(grid)
            r.shuffle(g)
            for i in range(0, len(g), 40):
                add('grid', p, 40, i, g[i:i + 40])
            for kind in sorted(set(KINDS) - {'grid'}):
                for s in range((24 if f.quick else 120) * KINDS.count(kind)):
                    add(kind, p, 20, s)
        r.shuffle(cs)
    res = cases.checked(pool.run(cs, fn, f.scratch))
    evs, by = [], {}
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['kind'], r['status']), '%s: %s %s' % (c['id'], r['status'], r.get('text', '')), c)
            continue
        for v in r['viols']:
            f.violation('memory:%s:%s' % (v['kind'], v['where']), '%s: %s' % (c['id'], v), c)
        for e in r['ev']:
            evs.append(e)
            by[e['id']] = (c, e)
    f.log('%d calls' % len(evs))

    def job(k):
        part = evs[k::8]
        if not part:
            return ''
        p = '%s/bisect%d.ndjson' % (f.scratch, k)
        with open(p, 'w') as h:
            for e in part:
                h.write(json.dumps(e) + '\n')
        out, st = tlc.tlc('Bisect', 'SPECIFICATION SpecCheck\nCHECK_DEADLOCK FALSE\nCONSTANT Gen = FALSE\nCONSTANT N = 0\nCONSTANT M = 0\n', f.scratch, 'c%d' % k, env=dict(TRACE=p))
        if st['rc'] != 0 or st['distinct'] != len(part):
            raise RuntimeError('harness: ' + out[-2000:])
        f.tlc(st)
        return out
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(job, range(8)))
    for out in outs:
        for m in re.finditer(r'<<\s*"REJECT",\s*"(.*?)",\s*\d+,\s*\{(.*?)\},\s*(-?\d+),\s*(-?\d+)\s*>>', out, re.S):
            c, e = by[m.group(1)]
            why = sorted(re.findall(r'"(\w+)"', m.group(2)))
            f.violation('%s:%s:%s' % (e['job'], e['kind'], '+'.join(why)), '%s (%s matrix of order %d, %s, k=%d, cfg %s): %s; wanted the eigenvalues number %d to %d (classes %s); returned %s, found %d, values %s (classes %s), multiplicities %s, residual %d, orthonormality %d' % (
                e['id'], e['matrix'], e['n'], 'indices %d to %d' % (e['a'], e['b']) if e['kind'] == 'I' else 'a range of values', e['k'], c['cfg'], ', '.join(why), int(m.group(3)) + 1, int(m.group(4)), e['cl'][:20],
                e['ret'], e['found'], e['raw'][:8], e['val'][:8], e['mul'][:8], e['res'], e['orth']), c)
        if out.count('"REJECT"') != len(re.findall(r'<<\s*"REJECT",\s*"(.*?)",\s*\d+,\s*\{(.*?)\},\s*(-?\d+),\s*(-?\d+)\s*>>', out, re.S)):
            raise RuntimeError('harness: reject not understood: ' + out[-2000:])
    f.traces += len(evs)
    f.cov.update(calls=len(evs), jobs={j: sum(e['job'] == j for e in evs) for j in ('Count', 'NoVec', 'Vec')}, eigenvalues=sum(len(e['val']) for e in evs),
                 calls_with_vectors_judged=sum(e.get('vectors', False) for e in evs), multiple_eigenvalues=sum(any(x > 1 for x in e['mul']) for e in evs),
                 empty_ranges=sum(e['job'] != 'Count' and e['found'] == 0 for e in evs), exact_counts_by_spec=sum(bool(e['d']) for e in evs),
                 too_little_room=sum(e['ret'] == -4 for e in evs), largest_order=max(e['n'] for e in evs),
                 largest_residual_thousandths=max(e['res'] for e in evs), largest_orthonormality_thousandths=max(e['orth'] for e in evs))
    for e in evs[:3]:
        f.sample(e)
    f.assume = ['reference spectra: closed forms, exact integer Sturm sequences (in the specification), or LAPACK in double precision', 'entries whose squares neither overflow nor underflow',
                'the vectors have to be orthonormal always, and belong to their eigenvalues where the eigenvalues are separated by 1e-4 (single precision 1e-2) of the norm']
