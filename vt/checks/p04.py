"""P04: descriptors give every element a place of its own; translations move exactly the described part (Layout.tla)."""
import ctypes as C, json, random
import numpy as np
import build, cases, pool, tlc
from plib import K, DT, PREC, Desc, Sequence, Request
LEVEL = 'model_checking'
COPY = dict(ge=('ge2desc', 'desc2ge'), lo=('tr2desc', 'desc2tr'), up=('tr2desc', 'desc2tr'), pg=('pb2desc', 'desc2pb'),
            pu=('pb2desc', 'desc2pb'), pl=('pb2desc', 'desc2pb'), fb=('gb2desc', None))
B20 = 1 << 20


def cdiv(a, b):
    return -(-a // b)


def stored(x, r, c):
    k = x['kind']
    if k == 'ge':
        return True
    if k in ('lo', 'up'):
        return r >= c if k == 'lo' else r <= c
    klt = 0 if k == 'pu' else cdiv(x['kl'], x['mb'])
    kut = 0 if k == 'pl' else cdiv(x['ku'] if k == 'pu' else x['ku'] + x['kl'], x['nb'])
    return r - c <= klt and c - r <= kut


def gen(seed, n, huge):
    r = random.Random(seed)
    out = []
    for s in range(n):
        kind = r.choice(('ge', 'ge', 'lo', 'up', 'pg', 'pg', 'pu', 'pl', 'fb'))
        p = r.choice('sdcz')
        x = dict(kind=kind)
        x['mb'] = x['nb'] = r.choice((1, 2, 3, 4, 5))
        if kind == 'ge' and r.random() < .4:
            x['nb'] = r.choice((1, 2, 3, 4))
        hi = r.choice((4, 8, 12))
        x['gm'], x['gn'] = r.randint(1, hi), r.randint(1, hi)
        if kind not in ('ge', 'pg', 'fb'):
            x['gn'] = x['gm']
        x.update(i0=0, j0=0, m=x['gm'], n=x['gn'], kl=0, ku=0)
        how = 'none'
        if kind in ('ge', 'lo', 'up') and r.random() < .6:
            how = r.choice(('view', 'create'))
            x['i0'] = r.randrange(cdiv(x['gm'], x['mb'])) * x['mb']
            x['j0'] = r.randrange(cdiv(x['gn'], x['nb'])) * x['nb'] if kind == 'ge' else x['i0']
            x['m'] = r.randint(1, x['gm'] - x['i0'])
            x['n'] = r.randint(1, x['gn'] - x['j0']) if kind == 'ge' else x['m']
        if kind in ('pg', 'fb'):
            x['kl'], x['ku'] = r.randint(0, min(x['m'] - 1, 6)), r.randint(0, min(x['n'] - 1, 6))
        if kind in ('pu', 'pl'):
            x['ku' if kind == 'pu' else 'kl'] = r.randint(0, min(x['m'] - 1, 6))
        if kind == 'pg':
            x['lda'] = (cdiv(x['ku'] + x['kl'], x['nb']) + cdiv(x['kl'], x['nb']) + 1) * x['nb'] + r.choice((0, 0, 1, 3))
        elif kind in ('pu', 'pl'):
            x['lda'] = x['ku'] + x['kl'] + 1 + r.choice((0, 0, 1, 2))
        else:
            x['lda'] = x['m'] + r.choice((0, 0, 1, 4))
        wide = 0
        if huge and s % 40 == 7 and kind != 'fb':      # an array of more than 2^31 elements of which a few are used
            p, wide = 's', 1
        out.append(dict(id='%s/%d/%s%s' % (kind, s, p, '/wide' if wide else ''), d=x, p=p, how=how, wide=wide, threads=r.choice((1, 2, 3)), policy=r.choice((0, 1, 2)), seed=r.randrange(1 << 30)))
        if wide:
            q = max(x['gm'], 9) if kind != 'ge' else x['gm']
            x.update(gm=q, gn=max(x['gn'], 9), i0=0, j0=0, mb=4, nb=4)
            if kind != 'ge':
                x['gn'] = x['gm']
            x.update(m=x['gm'], n=x['gn'])
            x['kl'], x['ku'] = min(x['kl'], 3), min(x['ku'], 3)
            x['rows'] = 40 if kind == 'pg' else x['m'] + x['kl'] + x['ku'] + 2
            x['lda'] = (1 << 28) + 8 * r.randint(0, 9)
            out[-1]['how'] = 'none'
    if huge:                                            # allocations of more than 2^31 elements: placement only
        for s in range(huge):
            kind = r.choice(('ge', 'lo', 'up', 'lo', 'up', 'pg'))
            nb = r.choice((4096, 5000, 8192, 10000, 16384))
            n = r.choice((65535, 65536, 70000, 92682, 100000, 131072, 150001))
            x = dict(kind=kind, mb=nb, nb=nb, gm=n, gn=n, i0=0, j0=0, m=n, n=n, kl=0, ku=0, lda=n)
            if kind == 'pg':
                x['kl'], x['ku'] = r.randint(20000, 60000), r.randint(20000, 60000)
            how = 'none'
            if kind != 'pg' and r.random() < .5:
                how = 'view'
                x['i0'] = x['j0'] = r.randrange(cdiv(n, nb)) * nb
                x['m'] = x['n'] = r.randint(1, n - x['i0'])
            out.append(dict(id='huge/%s/%d' % (kind, s), d=x, p=r.choice('sdcz'), how=how, wide=0, huge=1, threads=1, policy=0, seed=s))
    return out


def fn(L, case):
    x, p = dict(case['d']), case['p']
    kind, huge = x['kind'], case.get('huge')
    dt = np.dtype(DT[p])
    es = dt.itemsize
    L.reset()
    L.dll.vg_config(case['threads'], case['policy'], case['seed'], 0)
    L.dll.vg_begin(1)
    L.call('plasma_init')
    L.call('plasma_set', K['Tuning'], 0)
    D = Desc()
    win = (x['i0'], x['j0'], x['m'], x['n']) if case['how'] == 'create' else (0, 0, x['gm'], x['gn'])
    if huge:
        L.dll.vg_fail(L.dll.vg_allocs(), 0)            # the allocation is recorded but not made
    n0 = L.dll.vg_nevents()
    if kind in ('lo', 'up'):
        ret = L.call('plasma_desc_triangular_create', PREC[p], K['Lower' if kind == 'lo' else 'Upper'], x['mb'], x['nb'], x['gm'], x['gn'], *win, D)
    elif kind == 'ge':
        ret = L.call('plasma_desc_general_create', PREC[p], x['mb'], x['nb'], x['gm'], x['gn'], *win, D)
    else:
        nb = x['nb']
        kd = max(x['kl'], x['ku'])
        if kind in ('pg', 'fb'):
            lm = (cdiv(x['ku'] + x['kl'], nb) + cdiv(x['kl'], nb) + 1) * nb
            ret = L.call('plasma_desc_general_band_create', PREC[p], K['General'], nb, nb, lm, x['gn'], 0, 0, x['m'], x['n'], x['kl'], x['ku'], D)
        else:
            ret = L.call('plasma_desc_general_band_create', PREC[p], K['Upper' if kind == 'pu' else 'Lower'], nb, nb, nb * (1 + cdiv(kd, nb)), x['gn'],
                         0, 0, x['m'], x['n'], kd, kd, D)
    if huge:
        L.dll.vg_fail(-1, 0)
    al = [e for e in L.events()[n0:].tolist() if e[0] == 16]
    if len(al) != 1 or (ret != 0) != bool(huge):
        return dict(prog=dict(id=case['id'], d=x, di=1, ev=[]), fail='create returned %d with %d allocations' % (ret, len(al)), viols=[])
    size = int(al[0][3]) & ((1 << 64) - 1)
    base = D.matrix or 0
    parent = D
    if case['how'] == 'view':
        parent, D = D, L.call('plasma_desc_view', D, x['i0'], x['j0'], x['m'], x['n'])
    f = L.dll.vt_tile_addr
    f.restype, f.argtypes = C.c_int64, [Desc, C.c_int, C.c_int]
    for n in ('vt_mmain', 'vt_nmain', 'vt_mview', 'vt_nview'):
        getattr(L.dll, n).argtypes = [Desc] + [C.c_int] * (2 if n == 'vt_mmain' else 1)

    def tile(E, r, c, r1, c1):
        off = f(E, r, c) - base
        off = off // es if off % es == 0 else -1
        hi = max(-1000, min(off // B20, 2000000000))
        return [r1, c1, hi, off % B20, L.dll.vt_mmain(E, r, c), L.dll.vt_nmain(E, c), L.dll.vt_mview(E, r), L.dll.vt_nview(E, c)]
    tiles, ix = [], []
    for c in range(D.nt):
        ix.append([])
        for r in range(D.mt):
            if stored(x, r, c):
                tiles.append(tile(D, r, c, r, c))
                ix[-1].append(len(tiles))
            else:
                ix[-1].append(0)
    order = sorted(range(len(tiles)), key=lambda t: (tiles[t][2], tiles[t][3]))
    nel = size // es
    ev = [dict(op='desc', mt=D.mt, nt=D.nt, size=[min(nel // B20, 2000000000), nel % B20], tiles=tiles, ix=ix, ord=[t + 1 for t in order])]
    if case['how'] == 'view':
        ev.append(dict(op='view', tiles=tiles, parent=[tile(parent, t[0] + x['i0'] // x['mb'], t[1] + x['j0'] // x['nb'], t[0], t[1]) for t in tiles]))
    if huge:
        return dict(prog=dict(id=case['id'], d=x, di=1, ev=ev), viols=[])
    # ---- translations
    rows = x['lda'] if not case['wide'] else x['rows']
    L.dll.vg_user_raw.restype = C.c_void_p
    L.dll.vg_user_raw.argtypes = [C.c_size_t]
    nu = x['lda'] * (x['n'] - 1) + (rows if case['wide'] else x['lda'])
    if case['wide']:
        pu = L.dll.vg_user_raw(nu * es)
    else:
        pu = L.alloc(nu * es)
    cols = [np.frombuffer((C.c_char * (rows * es)).from_address(pu + j * x['lda'] * es), dt) for j in range(x['n'])]
    tb = np.frombuffer((C.c_char * size).from_address(base), dt)

    def put(a, vals):
        a[:] = np.array([complex(v, -v) for v in vals]) if p in 'cz' else vals

    def get(a):
        o = []
        for v in a.tolist():
            re, im = (v.real, -v.imag) if p in 'cz' else (v, v)
            o.append(int(re) if re == re and abs(re) < 1e7 and re == int(re) and re == im else -9)
        return o

    def user(first=None):
        if first is not None:
            for j, a in enumerate(cols):
                put(a, range(first + j * rows, first + (j + 1) * rows))
        return [v for a in cols for v in get(a)]

    def tl(first=None):
        if first is not None:
            put(tb, range(first, first + len(tb)))
        return get(tb)
    seq, req = Sequence(), Request()
    L.call('plasma_sequence_init', seq)
    L.call('plasma_request_init', req)
    CB = C.CFUNCTYPE(None, C.c_void_p)

    def run(name, *a):
        cb = CB(lambda _: L.call('plasma_omp_' + p + name, *a))
        L.dll.vt_parallel(cb, None)
        if seq.status:
            raise RuntimeError('sequence status %d after %s' % (seq.status, name))
    i, o = COPY[kind]
    ev.append(dict(op='set', user=user(1), tile=tl(1000000)))
    run(i, pu, x['lda'], D, seq, req)
    ev.append(dict(op='in', user=user(), tile=tl()))
    if o:
        run(o, D, pu, x['lda'], seq, req)
        ev.append(dict(op='back', user=user(), tile=tl()))
        ev.append(dict(op='set', user=user(2000000), tile=tl(3000000)))
        run(o, D, pu, x['lda'], seq, req)
        ev.append(dict(op='out', user=user(), tile=tl()))
    if case['wide']:
        x['lda'] = rows                                 # the observed rows of every column
    live = L.dll.vg_live()
    L.call('plasma_desc_destroy', parent)
    freed = live - L.dll.vg_live()
    L.call('plasma_finalize')
    L.dll.vg_end()
    return dict(prog=dict(id=case['id'], d=x, di=1, ev=ev), viols=L.viols()[:3], fail=None if freed == 1 else 'plasma_desc_destroy released %d blocks' % freed)


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        mn, mb = (5, 3) if f.quick else (7, 4)
        out, st = tlc.tlc('Layout', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT OnePlace\nINVARIANT ViewOk\nINVARIANT Identity\n'
                          'CONSTANT Mode = "gen"\nCONSTANT MaxN = %d\nCONSTANT MaxB = %d\n' % (mn, mb), f.scratch, 'gen', workers=8, heap='8g', timeout=800)
        if st['rc'] != 0:
            raise RuntimeError('Layout.tla: ' + out[-3000:])
        f.tlc(st)
        f.cov['model'] = dict(max_dimension=mn, max_tile=mb, **st)
        f.log('model: %d states' % st['distinct'])
        cs = gen(f.seed + 4, 1000 if f.quick else 6000, 60 if f.quick else 300)
    res = cases.checked(pool.run(cs, fn, f.scratch))
    done = []
    for c, r in zip(cs, res):
        k = c['d']['kind'] + (':wide' if c['wide'] else ':huge' if c.get('huge') else '')
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (k, r['status']), '%s: %s %s; %s' % (c['id'], r['status'], r.get('text', ''), c['d']), c)
            continue
        for v in r['viols']:
            f.violation('memory:%s' % k, '%s: access outside live memory %s; %s' % (c['id'], v, c['d']), c)
        if r.get('fail'):
            f.violation('call:%s' % k, '%s: %s; %s' % (c['id'], r['fail'], c['d']), c)
            continue
        done.append((c, r['prog']))
    f.log('%d descriptors' % len(done))
    ps = [p for _, p in done]
    rej, st = tlc.validate('Layout', ps, f.scratch, dict(Mode='"check"', MaxN=1, MaxB=1), costs=[len(json.dumps(p)) for p in ps])
    f.tlc(st)
    by = {c['id']: c for c, _ in done}
    for q in rej:
        c = by[q[0]]
        k = c['d']['kind'] + (':wide' if c['wide'] else ':huge' if c.get('huge') else '')
        why = ','.join(q[3:]).strip('{}').replace('\\', '').replace('"', '')
        if 'harness' in why or 'undefined' in why:
            raise RuntimeError('harness: %s %s' % (q, c))
        f.violation('%s:%s:%s' % (q[2], k, why), '%s: %s of a %s descriptor: %s; %s' % (q[0], q[2], k, why, c['d']), c)
    f.traces += len(done)
    f.cov['descriptors'] = len(done)
    f.cov['kinds'] = {k: sum(c['d']['kind'] == k for c, _ in done) for k in COPY}
    f.cov['translations'] = sum(e['op'] in ('in', 'out', 'back') for p in ps for e in p['ev'])
    f.cov['beyond_2_31'] = sum(bool(c['wide'] or c.get('huge')) for c, _ in done)
    f.sample(dict(id=ps[0]['id'], d=ps[0]['d'], desc=ps[0]['ev'][0]) if ps else None)
    f.assume = ['a tile is stored column by column with its height as leading dimension']
