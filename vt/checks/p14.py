"""P14: each call changes, reaches and depends on exactly the documented part of its operands (Footprint.tla)."""
import json, random
import numpy as np
import build, cases, pool, tlc
LEVEL = 'model_checking'
SKIP = ()


def diffs(m, a, b):
    x, y = np.frombuffer(a, np.uint8).reshape(-1, m.dtype.itemsize), np.frombuffer(b, np.uint8).reshape(-1, m.dtype.itemsize)
    return m.pos(np.nonzero((x != y).any(axis=1))[0])


def fn_foot(L, case):
    """the program with junk of two kinds in every element its documentation leaves undefined"""
    c2 = cases.execute(L, case, rec=0, touch=True, junk='num')
    h2 = {m.name: m.hist for m in c2.mats}
    r2 = [e['ret'] for e in c2.events]
    c = cases.execute(L, case, rec=1, touch=True)
    evs = []
    for k, e in enumerate(c.events):
        if k >= len(r2):
            break
        chg, dep = {}, {}
        for m in c.mats:
            d = diffs(m, m.hist[k], m.hist[k + 1])
            if d:
                chg[m.name] = d
            d = diffs(m, m.hist[k + 1], h2[m.name][k + 1])
            if d:
                dep[m.name] = d
        evs.append(dict(op=e['op'], a=e['a'], ops=e['ops'], ret=e['ret'], retdep=bool(e['ret'] != r2[k]), chg=chg, dep=dep, tch=e['tch']))
    return dict(prog=dict(id=case['id'], nb=c.cfg['nb'], junk={m.name: m.pos(sorted(m.unset)) for m in c.mats}, ev=evs), viols=L.viols()[:3], cfg=c.cfg)


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 14)
        cs = [c for c in cases.gen(f.seed + 14, 80 if f.quick else 300, skip=SKIP) if c['p'] in 'zd' or r.random() < .3]
        for c in cs:
            nb = r.choice((1, 2, 2, 3, 3, 4, 5))
            c['cfg'] = dict(nb=nb, ib=r.randint(1, nb), mtpf=1, threads=r.choice((1, 2, 3)), policy=r.choice((0, 0, 1)), imm=0)
    res = cases.checked(pool.run(cs, fn_foot, f.scratch))
    done = []
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['f'], r['status']), '%s: %s %s; cfg %s' % (c['id'], r['status'], r.get('text', ''), c['cfg']), c)
            continue
        for v in r['viols']:
            f.violation('memory:%s' % c['f'], '%s: access outside live memory %s; cfg %s' % (c['id'], v, c['cfg']), c)
        done.append((c, r['prog']))
    f.log('%d programs run' % len(done))
    ps = [p for _, p in done]
    rej, st = tlc.validate('Footprint', ps, f.scratch, {}, costs=[len(json.dumps(p)) for p in ps])
    f.tlc(st)
    by = {c['id']: (c, p) for c, p in done}
    T = dict(changed='changes elements that are not an output', reached='reaches memory outside the rows and columns', depends='depends on elements that are not referenced')
    for q in rej:
        c, p = by[q[0]]
        if len(q) < 5:
            raise RuntimeError('harness: %s' % q)
        e = p['ev'][int(q[1]) - 1]
        f.violation('%s:%s:%s' % (q[3], q[2], q[4]), '%s: call %s (%s %s) %s of %s; changed %s, reached %s, dependent %s; cfg %s' % (
            q[0], q[1], q[2], e['a'], T[q[3]], q[4], e['chg'].get(q[4], [])[:8], len(e['tch'].get(q[4], [])), e['dep'].get(q[4], [])[:8], c['cfg']), c)
    f.traces += 2 * len(done)
    f.cov['programs'] = len(done)
    f.cov['calls'] = sum(len(p['ev']) for _, p in done)
    f.cov['routines'] = sorted({e['op'] for _, p in done for e in p['ev']})
    f.sample(dict(id=ps[0]['id'], first_call=ps[0]['ev'][:1]) if ps else None)
    f.assume = ['accesses inside BLAS and LAPACK are those of their documented operands (footprints in vgblas.cpp)',
                'dependence on unreferenced elements is judged from two different fillings of them']
