"""P03: numerical failure is reported with the first failing index (Failure.tla), under many tile sizes, schedules and histories."""
import json, random
import build, cases, pool, tlc
from ctx import Ctx
from failing import FAIL
LEVEL = 'model_checking'
WHAT = dict(spurious='a failure is reported although there is none', lost='a failure is not reported', index='the wrong index is reported',
            rhs='the right-hand side is changed although the matrix could not be factored', certificate='HARNESS')


def fn(L, case):
    L.reset()
    F = FAIL[case['f']]
    c = Ctx(L, case['seed'], case['p'], F['q'])
    c.calls = []
    c.setup(case['cfg'])
    c.rec = 1
    F['f'](c)
    c.stop()
    return dict(prog=dict(id=case['id'], ev=c.calls), cfg=c.cfg, viols=list(L.viols())[:2])


def config(r):
    nb = r.choice((1, 2, 3, 3, 4, 5, 7))
    mt = r.choice((1, 1, 1, 2, 3, 4))
    return dict(nb=nb, ib=r.randint(1, nb), mtpf=mt, threads=r.choice((1, 2, 3, 4, 6)), policy=r.choice((0, 1, 1, 1, 2, 4, 5)),
                seed=r.randrange(1 << 30), imm=0 if mt > 1 else r.choice((0, 0, 30, 100)))


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 3)
        cs = []
        for fam in FAIL:
            for p in FAIL[fam]['precs']:
                for s in range(200 if f.quick else 900):
                    ds = r.randrange(1 << 30)
                    for k in range(2):                       # the same program under two schedules and tilings
                        cs.append(dict(id='%s/%d/%s/%d' % (fam, s, p, k), f=fam, p=p, seed=ds, cfg=config(r)))
        r.shuffle(cs)
    res = cases.checked(pool.run(cs, fn, f.scratch))
    done = []
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['f'], r['status']), '%s: %s %s; cfg %s' % (c['id'], r['status'], r.get('text', ''), c['cfg']), c)
            continue
        done.append((c, r))
    f.log('%d programs run' % len(done))
    by = {c['id']: (c, r) for c, r in done}
    for cx in (False, True):
        ps = [r['prog'] for c, r in done if (c['p'] in 'cz') == cx]
        if not ps:
            continue
        rej, st = tlc.validate('Failure', ps, f.scratch, dict(Cx='TRUE' if cx else 'FALSE'), costs=[sum(e['n'] ** 3 + 20 for e in p['ev']) for p in ps], tag=str(cx), view=None)
        f.tlc(st)
        for q in rej:
            c, r = by[q[0]]
            if len(q) < 6 or q[3] == 'certificate':
                raise RuntimeError('harness: %s' % q)
            f.violation('%s:%s' % (q[3], q[2]), '%s: call %s (%s): %s: returns %s, first failing index %s; cfg %s' % (q[0], q[1], q[2], WHAT[q[3]], q[5], q[4], r['cfg']), c)
    ev = [e for _, r in done for e in r['prog']['ev']]
    f.traces += len(done)
    f.cov['calls'] = len(ev)
    f.cov['calls_that_report_a_failure'] = sum(e['ret'] > 0 for e in ev)
    f.cov['calls_after_a_failed_call'] = sum(any(x['ret'] > 0 for x in r['prog']['ev'][:i]) for _, r in done for i in range(len(r['prog']['ev'])))
    f.cov['routines'] = sorted({e['op'] for e in ev})
    for c, r in done[:2]:
        f.sample(dict(id=c['id'], cfg=r['cfg'], calls=r['prog']['ev'][:2]))
    f.assume = ['matrices on which the documented algorithms are exact in floating point, so that a zero pivot is exactly zero']
