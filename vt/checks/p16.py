"""P16: every tile kernel called directly does what it documents (Kernel.tla)."""
import json
import build, cases, kernels, pool, tlc
LEVEL = 'model_checking'


def validate(f, progs, tag=''):
    rej = []
    for cx in (False, True):
        ps = [p for c, p in progs if (c['p'] in 'cz') == cx]
        if ps:
            r, st = tlc.validate('Kernel', ps, f.scratch, dict(Cx='TRUE' if cx else 'FALSE'), costs=[len(json.dumps(p)) for p in ps],
                                 tag='%s%d' % (tag, cx), spec='KSpec', view='View')
            rej += r
            f.tlc(st)
    return rej


def run(f):
    build.build()
    f.log('built')
    cs = [json.load(open(f.replay))['case']] if f.replay else kernels.gen(f.seed + 16, 40 if f.quick else 250)
    res = cases.checked(pool.run(cs, kernels.fn, f.scratch, budget=200 if f.quick else 3000))
    f.log('%d programs run' % len(cs))
    done = [(c, r['prog']) for c, r in zip(cs, res) if r and r['status'] == 'ok']
    suspect = {c['id'] for c, r in zip(cs, res) if r and (r['status'] in cases.BAD or r.get('viols'))}
    suspect |= {x[0] for x in validate(f, done)}
    f.log('validated')
    again = [c for c in cs if c['id'] in suspect]
    if again:                                          # every suspect runs again on its own
        res2 = cases.checked(pool.run(again, kernels.fn, f.scratch, workers=2))
        d2 = [(c, r['prog']) for c, r in zip(again, res2) if r['status'] == 'ok']
        still = {}
        for x in validate(f, d2, 'again'):
            still.setdefault(x[0], x)
        for c, r in zip(again, res2):
            if r['status'] in cases.BAD:
                f.violation('%s:%s' % (c['f'], r['status']), '%s: %s %s' % (c['id'], r['status'], r.get('text', '')), c)
                continue
            for v in r['viols']:
                f.violation('memory:%s' % c['f'], '%s: access outside the operands: %s' % (c['id'], v), c)
            if c['id'] in still:
                x = still[c['id']]
                e = r['prog']['ev'][int(x[1]) - 1]
                f.violation('%s:%s' % (x[2], 'wrong%d:ret=%s' % (e['wrong'], e['ret']) if e['wrong'] else 'contract'),
                            '%s call %s plasma_core kernel %s(%s)%s returned %s, changed %s%s: not allowed by Kernel.tla' % (
                                c['id'], x[1], x[2], e['a'], ' with argument %d illegal' % e['wrong'] if e['wrong'] else '', e['ret'],
                                sorted(e['post']), ', wrote between columns of %s' % e['gap'] if e['gap'] else ''), c)
    for c, p in done[:3]:
        f.sample(cases.describe(p))
    f.traces = len(done)
    ops, wr = {}, {}
    for c, p in done:
        for e in p['ev']:
            d = wr if e['wrong'] else ops
            d[e['op']] = d.get(e['op'], 0) + 1
    f.cov.update(calls_per_kernel=ops, refused_calls_per_kernel=wr, not_run=sum(r is None for r in res))
    f.assume = ['tiles up to 9x9 (coupled tiles up to 18 rows or columns)', 'stored numbers compared after rounding to multiples of 1/512 (exactly for integer programs)']
