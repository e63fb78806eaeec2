"""P02: every routine computes what its documentation says (Contract.tla)."""
import json
import build, cases, pool
LEVEL = 'model_checking'
SKIP = ()


def classify(case, prog, ll, op, why=''):
    e = prog['ev'][ll - 1]
    return '%s:ret=%s%s' % (op, e['ret'], ':' + why if why else '')


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        cs = cases.gen(f.seed, 72 if f.quick else 400, skip=SKIP)
    res = cases.checked(pool.run(cs, cases.fn_contract, f.scratch, budget=200 if f.quick else 3000))
    f.log('%d programs run' % len(cs))
    done = [(c, r['prog']) for c, r in zip(cs, res) if r and r['status'] == 'ok']
    bad = {c['id']: r for c, r in zip(cs, res) if r and r['status'] in cases.BAD}
    rej, st = cases.contract(done, f.scratch)
    f.tlc(st)
    f.log('validated')
    byid = {c['id']: (c, p) for c, p in done}
    # every suspect is run again on its own before it is reported
    again = [c for c in cs if c['id'] in bad] + [byid[x]
             [0] for x in sorted({r[0] for r in rej})]
    if again:
        res2 = cases.checked(pool.run(again, cases.fn_contract, f.scratch, workers=2))
        d2 = [(c, r['prog']) for c, r in zip(again, res2) if r['status'] == 'ok']
        rej2, _ = cases.contract(d2, f.scratch, tag='again')
        still = {r[0]: r for r in rej2}
        for c, r in zip(again, res2):
            if r['status'] in cases.BAD:
                f.violation('%s:%s' % (c['f'], r['status']), '%s %s %s' % (c['id'], r['status'], r.get('text', '')), c)
            elif c['id'] in still:
                x = still[c['id']]
                p = [p for cc, p in d2 if cc is c][0]
                e = p['ev'][int(x[1]) - 1]
                f.violation('%s:contract:ret=%s' % (x[2], 'ok' if e['ret'] == 0 else e['ret']),
                            '%s call %s %s(%s) returned %s: the contents observed after the call are not allowed by %sOK in Contract.tla; cfg %s' % (
                            c['id'], x[1], x[2], e['a'], e['ret'], x[2], r['cfg']), c)
    for c, p in done[:3]:
        f.sample(cases.describe(p))
    f.traces = len(done)
    ops = {}
    for c, p in done:
        for e in p['ev']:
            ops[e['op']] = ops.get(e['op'], 0) + 1
    f.cov.update(calls_per_operation=ops, not_run=sum(r is None for r in res),
                 distinct_configurations=len({json.dumps(r['cfg'], sort_keys=True) for r in res if r and r['status'] == 'ok'}))
    f.assume = ['stored numbers are compared after rounding to multiples of 1/512 (exactly for integer programs)',
                'matrices up to 10x10, tile sizes 1..7', 'OpenBLAS kernels are exercised, not modelled']
