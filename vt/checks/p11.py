"""P11: what calls acquire is released, also when memory runs out (Alloc.tla)."""
import json, random
import build, cases, pool, tlc
from ctx import Ctx
from failing import FAIL
LEVEL = 'model_checking'
WHAT = dict(release='memory is released that the call does not hold', memory='memory is used illegally', leak='memory is left after the call',
            silent='an allocation fails but the call returns success without having done its work', afterwards='the call repeated with enough memory does not do what it does otherwise')


def fn(L, case):
    if case['kind'] == 'fail':
        L.reset()
        F = FAIL[case['f']]
        c = Ctx(L, case['seed'], case['p'], F['q'])
        c.calls = []
        c.setup(case['cfg'])
        c.rec = 1
        c.strat = case.get('strat')
        F['f'](c)
        c.stop()
    else:
        c = cases.execute(L, case)
    progs = []
    for a in c.allocs:
        progs.append(dict(id='%s/%d:%s' % (case['id'], a['at'], a['op']), op=a['op'], ev=a['base']))
        for p in a['plans']:
            progs.append(dict(id='%s/%d:%s/%d.%d' % (case['id'], a['at'], a['op'], p['k'], p['mode']), op=a['op'], k=p['k'], of=p['of'], mode=p['mode'], ev=p['steps']))
    return dict(progs=progs, bad=[dict(op=b['op'], left=b['left'], a=b['a'], args=b['args'], ret=b['ret']) for b in c.bad], cfg=c.cfg)


def config(r, **k):
    nb = r.choice((1, 2, 3, 3, 4, 5))
    mt = r.choice((1, 1, 2, 3))
    return dict(dict(nb=nb, ib=r.randint(1, nb), mtpf=mt, threads=r.choice((1, 2, 4)), policy=r.choice((0, 1, 4)), imm=0 if mt > 1 else r.choice((0, 0, 50)), hi=6, oom=0, pz=r.choice((0, 0, .3))), **k)


def run(f):
    build.build()
    f.log('built')
    out, st = tlc.tlc('Alloc', 'SPECIFICATION FairSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "gen"\nCONSTANT N = %d\nINVARIANT Balanced NoSilence\nPROPERTY Finishes\n' % (4 if f.quick else 6), f.scratch, 'gen', heap='4g')
    if st['rc'] != 0:
        raise tlc.TlcError(out[-3000:])
    f.tlc(st)
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 11)
        cs = []
        for c in cases.gen(f.seed + 11, 8 if f.quick else 30):               # every allocation fails
            cs.append(dict(c, kind='oom', id='oom/' + c['id'], cfg=config(r, oom=2)))
        for c in cases.gen(f.seed + 12, 8 if f.quick else 30):               # ordinary calls, and calls with illegal arguments
            cs.append(dict(c, kind='plain', id='plain/' + c['id'], cfg=config(r)))
        for c in cases.gen(f.seed + 13, 8 if f.quick else 20):
            cs.append(dict(c, kind='bad', id='bad/' + c['id'], cfg=config(r, mut=r.randrange(1 << 30), nmut=6)))
        for fam in FAIL:                                                     # calls that fail numerically
            for p in FAIL[fam]['precs']:
                for s in range(30 if f.quick else 150):
                    cs.append(dict(kind='fail', id='fail/%s/%d/%s' % (fam, s, p), f=fam, p=p, seed=r.randrange(1 << 30), cfg=config(r)))
        r.shuffle(cs)
    res = cases.checked(pool.run(cs, fn, f.scratch))
    progs, by = [], {}
    plans = calls = 0
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['f'], r['status']), '%s: %s %s; cfg %s' % (c['id'], r['status'], r.get('text', ''), c['cfg']), c)
            continue
        for p in r['progs']:
            progs.append(dict(id=p['id'], ev=p['ev']))
            by[p['id']] = (c, p)
            plans += 'k' in p
        calls += len(r['progs'])
        for b in r['bad']:
            if b['ret'] < 0 and b['left'] > (b['op'] == 'gesdd' and b['ret'] == -108):      # the mutation made a legal call, which keeps T
                f.violation('leak:%s:illegal' % b['op'], '%s: %s(%s) returns %s and leaves %d blocks' % (c['id'], b['op'], ', '.join('%s=%s' % (k, b['a'][k]) for k in b['args']), b['ret'], b['left']), c)
    f.log('%d programs run, %d traces' % (len(cs), len(progs)))
    rej, st = tlc.validate('Alloc', progs, f.scratch, dict(Mode='"check"', N=0), costs=[len(p['ev']) for p in progs], view=None)
    f.tlc(st)
    for q in rej:
        c, p = by[q[0]]
        if len(q) < 3 or q[2] not in WHAT:
            raise RuntimeError('harness: %s' % q)
        e = p['ev'][int(q[1]) - 1]
        how = 'oom' if 'k' in p else c['kind']
        fault = 'allocation %d of %d fails%s: ' % (p['k'] + 1, p['of'], ' and all later ones' if p['mode'] else '') if 'k' in p else ''
        f.violation('%s:%s:%s' % (q[2], p['op'], how), '%s: %s%s; step %s: %s; return %s; cfg %s' % (q[0], fault, WHAT[q[2]], q[1], e, [x['v'] for x in p['ev'] if x['k'] == 'ret'], c['cfg']), c)
    f.traces += len(progs)
    f.cov['fault_plans'] = plans
    f.cov['calls'] = calls
    f.cov['refused_allocations'] = sum(x['k'] == 'nomem' for p in progs for x in p['ev'])
    f.cov['routines'] = sorted({by[p['id']][1]['op'] for p in progs})
    for p in progs[:2]:
        f.sample(dict(id=p['id'], steps=p['ev'][:8]))
    f.assume = ['allocations made by the OpenMP runtime, LAPACKE and BLAS do not fail', 'a block owned by a descriptor handed back to the caller is not a leak']
