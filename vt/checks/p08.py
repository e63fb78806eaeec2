"""P08: illegal arguments are refused by position without effect, legal calls (also empty ones) succeed (ApiArgs.tla, Contract.tla)."""
import json, random
import build, cases, pool, tlc
LEVEL = 'model_checking'
SKIP = ()
VOID = ('gbset',)                                # returns nothing: no way to refuse
RETT = ('geqrf', 'gelqf', 'gels', 'gesdd')       # return a descriptor with one allocation
WHAT = dict(accepted='an illegal argument is accepted', code='the wrong argument is reported', touched='an operand is touched although an argument is illegal',
            leak='memory is left behind', refused='a legal call is refused')


def fn_args(L, case):
    c = cases.execute(L, case, touch=True)
    ev = [dict((k, b[k]) for k in ('op', 'a', 'args', 'ret', 'int', 'touched', 'left')) for b in c.bad if b['op'] not in VOID]
    for e in ev:
        e['left'] -= 1 if e['op'] in RETT and e['ret'] in (0, -108) else 0      # the mutation made a legal call
    for e in c.events:
        left = e['left'] - (1 if e['op'] in RETT and e['ret'] in (0, -108) else 0)
        ev.append(dict(op=e['op'], a=e['a'], args=e['args'], ret=e['ret'], int=e['int'], touched=False, left=left))
        for k in ('tch', 'args', 'int', 'left', 'ops'):
            e.pop(k, None)
    return dict(prog=dict(id=case['id'], nb=c.cfg['nb'], ev=ev), con=dict(id=case['id'], q=c.q, mem=c.init, ev=c.events), cfg=c.cfg)


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 8)
        cs = cases.gen(f.seed + 8, 24 if f.quick else 120)
        for c in cs:
            nb = r.choice((1, 2, 3, 3, 4, 5))
            c['cfg'] = dict(nb=nb, ib=r.randint(1, nb), mtpf=1, threads=r.choice((1, 2)), policy=0, imm=0, mut=r.randrange(1 << 30), nmut=8, pz=r.choice((0, .2, .5)))
            if c['f'] in SKIP:
                c['cfg']['badonly'] = 1
    res = cases.checked(pool.run(cs, fn_args, f.scratch))
    done = []
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['f'], r['status']), '%s: %s %s; cfg %s' % (c['id'], r['status'], r.get('text', ''), c['cfg']), c)
            continue
        done.append((c, r))
    f.log('%d programs run' % len(done))
    by = {c['id']: (c, r) for c, r in done}
    for cx in (False, True):
        ps = [r['prog'] for c, r in done if (c['p'] in 'cz') == cx]
        if not ps:
            continue
        rej, st = tlc.validate('ApiArgs', ps, f.scratch, dict(Cx='TRUE' if cx else 'FALSE'), costs=[len(p['ev']) for p in ps], tag=str(cx), view=None)
        f.tlc(st)
        for q in rej:
            c, r = by[q[0]]
            if len(q) < 6:
                raise RuntimeError('harness: %s' % q)
            e = r['prog']['ev'][int(q[1]) - 1]
            bad = e['args'][int(q[4]) - 1] if q[4] != '0' else '-'
            f.violation('%s:%s:%s' % (q[3], q[2], bad), '%s: %s: %s(%s) returns %s, first illegal argument: %s %s' % (
                q[0], WHAT[q[3]], q[2], ', '.join('%s=%s' % (k, e['a'][k]) for k in e['args']), e['ret'], q[4], bad), c)
    f.log('arguments checked')
    rej, st = cases.contract([(c, r['con']) for c, r in done if r['con']['ev']], f.scratch)
    f.tlc(st)
    for q in rej:
        c, r = by[q[0]]
        f.violation('result:%s' % q[2], '%s: after refused calls, or for empty operands, the result of call %s (%s) is not what the documentation says; cfg %s' % (q[0], q[1], q[2], c['cfg']), c)
    f.traces += len(done)
    f.cov['calls_with_illegal_arguments'] = sum(len(r['prog']['ev']) - len(r['con']['ev']) for _, r in done)
    f.cov['legal_calls'] = sum(len(r['con']['ev']) for _, r in done)
    f.cov['legal_calls_with_an_empty_dimension'] = sum(any(e['a'].get(x) == 0 for x in ('m', 'n', 'k', 'nrhs')) for _, r in done for e in r['con']['ev'])
    f.cov['routines'] = sorted({e['op'] for _, r in done for e in r['prog']['ev']})
    for c, r in done[:2]:
        f.sample(dict(id=c['id'], calls=[dict(e, a={k: v for k, v in e['a'].items()}) for e in r['prog']['ev'][:3]]))
    f.assume = ['pointers and workspace descriptors are valid', 'the first illegal argument is the one with the smallest position']
