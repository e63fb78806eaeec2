"""Cases over the routine families: generation, execution, validation against Contract.tla."""
import json, os, random, zlib
import pool, tlc
from ctx import Ctx
from families import FAM


def seedof(*xs):
    return zlib.crc32(repr(xs).encode())


def gen(seed, per_family, fams=None, skip=(), cfg=None):
    """per_family programs per unit of weight and precision"""
    cases = []
    only = os.environ.get('VT_FAMS', '').split()       # development aid: a part of the families
    for f in fams or FAM:
        if only and f not in only:
            continue
        if f in skip:
            continue
        n = max(1, int(per_family * FAM[f]['weight']))
        for s in range(n):
            for p in FAM[f]['precs']:
                cases.append(dict(id='%s/%d/%s' % (f, s, p), f=f, seed=seedof(seed, f, s, p), p=p, cfg=cfg, strat=(seedof(seed, f, p) % 100000 + s, n)))
    random.Random(seed).shuffle(cases)
    return cases


def execute(L, case, rec=1, touch=False, junk='nan'):
    L.reset()
    c = Ctx(L, case['seed'], case['p'], FAM[case['f']]['q'], touch=touch, junk=junk)
    c.rec = rec
    c.strat = case.get('strat')
    c.setup(case.get('cfg'))
    FAM[case['f']]['f'](c)
    c.stop()
    for e in c.events:
        e.pop('raw', None)
    return c


def fn_contract(L, case):
    c = execute(L, case)
    return dict(prog=dict(id=case['id'], q=c.q, mem=c.init, ev=c.events), live=L.dll.vg_live(), cfg=c.cfg)


def describe(prog, cfg=None):
    return dict(cfg=cfg, calls=[dict(op=e['op'], a=e['a'], ret=e['ret']) for e in prog['ev']])


def contract(progs, scratch, tag='', njobs=8):
    """progs: list of (case, prog).  returns (rejects [(id, event, op)], stats)"""
    rej, tot = [], dict(generated=0, distinct=0)
    for cx in (False, True):
        ps = [p for c, p in progs if (c['p'] in 'cz') == cx]
        if not ps:
            continue
        r, st = tlc.validate('Contract', ps, scratch, dict(Cx='TRUE' if cx else 'FALSE'),
                             costs=[len(json.dumps(p)) for p in ps], tag='%s%d' % (tag, cx), njobs=njobs)
        rej += r
        for k in tot:
            tot[k] += st[k]
    return rej, tot


BAD = ('crash', 'abort', 'timeout')


def checked(res):
    """an exception inside the harness is an error of the check, not a verdict"""
    for r in res:
        if r is not None and r['status'] == 'exc':
            raise RuntimeError('harness: ' + r['text'])
        if r is not None and r['status'] == 'killed':
            raise RuntimeError('harness: worker killed')
    return res
