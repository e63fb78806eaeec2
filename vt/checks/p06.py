"""P06: the panel barrier refines Rendezvous.tla in every interleaving; factorisations with several threads in the panel
terminate, are free of races, do not depend on the schedule, and compute what Contract.tla says."""
import ctypes as C, json, os, random, re
import build, cases, pool, tlc
from checks import p01
LEVEL = 'model_checking'
FAMS = ('getrf', 'gesv', 'geinv', 'gbtrf', 'zcgesv', 'zcgbsv', 'getrfsing')


# ------------------------------------------------------------------ the barrier
def fn_explore(L, case):
    d = L.dll
    d.vg_barrier_explore.restype = d.vg_barrier_obs.restype = C.c_long
    d.vg_barrier_obsptr.restype = C.POINTER(C.c_int)
    if not d.vg_barrier_present():
        return dict(runs=0, obs=[])
    if case['kind'] == 'explore':
        runs = d.vg_barrier_explore(case['n'], case['k'], case['pre'], C.c_long(case['max']))
    else:
        for s in case['sched']:
            d.vg_barrier_replay(case['n'], case['k'], (C.c_int * len(s))(*s), len(s))
        runs = len(case['sched'])
    n = d.vg_barrier_obs()
    p = d.vg_barrier_obsptr()
    v, obs, i = p[:n], [], 0
    while i < n:
        obs.append(v[i + 1:i + 1 + v[i]])
        i += 1 + v[i]
    return dict(runs=runs, obs=obs)


def model(f):
    tot = 0
    for n, k in ((1, 3), (2, 4), (3, 3), (4, 2)) if f.quick else ((1, 5), (2, 8), (3, 6), (4, 4), (5, 3)):
        o, st = tlc.tlc('Barrier', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d K = %d Sim = FALSE\nINVARIANT Bounds\nPROPERTY Refines\nPROPERTY NobodyStuck\n' % (n, k),
                        f.scratch, 'bar%d' % n, workers=8, heap='10g')
        if st['rc']:
            raise tlc.TlcError(o[-2000:])
        f.tlc(st)
        tot += st['distinct']
    f.cov['barrier_model_states'] = tot


def schedules(f, n, k, num):
    o, st = tlc.tlc('Barrier', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d K = %d Sim = TRUE\n' % (n, k), f.scratch, 'sched%d%d' % (n, k),
                    args=['-simulate', 'num=%d' % num, '-depth', '2000', '-seed', str(f.seed)])
    if st['rc']:
        raise tlc.TlcError(o[-2000:])
    s = {tuple(int(x) - 1 for x in re.split(r',\s*', m.group(1).strip())) for m in re.finditer(r'<<"SCHED",\s*\d+,\s*\d+,\s*<<([\d,\s]*)>>\s*>>', o)}
    return [list(x) for x in sorted(s)]


def barrier(f, only=None):
    if only:
        cs = [only]
    else:
        model(f)
        f.log('barrier model checked')
        cs = []
        Q = [(1, 3, 2, 1000), (2, 2, 6, 60000), (2, 3, 4, 60000), (3, 2, 2, 60000), (3, 3, 1, 60000), (4, 2, 1, 60000), (5, 2, 0, 60000), (6, 1, 1, 60000)]
        if not f.quick:
            Q += [(2, 3, 6, 3000000), (3, 2, 3, 3000000), (3, 3, 2, 1000000), (4, 3, 1, 1000000), (8, 1, 1, 1000000)]
        for n, k, pre, mx in Q:
            cs.append(dict(kind='explore', n=n, k=k, pre=pre, max=mx))
        for n, k in ((2, 4), (3, 3), (4, 3), (6, 3), (8, 2)):
            ss = schedules(f, n, k, 150 if f.quick else 3000)
            for i in range(0, len(ss), 400):
                cs.append(dict(kind='replay', n=n, k=k, sched=ss[i:i + 400]))
    old, pool.CASE_TIMEOUT = pool.CASE_TIMEOUT, 120 if f.quick else 600
    res = cases.checked(pool.run(cs, fn_explore, f.scratch))
    pool.CASE_TIMEOUT = old
    progs = []
    for c, r in zip(cs, res):
        w = 'barrier with %d participants and %d phases' % (c['n'], c['k'])
        if r['status'] in cases.BAD:
            f.violation('barrier:stuck', '%s: %s %s' % (w, r['status'], r.get('text', '')), dict(kind='barrier', case=c))
            continue
        f.cov.setdefault('barrier_interleavings', []).append(dict(n=c['n'], k=c['k'], preemptions=c.get('pre', 'TLC schedules'), runs=abs(r['runs']), all=r['runs'] >= 0))
        f.traces += abs(r['runs'])
        for o in r['obs']:
            progs.append(dict(id=str(len(progs)), n=c['n'], k=c['k'], ev=[[x // 2, x & 1] for x in o], case=c))
    if progs:
        rej, st = tlc.validate('BarrierTrace', [{k: v for k, v in p.items() if k != 'case'} for p in progs], f.scratch, {}, expected=[len(p['ev']) + 2 for p in progs], view=None)
        f.tlc(st)
        for q in rej:
            p = progs[int(q[0])]
            f.violation('barrier:order', 'barrier with %d participants: %s at event %s of %s (participant, 0 enters / 1 leaves)' % (p['n'], q[2], q[1], p['ev']),
                        dict(kind='barrier', case=p['case']))
        f.cov['barrier_observations'] = len(progs)
        f.sample(dict(barrier=progs[len(progs) // 2]['ev']))
        f.log('%d observations of the real barrier validated' % len(progs))


# ------------------------------------------------------------------ panels
def gen(f):
    r = random.Random(f.seed + 5)
    out = []
    for c in cases.gen(f.seed, 14 if f.quick else 150, fams=[x for x in FAMS if x in cases.FAM]):
        nb = r.choice((1, 1, 2, 2, 3))
        mt = r.choice((2, 2, 3, 3, 4, 5, 6, 8))
        t = r.choice((1, 2, 3, 3, 4, 5, 6, 8, 9))
        c['cfg'] = dict(nb=nb, ib=r.randint(1, nb), hmode='Flat', mtpf=mt, threads=t, policy=r.choice((0, 1, 1, 1, 2, 4, 5)), seed=r.randrange(1 << 30), imm=0, hi=13)
        out.append(c)
    return out


def panels(f, only=None):
    if only and only['kind'] == 'sched':
        return scheds(f, [only['case']])
    cs = [only['case']] if only else gen(f)
    res = cases.checked(pool.run(cs, cases.fn_contract, f.scratch))
    done = []
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('panel:%s:%s' % (c['f'], r['status']), '%s with %d panel threads: %s %s; cfg %s' % (c['id'], c['cfg']['mtpf'], r['status'], r.get('text', ''), c['cfg']), dict(kind='run', case=c))
        else:
            done.append((c, r['prog']))
    rej, st = cases.contract(done, f.scratch)
    f.tlc(st)
    by = {c['id']: c for c, p in done}
    for q in rej:
        c = by[q[0]]
        f.violation('panel:%s:result' % q[2], '%s: the result of call %s (%s) with %d panel threads is not what the documentation says; cfg %s' % (q[0], q[1], q[2], c['cfg']['mtpf'], c['cfg']), dict(kind='run', case=c))
    f.traces += len(done)
    f.cov['programs_with_parallel_panel'] = len(done)
    f.log('%d programs checked' % len(done))
    tr = [dict(c, maxev=3500) for c in cs if c['p'] in ('zd' if f.quick else 'zdc')]
    viol, bad, ok, st = p01.races(f, tr)
    f.tlc(st)
    for c, r, q in viol:
        p01.report_race(f, c, r, q)
    f.traces += len(ok)
    f.cov['panel_traces_race_checked'] = len(ok)
    f.log('%d traces validated' % len(ok))
    if not only:
        r = random.Random(f.seed + 6)
        ss = []
        for c in cs:
            b = dict(c['cfg'], policy=0)
            ss.append(dict(c, base=b, variants=[dict(cfg=dict(b, policy=r.choice((1, 1, 2, 4, 5)), seed=r.randrange(1 << 30))) for _ in range(6 if f.quick else 20)]))
        scheds(f, ss)


def scheds(f, ss):
    n = 0
    for s, r in zip(ss, cases.checked(pool.run(ss, p01.fn_sched, f.scratch))):
        if r['status'] in cases.BAD:
            f.violation('panel:%s:%s' % (s['f'], r['status']), '%s under another schedule: %s %s; cfg %s' % (s['id'], r['status'], r.get('text', ''), s['base']), dict(kind='sched', case=s))
        elif r.get('what') == 'output':
            f.violation('panel:%s:schedule' % s['f'], '%s: the output differs between schedule %s and schedule %s' % (s['id'], s['base'], r['diff']),
                        dict(kind='sched', case=dict(s, variants=[r['diff']])))
        else:
            n += r['n']
    f.traces += n
    f.cov['panel_schedules_compared'] = n
    f.log('%d schedules compared' % n)


def inline(f, only=None):
    """tasks executed by their creator, as libgomp does when very many are ready"""
    cs = [only] if only else [dict(id='inline/%s' % fm, f=fm, seed=cases.seedof('inline', fm, k), p='d', cfg=dict(nb=1, ib=1, hmode='Flat', mtpf=2, threads=4, policy=0, seed=1, imm=100, hi=6))
                              for fm in ('getrf', 'gbtrf') for k in (1, 2)]
    for c, r in zip(cs, cases.checked(pool.run(cs, cases.fn_contract, f.scratch))):
        if r['status'] in cases.BAD:
            f.violation('inline:%s:%s' % (c['f'], 'hang' if r['status'] in ('abort', 'timeout') else r['status']),
                        '%s with tasks executed by their creator: %s %s' % (c['id'], r['status'], r.get('text', '')), dict(kind='inline', case=c))


def run(f):
    build.build()
    f.log('built')
    rc = json.load(open(f.replay))['case'] if f.replay else None
    if not rc or rc['kind'] == 'barrier':
        barrier(f, rc and rc['case'])
    if not rc or rc['kind'] in ('run', 'race', 'sched'):
        panels(f, rc)
    if not rc or rc['kind'] == 'inline':
        inline(f, rc and rc['case'])
    f.assume = ['memory accesses of the barrier are sequentially consistent (compiler and hardware reordering of the volatile phase counter is not modelled)',
                'interleavings beyond the stated numbers of preemptions are sampled']
