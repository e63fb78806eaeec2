"""P01: task graphs are race free and the schedule does not matter (OmpTrace.tla, OmpTask.tla)."""
import hashlib, json, os, random, re, shutil
import build, cases, pool, tlc, omptrace
from families import FAM
LEVEL = 'model_checking'
SKIP = ()
TREE = ('geqrf', 'gelqf', 'gels', 'geqrs', 'hetrf', 'stevx2')       # operation lists depend on the number of threads
MAXEV = 1500


def gen(f):
    r = random.Random(f.seed)
    cs = cases.gen(f.seed, 20 if f.quick else 80, skip=SKIP)
    out = []
    for c in cs:
        if c['p'] not in ('z', 'd') and f.quick or c['p'] == 's':
            continue
        nb = r.choice((1, 2, 2, 2, 3, 3, 4))
        t = r.choice((1, 2, 3, 4))
        mt = r.choice((1, 1, 2, 3))
        c['cfg'] = dict(nb=nb, ib=r.randint(1, nb), hmode=r.choice(('Flat', 'Tree')), mtpf=mt, threads=t, policy=r.choice((0, 1, 1, 2, 4, 5)),
                        seed=r.randrange(1 << 30), imm=0 if mt > 1 else r.choice((0, 0, 30)))
        out.append(c)
    return out


def fn_trace(L, case):
    c = cases.execute(L, case)
    p, st, ad = omptrace.trace(L, case['id'], case['f'] == 'stevx2')
    if len(p['ev']) > case.get('maxev', MAXEV):
        return dict(prog=None)
    return dict(prog=p, fn={str(t): L.taskfn(t) for t in set(st.values())}, seg={str(s): t for s, t in st.items()},
                addr={'%d,%d' % k: L.where(v) for k, v in ad.items()})


def digest(c):
    h = hashlib.sha256()
    for e in c.events:
        h.update(repr((e['op'], e['ret'], e.get('iter'))).encode())
    for m in c.mats:
        h.update(m.buf.tobytes())
    return h.hexdigest()[:16]


def run_cfg(L, case, cfg, order=None, rec=0):
    c = dict(case, cfg=cfg)
    if order is None:
        return cases.execute(L, c, rec=rec)
    L.reset()
    from ctx import Ctx
    x = Ctx(L, c['seed'], c['p'], FAM[c['f']]['q'])
    x.rec = rec
    x.strat = c.get('strat')
    x.setup(cfg)
    L.order(order)
    FAM[c['f']]['f'](x)
    x.stop()
    return x


def fn_sched(L, case):
    """same program under several schedules"""
    base = digest(run_cfg(L, case, case['base']))
    for v in case['variants']:
        d = digest(run_cfg(L, case, v['cfg'], v.get('order')))
        if v.get('order') is not None:
            s = [e[1] for e in L.events().tolist() if omptrace.N[e[0]] == 'START']
            if s != v['order']:
                return dict(diff=v, what='replay', got=s)
        if d != base:
            return dict(diff=v, what='output')
    return dict(n=len(case['variants']))


def fn_graph(L, case):
    run_cfg(L, case, case['base'], rec=1)
    return dict(g=omptrace.graph(L, case['id']))


def races(f, cs, tag=''):
    """trace validation; list of (case, result, reject)"""
    res = cases.checked(pool.run(cs, fn_trace, f.scratch))
    ok = [(c, r) for c, r in zip(cs, res) if r['status'] == 'ok' and r['prog']]
    rej, st = tlc.validate('OmpTrace', [r['prog'] for _, r in ok], f.scratch, {},
                           costs=[len(r['prog']['ev']) * (50 + r['prog']['nt']) for _, r in ok], tag=tag, heap='2500m')
    by = {c['id']: (c, r) for c, r in ok}
    out = []
    for q in rej:
        if len(q) < 5 or q[2] != 'RACE':
            raise RuntimeError('harness: the recorded run is not an OpenMP behaviour: %s' % q)
        out.append(by[q[0]] + (q,))
    bad = [(c, r) for c, r in zip(cs, res) if r['status'] in cases.BAD]
    return out, bad, ok, st


def report_race(f, c, r, q):
    y, x = q[3], q[4]
    a, b = r['fn'][str(r['seg'][x])], r['fn'][str(r['seg'][y])]
    f.violation('race:%s:%s|%s' % (c['f'], a, b),
                '%s: tasks of %s and %s touch %s, at least one writes it, and neither a dependence nor a synchronisation orders them; cfg %s' % (
                    c['id'], a, b, r['addr'].get('%s,%s' % (x, y)), c['cfg']), dict(kind='race', case=c))


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        rc = json.load(open(f.replay))['case']
        cs = [rc['case']]
    else:
        cs = gen(f)
    # ---- every recorded run is a behaviour of OmpTrace without a race
    if not f.replay or rc['kind'] == 'race':
        viol, bad, ok, st = races(f, cs)
        f.tlc(st)
        f.traces += len(ok)
        f.log('%d traces validated' % len(ok))
        for c, r, q in viol:
            report_race(f, c, r, q)
        for c, r in bad:
            f.violation('hang:%s:%s' % (c['f'], r['status']), '%s %s %s cfg %s' % (c['id'], r['status'], r.get('text', ''), c['cfg']), dict(kind='race', case=c))
        f.cov['recorded_events'] = sum(len(r['prog']['ev']) for _, r in ok)
        f.cov['recorded_tasks'] = sum(r['prog']['nt'] for _, r in ok)
        f.cov['task_functions'] = sorted({n for _, r in ok for n in r['fn'].values()})
        for c, r in ok[:2]:
            f.sample(dict(case=c['id'], cfg=c['cfg'], first_events=r['prog']['ev'][:25]))
    if f.replay and rc['kind'] == 'race':
        return
    # ---- schedules
    if not f.replay:
        rnd = random.Random(f.seed + 1)
        sched = []
        for c in cs:
            g = c['cfg']
            one = rnd.random() < .5
            b = dict(g, threads=1, policy=0, imm=0) if one else dict(g, policy=0, imm=0, threads=max(2, g['threads']))
            fixed = c['f'] in TREE or g['mtpf'] > 1
            vs = []
            for k in range(5 if f.quick else 12):
                vs.append(dict(cfg=dict(b, threads=b['threads'] if fixed else rnd.choice((1, 2, 3, 4, 6)), policy=rnd.choice((1, 1, 2, 4, 5)),
                                        seed=rnd.randrange(1 << 30), imm=0 if g['mtpf'] > 1 else rnd.choice((0, 0, 50)))))
            sched.append(dict(c, base=b, variants=vs, one=one))
        res = cases.checked(pool.run([s for s in sched if s['one']], fn_graph, f.scratch))
        graphs = {}
        for s, r in zip([s for s in sched if s['one']], res):
            if r['status'] == 'ok' and r['g'] and 2 <= r['g']['n'] <= 150:
                graphs[s['id']] = r['g']
        f.log('%d task graphs' % len(graphs))
        ords = orders(f, list(graphs.values()), 1200 if f.quick else 12000)
        n = 0
        for s in sched:
            for o in ords.get(s['id'], []):
                s['variants'].append(dict(cfg=dict(s['base'], policy=3), order=[graphs[s['id']]['ids'][x - 1] for x in o]))
                n += 1
        f.log('%d schedules generated by TLC' % n)
        f.cov['tlc_generated_schedules_replayed'] = n
        small(f, [g for g in graphs.values() if g['n'] <= (9 if f.quick else 12)])
    else:
        sched = [rc['case']]
    res = cases.checked(pool.run(sched, fn_sched, f.scratch))
    nv = 0
    for s, r in zip(sched, res):
        if r['status'] in cases.BAD:
            f.violation('hang:%s:%s' % (s['f'], r['status']), '%s under another schedule: %s %s; cfg %s' % (s['id'], r['status'], r.get('text', ''), s['base']), dict(kind='sched', case=s))
        elif r.get('what') == 'replay':
            raise RuntimeError('harness: schedule not reproduced %s %s' % (s['id'], r))
        elif r.get('what') == 'output':
            f.violation('schedule:%s' % s['f'], '%s: the output differs between schedule %s and schedule %s' % (s['id'], s['base'], r['diff']),
                        dict(kind='sched', case=dict(s, variants=[r['diff']])))
        else:
            nv += r['n']
    f.traces += nv
    f.cov['schedules_compared'] = nv
    f.log('%d schedules compared' % nv)
    f.assume = ['OpenMP tasks are tied; explicit order is what OpenMP 4.5 dependences, taskwait, taskgroup and barriers give',
                'BLAS and LAPACK calls touch what their documentation says (footprints in vgblas.cpp)',
                'sequence and request status objects are excluded from race checking (PLASMA documents concurrent failure setting)']


def orders(f, gs, num):
    """random behaviours of OmpTask in simulation mode: id -> list of task orders"""
    if not gs:
        return {}
    out = {}
    from concurrent.futures import ThreadPoolExecutor
    k = 8

    def job(i):
        part = gs[i::k]
        if not part:
            return ''
        p = os.path.join(f.scratch, 'graphs%d.ndjson' % i)
        with open(p, 'w') as fo:
            for g in part:
                fo.write(json.dumps(g) + '\n')
        o, st = tlc.tlc('OmpTask', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT OneThread = TRUE\n', f.scratch, 'sim%d' % i, env=dict(TRACE=p),
                        args=['-simulate', 'num=%d' % max(2, num // k), '-depth', '1000', '-seed', str(f.seed * 100 + i)])
        if st['rc'] != 0:
            raise tlc.TlcError('simulation: ' + o[-2000:])
        return o
    with ThreadPoolExecutor(k) as ex:
        for o in ex.map(job, range(k)):
            for m in re.finditer(r'<<"ORDER", "([^"]*)", <<(.*?)>>\s*>>', o, re.S):
                out.setdefault(m.group(1), []).append([int(x) for x in m.group(2).split(',')])
    # at most 6 distinct orders per graph
    return {i: [list(x) for x in sorted(set(map(tuple, v)))][:6] for i, v in out.items()}


def small(f, gs):
    """all interleavings of the small graphs"""
    seen, uniq = set(), []
    for g in gs:
        k = json.dumps([g['body'], g['conf']])
        if k not in seen:
            seen.add(k)
            uniq.append(g)
    if not uniq:
        return
    p = os.path.join(f.scratch, 'small.ndjson')
    with open(p, 'w') as fo:
        for g in uniq:
            fo.write(json.dumps(g) + '\n')
    o, st = tlc.tlc('OmpTask', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT OneThread = FALSE\nINVARIANT RaceFree\nINVARIANT NoDeadlock\n', f.scratch, 'small',
                    env=dict(TRACE=p), workers=8, heap='6g', args=['-continue'])
    f.tlc(st)
    f.cov['graphs_checked_exhaustively'] = len(uniq)
    f.cov['states_of_exhaustive_graphs'] = st['distinct']
    f.log('%d small graphs, %d states' % (len(uniq), st['distinct']))
    if st['rc'] not in (0, 12):
        raise tlc.TlcError(o[-2000:])
    for inv in set(re.findall(r'Invariant (\w+) is violated', o)):
        ids = sorted({uniq[int(x) - 1]['id'] for x in re.findall(r'/\\ pi = (\d+)', o)})
        f.violation('graph:%s:%s' % (inv, ids[0].split('/')[0] if ids else '?'), 'a reachable state of the task graph of %s violates %s' % (ids[:3], inv), dict(kind='sched', case=None))
