"""P05: the operation lists of the elimination trees are behaviours of Tree.tla that end complete, and the
factorisations that use trees (generated by the library, or by the specification) compute what is documented."""
import ctypes as C, json, os, random, re
import build, cases, pool, tlc
from plib import Request, Sequence
LEVEL = 'model_checking'
GENS = [('plasma_tree_flat_ts', 0), ('plasma_tree_flat_tt', 0), ('plasma_tree_binary', 0), ('plasma_tree_greedy', 0),
        ('plasma_tree_auto', 1), ('plasma_tree_block_greedy', 1)]
FAMS = ('geqrf', 'gelqf', 'gels', 'geqrs')


def one_list(L, gen, mt, nt, cores):
    seq, req = Sequence(), Request()
    L.dll.plasma_sequence_init(C.byref(seq))
    L.dll.plasma_request_init(C.byref(req))
    ops, n = C.c_void_p(None), C.c_int(0)
    if gen is None:
        L.dll.vg_fake_threads(cores)
        L.dll.plasma_tree_operations(mt, nt, C.byref(ops), C.byref(n), C.byref(seq), C.byref(req))
        L.dll.vg_fake_threads(0)
    else:
        f = getattr(L.dll, gen)
        a = [mt, nt, C.byref(ops), C.byref(n)] + ([cores] if dict(GENS)[gen] else []) + [C.byref(seq), C.byref(req)]
        f(*a)
    v = [int(x) for x in (C.c_int * (4 * n.value)).from_address(ops.value)] if n.value > 0 and ops.value else []
    return seq.status or req.status, [v[i:i + 4] for i in range(0, len(v), 4)]


def fn_lists(L, case):
    """one generator, one grid, several core counts"""
    out = []
    L.reset()
    L.dll.vg_config(1, 0, 1, 0)
    L.dll.vg_begin(1)
    seen = {}
    for cores in case['cores']:
        if case['gen'] and not hasattr(L.dll, case['gen']):
            break
        st, ops = one_list(L, case['gen'], case['mt'], case['nt'], cores)
        k = json.dumps([st, ops])
        if k not in seen:
            seen[k] = len(out)
            out.append(dict(st=st, ops=ops, cores=[cores]))
        else:
            out[seen[k]]['cores'].append(cores)
    return dict(lists=out, viols=[v for v in L.viols()][:3])


def fn_run(L, case):
    for mt, nt, ops in case.get('trees', []):
        flat = [x for o in ops for x in o]
        L.dll.vg_tree_set(mt, nt, (C.c_int * len(flat))(*flat), len(ops))
    c = cases.execute(L, case)
    return dict(prog=dict(id=case['id'], q=c.q, mem=c.init, ev=c.events), cfg=c.cfg, used=L.dll.vg_tree_used(), calls=L.dll.vg_tree_calls())


def model(f):
    """the kernel rules themselves: no legal prefix is a dead end, rows pass the panels in order"""
    n = 4 if f.quick else 5
    o, st = tlc.tlc('Tree', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "gen"\nCONSTANT MaxT = %d\nINVARIANT NoDeadEnd\nINVARIANT Sound\n' % n,
                    f.scratch, 'gen', workers=8, heap='8g')
    if st['rc']:
        raise tlc.TlcError(o[-2000:])
    f.tlc(st)
    f.cov['model_states'] = st['distinct']


def legal_trees(f, num, maxt):
    """random legal trees from simulation of Tree.tla"""
    out = {}
    o, st = tlc.tlc('Tree', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "sim"\nCONSTANT MaxT = %d\n' % maxt, f.scratch, 'simt',
                    args=['-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(f.seed)])
    if st['rc']:
        raise tlc.TlcError(o[-2000:])
    for m in re.finditer(r'"LIST",\s*(\d+),\s*(\d+),([-<>,\d\s]*)', o):
        ops = [[int(x) for x in q.split(',')] for q in re.findall(r'<<\s*([-\d, \n]+?)\s*>>', m.group(3))]
        out.setdefault((int(m.group(1)), int(m.group(2))), []).append(ops)
    return out


def run(f):
    build.build()
    f.log('built')
    rnd = random.Random(f.seed)
    if f.replay:
        rc = json.load(open(f.replay))['case']
        lc = [rc['case']] if rc['kind'] == 'list' else []
        fc = [rc['case']] if rc['kind'] == 'run' else []
    else:
        model(f)
        f.log('model')
        N, CMAX = (8, 24) if f.quick else (14, 64)
        lc = [dict(gen=None, mt=m, nt=n, cores=list(range(1, CMAX + 1)) + [48, 64, 128, 1000]) for m in range(1, N + 1) for n in range(1, N + 1)]
        lc += [dict(gen=g, mt=m, nt=n, cores=list(range(1, 13)) if p else [1]) for g, p in GENS for m in range(1, N) for n in range(1, N)]
        for _ in range(40 if f.quick else 400):
            m, n = (rnd.randint(1, 60), rnd.randint(1, 8)) if rnd.random() < .6 else (rnd.randint(1, 20), rnd.randint(1, 20))
            lc.append(dict(gen=None, mt=m, nt=n, cores=sorted({rnd.choice((1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 100, 128)) for _ in range(4)})))
        per = 40 if f.quick else 400
        fc = []
        for c in cases.gen(f.seed, per, fams=FAMS):
            fc.append(dict(c, cfg=dict(hmode='Tree', threads=rnd.choice((1, 2, 3, 4, 5, 6, 8, 12, 16)), nb=rnd.choice((1, 1, 2, 2, 3)))))
        for c in fc:
            c['cfg']['ib'] = rnd.randint(1, c['cfg']['nb'])
        # trees of the specification replayed in the real factorisations
        trees = legal_trees(f, 400 if f.quick else 6000, 5 if f.quick else 9)
        f.log('%d grids with generated trees' % len(trees))
        f.cov['trees_generated_by_tlc'] = sum(map(len, trees.values()))
        for c in cases.gen(f.seed + 77, per // 2, fams=FAMS):
            c['id'] = 'gen/' + c['id']
            nb = rnd.choice((2, 2, 3))
            fc.append(dict(c, cfg=dict(hmode='Tree', nb=nb, ib=rnd.randint(1, nb), threads=rnd.choice((1, 2, 4))),
                           trees=[[m, n, rnd.choice(v)] for (m, n), v in trees.items() if n <= m]))
    # ---- lists
    res = cases.checked(pool.run(lc, fn_lists, f.scratch))
    progs, meta = [], {}
    for c, r in zip(lc, res):
        name = (c['gen'] or 'plasma_tree_operations')
        tag = '%s(mt=%d, nt=%d)' % (name, c['mt'], c['nt'])
        if r['status'] in cases.BAD:
            f.violation('list:%s:%s' % (name, r['status']), '%s: %s' % (tag, r.get('text', r['status'])), dict(kind='list', case=c))
            continue
        if r['viols']:
            f.violation('list:%s:memory' % name, '%s: %s' % (tag, r['viols'][0]), dict(kind='list', case=c))
        for q in r['lists']:
            i = 'L%d' % len(progs)
            if q['st']:
                f.violation('list:%s:status' % name, '%s with %s cores reports status %s' % (tag, q['cores'][:5], q['st']), dict(kind='list', case=c))
            meta[i] = (name, tag, q, c)
            progs.append(dict(id=i, mt=c['mt'], nt=c['nt'], ops=q['ops']))
    strip = progs

    if strip:
        rej, st = check_lists(f, strip)
        f.tlc(st)
        for r in rej:
            name, tag, q, c = meta[r[0]]
            what = 'operation %s %s is not legal' % (r[1], ','.join(r[3:])) if r[2] == 'illegal' else 'the list ends before every panel is reduced to its diagonal tile'
            f.violation('list:%s:%s' % (name, r[2]), '%s with %s cores: %s; list %s' % (tag, q['cores'][:5], what, q['ops'][:60]), dict(kind='list', case=c))
        f.traces += len(strip)
        f.cov['lists_validated'] = len(strip)
        f.cov['lists_generated'] = sum(len(q['cores']) for _, _, q, _ in meta.values())
        f.sample(strip[len(strip) // 2])
        f.log('%d lists validated' % len(strip))
    # ---- factorisations
    res = cases.checked(pool.run(fc, fn_run, f.scratch))
    done = [(c, r['prog']) for c, r in zip(fc, res) if r['status'] == 'ok']
    for c, r in zip(fc, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c['f'], r['status']), '%s %s %s cfg %s' % (c['id'], r['status'], r.get('text', ''), c['cfg']), dict(kind='run', case=c))
    rej, st = cases.contract(done, f.scratch)
    f.tlc(st)
    by = {c['id']: (c, p) for c, p in done}
    for r in rej:
        c, p = by[r[0]]
        f.violation('run:%s' % r[2], '%s: the result of call %s (%s) is not what the documentation says; cfg %s' % (r[0], r[1], r[2], c['cfg']), dict(kind='run', case=c))
    f.traces += len(done)
    f.cov['factorisations'] = len(done)
    f.cov['calls_with_trees_of_the_specification'] = sum(r.get('used', 0) for r in res)
    for c, p in done[:1]:
        f.sample(dict(cfg=c['cfg'], run=cases.describe(p)))
    f.assume = ['tile grids up to %s and %s random larger ones' % ('8x8' if f.quick else '14x14', '40' if f.quick else '400')]


def check_lists(f, ps):
    """like tlc.validate, but a rejected list has fewer states"""
    import concurrent.futures as cf
    k = 8
    bins = [ps[i::k] for i in range(k)]

    def job(i):
        if not bins[i]:
            return [], dict(generated=0, distinct=0)
        p = os.path.join(f.scratch, 'tree%d.ndjson' % i)
        with open(p, 'w') as fo:
            for x in bins[i]:
                fo.write(json.dumps(x) + '\n')
        o, st = tlc.tlc('Tree', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Sound\nCONSTANT Mode = "check"\nCONSTANT MaxT = 1\n', f.scratch, 'tree%d' % i,
                        env=dict(TRACE=p))
        rej = tlc.rejects(o)
        low = sum(len(x['ops']) + 2 for x in bins[i]) - st['distinct']
        if st['rc'] or (low and not rej) or low < 0:
            raise tlc.TlcError('tree %s %s\n%s' % (st, low, o[-3000:]))
        return rej, st
    with cf.ThreadPoolExecutor(k) as ex:
        rs = list(ex.map(job, range(k)))
    return [x for r, _ in rs for x in r], dict(generated=sum(s['generated'] for _, s in rs), distinct=sum(s['distinct'] for _, s in rs))
