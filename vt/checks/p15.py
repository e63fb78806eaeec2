"""P15: the parameters of every call under tuning scripts (Tuning.tla)."""
import json, os, random
import numpy as np
import build, cases, pool, tlc
from ctx import rname
from plib import K, DT, RDT, PREC, Desc, ISC, CT
LEVEL = 'model_checking'
IB = ('gbtrf', 'geinv', 'gelqf', 'geqrf', 'getrf')
MT = ('gbtrf', 'geinv', 'getrf')
FUNS = ('gbmm gbtrf geadd geinv gelqf gemm geqrf geswp getrf hetrf lacpy lag2c lange lansy lantr lascl laset lauum pbtrf poinv potrf symm syr2k syrk '
        'tradd trmm trsm trtri').split()
OPS = ('gbmm gbsv gbtrf gbtrs geadd geinv gelqf gelqs gels gemm geqrf geqrs gesv geswp getrf getri getrs hemm her2k herk hesv hetrf hetrs lacpy lag2c lange '
       'lanhe lansy lantr lascl laset lauum pbsv pbtrf pbtrs poinv posv potrf potri potrs symm syr2k syrk tradd trmm trsm trtri unglq ungqr unmlq unmqr '
       'cgesv cposv cgbsv langb clag2z').split()
CXONLY = ('hemm', 'her2k', 'herk', 'lanhe')
BAND = ('gbmm', 'gbsv', 'gbtrf', 'gbtrs', 'cgbsv', 'langb', 'pbsv', 'pbtrf', 'pbtrs')
MIXED = ('cgesv', 'cposv', 'cgbsv', 'lag2c', 'clag2z')
KINDS = ('ok',) * 14 + ('missing', 'error', 'nil', 'neg', 'zero', 'string', 'numstr', 'half', 'huge', 'nan', 'table', 'big', 'inf', 'bool')
LD = 64
BODY = dict(ok='return v', error='error("no")', nil='return nil', neg='return -v', zero='return 0', string='return "x"', numstr='return tostring(v)', half='return v + 0.5', huge='return 1e18',
            nan='return 0/0', table='return {v}', big='return 2147483648', inf='return math.huge', bool='return true')


def script(r):
    s = {}
    clean = r.random() < .3
    for f in FUNS:
        for x in ('nb',) + (('ib',) if f in IB else ()) + (('mt',) if f in MT else ()):
            s[f + '_' + x] = dict(kind='ok' if clean else r.choice(KINDS), c=[r.randint(0, 9) for _ in range(7)], h=r.randint(0, 3), m={'nb': 12, 'ib': 6, 'mt': 3}[x])
    return s


def lua(s):
    out = []
    for k, d in s.items():
        f, x = k.rsplit('_', 1)
        if d['kind'] == 'missing':
            if d['c'][0] % 2:
                out.append('%s = 5' % name(f, x))
            continue
        out.append('function %s(type, threads, ...)\n  local a = {...}\n  local c = {%s}\n  local p = ({S=1, D=2, C=3, Z=4})[type]\n'
                   '  local v = c[1] + c[2]*p + %d*threads\n  for i = 1, #a do v = v + c[(1+i) %% %d + 1]*a[i] end\n  v = 1 + v %% %d\n  %s\nend' % (
                       name(f, x), ','.join(map(str, d['c'])), d['h'], len(d['c']), d['m'], BODY[d['kind']]))
    return '\n'.join(out) + '\n'


def name(f, x):
    return f + '_' + dict(nb='nb', ib='ib', mt='max_panel_threads')[x]


BADFILES = ('syntax', 'runtime', 'none', 'unset', 'directory')


def gen(r, quick):
    out = []
    todo = []
    rounds = 24 if quick else 150
    for _ in range(rounds):
        for o in OPS:
            for p in ('dz' if o in MIXED else 'cz' if o in CXONLY else 'sdcz'):
                todo.append((o, p))
    r.shuffle(todo)
    i = 0
    while i < len(todo):
        ev, scripts = [], []
        k = r.randint(1, 2)
        left = todo[i:i + r.choice((4, 8, 12))]
        i += len(left)
        per = -(-len(left) // k)
        for s in range(k):
            bad = r.choice(BADFILES) if r.random() < .12 else ''
            ship = not bad and r.random() < .08
            scripts.append(script(r))
            ev.append(dict(k='init', bad=bad, ship=ship, script=len(scripts), threads=r.randint(1, 4)))
            ev.append(dict(k='set', x='nb', v=r.randint(1, 12)))
            ev.append(dict(k='set', x='ib', v=r.randint(1, 6)))
            for o, p in left[s * per:(s + 1) * per]:
                if r.random() < .15:
                    ev.append(dict(k='set', x=r.choice(('nb', 'ib')), v=r.randint(1, 9)))
                if r.random() < .15:
                    ev.append(dict(k='set', x='mt', v=r.randint(1, 3)))
                if r.random() < .15:
                    ev.append(dict(k='tune', v=r.random() < .6))
                m, n, q = (r.randint(1, 11) for _ in range(3))
                up = r.choice(('Upper', 'Lower'))
                if o in ('ungqr', 'geqrs'):
                    m, n, q = sorted((m, n, q), reverse=True)
                if o in ('unglq', 'gelqs'):
                    n, m, q = sorted((m, n, q), reverse=True)
                side = r.choice(('Left', 'Right'))
                if o in ('unmqr', 'unmlq'):
                    q = min(q, m if side == 'Left' else n)
                if o in ('geinv', 'gbtrf'):
                    m = n
                if o in ('hetrf', 'hesv', 'hetrs'):
                    up = 'Lower'
                w = min(m, n, q, 5) if o == 'gbmm' else min(m, n, 5)
                kl, ku = r.randint(0, w - 1), r.randint(0, w - 1)
                ev.append(dict(k='call', op=o, p=p, seed=r.randrange(1 << 30), ship=ship, script=len(scripts),
                               args=dict(m=m, n=n, k=q, kl=kl, ku=ku, kd=kl, bw=kl + ku + 1, nrhs=r.randint(1, 5), uplo=up, side=side, cr=r.choice(('Rowwise', 'Columnwise')))))
            ev.append(dict(k='fin'))
        out.append(dict(id=str(len(out)), ev=ev, scripts=scripts, policy=r.choice((0, 1, 2)), seed=r.randrange(1 << 30)))
    return out


def value(S, f, x, p, op, threads, args, names, old):
    d = S.get(f + '_' + x, dict(kind='missing'))
    if d['kind'] not in ('ok', 'numstr', 'half'):
        return old
    c = d['c']
    q = {'d': 's', 'z': 'c'}[p] if op in ('cgesv', 'cposv') else p
    v = c[0] + c[1] * ' sdcz'.index(q) + d['h'] * threads
    for i, a in enumerate(names):
        v += c[(2 + i) % len(c)] * args[a]
    return 1 + v % d['m']


def buffers(L, p, o, seed):
    """named operands of one call"""
    g = np.random.default_rng(seed)
    return lambda key: (lambda h: (h + h.conj().T) / 8 + (3 if key == 'A' else 1) * np.eye(LD) * 4)(
        np.random.default_rng([seed, ord(key[0])]).integers(-3, 4, (LD, LD)) + (1j * np.random.default_rng([seed, 7, ord(key[0])]).integers(-3, 4, (LD, LD)) if p in 'cz' else 0))


def perform(L, e, T0, fac):
    """one call; T0: (nb, ib) of a T matrix that has to exist before; returns tasks, allocations and outputs"""
    o, p, a = e['op'], e['p'], e['args']
    B = buffers(L, p, o, e['seed'])
    arr = {}

    def mat(key, dt):
        V = B(key).astype(dt) if not np.issubdtype(dt, np.floating) else np.real(B(key)).astype(dt)
        q, v = L.array(LD * LD, dt)
        v[:] = V.reshape(-1)
        if o in ('pbtrf', 'pbtrs', 'pbsv') and key == 'A':
            v.reshape(LD, LD)[:, a['kd'] if a['uplo'] == 'Upper' else 0] = 100   # the diagonal
        arr[key] = v
        return q
    lowdt = DT[{'d': 's', 'z': 'c'}.get(p, p)]
    mem = {}
    prec = dict(s='s', d='d', c='c', z='z')[p]
    fn = 'plasma_' + (dict(d='ds', z='zc')[p] + o[1:] if o in ('cgesv', 'cposv', 'cgbsv') else dict(d='d', z='z')[p] + 'lag2' + dict(d='s', z='c')[p] if o == 'lag2c'
                      else dict(d='s', z='c')[p] + 'lag2' + p if o == 'clag2z' else rname('z' + o, p))
    args, T = [], None
    tr = K['NoTrans']
    for t, ptr, an in L.protos[fn][1]:
        if ptr:
            if an == 'T':
                T = Desc()
                args.append(T)
            elif t == 'int':
                q, v = L.array(LD, np.int32)
                v[:] = range(1, LD + 1)
                arr[an] = v
                mem[an] = q
                args.append(q)
            else:
                low = (o == 'lag2c' and an == 'pAs') or (o == 'clag2z' and an == 'pAs')
                key = {'pA': 'A', 'pAB': 'A', 'pB': 'B', 'pC': 'C', 'pX': 'X', 'pQ': 'Q', 'pT': 'T', 'pAs': 'S'}[an]
                mem[an] = mat(key, lowdt if low else DT[p])
                args.append(mem[an])
        elif an == 'T':
            args.append('T')
        elif t == 'int':
            args.append(LD if an.startswith('ld') else 1 if an == 'incx' else a[an])
        elif t == 'plasma_enum_t':
            args.append(K[dict(uplo=a['uplo'], side=a['side'], diag='Unit', norm='OneNorm', colrow=a['cr']).get(an, 'NoTrans')])
        else:
            args.append(2.0)
    if fac:
        old = [get(L, x) for x in ('nb', 'ib', 'mt')]
        on = get(L, 'Tuning')
        L.call('plasma_set', K['Tuning'], 0)
        for x, v in zip(('Nb', 'Ib', 'NumPanelThreads'), T0):
            L.call('plasma_set', K[x], v)
        m, n, k = a['m'], a['n'], a['k']
        if o in ('geqrs', 'ungqr', 'unmqr', 'gelqs', 'unglq', 'unmlq'):
            T = Desc()
            rows = {'geqrs': (m, n), 'ungqr': (m, k), 'unmqr': (m if a['side'] == 'Left' else n, k), 'gelqs': (m, n), 'unglq': (k, n), 'unmlq': (k, m if a['side'] == 'Left' else n)}[o]
            x = L.call('plasma_' + rname('zgeqrf' if o in ('geqrs', 'ungqr', 'unmqr') else 'zgelqf', p), rows[0], rows[1], mem['pA'], LD, T)
            assert x == 0, (x, e, T0)
        elif o == 'hetrs':
            L.call('plasma_' + rname('zhetrf', p), K['Lower'], n, mem['pA'], LD, mem['ipiv'], mem['pT'], LD, mem['ipiv2'])
        elif o == 'gbtrs':
            L.call('plasma_' + rname('zgbtrf', p), n, n, a['kl'], a['ku'], mem['pAB'], LD, mem['ipiv'])
        L.call('plasma_set', K['Tuning'], on)
        for x, v in zip(('Nb', 'Ib', 'NumPanelThreads'), old):
            L.call('plasma_set', K[x], v)
    args = [T if isinstance(x, str) else x for x in args]
    t0, a0 = L.dll.vg_ntasks(), L.dll.vg_allocs()
    ret = L.call(fn, *args)
    res = (L.dll.vg_ntasks() - t0, L.dll.vg_allocs() - a0, ret, [v.copy() for _, v in sorted(arr.items())])
    if T is not None and T.matrix:
        L.call('plasma_desc_destroy', T)
    return res


def get(L, x):
    import ctypes as C
    v = C.c_int(-1)
    L.call('plasma_get', K[dict(nb='Nb', ib='Ib', mt='NumPanelThreads').get(x, x)], v)
    return v.value


def fn(L, case):
    import ctypes as C
    L.reset()
    libc = C.CDLL(None)
    ev = []
    par = lambda: {x: get(L, x) for x in ('nb', 'ib', 'mt')}
    d = os.path.join(SCR, 'lua%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    on = usable = False
    threads = 1
    table = TABLE
    ships = 0
    for e in case['ev']:
        L.dll.vg_recycle()
        if ev and min(ev[-1].get('par', {'nb': 1}).values()) < 1:
            break                              # rejected already
        if e['k'] == 'init':
            L.dll.vg_config(e['threads'], case['policy'], case['seed'], 0)
            L.dll.vg_begin(0)
            threads = e['threads']
            p = os.path.join(d, 'a.lua')
            open(p, 'w').write(lua(case['scripts'][e['script'] - 1]) + dict(syntax='function (', runtime='error("x")').get(e['bad'], ''))
            if e['bad'] == 'none':
                os.unlink(p)
            if e['bad'] == 'directory':
                p = d
            if e['ship']:
                p = os.path.join(build.SRC, 'tuning/default.lua')
            if e['bad'] == 'unset':
                libc.unsetenv(b'PLASMA_TUNING_FILENAME')
            else:
                libc.setenv(b'PLASMA_TUNING_FILENAME', p.encode(), 1)
            L.call('plasma_init')
            usable, on = not e['bad'], True
            ev.append(dict(k='init', par=par(), on=bool(get(L, 'Tuning')), usable=usable, script=e['script']))
        elif e['k'] == 'set':
            L.call('plasma_set', K[dict(nb='Nb', ib='Ib', mt='NumPanelThreads')[e['x']]], e['v'])
            ev.append(dict(k='set', x=e['x'], v=e['v'], par=par()))
        elif e['k'] == 'tune':
            L.call('plasma_set', K['Tuning'], int(e['v']))
            on = e['v']
            ev.append(dict(k='tune', v=e['v'], par=par()))
        elif e['k'] == 'fin':
            L.call('plasma_finalize')
            ev.append(dict(k='fin', lua=L.dll.vg_lua()))
        elif e['ship']:                        # the script that comes with the library has a function for everything that is asked
            if e['op'] in ('langb', 'clag2z'):
                continue
            old = dict(nb=7, ib=3, mt=2)
            for x, v in old.items():
                L.call('plasma_set', K[dict(nb='Nb', ib='Ib', mt='NumPanelThreads')[x]], v)
            if not on:
                L.call('plasma_set', K['Tuning'], 1)
                on = True
                ev.append(dict(k='tune', v=True, par=ev[-1]['par']))
            if e['op'] in ('geqrs', 'ungqr', 'unmqr', 'gelqs', 'unglq', 'unmlq', 'hetrs', 'gbtrs', 'hesv', 'hetrf') or e['op'] in BAND:
                for x, v in ev[-1]['par'].items():
                    L.call('plasma_set', K[dict(nb='Nb', ib='Ib', mt='NumPanelThreads')[x]], v)
                continue                       # storage depends on the tile size
            perform(L, e, None, False)
            ev.append(dict(k='shipped', op=e['op'], p=e['p'], args=e['args'], old=old, par=par(), script=1))
        else:
            S = case['scripts'][e['script'] - 1]
            now = par()
            want = dict(now)
            row = table(e['op'], e['args'])
            if row and on and usable:
                f, names = row
                for x in ('nb',) + (('ib',) if f in IB else ()) + (('mt',) if f in MT else ()):
                    want[x] = value(S, f, x, e['p'], e['op'], threads, e['args'], names, now[x])
            fac = e['op'] in ('geqrs', 'ungqr', 'unmqr', 'gelqs', 'unglq', 'unmlq', 'hetrs', 'gbtrs')
            r1 = perform(L, e, (want['nb'], want['ib'], want['mt']), fac)
            after = par()
            L.call('plasma_set', K['Tuning'], 0)
            L.dll.vg_recycle()
            r2 = perform(L, e, (want['nb'], want['ib'], want['mt']), fac)
            same = r1[2] != 0 and r1[2] == r2[2] or r1[2] != r1[2] and r1[:2] == r2[:2] or r1[:3] == r2[:3] and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(r1[3], r2[3]))
            L.call('plasma_set', K['Tuning'], int(on))
            ev.append(dict(k='call', op=e['op'], p=e['p'], args=e['args'], threads=threads, par=after, used=bool(same), script=e['script'], want=want))
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return dict(prog=dict(id=case['id'], ev=ev, scripts=case['scripts']), viols=L.viols()[:2])


def TABLE(op, args):
    """only to prepare operands with the tile size the call will use; the verdict is Tuning.tla's"""
    mn, nn, n1, bw = ('m', 'n'), ('n', 'n'), ('n',), ('n', 'bw')
    return dict(gbtrs=('gbtrf', bw), gelqs=('gelqf', mn), geqrs=('geqrf', mn), ungqr=('geqrf', mn), unmqr=('geqrf', mn), unglq=('gelqf', mn),
                unmlq=('gelqf', mn), hetrs=('trsm', nn)).get(op)


SCR = None


def run(f):
    global SCR
    build.build()
    f.log('built')
    SCR = f.scratch
    out, st = tlc.tlc('Tuning', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Gen = TRUE\nINVARIANT Legal\nPROPERTY Quiet\n', f.scratch, 'gen', workers=4)
    if st['rc'] != 0:
        raise RuntimeError('harness: the model is wrong: ' + out[-2000:])
    f.tlc(st)
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        cs = gen(random.Random(f.seed + 15), f.quick)
    res = cases.checked(pool.run(cs, fn, f.scratch))
    done = []
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s' % r['status'], '%s: %s %s' % (c['id'], r['status'], r.get('text', '')), c)
            continue
        for v in r['viols']:
            f.violation('memory:%s:%s' % (v['kind'], v['where']), '%s: %s' % (c['id'], v), c)
        done.append((c, r))
    f.log('%d sessions' % len(done))
    ps = [r['prog'] for _, r in done]
    rej, st = tlc.validate('Tuning', ps, f.scratch, dict(Gen='FALSE'), costs=[len(p['ev']) for p in ps], view=None)
    f.tlc(st)
    by = {c['id']: (c, r) for c, r in done}
    for q in rej:
        c, r = by[q[0]]
        if len(q) < 4:
            raise RuntimeError('harness: %s' % q)
        e = r['prog']['ev'][int(q[1]) - 1]
        f.violation('%s:%s' % (q[2], q[3]), '%s event %s: %s of %s: %s; before %s' % (q[0], q[1], q[2], q[3], json.dumps(e)[:400], r['prog']['ev'][int(q[1]) - 2].get('par')), c)
    ev = [e for p in ps for e in p['ev']]
    f.traces += len(ps)
    calls = [e for e in ev if e['k'] == 'call']
    f.cov.update(sessions=len(ps), calls=len(calls), routines=sorted({e['op'] + ':' + e['p'] for e in calls}), unusable_scripts=sum(e['k'] == 'init' and not e['usable'] for e in ev),
                 calls_with_shipped_script=sum(e['k'] == 'shipped' for e in ev), kinds_of_answers=sorted(BODY))
    for e in calls[:3]:
        f.sample(e)
    f.assume = ['scripts have no side effects']
