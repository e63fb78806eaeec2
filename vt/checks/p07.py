"""P07: life cycle and parameters of the context (Context.tla)."""
import ctypes as C, json, random, re
import numpy as np
import build, cases, pool, tlc
from ctx import Ctx
from plib import K, Desc, Sequence, Request, Workspace
LEVEL = 'model_checking'
VOID = ('gbset',)                  # needs no context
PAR = dict(Tuning=K['Tuning'], Nb=K['Nb'], Ib=K['Ib'], NumPanelThreads=K['NumPanelThreads'], HouseholderMode=K['HouseholderMode'],
           InplaceOutplace=K['InplaceOutplace'], none=77)
WHAT = {'return': 'returns the wrong value', 'value': 'a parameter is not read back as it was set', 'params': 'the parameters after the call are not what the history says',
        'refused': 'a legal call fails', 'accepted': 'a call without an initialised library does not fail', 'touched': 'a call without an initialised library touches its operands',
        'leak': 'memory or Lua states are left after finalisation'}


def histories(f, maxlen, sim=0):
    a = ['-simulate', 'num=%d' % sim, '-depth', str(maxlen + 2), '-seed', str(f.seed)] if sim else []
    o, st = tlc.tlc('Context', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "gen"\nCONSTANT MaxLen = %d\nINVARIANT ParamsLegal\n%s' %
                    (maxlen, '' if sim else 'PROPERTY NoMemory\nPROPERTY OnlySet\n'), f.scratch, 'gen%d' % maxlen, workers=1 if sim else 4, heap='4g', args=a)
    if not sim and st['rc'] != 0:
        raise tlc.TlcError(o[-3000:])
    f.tlc(st)
    return [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"HIST", "(.*?)">>', o)]


def replay(L, case):
    """histories, one after the other, each followed by what ends it"""
    L.reset()
    c = Ctx(L, 1, 'd', 1)
    c.cfg = dict(threads=2)
    L.dll.vg_config(2, 0, 1, 0)
    M = [c.mat(x, c.ints(2, 2)) for x in 'ABC']
    L.dll.vg_begin(0)
    up = inpar = safe = False
    ev = []
    v = C.c_int()

    def do(e):
        nonlocal inpar, up, safe
        e = dict(e)
        op = e['op']
        if op == 'init':
            e['ret'] = L.call('plasma_init')
        elif op == 'fin':
            e['ret'] = L.call('plasma_finalize')
            e['live'] = L.dll.vg_live() + L.dll.vg_lua()
        elif op == 'set':
            e['ret'] = L.call('plasma_set', PAR[e['p']], e['v'])
        elif op == 'get':
            v.value = -12345
            e['ret'] = L.call('plasma_get', PAR[e['p']], v)
            e['val'] = v.value
        elif op == 'par':
            inpar = not inpar
            L.dll.vg_in_parallel(int(inpar))
            e['ret'] = 0
        elif op == 'call':
            a = (K['NoTrans'], K['NoTrans'], 2, 2, 2, 1.0, M[0], M[0].ld, M[1], M[1].ld, 0.0, M[2], M[2].ld)
            if safe and not up:
                e.update(ret=L.call('plasma_dgemm', *[x.p if hasattr(x, 'p') else x for x in a]), fatal=False)
                e['touched'] = any(m.touch.any() for m in M)
            elif not up:
                c.cfg['down'] = 1
                c.zcall('zgemm', *a)
                x = c.events.pop()
                e.update(ret=x['ret'], touched=x['touched'], fatal=x['fatal'] or False)
                if x['crash']:
                    e.update(ret=1)
                safe = not x['crash'] and not x['fatal']       # it returns: no need for another process
            else:
                c.cfg['down'] = 0
                c.zcall('zgemm', *a)
                e.update(ret=c.events.pop()['ret'], touched=True, fatal=False)
            for m in M:
                m.touch[:] = 0
        e['obs'] = c.params()
        up = e['obs']['Nb'] != -101
        ev.append(e)
    for h in case['hs']:
        for e in h:
            do(e)
        if inpar:
            do(dict(op='par'))
        if up:
            do(dict(op='fin'))
    return dict(prog=dict(id=case['id'], ev=ev))


def fn(L, case):
    """a program of calls, the parameters read after each call"""
    cfg = case['cfg']
    c = cases.execute(L, case, rec=0, touch=True)
    if cfg.get('down'):
        ev = [dict(op='init', ret=0, obs=dict(Tuning=1, Nb=256, Ib=64, NumPanelThreads=1, HouseholderMode=0)),
              dict(op='fin', ret=0, live=0, obs={k: -101 for k in PAR})] if cfg['down'] == 2 else []
        # the call is made in a child: its effect on the parameters of this process is none
        for e in c.events:
            if e['op'] not in VOID:
                ev.append(dict(op='call', name=e['op'], ret=int(e['ret']) if abs(e['ret']) < 1e6 else 1, touched=e['touched'], fatal=e['fatal'] if not e['crash'] else False, obs={k: -101 for k in PAR}))
                if e['crash']:
                    ev[-1]['ret'] = 1
    else:
        g = c.cfg
        now = dict(Tuning=1, Nb=256, Ib=64, NumPanelThreads=1, HouseholderMode=0)
        ev = [dict(op='init', ret=0, obs=dict(now))]
        for k, x in (('Tuning', 0), ('Nb', g['nb']), ('Ib', g['ib']), ('NumPanelThreads', g['mtpf']), ('HouseholderMode', K[g['hmode']])):
            now[k] = x
            ev.append(dict(op='set', p=k, v=x, ret=0, obs=dict(now)))
        for e in c.events:
            ev.append(dict(op='call', name=e['op'], ret=min(e['ret'], 0) if e['int'] else 0, touched=True, fatal=False, obs=e['obs']))
        ev.append(dict(op='fin', ret=0, live=c.lifelive + L.dll.vg_lua(), obs={k: -101 for k in PAR}))   # what calls leave behind: P11
    return dict(prog=dict(id=case['id'], ev=ev), cfg=c.cfg)


def fn_async(L, case):
    """asynchronous and descriptor routines without an initialised library"""
    L.reset()
    c = Ctx(L, 1, 'd', 1)
    L.dll.vg_config(2, 0, 1, 0)
    if case['after']:
        L.call('plasma_init')
        L.call('plasma_finalize')
    m = c.mat('A', c.ints(8, 8))
    ret, proto = L.protos[case['name']]
    seq, req = Sequence(), Request()
    args = []
    for t, ptr, an in proto:
        if t == 'plasma_sequence_t':
            args.append(seq)
        elif t == 'plasma_request_t':
            args.append(req)
        elif t == 'plasma_desc_t':
            d = Desc()
            args.append(d)
        elif t == 'plasma_workspace_t':
            args.append(Workspace())
        elif ptr:
            args.append(m.p)
        else:
            args.append(0)
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        m.touch[:] = 0
        L.dll.vg_begin(0)
        rv = L.call(case['name'], *args)
        # a void routine reports through the request
        os.write(w, json.dumps(dict(ret=int(rv) if ret == 'int' else (-101 if req.status and seq.status else 0), touched=bool(m.touch.any()))).encode())
        os._exit(99)
    os.close(w)
    d = os.read(r, 4096)
    _, st = os.waitpid(pid, 0)
    e = dict(op='call', name=case['name'], obs={k: -101 for k in PAR}, fatal=not d and os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 99))
    e.update(json.loads(d) if d else dict(ret=1, touched=False))
    if os.WIFSIGNALED(st):
        e['ret'] = 1
    return dict(prog=dict(id=case['id'], ev=[e]))


def any_fn(L, case):
    return dict(replay=replay, prog=fn, asy=fn_async)[case['kind']](L, case)


def run(f):
    build.build()
    f.log('built')
    if f.replay:
        cs = [json.load(open(f.replay))['case']]
    else:
        r = random.Random(f.seed + 7)
        hs = histories(f, 3)
        f.cov['histories_of_length_3'] = len(hs)
        long = histories(f, 40, 400 if f.quick else 6000)
        f.cov['simulated_histories_of_length_40'] = len(long)
        f.log('%d histories generated' % (len(hs) + len(long)))
        hs += long
        n = 400
        cs = [dict(kind='replay', id='hist/%d' % k, hs=hs[k::n]) for k in range(n)]
        for k, c in enumerate(cases.gen(f.seed + 7, 6 if f.quick else 40)):
            nb = r.choice((1, 2, 3, 5, 8))
            c['kind'] = 'prog'
            mt = r.choice((1, 1, 2, 3, 4, 6))
            c['cfg'] = dict(obs=1, nb=nb, ib=r.choice((r.randint(1, nb), r.randint(1, nb), nb + r.randint(1, 4))), threads=r.choice((1, 3, 8)), imm=0, mtpf=mt)
            cs.append(c)
        for k, c in enumerate(cases.gen(f.seed + 8, 4 if f.quick else 10)):
            c['kind'] = 'prog'
            c['id'] = 'down/' + c['id']
            c['cfg'] = dict(down=1 + k % 2, mtpf=1)
            cs.append(c)
        from plib import parse_headers
        import os
        protos = parse_headers(os.path.join(build.SRC, 'include'))
        for nme, (ret, pr) in sorted(protos.items()):
            if nme.startswith('plasma_omp_'):
                for a in (0, 1):
                    cs.append(dict(kind='asy', id='%s/%d' % (nme, a), name=nme, after=a))
    res = cases.checked(pool.run(cs, any_fn, f.scratch))
    done = []
    for c, r in zip(cs, res):
        if r['status'] in cases.BAD:
            f.violation('run:%s:%s' % (c.get('f', c['kind']), r['status']), '%s: %s %s' % (c['id'], r['status'], r.get('text', '')), c)
            continue
        done.append((c, r))
    f.log('%d programs run' % len(done))
    by = {c['id']: (c, r) for c, r in done}
    rej, st = tlc.validate('Context', [r['prog'] for c, r in done], f.scratch, dict(Mode='"check"', MaxLen=0), costs=[len(r['prog']['ev']) for c, r in done], view=None)
    f.tlc(st)
    for q in rej:
        c, r = by[q[0]]
        e = r['prog']['ev'][int(q[1]) - 1]
        if len(q) < 5 or q[3] not in WHAT:
            raise RuntimeError('harness: %s' % q)
        f.violation('%s:%s:%s' % (q[3], q[2], e.get('name', e.get('p', ''))), '%s: step %s %s: %s; history: %s' % (
            q[0], q[1], {k: e[k] for k in e if k != 'obs'}, WHAT[q[3]], [{k: x[k] for k in x if k != 'obs'} for x in r['prog']['ev'][max(0, int(q[1]) - 6):int(q[1])]] + [e['obs']]), c)
    f.traces += len(done)
    f.cov['steps'] = sum(len(r['prog']['ev']) for _, r in done)
    f.cov['routines_called'] = len({e.get('name') for _, r in done for e in r['prog']['ev']})
    for c, r in done[:2]:
        f.sample(dict(id=c['id'], steps=r['prog']['ev'][:3]))
    f.assume = ['one thread uses the library', 'void routines report through their request', 'a routine may end the process with a fatal error when the library is not initialised',
                'being inside a parallel region is simulated by the OpenMP runtime of the harness']
