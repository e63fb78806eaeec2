"""Runs TLC on trace specifications over chunks of recorded programs."""
import json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = ':'.join(['/opt/veriftools/tla/tla2tools.jar'] + [os.path.join('/opt/veriftools/tla', f) for f in
               sorted(os.listdir('/opt/veriftools/tla')) if f.endswith('.jar') and f != 'tla2tools.jar'])


class TlcError(Exception):
    pass


def tlc(module, cfg, scratch, tag, env=None, args=(), heap='1500m', timeout=800, workers=1):
    """one TLC run; returns (stdout, dict(generated, distinct))"""
    d = os.path.join(scratch, 'tlc_' + tag)
    os.makedirs(d, exist_ok=True)
    cf = os.path.join(d, module + '.cfg')
    with open(cf, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + heap, '-XX:TieredStopAtLevel=4', '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC',
           '-config', cf, '-metadir', os.path.join(d, 'states'), '-workers', str(workers), '-lncheck', 'final', '-noGenerateSpecTE'] + list(args) + [
           os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired as x:
        raise TlcError('TLC timeout in %s' % tag)
    out = r.stdout.decode(errors='replace')
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    st = dict(generated=int(m[-1][0].replace(',', '')), distinct=int(m[-1][1].replace(',', ''))) if m else dict(generated=0, distinct=0)
    st['rc'] = r.returncode
    return out, st


def rejects(out):
    """<<"REJECT", id, l, op...>> lines"""
    res = []
    for m in re.finditer(r'<<"REJECT", (.*?)>>', out, re.S):
        parts = [x.strip().strip('"') for x in m.group(1).split(',')]
        res.append(parts)
    return res


def validate(module, progs, scratch, consts, costs=None, expected=None, njobs=8, heap='1500m', timeout=800, env=None,
             tag='', view='View', extra='', spec='Spec'):
    """progs: list of JSON-able programs.  Splits over njobs JVMs.  Returns (rejects, totals)"""
    if not progs:
        return [], dict(generated=0, distinct=0)
    costs = costs or [1.0] * len(progs)
    njobs = max(1, min(njobs, len(progs)))
    bins = [[] for _ in range(njobs)]
    load = [0.0] * njobs
    for i in sorted(range(len(progs)), key=lambda i: -costs[i]):
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += costs[i]
    cfg = 'SPECIFICATION %s\n' % spec + ('VIEW %s\n' % view if view else '') + 'CHECK_DEADLOCK FALSE\n' + extra + \
          ''.join('CONSTANT %s = %s\n' % kv for kv in consts.items())

    def once(idx, name):
        p = os.path.join(scratch, 'progs_%s%s_%s.ndjson' % (module, tag, name))
        with open(p, 'w') as f:
            for i in idx:
                f.write(json.dumps(progs[i]) + '\n')
        e = dict(env or {})
        e['TRACE'] = p
        out, st = tlc(module, cfg, scratch, '%s%s_%s' % (module, tag, name), env=e, heap=heap, timeout=timeout)
        os.unlink(p)
        return out, st, st['rc'] == 0 and st['distinct'] == sum((expected[i] if expected else len(progs[i]['ev']) + 1) for i in idx)

    def job(k):
        """a program on which the specification cannot even be evaluated (a value far outside its domain) is isolated and rejected"""
        rej, tot, todo, skipped = [], [0, 0], bins[k], 0
        while todo:
            out, st, good = once(todo, str(k))
            if good:
                rej += rejects(out)
                tot[0] += st['generated']
                tot[1] += st['distinct']
                break
            m = re.search(r'/\\ pi = (\d+)', out[out.find('Error:'):] if 'Error:' in out else '')
            skipped += 1
            if not m or skipped > 25 or not (1 <= int(m.group(1)) <= len(todo)):
                raise TlcError('TLC rc=%d states=%d in %s chunk %d\n%s' % (st['rc'], st['distinct'], module, k, out[-4000:]))
            j = int(m.group(1)) - 1
            m = re.findall(r'/\\ l = (\d+)', out)
            ll = int(m[-1]) if m else 0
            err = re.search(r'Error: (.*)', out)
            ev = progs[todo[j]].get('ev', [])
            rej.append([progs[todo[j]]['id'], str(ll), ev[ll - 1].get('op', '?') if 0 < ll <= len(ev) else '?',
                        'undefined: ' + (err.group(1)[:200] if err else '')])
            todo = todo[:j] + todo[j + 1:]
        return rej, dict(generated=tot[0], distinct=tot[1])
    with ThreadPoolExecutor(njobs) as ex:
        rs = list(ex.map(job, range(njobs)))
    rej = [x for r, _ in rs for x in r]
    return rej, dict(generated=sum(s['generated'] for _, s in rs), distinct=sum(s['distinct'] for _, s in rs))
