"""Runs generated cases against the instrumented library, one forked process per case."""
import json, os, select, signal, sys, time, traceback
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

CASE_TIMEOUT = 25


def one(L, case, fn):
    """fork, run fn(L, case) -> dict in the child, return dict with status"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(CASE_TIMEOUT)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 2)
            os.dup2(nul, 1)
            L.dll.vg_set_abort_fd(w)
            try:
                out = fn(L, case)
                out.setdefault('status', 'ok')
            except Exception:
                out = dict(status='exc', text=traceback.format_exc()[-1500:])
            d = json.dumps(out, default=lambda o: o.item() if hasattr(o, 'item') else str(o)).encode()
            i = 0
            while i < len(d):
                i += os.write(w, d[i:i + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    d = b''.join(buf)
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        if sg == signal.SIGALRM:
            return dict(status='timeout', text='no result within %d s' % CASE_TIMEOUT)
        if sg == signal.SIGKILL:
            return dict(status='killed', text='killed')
        return dict(status='crash', text='signal %d (%s)' % (sg, signal.Signals(sg).name))
    try:
        o = json.loads(d)
    except Exception:
        return dict(status='crash', text='no result: ' + d[:200].decode(errors='replace'))
    if 'abort' in o:
        return dict(status='abort', text=o['text'])
    return o


def _worker(k, n, cases, fn, deadline, path):
    from plib import Lib
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    import io
    L = Lib()
    with open(path, 'w') as f:
        for i in range(k, len(cases), n):
            if deadline and time.time() > deadline:
                break
            o = one(L, cases[i], fn)
            o['i'] = i
            f.write(json.dumps(o) + '\n')
    os._exit(0)


def run(cases, fn, scratch, workers=None, budget=None):
    """returns list of results (None for cases not run within the budget)"""
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    n = min(workers or os.cpu_count() or 4, max(1, len(cases)))
    deadline = time.time() + budget if budget else None
    ps = []
    for k in range(n):
        p = os.path.join(scratch, 'out.%d.%d' % (os.getpid(), k))
        pr = mp.get_context('fork').Process(target=_worker, args=(k, n, cases, fn, deadline, p))
        pr.start()
        ps.append((pr, p))
    res = [None] * len(cases)
    for pr, p in ps:
        pr.join()
        if os.path.exists(p):
            for line in open(p):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                res[o['i']] = o
            os.unlink(p)
    return res
