"""Recorded events of a run as a program of OmpTrace.tla, and its task graph as a program of OmpTask.tla."""
from plib import EV
N = {v: k for k, v in EV.items()}


def conflicts(L, heap=False):
    """segment -> earlier conflicting segments of other tasks (and those in per-thread workspace only), one address for each pair;
    heap: every block the library allocates may be one thread's workspace"""
    conf, addr, ws = {}, {}, {}
    for a, ks in L.cells():
        b = L.dll.vg_block_of(a)
        if b not in ws:
            ws[b] = b >= 0 and (heap and not L.block(b)['user'] or L.site(L.block(b)['site']) == 'plasma_workspace_create')
        ks = sorted(ks)
        for i, y in enumerate(ks):
            for x in ks[:i]:
                if (x | y) & 1 and x >> 1 != y >> 1:
                    p = (x >> 1, y >> 1)
                    if conf.get(p, True):
                        conf[p] = ws[b]
                        addr[p] = a
    of = {}
    for (x, y), w in conf.items():
        of.setdefault(y, ([], []))[w].append(x)
    return of, addr


def trace(L, pid, heap=False):
    """(program for OmpTrace, segment -> task, pair -> address)"""
    evs, deps = L.events().tolist(), L.deps().tolist()
    conf, addr = conflicts(L, heap)
    out, dobj, segtask, teamn, robj = [], {}, {}, {}, {}
    nt = L.dll.vg_ntasks()
    thr = [-1] * nt
    for k, t, a, b, c, d in evs:
        k = N[k]
        if k == 'CREATE':
            ds = []
            for x in deps[b:b + c]:
                o = dobj.setdefault((t, x >> 1), len(dobj) + 1)
                ds.append([o, x & 1])
            out.append(['create', t, a, ds])
        elif k == 'START':
            out.append(['start', t])
            thr[t] = a
        elif k == 'FINISH':
            out.append(['finish', t])
        elif k == 'SEG':
            segtask[a] = t
            cs, wcs = conf.get(a, ((), ()))
            out.append(['seg', t, a, sorted(x for x in cs if segtask[x] != t), sorted(x for x in wcs if segtask[x] != t)])
        elif k == 'WAITED':
            out.append(['waited', t])
        elif k == 'GRPBEG':
            out.append(['grpbeg', t])
        elif k == 'GRPEND':
            out.append(['grpend', t])
        elif k == 'PAR':
            teamn[a] = b
        elif k == 'IMPL':
            out.append(['impl', t, a, c])
        elif k == 'BARARR':
            out.append(['arrive', t, a, b])
        elif k == 'BARDEP':
            out.append(['depart', t, a, b, teamn[a]])
        elif k == 'PAREND':
            out.append(['parend', t, a])
        elif k in ('ACQ', 'REL'):
            out.append([k.lower(), t, robj.setdefault(a, len(robj) + 1)])
    # tasks that use workspace in one segment only
    used = {}
    for y, (_, xs) in conf.items():
        for x in xs:
            used.setdefault(segtask[x], set()).add(x)
            used.setdefault(segtask[y], set()).add(y)
    one = [int(len(used.get(t, ())) <= 1) for t in range(nt)]
    # functions over 0.. are written as objects for TLC: thread of each task, task of each segment
    return dict(id=pid, nt=nt, ndep=len(dobj), ev=out, thr={'t': thr}, one={'t': one}, of={'t': [segtask.get(s, 0) for s in range(max(segtask, default=-1) + 1)]}), segtask, addr


def graph(L, pid):
    """program of OmpTask: what the creating task does, tasks renumbered 1.. in creation order; None if tasks are created by several"""
    evs, deps = L.events().tolist(), L.deps().tolist()
    conf, _ = conflicts(L)
    num, ids, body, dobj, cur, segtask = {}, [], [], {}, {}, {}
    creators = set()
    for k, t, a, b, c, d in evs:
        k = N[k]
        if k == 'CREATE':
            creators.add(t)
            if d:
                return None
            num[a] = len(ids) + 1
            ids.append(a)
            body.append(['create', num[a], [[dobj.setdefault((t, x >> 1), len(dobj) + 1), x & 1] for x in deps[b:b + c]]])
        elif k == 'WAITED' and t in creators or k == 'PAREND':
            if body and body[-1][0] != 'wait':
                body.append(['wait'])
        elif k in ('GRPBEG', 'GRPEND'):
            return None
        elif k == 'SEG':
            segtask[a] = t
        elif k == 'START':
            cur.setdefault('order', []).append(t)
        if k == 'CREATE' and t in num:
            return None          # nested creation
    if not ids:
        return None
    pairs = set()
    for y, (xs, ws) in conf.items():
        for x in xs:
            i, j = num.get(segtask[x]), num.get(segtask[y])
            if i and j and i != j:
                pairs.add((min(i, j), max(i, j)))
    return dict(id=pid, n=len(ids), ndep=len(dobj), body=body, conf=sorted(pairs), ids=ids, order=[num[x] for x in cur.get('order', [])])
