"""Execution context of one generated program: operands, calls, recorded events."""
import random, re
import numpy as np
from plib import K, EV, DT, RDT, PREC, ISC, Desc, Workspace, Sequence, Request
import ctypes as C

PAD, NAN, BIG, INEXACT = 2000000001, 2000000002, 2000000003, 2000000004
EPS = {'s': 2.0 ** -24, 'c': 2.0 ** -24, 'd': 2.0 ** -53, 'z': 2.0 ** -53}
LOW = {'d': 's', 'z': 'c'}
ENUMN = {}
for k in ('NoTrans Trans ConjTrans Upper Lower General NonUnit Unit Left Right OneNorm TwoNorm FrobeniusNorm InfNorm '
          'MaxNorm NoVec Vec Count AllVec SomeVec RangeV RangeI Columnwise Rowwise').split():
    ENUMN[K[k]] = k
ENUMARGS = {'transa', 'transb', 'trans', 'uplo', 'side', 'diag', 'norm', 'jobu', 'jobvt', 'colrow', 'jobtype', 'range'}
NAMES_REAL = [('unm', 'orm'), ('ung', 'org'), ('hetr', 'sytr'), ('hesv', 'sysv')]


def rname(z, p):
    """name of routine z (written for double complex, without plasma_) in precision p"""
    if z == 'zamax':
        return {'z': 'dzamax', 'c': 'scamax', 'd': 'damax', 's': 'samax'}[p]
    if z == 'zlag2c':
        return {'z': 'zlag2c', 'd': 'dlag2s'}[p]
    if z == 'clag2z':
        return {'z': 'clag2z', 'd': 'slag2d'}[p]
    if z.startswith('zc'):
        return {'z': 'zc', 'd': 'ds'}[p] + z[2:]
    if p in 'sd':
        for a, b in NAMES_REAL:
            z = z.replace(a, b)
    return p + z[1:]


class Mat:
    def __init__(self, c, name, m, n, prec, ld=None, dtype=None, band=None):
        self.c, self.name, self.m, self.n = c, name, m, n
        self.ld = ld if ld is not None else max(1, m)
        self.dtype = np.dtype(dtype or DT[prec])
        self.size = 0 if n == 0 else self.ld * (n - 1) + max(m, 0)
        self.p, self.buf = c.L.array(self.size, self.dtype)
        self.isint = self.dtype.kind == 'i'
        self.q = 1 if self.isint else c.q
        raw = self.buf.view(np.uint8)
        if self.isint:
            self.buf[:] = -777 if c.junk != 'num' else 12345
        elif c.junk != 'num':
            # quiet NaN with a payload
            self.buf.view(self.rdt())[:] = np.nan
        else:
            v = self.buf.view(self.rdt())
            v[:] = (np.arange(len(v)) * 7 % 31 - 15) * 8.5 + 1
        self.unset = set(range(self.size))
        self.touch = c.L.touch(self.p, self.size, self.dtype.itemsize)
        self.last = self.buf.tobytes()

    def rdt(self):
        return np.float32 if self.dtype in (np.complex64, np.float32) else np.float64

    def idx(self, i, j):
        return i + j * self.ld

    def set(self, V, mask=None):
        """V: m x n array, mask(i,j) tells which elements are defined (others stay NaN)"""
        for j in range(self.n):
            for i in range(self.m):
                if mask is None or mask(i, j):
                    self.buf[self.idx(i, j)] = V[i, j]
                    self.unset.discard(self.idx(i, j))
        self.last = self.buf.tobytes()
        return self

    def get(self):
        A = np.zeros((self.m, self.n), self.dtype)
        for j in range(self.n):
            A[:, j] = self.buf[j * self.ld:j * self.ld + self.m]
        return A

    def enc(self):
        return encmat(self.get(), self.q, self.c.cx and self.dtype.kind == 'c')

    def pos(self, ks):
        """one-based positions of linear indices"""
        return [[int(k) % self.ld + 1, int(k) // self.ld + 1] for k in ks]


def encnum(x, q):
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        return NAN
    y = x * q
    if abs(y) > 1e9:
        return BIG
    r = round(y)
    if q == 1 and abs(y - r) > 1e-3:
        return INEXACT
    return int(r)


def encmat(A, q, cx):
    out = []
    for i in range(A.shape[0]):
        if cx:
            out.append([[encnum(z.real, q), encnum(z.imag, q)] for z in A[i].tolist()])
        elif A.dtype.kind == 'c':
            out.append([encnum(z.real, q) for z in A[i].tolist()])
        elif A.dtype.kind == 'i':
            out.append([int(z) for z in A[i].tolist()])
        else:
            out.append([encnum(z, q) for z in A[i].tolist()])
    return out


class Ctx:
    def __init__(self, L, seed, prec, q=1, cfg=None, touch=False, junk='nan'):
        self.L, self.r, self.p, self.q = L, random.Random(seed), prec, q
        self.cx = ISC(prec)
        self.mats, self.events, self.cfg = [], [], {}
        self.allocs = []
        self.logtouch, self.junk = touch, junk
        self.acc = None
        self.nm = 0
        self.bad = []
        self.vals = 'int'
        self.strat = None

    # ---- sampling
    def pick(self, *xs):
        return self.r.choice(xs)

    def dim(self, lo=0, hi=9, pz=0.03):
        if lo == 0 and self.r.random() < self.cfg.get('pz', pz):
            return 0
        hi = self.cfg.get('hi', hi)
        return self.r.randint(max(lo, 1), hi)

    def e(self, *names):
        # the programs of one family go through the combinations of the first options one after the other
        if self.strat and self.strat[1] >= len(names):
            k, m = self.strat
            self.strat = k // len(names), m // len(names)
            return K[names[k % len(names)]]
        self.strat = None
        return K[self.r.choice(names)]

    def trans(self):
        return self.e('NoTrans', 'Trans', 'ConjTrans')

    def ldx(self, m):
        return max(1, m) + self.r.choice((0, 0, 0, 1, 2, 5))

    def num(self, lo=-3, hi=3, den=1):
        if self.cx:
            return complex(self.r.randint(lo * den, hi * den) / den, self.r.randint(lo * den, hi * den) / den)
        return float(self.r.randint(lo * den, hi * den) / den)

    def scal(self):
        """scalar factor: small Gaussian integer, 0 and 1 over-represented"""
        x = self.r.random()
        if x < .2:
            return 0.0
        if x < .4:
            return 1.0
        if x < .5:
            return -1.0
        return self.num(-3, 3)

    def rscal(self):
        return self.r.choice((0.0, 1.0, -1.0, 2.0, -3.0))

    def ints(self, m, n, lo=-3, hi=3, den=1):
        A = np.zeros((m, n), complex if self.cx else float)
        for i in range(m):
            for j in range(n):
                A[i, j] = self.num(lo, hi, den)
        return A

    def herm(self, A, real_diag=True):
        B = np.tril(A) + np.conj(np.tril(A, -1)).T
        if real_diag:
            B[np.diag_indices(len(B))] = B.diagonal().real
        return B

    def sym(self, A):
        return np.tril(A) + np.tril(A, -1).T

    def goodmat(self, n, den=16, kind='ge', kl=None, ku=None, lim=40.0):
        """well conditioned n x n matrix with entries multiple of 1/den"""
        best, bc = None, 1e300
        for t in range(12):
            A = self.ints(n, n, -2, 2, den)
            if kl is not None:
                for i in range(n):
                    for j in range(n):
                        if not (-kl <= j - i <= ku):
                            A[i, j] = 0
                for i in range(n):   # keep it regular: strong generalised diagonal at random places
                    if self.r.random() < .6:
                        A[i, i] += 3 if A[i, i].real >= 0 else -3
            if kind == 'he':
                A = self.herm(A)
            if kind == 'tr':
                A = np.triu(A) / 2 + 0
                A = np.round(A * den) / den
                for i in range(n):
                    A[i, i] = self.pick(1, -1, 2, 1.5) * (self.pick(1, 1j) if self.cx else 1)
            if n == 0:
                return A
            cnd = np.linalg.norm(np.linalg.inv(A), 2) if abs(np.linalg.det(A)) > 1e-3 else 1e299
            if cnd < bc:
                best, bc = A, cnd
            if cnd < 2:
                break
        if bc > 6:
            best = best + 4 * np.eye(n)
            if kind == 'he':
                best = self.herm(best)
        return best

    def spd(self, n, den=16):
        """Hermitian positive definite with small inverse"""
        A = self.herm(self.ints(n, n, -1, 1, den))
        if n:
            w = np.linalg.eigvalsh(A)[0]
            s = max(0, int(-w) + 1) + 1
            A = A + s * np.eye(n)
        return A

    # ---- operands
    def mat(self, name, V, mask=None, ld=None, prec=None, dtype=None):
        m, n = V.shape
        M = Mat(self, name, m, n, prec or self.p, self.ldx(m) if ld is None else ld, dtype)
        M.set(V if M.dtype.kind == 'c' else np.real(V), mask)
        self.mats.append(M)
        return M

    def out(self, name, m, n, ld=None, prec=None, dtype=None):
        return self.mat(name, np.zeros((max(m, 0), max(n, 0))), lambda i, j: False, ld, prec, dtype)

    def ivec(self, name, n, vals=None):
        M = Mat(self, name, n, 1, self.p, max(1, n), np.int32)
        if vals is not None:
            M.set(np.array(vals).reshape(-1, 1))
        self.mats.append(M)
        return M

    # ---- library set-up
    def setup(self, cfg=None):
        r = self.r
        nb = r.choice((1, 2, 2, 3, 3, 4, 5, 7))
        c = dict(nb=nb, ib=r.randint(1, nb), mtpf=r.choice((1, 1, 2, 3)), hmode=r.choice(('Flat', 'Tree')),
                 threads=r.choice((1, 2, 3, 4)), policy=r.choice((0, 1, 1, 1, 2, 4, 5)), seed=r.randrange(1 << 30),
                 imm=r.choice((0, 0, 30, 100)))
        if cfg:
            c.update(cfg)
        if c['mtpf'] > 1 and 'imm' not in (cfg or {}):
            c['imm'] = 0        # panel threads executed by their creator never finish (known finding of P06)
        self.cfg = c
        L = self.L
        L.dll.vg_config(c['threads'], c['policy'], c['seed'], c['imm'])

    def start(self, rec=1):
        L, c = self.L, self.cfg
        L.dll.vg_begin(rec)
        self.pars = None
        if c.get('down'):                    # the library is not initialised (any more)
            if c['down'] == 2:
                L.call('plasma_init')
                L.call('plasma_set', K['Tuning'], 0)
                L.call('plasma_finalize')
            for m in self.mats:
                m.hist = [m.buf.tobytes()]
            return
        l0 = L.dll.vg_live()
        L.call('plasma_init')
        L.call('plasma_set', K['Tuning'], 0)
        L.call('plasma_set', K['Nb'], c['nb'])
        L.call('plasma_set', K['Ib'], c['ib'])
        L.call('plasma_set', K['NumPanelThreads'], c['mtpf'])
        L.call('plasma_set', K['HouseholderMode'], K[c['hmode']])
        self.lifelive = L.dll.vg_live() - l0
        for m in self.mats:
            m.touch[:] = 0
            m.hist = [m.buf.tobytes()]

    def stop(self):
        l0 = self.L.dll.vg_live()
        self.L.call('plasma_finalize')
        self.lifelive = getattr(self, 'lifelive', 0) + self.L.dll.vg_live() - l0       # what initialisation and finalisation leave
        self.L.dll.vg_end()

    def zcall(self, z, *args, **kw):
        """call routine z in this program's precision (or prec=)"""
        name = 'plasma_' + rname(z, kw.get('prec', self.p))
        ret, proto = self.L.protos[name]
        a = {}
        cargs = []
        for v, (t, ptr, an) in zip(args, proto):
            key = an[1:] if re.match(r'p[A-Z]', an) else an
            if isinstance(v, Mat):
                a[key] = v.name
                cargs.append(v.p)
            elif v is None:
                a[key] = 'null'
                cargs.append(v)
            elif isinstance(v, (C.Structure, C._Pointer)):
                a[key] = kw.get('dname', 'T')
                cargs.append(v)
            elif key in ENUMARGS:
                a[key] = ENUMN.get(v, 'bad')
                cargs.append(v)
            elif t in ('float', 'double', 'plasma_complex32_t', 'plasma_complex64_t'):
                cargs.append(v)
                v = complex(v)
                sq = kw.get('sq', 1)
                if t.startswith('plasma') and self.cx:
                    a[key] = [encnum(v.real, sq), encnum(v.imag, sq)]
                else:
                    a[key] = encnum(v.real, sq)
            else:
                a[key] = int(v)
                cargs.append(v)
        if self.cfg.get('down'):
            self.events.append(self.lonely(z, name, ret, cargs, a))
            return 0.0 if ret in ('float', 'double') else 0
        if self.cfg.get('mut') is not None:
            self.mutants(z, name, ret, proto, a, cargs)
            if self.cfg.get('badonly'):
                return 0.0 if ret in ('float', 'double') else 0
        starved = self.starve(name, ret, cargs) if self.cfg.get('oom') else None
        self.L.dll.vg_mark(len(self.events), 0)
        live = self.L.dll.vg_live()
        n0, v0 = self.L.dll.vg_nevents(), self.L.dll.vg_nviol()
        rv = self.L.call(name, *cargs)
        self.L.dll.vg_mark(len(self.events), 1)
        if 'oom' in self.cfg:
            self.allocs.append(dict(op=self.opname(z), at=len(self.events), plans=starved or [], base=self.story(n0, v0, ret, rv, cargs)))
            for pl in starved or []:
                pl['steps'] += self.again(pl.pop('again'), ret, rv)
        ev = dict(op=self.opname(z), a=a,
                  ret=0 if ret == 'void' else (encnum(rv, self.q) if ret in ('float', 'double') else int(rv)))
        ev['left'] = self.L.dll.vg_live() - live
        ev['args'], ev['int'] = list(a), ret == 'int'
        ev.update(kw.get('extra', {}))
        ev['ops'] = [k for k, v in a.items() if isinstance(v, str) and any(m.name == v for m in self.mats)]
        self.snap(ev)
        ev['raw'] = rv
        if self.cfg.get('obs'):
            ev['obs'] = self.params()
        self.events.append(ev)
        return rv

    # ---- memory: what a call acquires and releases, with allocations that fail
    def story(self, n0, v0, ret, rv, cargs):
        """acquisitions and releases since event n0, then the return with the blocks a returned descriptor holds"""
        s = []
        for k, t, a, b, _, _ in self.L.events()[n0:].tolist():
            if k == EV['ALLOC']:
                s.append(dict(k='alloc', b=a) if a >= 0 else dict(k='nomem'))
            elif k == EV['FREE']:
                s.append(dict(k='free', b=a))
        for v in self.L.viols()[v0:]:
            s.append(dict(k='bad', what=v['kind'], where=v['where']))
        kept = []
        for x in cargs:
            if isinstance(x, Desc):
                kept.append(self.L.dll.vg_block_of(C.c_void_p(x.matrix)) if x.matrix else -1)
        s.append(dict(k='ret', v=0 if ret == 'void' else int(rv) if ret == 'int' else (-1 if rv < 0 else 0), kept=kept))
        return s

    def starve(self, name, ret, cargs):
        """the call in a child for every allocation it makes: this one fails, or this one and all later ones; then the call again"""
        import os, json, signal
        plans, total, k = [], None, 0
        todo = [(None, 0)]
        while todo:
            k, mode = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(10)
                self.L.dll.vg_set_abort_fd(w)
                saved = [(m, m.buf.tobytes()) for m in self.mats]
                n0, v0, a0 = self.L.dll.vg_nevents(), self.L.dll.vg_nviol(), self.L.dll.vg_allocs()
                if k is not None:
                    self.L.dll.vg_fail(a0 + k, mode)
                rv = self.L.call(name, *cargs)
                self.L.dll.vg_fail(-1, 0)
                o = dict(allocs=self.L.dll.vg_allocs() - a0, steps=self.story(n0, v0, ret, rv, cargs), first=[m.buf.tobytes().hex() for m in self.mats], rv=float(rv or 0))
                if k is not None:
                    for m, b in saved:
                        m.buf[:] = np.frombuffer(b, m.dtype)
                    n0, v0 = self.L.dll.vg_nevents(), self.L.dll.vg_nviol()
                    rv = self.L.call(name, *cargs)
                    o['again'] = dict(rv=float(rv or 0), out=[m.buf.tobytes().hex() for m in self.mats], story=self.story(n0, v0, ret, rv, cargs))
                d = json.dumps(o).encode()
                i = 0
                while i < len(d):
                    i += os.write(w, d[i:i + 65536])
                os._exit(99)
            os.close(w)
            buf = []
            while True:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf.append(b)
            os.close(r)
            _, st = os.waitpid(pid, 0)
            try:
                o = json.loads(b''.join(buf))
            except ValueError:
                o = None
            if o is None or 'steps' not in o:
                why = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else (o or {}).get('text', 'exit %d' % os.WEXITSTATUS(st))
                o = dict(allocs=0, steps=[dict(k='bad', what='crash', where=why)], again=None)
            if k is None:
                total = o['allocs']
                ks = list(range(total))
                if total > self.cfg.get('oommax', 14):
                    ks = sorted(self.r.sample(ks[1:-1], self.cfg.get('oommax', 14) - 2) + [0, total - 1])
                todo = [(x, m) for x in ks for m in ((0, 1) if self.cfg['oom'] > 1 else (self.r.choice((0, 1)),))]
            else:
                plans.append(dict(k=k, mode=mode, of=total, steps=o['steps'], again=dict(o['again'] or {}, crashed=o['again'] is None, first=o.get('first'), rv1=o.get('rv'))))
        return plans

    def again(self, g, ret, rv):
        """compares what the starved call and the call repeated afterwards did with what the call does"""
        if g['crashed']:
            return []
        now = [m.buf.tobytes() for m in self.mats]
        # a mixed-precision solve may fall back, which leaves other factors and another iteration count, but solves
        mixed = any(m.name == 'iter' for m in self.mats)

        def same(out, x):
            if ret == 'int' and int(x) != int(rv):
                return False
            if ret in ('float', 'double') and not abs(x - rv) <= 1e-3 * max(1, abs(rv)):
                return False
            for m, a, b in zip(self.mats, out, now):
                if a == b.hex() or mixed and m.name in ('iter', 'A', 'P'):
                    continue
                u, v = np.frombuffer(bytes.fromhex(a), m.dtype).astype(complex), np.frombuffer(b, m.dtype).astype(complex)
                if (np.isnan(u) != np.isnan(v)).any():
                    return False
                d = np.abs(u - v)[~np.isnan(u)]
                s = np.abs(v)[~np.isnan(v)]
                if len(d) and d.max() > 1e-3 * max(1, s.max()):
                    return False
            return True
        return [dict(k='verdict', same=same(g['first'], g['rv1']))] + g['story'] + [dict(k='verdict', same=same(g['out'], g['rv']))]

    def params(self):
        v = C.c_int(-12345)
        o = {}
        for k in ('Tuning', 'Nb', 'Ib', 'NumPanelThreads', 'HouseholderMode'):
            r = self.L.call('plasma_get', K[k], v)
            o[k] = v.value if r == 0 else r
        return o

    def lonely(self, z, name, ret, cargs, a):
        """a call that may end the process: made in a child"""
        import os, json
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            before = [m.buf.tobytes() for m in self.mats]
            for m in self.mats:
                m.touch[:] = 0
            # exit() of the library would wait for other threads of a fork: leave at once
            rv = self.L.call(name, *cargs)
            t = any(m.buf.tobytes() != b or m.touch.any() for m, b in zip(self.mats, before))
            os.write(w, json.dumps(dict(ret=rv if ret != 'void' else -101, touched=bool(t))).encode())
            os._exit(99)
        os.close(w)
        d = os.read(r, 65536)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        o = json.loads(d) if d else dict(ret=0, touched=False)
        o['fatal'] = not d and os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 99)
        o['crash'] = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        return dict(op=self.opname(z), a=a, **o)

    def opname(self, z):
        return z[1:] if not z.startswith(('zc', 'clag')) and z != 'zlag2c' else z

    def mutants(self, z, name, ret, proto, a, cargs):
        """the call with one or two illegal arguments, recorded in self.bad; operands are put back afterwards"""
        r = random.Random('%s %s %d' % (self.cfg['mut'], name, len(self.events)))
        keys = list(a)
        op = self.opname(z)
        dims = [v for k, v in a.items() if isinstance(v, int)]
        for t in range(self.cfg.get('nmut', 4)):
            b, cb = dict(a), list(cargs)
            for _ in range(r.choice((1, 1, 2, 3))):
                k = r.choice([x for x in keys if x in ENUMARGS and (op != 'stevx2' or x != 'diag') or (isinstance(a[x], int) and proto[keys.index(x)][0] == 'int' and not proto[keys.index(x)][1] and x not in ('incx', 'ldt') and (op != 'stevx2' or x != 'k'))])
                i = keys.index(k)
                if k in ENUMARGS:
                    o = [0, -1, 99, 1000, K['Columnwise'] if k != 'colrow' else K['Upper']]
                    if k == 'uplo' and op not in ('lacpy', 'laset', 'lascl', 'tradd'):
                        o.append(K['General'])
                    if op in ('herk', 'her2k') and k == 'trans':
                        o.append(K['Trans'])
                    if op in ('syrk', 'syr2k') and k == 'trans' and self.cx:
                        o.append(K['ConjTrans'])
                    if op in ('unmqr', 'unmlq', 'gels') and k == 'trans' and self.cx:
                        o.append(K['Trans'])
                    if op == 'gesdd':
                        o = [0, -1, 99]
                    cb[i] = r.choice(o)
                    b[k] = ENUMN.get(cb[i], 'bad')
                else:
                    o = [-1, -1, -7]
                    if k.startswith('ld'):
                        o = [0, -1] + [d - 1 for d in dims if 0 < d <= a[k]] * 3
                        if k == 'ldt':                # its minimum is not documented
                            continue
                        if self.cfg.get('badonly'):
                            o = [0, -1]
                        if op in ('gbtrf', 'gbtrs', 'gbsv', 'zcgbsv') and k != 'ldb':     # what lies between kl+ku+1 and whole tiles is not documented
                            o = [0, -1, a['kl'] + a['ku']]
                    elif k == 'k' and op in ('ungqr', 'unglq', 'unmqr', 'unmlq'):
                        o.append(max(dims) + 1)
                        if op in ('unmqr', 'unmlq'):          # just above the order of Q
                            o += [(a['m'] if cargs[keys.index('side')] == K['Left'] else a['n']) + 1] * 3
                    elif k in ('il', 'iu'):
                        o += [0, a['n'] + 1, a['il'] - 1]
                    b[k] = cb[i] = r.choice(o)
            saved = [(m, m.buf.tobytes(), m.touch.copy()) for m in self.mats]
            ts = [x for x in cargs if hasattr(x, '_obj') or isinstance(x, (C.Structure, C._Pointer))]
            for m in self.mats:
                m.touch[:] = 0
            live = self.L.dll.vg_live()
            rv = self.L.call(name, *cb)
            left = self.L.dll.vg_live() - live
            t = any(m.buf.tobytes() != o or m.touch.any() for m, o, _ in saved)
            for m, o, tt in saved:
                m.buf[:] = np.frombuffer(o, m.dtype)
                m.touch[:] = tt
            self.bad.append(dict(op=op, a=b, args=keys, ret=0 if ret == 'void' else (encnum(rv, 1) if ret != 'int' else int(rv)), int=ret == 'int',
                                 touched=bool(t), left=int(left), at=len(self.events)))
            if ret == 'int' and rv >= 0 and left > 0:      # accepted: a returned descriptor would be lost
                break

    def snap(self, ev):
        post = {}
        for m in self.mats:
            b = m.buf.tobytes()
            if self.logtouch:
                m.hist.append(b)
            if b != m.last:
                post[m.name] = m.enc()
                m.last = b
        ev['post'] = post
        if self.logtouch:
            ev['tch'] = {m.name: m.pos(np.nonzero(m.touch)[0]) for m in self.mats if m.touch.any()}
            for m in self.mats:
                m.touch[:] = 0

    def init_mem(self):
        return {m.name: dict(m=m.m, n=m.n, ld=m.ld, i=m.isint, e=m.enc()) for m in self.mats}

    def go(self):
        self.init = self.init_mem()
        self.start(self.rec if hasattr(self, 'rec') else 1)
