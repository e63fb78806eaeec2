"""ctypes binding of the instrumented PLASMA library (worker side)."""
import bisect, ctypes as C, os, re, subprocess, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

K = dict(NoTrans=111, Trans=112, ConjTrans=113, Upper=121, Lower=122, General=123, GeneralBand=124, NonUnit=131,
         Unit=132, Left=141, Right=142, OneNorm=171, TwoNorm=173, FrobeniusNorm=174, InfNorm=175, MaxNorm=177,
         NoVec=301, Vec=302, Count=303, AllVec=305, SomeVec=306, RangeAll=351, RangeV=352, RangeI=353,
         Forward=391, Backward=392, Columnwise=401, Rowwise=402,
         Tuning=0, Nb=1, Ib=2, InplaceOutplace=3, NumPanelThreads=4, HouseholderMode=5,
         Flat=0, Tree=1, Disabled=0, Enabled=1)
DT = {'s': np.float32, 'd': np.float64, 'c': np.complex64, 'z': np.complex128}
RDT = {'s': np.float32, 'd': np.float64, 'c': np.float32, 'z': np.float64}
PREC = {'s': 2, 'd': 3, 'c': 4, 'z': 5}
ISC = lambda p: p in 'cz'


class c64(C.Structure):
    _fields_ = [("re", C.c_float), ("im", C.c_float)]


class c128(C.Structure):
    _fields_ = [("re", C.c_double), ("im", C.c_double)]


class Desc(C.Structure):
    _fields_ = [("type", C.c_int), ("uplo", C.c_int), ("precision", C.c_int), ("matrix", C.c_void_p),
                ("A21", C.c_size_t), ("A12", C.c_size_t), ("A22", C.c_size_t), ("mb", C.c_int), ("nb", C.c_int),
                ("gm", C.c_int), ("gn", C.c_int), ("gmt", C.c_int), ("gnt", C.c_int), ("i", C.c_int), ("j", C.c_int),
                ("m", C.c_int), ("n", C.c_int), ("mt", C.c_int), ("nt", C.c_int), ("kl", C.c_int), ("ku", C.c_int),
                ("klt", C.c_int), ("kut", C.c_int)]


class Workspace(C.Structure):
    _fields_ = [("spaces", C.c_void_p), ("lworkspace", C.c_size_t), ("nthread", C.c_int), ("dtyp", C.c_int)]


class Request(C.Structure):
    _fields_ = [("status", C.c_int)]


class Sequence(C.Structure):
    _fields_ = [("status", C.c_int), ("request", C.c_void_p)]


CT = {'float': C.c_float, 'double': C.c_double, 'plasma_complex32_t': c64, 'plasma_complex64_t': c128, 'int': C.c_int,
      'plasma_enum_t': C.c_int, 'size_t': C.c_size_t, 'plasma_desc_t': Desc, 'plasma_workspace_t': Workspace}

EV = dict(PAR=1, IMPL=2, IMPLEND=3, PAREND=4, CREATE=5, START=6, FINISH=7, WAITED=8, BARARR=9, BARDEP=10, ACQ=11,
          REL=12, SEG=13, GRPBEG=14, GRPEND=15, ALLOC=16, FREE=17, MARK=18, WAIT=19, VER=20, STAT=21, STEP=22)
VK = {1: 'access to unknown memory', 2: 'access out of bounds', 3: 'use after free', 4: 'access outside the documented operand',
      5: 'bad free', 6: 'double free'}


def parse_headers(inc, internal=False):
    """name -> (rettype, [(ctype, isptr, argname)])"""
    protos = {}
    for f in sorted(os.listdir(inc)):
        if not f.endswith('.h') or f.startswith('core_lapack') or f.startswith('plasma_internal') != internal:
            continue
        t = open(os.path.join(inc, f)).read()
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        t = re.sub(r'//[^\n]*', ' ', t)
        for m in re.finditer(r'\b(int|void|float|double|plasma_enum_t|plasma_desc_t)\s+(plasma_\w+)\s*\(([^;{}()]*)\)\s*;', t):
            args = []
            ok = True
            for a in m.group(3).split(','):
                a = a.strip()
                if a in ('', 'void'):
                    continue
                a = a.replace('const ', '')
                mm = re.match(r'([\w ]+?)\s*(\**)\s*(\w+)\s*(\[\])?$', a)
                if not mm:
                    ok = False
                    break
                args.append((mm.group(1).strip(), bool(mm.group(2) or mm.group(4)), mm.group(3)))
            if ok:
                protos.setdefault(m.group(2), (m.group(1), args))
    return protos


class Lib:
    def __init__(self, path=None, inc=None):
        import build
        path = path or build.LIB
        inc = inc or os.path.join(build.SRC, 'include')
        self.path = path
        self.dll = C.CDLL(path)
        self.protos = parse_headers(inc)
        d = self.dll
        for n in ('vg_nevents', 'vg_ndeps', 'vg_nviol', 'vg_naccs', 'vg_allocs', 'vg_live', 'vg_yields', 'vg_ntasks', 'vg_cells', 'vg_lua'):
            getattr(d, n).restype = C.c_long
        for n in ('vg_events', 'vg_deps', 'vg_viols', 'vg_accs', 'vg_cellsptr', 'vg_user_alloc'):
            getattr(d, n).restype = C.c_void_p
        d.vg_config.argtypes = [C.c_int, C.c_int, C.c_uint64, C.c_int]
        d.vg_user_alloc.argtypes = [C.c_size_t]
        d.vg_watch.argtypes = [C.c_void_p, C.c_size_t, C.c_size_t, C.c_long]
        d.vg_watch_status.argtypes = [C.c_void_p, C.c_int]
        d.vg_touch.argtypes = [C.c_void_p, C.c_void_p, C.c_int]
        d.vg_block_of.argtypes = [C.c_void_p]
        d.vg_syncrange.argtypes = [C.c_void_p, C.c_size_t]
        d.vg_fail.argtypes = [C.c_long, C.c_int]
        d.vg_limits.argtypes = [C.c_long, C.c_long]
        d.vg_where.argtypes = [C.c_uint64, C.c_char_p, C.c_int]
        d.vg_site.argtypes = [C.c_uint64, C.c_char_p, C.c_int]
        d.vg_block.argtypes = [C.c_int, C.c_void_p]
        self.keep = []

    # ---- memory
    def reset(self):
        self.dll.vg_reset()
        self.keep = []

    def alloc(self, nbytes):
        return self.dll.vg_user_alloc(nbytes)

    def array(self, n, dtype):
        dt = np.dtype(dtype)
        p = self.alloc(max(n, 0) * dt.itemsize)
        buf = (C.c_char * max(1, n * dt.itemsize)).from_address(p)
        a = np.frombuffer(buf, dtype=dt, count=n)
        return p, a

    def touch(self, p, count, es):
        """element touch map of a user array: 1 incoming value read, 2 written, 4 read after a write"""
        m = np.zeros(max(1, count), dtype=np.uint8)
        self.keep.append(m)
        self.dll.vg_touch(p, m.ctypes.data, es)
        return m

    def order(self, ids):
        a = (C.c_int * len(ids))(*ids)
        self.dll.vg_order(a, len(ids))

    # ---- call by prototype
    def has(self, name):
        return name in self.protos

    def call(self, name, *args):
        ret, protos = self.protos[name]
        f = getattr(self.dll, name)
        f.restype = {'int': C.c_int, 'void': None, 'float': C.c_float, 'double': C.c_double, 'plasma_enum_t': C.c_int,
                     'plasma_desc_t': Desc}[ret]
        if len(args) != len(protos):
            raise TypeError('%s: %d args for %d' % (name, len(args), len(protos)))
        cargs = []
        for v, (t, ptr, an) in zip(args, protos):
            if ptr:
                if v is None:
                    cargs.append(C.c_void_p(None))
                elif isinstance(v, int):
                    cargs.append(C.c_void_p(v))
                else:
                    cargs.append(C.cast(C.byref(v) if not isinstance(v, C._Pointer) else v, C.c_void_p))
            elif t in ('plasma_complex32_t', 'plasma_complex64_t'):
                v = complex(v)
                cargs.append(CT[t](v.real, v.imag))
            elif t in ('float', 'double'):
                cargs.append(CT[t](float(np.real(v))))
            elif t in ('plasma_desc_t', 'plasma_workspace_t'):
                cargs.append(v)
            else:
                cargs.append(C.c_int(int(v)))
        return f(*cargs)

    # ---- recorded data
    def events(self):
        n = self.dll.vg_nevents()
        if not n:
            return np.zeros((0, 6), np.int64)
        return np.ctypeslib.as_array(C.cast(self.dll.vg_events(), C.POINTER(C.c_int64)), shape=(n, 6)).copy()

    def deps(self):
        n = self.dll.vg_ndeps()
        if not n:
            return np.zeros(0, np.uint64)
        return np.ctypeslib.as_array(C.cast(self.dll.vg_deps(), C.POINTER(C.c_uint64)), shape=(n,)).copy()

    def viols(self):
        n = self.dll.vg_nviol()
        if not n:
            return []
        a = np.ctypeslib.as_array(C.cast(self.dll.vg_viols(), C.POINTER(C.c_int64)), shape=(n, 8)).copy()
        return [dict(kind=VK[int(r[0])], where=self.where(int(np.uint64(r[1]))), len=int(r[2]), rw='write' if r[3] else 'read',
                     block=int(r[4]), off=int(r[5]), task=int(r[6])) for r in a]

    def where(self, a):
        b = C.create_string_buffer(300)
        self.dll.vg_where(a, b, 300)
        return b.value.decode()

    def taskfn(self, i):
        b = C.create_string_buffer(300)
        self.dll.vg_taskfn(i, b, 300)
        return self.sym(b.value.decode())

    def sym(self, s):
        """name of a local symbol given as @offset"""
        if not s.startswith('@'):
            return s
        if not hasattr(self, 'symtab'):
            t = []
            for l in subprocess.run(['nm', self.path], stdout=subprocess.PIPE).stdout.decode().split('\n'):
                w = l.split()
                if len(w) == 3 and w[1] in 'tT':
                    t.append((int(w[0], 16), w[2]))
            t.sort()
            self.symtab = t
        k = bisect.bisect_right(self.symtab, (int(s[1:], 16), '~')) - 1
        return self.symtab[k][1].split('.')[0] if k >= 0 else s

    def site(self, a):
        b = C.create_string_buffer(300)
        self.dll.vg_site(a, b, 300)
        return self.sym(b.value.decode())

    def block(self, i):
        o = (C.c_uint64 * 6)()
        self.dll.vg_block(i, o)
        return dict(base=o[0], size=o[1], freed=bool(o[2]), user=bool(o[3]), site=o[4], task=o[5])

    def cells(self):
        n = self.dll.vg_cells()
        if not n:
            return []
        a = np.ctypeslib.as_array(C.cast(self.dll.vg_cellsptr(), C.POINTER(C.c_int64)), shape=(n,)).tolist()
        out, i = [], 0
        while i < n:
            addr, k = a[i], a[i + 1]
            out.append((addr, a[i + 2:i + 2 + k]))
            i += 2 + k
        return out
