#!/usr/bin/env python3
"""Builds the instrumented PLASMA library from /repo's current working tree.

  copy of control/ compute/ core_blas/ include/ tools/ tuning/  ->  BUILD/src
  precision generation (the project's own tools/codegen.py)      ->  BUILD/src
  gcc -fopenmp -fsanitize=thread (compile only; runtime is vgomp.cpp) -> BUILD/obj
  link with vgomp.cpp                                            ->  BUILD/libplasma_v.so

Objects are cached by a hash of the source, every header, the flags and the compiler.
Nothing is written in /repo.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time, importlib.util
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import contextlib, io

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "_build"))
SRC = os.path.join(BUILD, "src")
OBJ = os.path.join(BUILD, "obj")
LIB = os.path.join(BUILD, "libplasma_v.so")
DIRS = ["control", "compute", "core_blas", "include", "tools", "tuning"]

CFLAGS = ("-DPLASMA_USE_LUA -DPLASMA_WITH_OPENBLAS "
          "-I/usr/include/x86_64-linux-gnu/openblas-pthread -I/usr/include/lua5.4 "
          "-fopenmp -O1 -g1 -std=gnu99 -fPIC -w -U_FORTIFY_SOURCE -fno-strict-aliasing "
          "-fno-builtin-malloc -fno-builtin-calloc -fno-builtin-free -fno-tree-loop-distribute-patterns "
          "-fsanitize=thread --param tsan-distinguish-volatile=1 "
          "--param tsan-instrument-func-entry-exit=0").split()

WRAP = ("malloc calloc realloc free memcpy memset memmove sched_yield luaL_newstate lua_close "
        "plasma_sequence_init plasma_request_init plasma_tree_operations").split() + ["plasma_core_%sgbtype%dcb" % (p, k) for p in "sdcz" for k in (1, 2, 3)]

def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def _gen(args):
    """run codegen.py in-process for one template and list of precisions"""
    template, letters = args
    os.chdir(SRC)
    sys.path.insert(0, os.path.join(SRC, "tools"))
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    spec = importlib.util.spec_from_file_location("codegen_vt", os.path.join(SRC, "tools/codegen.py"))
    mod = importlib.util.module_from_spec(spec)
    argv = sys.argv
    out = io.StringIO()
    try:
        sys.argv = ["codegen.py"] + [x for p in letters for x in ("-p", p)] + [template]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            spec.loader.exec_module(mod)
            try:
                mod.main()
            except SystemExit:
                pass
    finally:
        sys.argv = argv
    return template, out.getvalue()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def code(p):
    """file contents without the date that codegen.py puts in"""
    return re.sub(rb"@generated.*", b"", read(p))


def sync_sources():
    os.makedirs(SRC, exist_ok=True)
    stamp = os.path.join(BUILD, "src.stamp")
    files = {}
    for d in DIRS:
        for root, _, names in os.walk(os.path.join(REPO, d)):
            for n in names:
                if n.endswith((".c", ".h", ".hin", ".py", ".lua")):
                    p = os.path.join(root, n)
                    files[os.path.relpath(p, REPO)] = read(p)
    files["CMakeLists.txt"] = read(os.path.join(REPO, "CMakeLists.txt"))
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0" + hashlib.sha256(files[f]).digest())
    key = h.hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == key:
        return key
    shutil.rmtree(SRC, ignore_errors=True)
    for f, data in files.items():
        p = os.path.join(SRC, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as o:
            o.write(data)
    os.makedirs(os.path.join(SRC, "test"), exist_ok=True)
    with open(os.path.join(SRC, "include/plasma_config.h"), "w") as o:
        o.write("/* vt */\n")
    # which codegen calls: ask the project's own script
    gp = open(os.path.join(SRC, "tools/generate_precisions.py")).read()
    letters = {}
    for m in re.finditer(r'codegen\(\s*"([^"]+)",\s*"([^"]+)",\s*"([^"]+)"\s*\)', gp):
        for name in m.group(2).split():
            t = m.group(3).format(name)
            if t.startswith("test/"):
                continue
            for l in m.group(1).split():
                letters.setdefault(t, [])
                if l not in letters[t]:
                    letters[t].append(l)
    items = [(t, l) for t, l in sorted(letters.items()) if os.path.exists(os.path.join(SRC, t))]
    with ProcessPoolExecutor(os.cpu_count()) as ex:
        for t, out in ex.map(_gen, items, chunksize=4):
            if "Error" in out:
                log(t, out.strip()[-300:])
    with open(stamp, "w") as o:
        o.write(key)
    return key


def source_list():
    cm = open(os.path.join(SRC, "CMakeLists.txt")).read()
    names = sorted(set(re.findall(r'\b((?:compute|core_blas|control)/\w+\.c)\b', cm)))
    return [n for n in names if os.path.exists(os.path.join(SRC, n))]


def wrap_flags():
    w = WRAP + open(os.path.join(HERE, "wrap.txt")).read().split()
    return ["-Wl,--wrap=" + x for x in w]


def build(verbose=True):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = sync_sources()
        rt = [os.path.join(HERE, f) for f in ("shim.c", "vgomp.cpp", "vgblas.cpp")]
        full = hashlib.sha256((key + " ".join(CFLAGS) + " ".join(wrap_flags())).encode()
                              + b"".join(read(f) for f in rt)).hexdigest()
        stamp = os.path.join(BUILD, "lib.stamp")
        if os.path.exists(LIB) and os.path.exists(stamp) and open(stamp).read() == full:
            return LIB
        os.makedirs(OBJ, exist_ok=True)
        hh = hashlib.sha256()
        for n in sorted(os.listdir(os.path.join(SRC, "include"))):
            hh.update(n.encode() + code(os.path.join(SRC, "include", n)))
        hh.update(" ".join(CFLAGS).encode())
        hdr = hh.digest()
        jobs, objs = [], []
        for n in source_list():
            k = hashlib.sha256(hdr + n.encode() + code(os.path.join(SRC, n))).hexdigest()[:24]
            o = os.path.join(OBJ, k + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((["gcc"] + CFLAGS + ["-I" + SRC + "/include", "-c", os.path.join(SRC, n)], o))
        for f in rt:
            c = f.endswith(".c")
            k = hashlib.sha256((hdr if c else b"") + read(f)).hexdigest()[:24]
            o = os.path.join(OBJ, k + ".o")
            objs.append(o)
            if not os.path.exists(o):
                if c:
                    jobs.append((["gcc", "-O1", "-g1", "-fPIC", "-fopenmp", "-w", "-I" + SRC + "/include", "-c", f], o))
                    continue
                jobs.append((["g++", "-O2", "-g", "-fPIC", "-std=c++17", "-Wall", "-c", f], o))

        def run(job):
            cmd, o = job
            r = subprocess.run(cmd + ["-o", o + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return cmd[-1], r.stdout.decode(errors="replace")
            os.replace(o + ".tmp", o)
            return None
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            bad = [x for x in ex.map(run, jobs) if x]
        if bad:
            for f, t in bad[:5]:
                log("compile failed:", f, t[-2000:])
            raise SystemExit(2)
        rsp = os.path.join(BUILD, "link.rsp")
        with open(rsp, "w") as f:
            f.write("\n".join(objs[:-len(rt)]))
        rel = os.path.join(BUILD, "plasma_rel.o")
        for cmd in (["ld", "-r", "-o", rel, "@" + rsp] + [x[4:] for x in wrap_flags()],
                    ["g++", "-shared", "-o", LIB + ".tmp", rel] + objs[-len(rt):] + ["-Wl,-z,lazy", "-Wl,-Bsymbolic"]
                    + "-L/usr/lib/x86_64-linux-gnu/openblas-pthread -lopenblas -llapacke -llua5.4 -ldl -lm".split()):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                log(r.stdout.decode()[-3000:])
                raise SystemExit(2)
        os.replace(LIB + ".tmp", LIB)
        with open(stamp, "w") as o:
            o.write(full)
        keep = set(objs)
        for n in os.listdir(OBJ):       # bound the cache
            p = os.path.join(OBJ, n)
            if p not in keep and time.time() - os.path.getmtime(p) > 7200:
                os.unlink(p)
        if verbose:
            log("%d compiled, %.1f s" % (len(jobs), time.time() - t0))
        return LIB
    finally:
        lock.close()


if __name__ == "__main__":
    print(build())
