"""Frame of a check: seeds, scratch space, findings, violations, evidence."""
import fnmatch, hashlib, json, os, re, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def known(pid):
    """entries of the known-findings file: list of (key pattern, text)"""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


class Fw:
    def __init__(self, pid, level, tier=None, seed=None, replay=None):
        self.pid, self.level = pid, level
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        self.quick = self.tier != 'thorough'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED') or 1)
        self.replay = replay
        self.t0 = time.time()
        b = os.path.join(VERIF, '_build')
        os.makedirs(b, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix='scratch_%s_' % pid, dir=b)
        self.viols, self.seen = [], set()
        self.cov, self.assume = {}, []
        self.samples = []
        self.states = self.transitions = self.traces = 0
        self.known = known(pid)
        self.hit = {}

    def log(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def tlc(self, st):
        self.states += st['distinct']
        self.transitions += st['generated']

    def sample(self, x, n=3):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, key, text, case):
        """key: canonical name of the failing input/site; at most one report per key"""
        for pat, _ in self.known:
            if fnmatch.fnmatchcase(key, pat):
                self.hit[pat] = self.hit.get(pat, 0) + 1
                return
        if key in self.seen:
            return
        self.seen.add(key)
        d = os.path.join(VERIF, '_build', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.pid, hashlib.md5(key.encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, key=key, text=text, case=case), f, indent=1, default=str)
        self.viols.append((key, text, p))

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        cov = dict(self.cov)
        cov.setdefault('states', self.states)
        cov.setdefault('transitions', self.transitions)
        cov.setdefault('traces_validated_against_impl', self.traces)
        cov.setdefault('samples', self.samples or ['none'])
        if self.known:
            cov['known_findings_observed'] = {k: v for k, v in self.hit.items()}
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.viols))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not self.replay:
            with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        for pat, text in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        for key, text, p in self.viols[:80]:
            print('  %s: %s' % (key, text[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        self.log('%s: %d violations, %d states, %d traces' % (self.tier, len(self.viols), cov['states'], cov['traces_validated_against_impl']))
        sys.stdout.flush()
        return 1 if self.viols else 0
