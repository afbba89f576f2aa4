"""Building the driver, running TLC, and reporting: shared by all checks."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
GO_BIN = '/opt/veriftools/go1.27.3/bin'
TLA = '/opt/veriftools/tla'


def recorded():
    """packets that real terminals sent"""
    return [bytes.fromhex(x) for x in dict.fromkeys(open(os.path.join(VERIF, 'corpus', 'packets.txt')).read().split())]


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', CGO_ENABLED='0')
    e['PATH'] = GO_BIN + ':' + e.get('PATH', '')
    return e


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations = []
        self.known = []
        self.assumptions = []
        self.quick = self.tier == 'quick'

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---- building -----------------------------------------------------
    def overlay(self):
        rep = {os.path.join(REPO, 'cli/zzverif', f): os.path.join(HARNESS, f)
               for f in sorted(os.listdir(HARNESS)) if f.endswith('.go')}
        p = self.path('overlay.json')
        with open(p, 'w') as f:
            json.dump({'Replace': rep}, f)
        return p

    def go_build(self, out, pkg, overlay=False, race=False):
        cmd = ['go', 'build', '-o', out]
        if overlay:
            cmd += ['-overlay', self.overlay()]
        cmd.append(pkg)
        r = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise CheckError('build of %s failed:\n%s' % (pkg, r.stdout.decode(errors='replace')[-4000:]))
        return out

    def driver(self):
        p = self.path('driver')
        if not os.path.exists(p):
            self.go_build(p, './cli/zzverif', overlay=True)
            self.log('driver built')
        return p

    # ---- TLC ----------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, args=(), workers=8, heap='6g', timeout=800, stack='512m', deque=False):
        """Runs TLC. Returns a dict: ok, kind (None, 'invariant', 'deadlock', 'property'), out, states, distinct."""
        e = dict(os.environ)
        e.update(env or {})
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack, '-XX:+UseCompressedOops',
               '-Djava.io.tmpdir=' + meta,
               '-cp', '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA), '-DTLA-Library=' + SPEC]
        if deque:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
                '-config', cfg or os.path.join(SPEC, module + '.cfg')] + list(args)
        mod = module if module.endswith('.tla') else os.path.join(SPEC, module + '.tla')
        cmd.append(mod)
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s exceeded %d s' % (module, timeout))
        out = r.stdout.decode(errors='replace')
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        kind = None
        if 'is violated by' in out or re.search(r'Invariant \w+ is violated', out):
            kind = 'invariant'
        elif 'Deadlock reached' in out:
            kind = 'deadlock'
        elif 'Temporal properties were violated' in out or re.search(r'[Pp]roperty \w+ is violated', out):
            kind = 'property'
        res = dict(ok=r.returncode == 0 and kind is None, kind=kind, out=out, states=gen, distinct=dist, rc=r.returncode,
                   wall=round(time.time() - t, 1))
        self.log('TLC %s: rc=%d %s, %d states, %d distinct, %.1f s' % (module, r.returncode, kind or 'no error', gen, dist, res['wall']))
        if not res['ok'] and kind is None:
            raise CheckError('TLC on %s failed:\n%s' % (module, out[-6000:]))
        return res

    # ---- results ------------------------------------------------------
    def sample(self, s):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(s)

    def violation(self, what, replay):
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, what=what, tier=self.tier, seed=self.seed, **replay), f, indent=1)
        self.violations.append((what, os.path.relpath(p, VERIF)))

    def finish(self, level):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for what, p in self.violations:
            print(what)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if not self.violations:
            print('property %s held: %s' % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float, bool))})))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def limit_memory(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f
