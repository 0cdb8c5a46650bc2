"""Shared parts of the checks: building the analyzer, dumping /repo, running engine tasks."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DAAB_REPO', '/repo')
AN = os.path.join(VERIF, 'analyzer')
ENGINE = os.path.join(AN, 'target/release/engine')
DRIVER = os.path.join(AN, 'target/release/driver')

# feature sets of the crate, each with and without debug assertions
FEATURES = {'plain': [], 'diag': ['--features', 'diagnostics'], 'tynm': ['--features', 'diagnostics,tynm'], 'all': ['--all-features']}


class Undecided(Exception):
    """The check can give no answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tools():
    r = sh(['cargo', 'build', '--offline', '--release', '-q'], cwd=AN)
    if r.returncode != 0 or not os.path.exists(ENGINE):
        raise Undecided('analyzer does not build:\n' + r.stdout[-3000:])


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip().splitlines()[-1]


class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='daab-check-')
        self.dumps = {}
        self.violations = []   # dicts: msg, loc, detail
        self.undecided = []    # what cannot be decided for lack of precision or time
        self.failed = []       # why there is no answer at all
        self.notes = []
        self.cov = {}
        self.assumptions = []
        self.samples = []

    def left(self, total):
        return total - (time.time() - self.t0)

    def clean(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def dump(self, names):
        """Analyses the crate in the given configurations ('all', 'all+release', ...) and returns the dump files."""
        if not os.path.exists(os.path.join(REPO, 'Cargo.lock')) and os.path.exists('/opt/vp/Cargo.lock'):
            shutil.copy('/opt/vp/Cargo.lock', os.path.join(REPO, 'Cargo.lock'))
        todo = [n for n in names if n not in self.dumps]
        sr = sysroot()

        def one(n):
            f, _, rel = n.partition('+')
            out = os.path.join(self.tmp, n + '.json')
            env = dict(os.environ, DAAB_DUMP=out, RUSTC_WORKSPACE_WRAPPER=DRIVER, LD_LIBRARY_PATH=sr + '/lib', CARGO_TERM_COLOR='never')
            env.pop('RUSTFLAGS', None)
            cmd = ['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                   '--target-dir', os.path.join(self.tmp, 't-' + n)] + FEATURES[f] + (['--release'] if rel else [])
            r = sh(cmd, env=env)
            shutil.rmtree(os.path.join(self.tmp, 't-' + n), ignore_errors=True)
            return n, out, r
        with ThreadPoolExecutor(8) as ex:
            for n, out, r in ex.map(one, todo):
                if r.returncode != 0 or not os.path.exists(out):
                    raise Undecided('configuration %s of the crate cannot be analysed:\n%s' % (n, r.stdout[-3000:]))
                self.dumps[n] = out
        return [self.dumps[n] for n in names]

    def load(self, name):
        (f,) = self.dump([name])
        return json.load(open(f))

    def known(self, text):
        """Whether the finding is listed as known."""
        return any(p == self.prop and w in text for p, w in known())

    def violation(self, msg, loc, detail=None):
        self.violations.append({'msg': msg, 'loc': loc, 'detail': detail or []})


def known():
    """Known findings: (property, text that identifies the finding)."""
    r = []
    f = os.path.join(VERIF, 'known_findings.txt')
    for l in open(f) if os.path.exists(f) else []:
        l = l.strip()
        if l.startswith('finding:'):
            p, _, what = l[len('finding:'):].strip().partition(' ')
            r.append((p.partition('=')[2], what))
    return r


def run_tasks(tasks, total_deadline, heavy=lambda t: False, stop=lambda out: False, grace=15):
    """Runs (key, argv) engine tasks in parallel. Some seconds after a result satisfied `stop` the others are ended.
    Returns {key: out or None (not completed) or error string}."""
    res = {}
    procs = {}
    lock = threading.Lock()
    state = {'found': False, 'ended': False}

    def end_all():
        with lock:
            state['ended'] = True
            for k, p in list(procs.items()):
                try:
                    p.kill()
                except OSError:
                    pass

    def one(t):
        key, argv = t
        with lock:
            if state['ended'] or time.time() > total_deadline:
                res[key] = None
                return
            p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            procs[key] = p
        try:
            o, e = p.communicate(timeout=max(1, total_deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            o, e = None, ''
        with lock:
            procs.pop(key, None)
            if o is None or p.returncode == -signal.SIGKILL:
                res[key] = None
            else:
                try:
                    res[key] = json.loads(o)
                    if stop(res[key]) and not state['found']:
                        state['found'] = True
                        state['timer'] = threading.Timer(grace, end_all)
                        state['timer'].daemon = True
                        state['timer'].start()
                except ValueError:
                    res[key] = 'engine failed (%s): %s' % (p.returncode, e[-400:])
    order = sorted(tasks, key=lambda t: 0 if heavy(t) else 1)
    with ThreadPoolExecutor(min(8, (os.cpu_count() or 4))) as ex:
        list(ex.map(one, order))
    if 'timer' in state:
        state['timer'].cancel()
    return res
