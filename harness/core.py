"""Common machinery: running TLC, running jobs in parallel, verdicts, evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NPROC = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 4)


class Machinery(Exception):
    """The checking machinery itself failed (never a verdict)."""


def scratch():
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='verif-')
        os.environ['VERIF_SCRATCH'] = d
    return d


def tlc(module, constants=None, cfg=None, env=None, args=(), timeout=800, workers=1,
        invariant=None, post=None, xmx='2g'):
    """Run TLC on spec/<module>.tla.  Returns (stdout, states, distinct, rc)."""
    wd = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    lines = []
    if cfg is None:
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
        for k, v in (constants or {}).items():
            cfg += 'CONSTANT %s = %s\n' % (k, v)
        for i in (invariant or []):
            cfg += 'INVARIANT %s\n' % i
        if post:
            cfg += 'POSTCONDITION %s\n' % post
    cfgf = os.path.join(wd, 'run.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m',
           '-XX:TieredStopAtLevel=1' if workers == 1 else '-XX:+TieredCompilation', '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + wd, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(wd, 'meta'), '-noGenerateSpecTE',
           '-config', cfgf, *args, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timeout on %s' % module)
    out = p.stdout.decode('utf8', 'replace')
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    st, di = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    if not m:
        m = re.findall(r'The number of states generated: ([\d,]+)', out)
        if m:
            st = di = int(m[-1].replace(',', ''))
    shutil.rmtree(wd, ignore_errors=True)
    return out, st, di, p.returncode


def tlc_trace(module, case, constants, invariant=('Report',), timeout=800, xmx='2g'):
    """Validate one recorded case (a JSON document) with a trace specification.

    The specification writes its own verdict (OUT); anything else is a machinery failure."""
    d = tempfile.mkdtemp(prefix='case-', dir=scratch())
    cf, of = os.path.join(d, 'case.json'), os.path.join(d, 'out.json')
    with open(cf, 'w') as f:
        json.dump(case, f)
    out, st, di, rc = tlc(module, constants, env={'CASE': cf, 'OUT': of}, invariant=invariant,
                          timeout=timeout, xmx=xmx)
    if rc != 0 or not os.path.exists(of):
        keep = os.path.join(scratch(), 'fail-%d.json' % os.getpid())
        shutil.copy(cf, keep)
        raise Machinery('TLC failed on %s (rc %s)\n%s' % (module, rc, out[-1500:]))
    with open(of) as f:
        res = json.load(f)
    res['states'], res['distinct'] = st, di
    shutil.rmtree(d, ignore_errors=True)
    return res


# ---------------------------------------------------------------- jobs
def _child(fn, arg, path):
    try:
        os.setpgid(0, 0)
        try:
            r = ('ok', fn(arg))
        except Machinery as e:
            r = ('machinery', str(e))
        except BaseException as e:
            r = ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
        with open(path + '.tmp', 'w') as f:
            json.dump(r, f, default=str)
        os.rename(path + '.tmp', path)
    finally:
        sys.stdout.flush()
        os._exit(0)


def parallel(fn, args, timeout=400, nproc=None):
    """Run fn(arg) for each arg in a forked child; returns list of ('ok',res) | ('exc',..) |
    ('timeout',) | ('machinery', msg) | ('died',)."""
    nproc = nproc or NPROC
    res = [None] * len(args)
    todo = list(enumerate(args))
    running = {}
    base = tempfile.mkdtemp(prefix='jobs-', dir=scratch())
    while todo or running:
        while todo and len(running) < nproc:
            i, a = todo.pop(0)
            path = os.path.join(base, str(i))
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                _child(fn, a, path)
            running[pid] = (i, time.time(), path)
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid in running:
            i, _, path = running.pop(pid)
            if os.path.exists(path):
                with open(path) as f:
                    res[i] = tuple(json.load(f))
                if os.environ.get('VERIF_TIMES'):
                    print('TIME %.1f %s' % (time.time() - _, str(args[i])[:160]))
            else:
                res[i] = ('died',)
            continue
        now = time.time()
        for pid, (i, t0, path) in list(running.items()):
            if now - t0 > timeout:
                for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                    try:
                        k()
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                running.pop(pid)
                res[i] = ('timeout',)
        time.sleep(0.01)
    shutil.rmtree(base, ignore_errors=True)
    return res


# ---------------------------------------------------------------- verdicts
class Check:
    """Collects what one check saw and produces verdict lines and evidence."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.checked = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.assumptions = []
        self.errors = []
        self.design = []

    def add_states(self, st, di):
        self.transitions += st
        self.states += di

    def model(self, name, module, cfg=None, constants=None, invariant=None, args=(), workers=4, timeout=600,
              env=None):
        """Exhaustive design-level model checking of a specification."""
        out, st, di, rc = tlc(module, constants, cfg=cfg, invariant=invariant, args=args, workers=workers,
                              timeout=timeout, env=env, xmx='6g')
        if rc != 0 or 'No error has been found' not in out:
            raise Machinery('design model %s: rc %s\n%s' % (name, rc, out[-3000:]))
        self.add_states(st, di)
        self.design.append({'model': name, 'states': di, 'transitions': st})
        return out

    def violation(self, sig, detail, replay=None):
        self.violations.append((sig, detail, replay))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        known = load_known()
        outdir = os.path.join(VERIF, 'replays', self.prop)
        rc = 0
        seen_known = set()
        viol = 0
        shutil.rmtree(outdir, ignore_errors=True)
        if self.errors:
            for e in self.errors:
                print('MACHINERY', e)
        for n, (sig, detail, replay) in enumerate(self.violations):
            k = next((k for k in known if k[0] == self.prop and k[1] == sig), None)
            if k is not None:
                if k not in seen_known:
                    seen_known.add(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, sig))
                continue
            viol += 1
            rc = 1
            if viol <= 20:
                os.makedirs(outdir, exist_ok=True)
                path = os.path.join(outdir, '%03d.json' % viol)
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'signature': sig, 'detail': detail,
                               'seed': SEED, 'tier': TIER, 'replay': replay}, f, indent=1, default=str)
                print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, VERIF)))
                print('  ', sig, str(detail)[:600])
        if rc == 0 and self.errors:
            rc = 2
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'facts_checked': self.checked,
               'samples': self.samples or ['none'], 'design_models': self.design}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': viol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d states, %d traces, %d facts, %d violations, %.1fs' %
              (self.prop, TIER, self.states, self.traces, self.checked, viol, ev['wall_s']))
        return rc


def load_known():
    """known_findings.txt: lines 'known: property=<id> sig=<exact signature>'; 'fixed:' lines are records only."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) sig=(.*)$', line.rstrip('\n'))
            if m:
                res.append((m.group(1), m.group(2)))
    return res
