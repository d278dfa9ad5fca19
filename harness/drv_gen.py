"""Sessions with generated models (FDModelBuilder, ManifoldModelBuilder), recorded for GenTrace.tla."""
import contextlib, importlib.util, io, json, keyword, os, random, re, subprocess, sys, tempfile
from fractions import Fraction
import numpy as np
import sympy
from core import tlc_trace, SEED, Machinery
from gfnum import G, P, to_gf, ints, NotExact
from serfd import SerFD, APP
from numsys import NumSystem


# ------------------------------------------------------------ numbers
def rnd(s, i):          # Rnd of GF.tla
    a = ((s % P) * 31337 % P + (i % P) * 7919 % P + 12345) % P
    b = (a * a % P * a % P + (i % P) * 613 % P + 7) % P
    c = (b * b % P * b + (s % P) * 17 + 3) % P
    return (c * c % P * c + 29) % P


def ufun(code):
    def f(self):
        x, y = self.v, (-self.v) % P
        v = rnd(code, x)
        if code in (1, 4, 5, 7):
            v -= rnd(code, y)
        elif code in (2, 8, 9):
            v += rnd(code, y)
        return G._m(v)
    return f


for _n, _c in APP.items():
    setattr(G, '__abs__' if _n == 'Abs' else _n, ufun(_c))


class Np:
    """numpy whose new arrays hold exact numbers"""
    def __getattr__(self, n):
        return getattr(np, n)

    def _full(self, shape, v):
        a = np.empty(shape, dtype=object)
        a.fill(v)
        return a

    def zeros(self, shape, *a, **k):
        return self._full(shape, G(0))

    def empty(self, shape, *a, **k):
        return self._full(shape, G(1))

    def ones(self, shape, *a, **k):
        return self._full(shape, G(1))

    def zeros_like(self, x, *a, **k):
        return self._full(np.shape(x), G(0))

    def empty_like(self, x, *a, **k):
        return self._full(np.shape(x), G(1))

    def ones_like(self, x, *a, **k):
        return self._full(np.shape(x), G(1))


class Space:
    """base space with an arbitrary differentiation: a different operator for each multi-index"""
    def __init__(self, coords, shape):
        self.coords, self.shape, self.dimension = coords, shape, len(coords)

    def diff(self, field, *args):
        o = [0] * len(self.coords)
        for c, n in zip(args[::2], args[1::2]):
            o[self.coords.index(str(c))] += int(n)
        code = 1
        for n in o:
            code = code * 7 + n
        f = np.asarray(field)
        v = f.ravel()
        N = len(v)
        if N == 1:
            return np.array([v[0] * 0]).reshape(f.shape)
        w = [rnd(code, q) for q in range(3)]
        num = (lambda z: G(z)) if v.dtype == object else float
        out = np.empty(N, dtype=v.dtype)
        for p in range(N):
            s = num(0)
            for q in range(3):
                s = s + num(w[q]) * v[(p + q) % N]
            out[p] = s
        return out.reshape(f.shape)


SHAPES = {1: [[7], [5], [3], [2]], 2: [[5, 4], [3, 6], [4, 3], [2, 3]], 3: [[3, 4, 2], [4, 3, 5], [2, 3, 3], [3, 2, 4]]}
LENGTHS = [[[1, 1]] * 3, [[7, 2], [3, 1], [5, 1]], [[11, 3], [2, 5], [1, 4]], [[2, 1], [9, 7], [3, 2]]]
FLENGTHS = [[[1, 1]] * 3, [[2, 1], [4, 1], [1, 1]], [[1, 2], [2, 1], [4, 1]], [[4, 1], [1, 2], [2, 1]]]
FSHAPES = {1: [[8], [4], [2], [1]], 2: [[4, 8], [2, 4], [4, 2], [8, 4]], 3: [[2, 4, 2], [4, 2, 4], [2, 4, 2], [4, 4, 2]]}
SCHEMES = [None, 'euler', 'rk2', 'rk4']
TIMES = [[0, 1], [1, 2], [3, 1], [7, 4]]
DTS = [[1, 4], [1, 1], [3, 8]]


class Session:
    def __init__(self, arg):
        self.arg = arg
        self.mode = arg.get('mode', 'fd')
        self.floats = arg.get('floats', False)
        self.ints = arg.get('ints', False)
        self.S = S = NumSystem(arg['sys'])
        self.coords = [str(c) for c in S.space]
        self.d = len(self.coords)
        self.events, self.skipped = [], 0
        from sympkf.symbolic.util import Eq
        self.Eq = Eq
        self.describe()
        self.values()

    # ---- the system as structure
    def describe(self):
        S = self.S
        ser = SerFD(self.coords)
        roots = [ser(r.doit()) for r in S.rhs]
        tname = [str(f.func) for f in S.fields]
        used = set(ser.funs) | set(tname)
        rhsfuns = {str(f.func): f for r in S.rhs for f in r.atoms(sympy.core.function.AppliedUndef)}
        raw = set(rhsfuns)
        given = {str(f.func): f for f in S.given if str(f.func) in raw}
        cf = sorted(n for n, f in given.items() if S.t not in f.args)
        ex = {n: 'time' if len(f.args) == 1 else 'field' for n, f in given.items() if S.t in f.args}
        syms = sorted({str(q) for r in S.rhs for q in r.atoms(sympy.Symbol)} - set(self.coords) - {'t'})
        self.cf, self.ex, self.syms, self.fields = cf, ex, syms, tname
        ch = lambda names: [list(n) for n in names]
        self.params = syms + cf
        self.sys = dict(nodes=ser.nodes, roots=roots, fields=tname, consts={s: 1 for s in syms} or {'_none_': 1},
                        cfuns={s: 1 for s in cf} or {}, exog=ex or {},
                        texts=dict(prog=ch(tname), coords=ch(self.coords), consts=ch(syms), cfuns=ch(cf), exog=ch(sorted(ex))))
        if not syms:
            self.sys['consts'] = {}
        self.ident = {n: self.clean(n) for n in self.params + tname + sorted(ex)}
        self.sys['idents'] = {n: self.ident[n] for n in self.params}

    @staticmethod
    def clean(n):
        for a, b in (('\\', ''), ('{', ''), ('}', ''), ('^', '_'), (',', '_')):
            n = n.replace(a, b)
        return n + '_' if keyword.iskeyword(n) else n

    # ---- numbers of the session
    def values(self):
        s = (SEED * 577 + self.arg.get('salt', 0) * 53) % 40000
        big = 8 * 8 * 8 if self.floats else 130
        if self.floats:
            val = lambda a, i: 1 + rnd(s + a, i) % 9
        else:
            val = lambda a, i: pow(rnd(s + a, i) or 5, 2, P)
        tab = lambda a, n=big: [val(a, i) for i in range(n)]
        self.cv = {n: [val(10 + k, v) for v in range(3)] for k, n in enumerate(self.syms)}
        for k, n in enumerate(self.syms):       # zero is a value like any other
            if (k + self.arg.get('salt', 0)) % 3 == 0:
                self.cv[n][k % 2] = 0
        self.fv = {n: [tab(100 + 7 * k + v) for v in range(3)] for k, n in enumerate(self.cf)}
        self.ev = {n: [tab(300 + 7 * k + v) for v in range(2)] for k, n in enumerate(sorted(self.ex))}
        self.sv = [[tab(500 + 11 * k + q) for q in range(len(self.fields))] for k in range(3)]

    def num(self, v):
        return (int(v) if self.ints else float(v)) if self.floats else G(v)

    def array(self, t, shape):
        n = int(np.prod(shape))
        if self.floats:
            return np.array(t[:n], dtype=int if self.ints else float).reshape(shape)
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = G(t[i])
        return a.reshape(shape)

    def rat(self, q):
        if not self.floats:
            return Fraction(*q)
        return q[0] // q[1] if q[0] % q[1] == 0 and self.ints else q[0] / q[1]

    def read(self, a):
        a = np.asarray(a, dtype=object) if not self.floats else np.asarray(a)
        return [self.recover(v) if self.floats else to_gf(v) for v in a.ravel()]

    @staticmethod
    def recover(x):
        """the small fraction a float stands for; NotExact when that is not beyond doubt"""
        if isinstance(x, (int, np.integer)):
            return int(x) % P
        x = float(x)
        if not abs(x) < 1e9:
            raise NotExact(x)
        f = Fraction(x).limit_denominator(3 << 10)
        if abs(float(f) - x) > 4e-15 * max(1.0, abs(x)) * 8 or abs(x) * f.denominator > 1e11:
            raise NotExact(x)
        return to_gf(f)

    # ---- code
    def builder(self, pde=False):
        from sympkf.symbolic.util import PDESystem
        if self.mode == 'fd':
            from sympkf.symbolic.model_builder_FD import FDModelBuilder as B
        else:
            from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder as B
        eqs = self.S.eqs(self.Eq)
        if len(eqs) == 1 and self.arg.get('salt', 0) % 2:
            eqs = eqs[0]
        self.cname = [None, 'Wave', 'MyModel'][self.arg.get('salt', 0) % 3]
        kw = {} if self.cname is None else dict(class_name=self.cname)
        # the class is named by the caller, else by the system, else by default
        named = dict(name='Tides') if pde and self.arg.get('salt', 0) % 4 < 2 else {}
        self.cname = self.cname or named.get('name', 'NumModel')
        return B(PDESystem(eqs, **named) if pde else eqs, **kw)

    def load(self, code):
        ns = {'__name__': 'generated'}
        exec(compile(code, 'generated', 'exec'), ns)
        return self.patch(ns)

    def patch(self, ns):
        if not self.floats:
            for k in [k for k, v in ns.items() if v is np]:
                ns[k] = Np()
        cls = ns[self.cname]
        ev, ex, sess = self.ev, self.ex, self
        names = {self.ident[n]: n for n in ex}

        class Test(cls):
            def compute_exogenous(self, t, state):
                out = []
                for k in self.exogenous_functions:
                    n = names[k]
                    A, B = ev[n]
                    tt = sess.num(t) if not sess.floats else t
                    if ex[n] == 'time':
                        out.append(sess.num(A[0]) + tt * sess.num(B[0]))
                    else:
                        sh = state.shape[1:]
                        out.append(sess.array(A, sh) + sess.array(B, sh) * tt + state[0])
                return out
        self.cls, self.Test = cls, Test
        return cls

    def code(self, how):
        if how in ('fresh', 'pde') or self.b is None:
            self.b = self.builder(how == 'pde')
        if how == 'module':
            d = tempfile.mkdtemp(prefix='mod-')
            here = os.getcwd()
            os.chdir(d)
            try:
                # a module of that name left by an earlier system
                with open(os.path.join(d, self.cname.lower() + '.py'), 'w') as f:
                    f.write('class %s:\n    stale = True\n' % self.cname * 2000)
                with contextlib.redirect_stdout(io.StringIO()):
                    self.b.write_module()
                files = os.listdir(d)
                path = os.path.join(d, self.cname.lower() + '.py')
                ok = files == [self.cname.lower() + '.py']
                spec = importlib.util.spec_from_file_location('gen_' + self.cname.lower(), path)
                m = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(m)
                cls = self.patch(m.__dict__)
                same = ok and self.b.code in open(path).read() and getattr(self.b, 'module_file', None) == self.cname.lower() + '.py'
            finally:
                os.chdir(here)
        else:
            code = self.b.code
            same = code == self.b.code and self.codes.setdefault(id(self.b), code) == code
            self.keep.append(self.b)
            cls = self.load(code)
        decl = {k: [str(v) for v in getattr(cls, a, ())] for k, a in
                (('prog', 'prognostic_functions'), ('coords', 'coordinates'), ('consts', 'constants'),
                 ('cfuns', 'constant_functions'), ('exog', 'exogenous_functions'))}
        every = [v for vs in decl.values() for v in vs]
        self.add('class', how, samecode=bool(same), name=cls.__name__ == self.cname, cnt=len(every),
                 ident=all(v.isidentifier() and not keyword.iskeyword(v) for v in every),
                 **{k: [list(v) for v in vs] for k, vs in decl.items()})

    def add(self, op, text, **kw):
        self.events.append(dict(op=op, text='%s %s' % (op, text), **kw))

    # ---- operations
    def pval(self, n, v, shape):
        return self.num(self.cv[n][v - 1]) if n in self.cv else self.array(self.fv[n][v - 1], shape)

    def held(self, m):
        out = {}
        for n in self.params:
            v = getattr(m, self.ident[n], None)
            try:
                out[n] = dict(kind='missing') if v is None else dict(kind='nan') if isinstance(v, float) and v != v else dict(kind='value', v=self.read(v))
            except NotExact:
                out[n] = dict(kind='other')
        return out

    def new(self, i, bits, shp, ln, sch, v):
        shapes = (FSHAPES if self.floats else SHAPES)[self.d]
        default = shp == 4 and self.d == 1 and self.mode == 'fd'
        shape = [100] if default else shapes[shp % len(shapes)]
        lens = (FLENGTHS if self.floats else LENGTHS)[ln][:self.d]
        given = {n: 1 + (v + k) % 3 for k, n in enumerate(self.params) if bits == 15 or (bits >> (k % 4)) & 1}
        kw = {self.ident[n]: self.pval(n, q, shape) for n, q in given.items()}
        if SCHEMES[sch]:
            kw['time_scheme'] = SCHEMES[sch]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if self.mode == 'fd':
                k2 = dict(kw)
                tup = tuple if (v + ln) % 2 else list
                if not (ln == 0 and (v + shp) % 2):
                    k2['lengths'] = tup(self.rat(q) for q in lens)
                if not default:
                    k2['shape'] = tup(shape)
                m = self.Test(**k2)
            else:
                m = self.Test(Space([self.clean(c) for c in self.coords], tuple(shape)), **kw)
        self.m[i] = (m, shape, lens)
        warned = re.findall(r'`([^`]*)`', out.getvalue())
        ev = dict(i=i, shape=shape, len=lens, given=given, scheme=SCHEMES[sch] or 'rk4', warned=warned, held=self.held(m))
        if self.mode == 'fd':
            ev.update(shapeOut=[int(z) for z in m.shape], lenOut=self.read([z for z in m.lengths]), dxOut=self.read(list(m.dx)),
                      xOut=[self.read(z) for z in m.x], XShape=[list(np.shape(z)) for z in m.X], XOut=[self.read(z) for z in m.X])
        else:
            ev['space'] = getattr(m, 'base_space', None) is not None and m.base_space.dimension == self.d
        self.vals[i] = dict(given)
        self.add('new', '%d %s %s %s' % (i, shape, sorted(given), SCHEMES[sch]), **ev)

    def set(self, i, w, v):
        if not self.params:
            return
        m, shape, _ = self.m[i]
        n = self.params[w % len(self.params)]
        setattr(m, self.ident[n], self.pval(n, v, shape))
        self.vals[i][n] = v
        self.add('set', '%d %s' % (i, n), i=i, s=n, v=v)

    def ready(self, i):
        return all(n in self.vals[i] for n in self.params)

    def complete(self, i):
        for k, n in enumerate(self.params):
            if n not in self.vals[i]:
                self.set(i, k, 1 + k % 3)

    def run(self, op, i, t, s, call):
        self.complete(i)
        m, shape, _ = self.m[i]
        state = np.stack([self.array(self.sv[s - 1][q], shape) for q in range(len(self.fields))])
        text = '%d %s at t=%s' % (i, tuple(shape), t)
        try:
            with np.errstate(all='ignore'):
                out = call(m, state)
            if np.shape(out) != state.shape:
                self.add(op, text, i=i, t=t, st=s, undef=False, out=[['shape %s' % (np.shape(out),)]], after=[])
                return
            got = [self.read(o) for o in out]
            undef = False
        except ZeroDivisionError as e:
            if 'GF' not in str(e) and not self.floats:
                raise
            got, undef = [], True
        except NotExact:
            self.skipped += 1
            return
        self.add(op, text, i=i, t=t, st=s, undef=undef, out=got, after=[self.read(o) for o in state])

    def trend(self, i, t, s):
        self.run('trend', i, TIMES[t], s, lambda m, st: m.trend(self.rat(TIMES[t]), st))

    def step(self, i, t, s, d):
        if self.floats:         # values of higher degree: exact numbers only
            return self.trend(i, t, s)
        t0 = self.rat(TIMES[t])
        dt = self.rat(DTS[d - 1])
        n = len(self.events)
        self.run('step', i, TIMES[t], s, lambda m, st: m.forecast([t0, t0 + dt], st)[t0 + dt])
        for e in self.events[n:]:
            e['dt'] = DTS[d - 1]

    def index(self, i, k, s):
        if self.mode != 'fd':
            return
        m = self.m[i][0]
        k = k % self.d
        out = m.index(self.clean(self.coords[k]), s)
        self.add('index', '%d %s %d' % (i, self.coords[k], s), i=i, k=k + 1, step=s, out=[int(z) for z in out])

    def reject(self, a, b):
        d1, d2 = (a, b) if self.mode == 'fd' else (a, self.d)
        raised = False
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                if self.mode == 'fd':
                    self.Test(shape=(3,) * d1, lengths=(1.0,) * d2)
                else:
                    self.Test(Space(list('abcde')[:d1], (3,) * d1))
            except (ValueError, AssertionError):
                raised = True
            except Exception as e:
                raised = 'other'
        self.add('reject', '%d %d' % (d1, d2), dim=d1, dim2=d2, raised=raised if raised != 'other' else False)

    def play(self, hist):
        self.b, self.codes, self.m, self.vals, self.keep = None, {}, {}, {}, []
        self.code('fresh')
        for a in hist:
            getattr(self, a[0])(*a[1:])
        return self.record()

    def record(self):
        case = dict(mode=self.mode, sys=self.sys, cv=self.cv or {}, fv=self.fv, ev=self.ev, sv=self.sv, events=self.events)
        return dict(case=case, skipped=self.skipped)


def play(arg):
    s = Session(arg)
    try:
        return s.play(arg['hist'])
    except (TypeError, AttributeError, NotExact) as e:
        if s.floats:
            raise
        # the exact numbers may be the cause: the same session with floats decides
        try:
            r = Session(dict(arg, floats=True)).play(arg['hist'])
            r['skipped'] += 100
            r['why'] = str(e)
            return r
        except NotExact:
            raise Machinery('neither exact nor float numbers: %s' % e)


def job_gen(arg):
    r = elsewhere(arg) if arg.get('env') else play(arg)
    out = tlc_trace('GenTrace', r['case'], {})
    return dict(states=out['states'], distinct=out['distinct'], nchk=out['nchk'], bad=out['bad'], skipped=r['skipped'], why=r.get('why'))


def play_many(parts, floats=False):
    """several models in one process, one after the other, then each once more"""
    ss = [Session(dict(p, floats=floats or p.get('floats', False))) for p in parts]
    for s, p in zip(ss, parts):
        s.play(p['hist'])
    for k, (s, p) in enumerate(zip(ss, parts)):
        for a in (['code', 'again'], ['trend', 1, 1, 2], ['code', 'fresh'], ['new', 1, 15, k, 1, 1, 2], ['trend', 1, 2, 1], ['step', 1, 0, 1, 1]):
            getattr(s, a[0])(*a[1:])
    return [s.record() for s in ss]


def job_many(arg):
    """several systems with the same names in other coordinates, in one process"""
    why = None
    try:
        rs = play_many(arg['parts'])
    except (TypeError, AttributeError, NotExact) as e:
        why = str(e)
        try:
            rs = play_many(arg['parts'], floats=True)
        except NotExact:
            raise Machinery('neither exact nor float numbers: %s' % e)
    tot = dict(states=0, distinct=0, nchk=0, bad=[], skipped=100 if why else 0, why=why)
    for r, p in zip(rs, arg['parts']):
        out = tlc_trace('GenTrace', r['case'], {})
        for k in ('states', 'distinct', 'nchk'):
            tot[k] += out[k]
        tot['bad'] += [list(b) + [p['sys']['name']] for b in out['bad']]
        tot['skipped'] += r['skipped']
    return tot


def elsewhere(arg):
    e = dict(os.environ)
    e.update(arg['env'])
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__)], input=json.dumps(arg), text=True, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=280)
    for line in p.stdout.splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    raise RuntimeError('session failed: ' + p.stderr[-600:])


if __name__ == '__main__':
    print('RESULT ' + json.dumps(play(json.loads(sys.stdin.read()))))
