"""Replays generated sessions on sympkf.model.Model and records what the calls return."""
import copy, time, warnings
import numpy as np
from core import tlc_trace
from gfnum import G, arr, ints, to_gf, NotExact
from sympkf.model import model as M

DELAY = {}


def poly(tr, t, u, floats):
    v = np.asarray(u).ravel()
    num = (lambda z: z) if floats else G
    out = np.empty(len(tr), dtype=float if floats else object)
    for i, comp in enumerate(tr):
        s = num(0)
        for c, a, p in comp:
            m = num(c) * num(float(t)) ** a
            for x, q in zip(v, p):
                m = m * num(x) ** q
            s = s + m
        out[i] = s
    return out.reshape(np.shape(u))


class Trend:
    """callable, picklable"""
    def __init__(self, tr, floats):
        self.tr, self.floats = tr, floats

    def __call__(self, t, u):
        if DELAY:
            k = to_gf(np.asarray(u).ravel()[-1])
            time.sleep(DELAY.get(k, 0))
        return poly(self.tr, t, u, self.floats)


class Upd:
    def __init__(self, a, b, floats):
        self.a, self.b = Trend(a, floats), Trend(b, floats)
        self.floats = floats

    def __call__(self, t, u, dt):
        d = float(dt) if self.floats else G(float(dt))
        return u + self.a(t, u) * d + self.b(t, u) * (d * d)


class TestModel(M.Model):
    def __init__(self, trend, **kw):
        super().__init__(**kw)
        self._tr = trend

    def trend(self, t, state):
        return self._tr(t, state)


class SplitModel(M.Model):
    def __init__(self, trend, **kw):
        super().__init__(**kw)
        self.trend = trend


class Lin(M.LinearModel):
    def __init__(self, trend, n, **kw):
        super().__init__(**kw)
        self.n = n
        self._tr = trend

    def trend(self, t, state):
        return self._tr(t, state)


def build(d, floats):
    kw = {} if d['scheme'] == 'default' else {'time_scheme': d['scheme']}
    if d['class'] == 'IdentityModel':
        return M.IdentityModel(**kw)
    if d['class'] == 'LinearModel':
        return Lin(Trend(d['trend'], floats), d['n'], **kw)
    if d['subs']:
        sch = M.IdentityModel().time_schemes
        subs = []
        for s in d['subs']:
            subs.append({'update': Upd(s['trend'], s['trend2'], floats)} if s['kind'] == 'update'
                        else {'trend': Trend(s['trend'], floats), 'scheme': sch[s['scheme']]})
        return SplitModel(subs, **kw)
    return TestModel(Trend(d['trend'], floats), **kw)


class TooLarge(Exception):
    """a float too large for its exact value to be recovered: no verdict"""


class Session:
    def __init__(self, doc):
        self.doc = doc
        self.fl = doc['floats']
        self.models = [build(d, self.fl) for d in doc['models']]
        self.num, self.den, self.base = doc['unit']
        self.sch = [('rk4' if d['scheme'] == 'default' else d['scheme']) for d in doc['models']]
        self.events = []
        self.skipped = 0
        self.pairs = len(doc['ops'])

    # --- encoding
    def tm(self, k):
        """time of instant k: its distance to the origin of the session plus that origin"""
        return float(self.base * self.den + k * self.num) / self.den

    def dt(self, k):
        return float(k * self.num) / self.den

    def key(self, t):
        k = round((float(t) - self.base) * self.den / self.num)
        return k if abs(self.tm(k) - float(t)) < 1e-9 else -99999

    def window(self, ks, form):
        w = [self.tm(k) for k in ks]
        return np.array(w) if form == 'array' else tuple(w) if form == 'tuple' else w

    def saved(self, s):
        ts = [self.tm(k) for k in s['ts']]
        return {'all': lambda: None, 'number': lambda: int(ts[0]) if float(ts[0]).is_integer() and s['ts'][0] % 2 else ts[0], 'npnumber': lambda: np.float64(ts[0]), 'list': lambda: ts,
                'tuple': lambda: tuple(ts), 'array': lambda: np.array(ts)}[s['kind']]()

    def vec(self, v, shape):
        return np.array(v, dtype=float).reshape(shape) if self.fl else arr(v, shape)

    def state(self, o, u):
        sh = self.doc['models'][o]['shape']
        if self.sch[o] == 'leapfrog':
            pair = [self.vec(u[0], sh), self.vec(u[1], sh)]
            self.pairs += 1             # the two instants of leapfrog come as a list, a tuple or one array
            return pair if self.pairs % 3 == 0 else tuple(pair) if self.pairs % 3 == 1 else np.array(pair)
        return self.vec(u[0], sh)

    def enc(self, o, st, pair=None):
        """state -> list of vectors"""
        sh = tuple(self.doc['models'][o]['shape'])
        pair = self.sch[o] == 'leapfrog' if pair is None else pair
        parts = list(st) if pair else [st]
        out = []
        for p in parts:
            if np.shape(p) != sh:
                out.append([-1, len(np.shape(p))])
                continue
            if self.fl and np.max(np.abs(np.asarray(p, dtype=float))) > 800:
                raise TooLarge
            try:
                out.append(ints(p, 10 ** 6 if self.fl else 10 ** 5))
            except (NotExact, ZeroDivisionError):
                out.append([-2])
        return out

    # --- purity
    def snap(self, o, *objs):
        def c(x):
            if isinstance(x, np.ndarray):
                return ('a', x.shape, [repr(v) for v in x.ravel()])
            if isinstance(x, (list, tuple)):
                return (type(x).__name__, [c(v) for v in x])
            return repr(x)
        m = self.models[o]
        # the time step, the scheme in use, the trend
        d = {k: id(getattr(m, k, None)) if k == 'trend' and 'trend' in m.__dict__ else repr(getattr(m, k, None)) for k in ('dt', 'time_scheme', 'trend', 'n', 'nstart')}
        d['schemes'] = sorted((k, id(f)) for k, f in m.time_schemes.items())
        return [d] + [c(x) for x in objs]

    def run(self):
        for op in self.doc['ops']:
            op = dict(op)
            op['o0'] = op['o'] - 1
            try:
                r = getattr(self, 'op_' + op['op'])(op['o0'], op)
            except TooLarge:
                self.skipped += 1
                continue
            if r is not None:
                ev = {k: op[k] for k in ('op', 'o', 'win', 'saved', 'name', 'u', 'us', 'dt')}
                ev.update(r)
                self.events.append(ev)

    def op_set(self, o, op):
        m = self.models[o]
        try:
            m.set_time_scheme(op['name'])
            ok = True
        except ValueError:
            ok = False
        if ok:
            self.sch[o] = op['name']
        return dict(ok=ok)

    def op_step(self, o, op):
        m = self.models[o]
        u = self.state(o, op['u'])
        before = self.snap(o, u)
        out = m.time_scheme(m.trend, self.tm(op['win'][0]), u, self.dt(op['dt']))
        res = self.enc(o, out)
        return dict(out=res, pure=before == self.snap(o, u))

    def _fc(self, o, op, u, w, s):
        m = self.models[o]
        return [[self.key(t), self.enc(o, st)] for t, st in m.forecast(w, u, *([] if s is None else [s])).items()]

    def op_fc(self, o, op):
        u, w, s = self.state(o, op['u']), self.window(op['win'], op['form']), self.saved(op['saved'])
        before = self.snap(o, u, w, s)
        out = self._fc(o, op, u, w, s)
        return dict(out=out, pure=before == self.snap(o, u, w, s))

    def op_pr(self, o, op):
        u, w, s = self.state(o, op['u']), self.window(op['win'], op['form']), self.saved(op['saved'])
        before = self.snap(o, u, w, s)
        out = self.models[o].predict(w, u, *([] if s is None else [s]))
        isarr = isinstance(out, np.ndarray)
        return dict(out=[self.enc(o, st) for st in out], pure=isarr and before == self.snap(o, u, w, s))

    def op_fc2(self, o, op):
        if len(op['win']) < 2:
            return None
        m = self.models[o]
        c = op['r'] % (len(op['win']) - 1)
        w1, w2 = self.window(op['win'][:c + 1], op['form']), self.window(op['win'][c:], op['form'])
        u = self.state(o, op['u'])
        before = self.snap(o, u)
        t1 = m.forecast(w1, u)
        t2 = m.forecast(w2, t1[w1[-1]])
        a = [[self.key(t), self.enc(o, st)] for t, st in t1.items()]
        b = [[self.key(t), self.enc(o, st)] for t, st in t2.items()]
        return dict(out=a + b[1:], pure=before == self.snap(o, u) and a[-1] == b[0])

    def op_ens(self, o, op):
        m = self.models[o]
        us = [self.state(o, u) for u in op['us']]
        w, s = self.window(op['win'], op['form']), self.saved(op['saved'])
        before = self.snap(o, us, w, s)
        DELAY.clear()
        DELAY.update({int(k): v for k, v in op.get('delays', {}).items()})
        args = {} if s is None else {'saved_times': s}
        try:
            out = (m.ensemble_forecast(w, us, parallel=True, nb_pool=op['pool'], **args) if op['par']
                   else m.ensemble_forecast(w, us, parallel=False, **args))
        finally:
            DELAY.clear()
        res = [[self.key(t), [self.enc(o, st) for st in l]] for t, l in out.items()]
        # a requested time outside the window has no states to deliver
        res = [q for q in res if q[1] or q[0] in op['win']]
        res.sort(key=lambda q: op['win'].index(q[0]) if q[0] in op['win'] else -1)
        return dict(out=res, pure=before == self.snap(o, us, w, s))

    def op_tl(self, o, op):
        if self.sch[o] == 'leapfrog' or self.fl:
            return None
        m = self.models[o]
        sh = self.doc['models'][o]['shape']
        u = self.state(o, op['u'])
        ps = [self.vec(p[0], sh) for p in op['us']]
        w, s = self.window(op['win'], op['form']), self.saved(op['saved'])
        before = self.snap(o, u, ps, w, s)
        kw = {} if op['h'] == [1, 10000] else {'h': op['h'][0] / op['h'][1]}
        if s is not None:
            kw['saved_times'] = s
        ref, out = m.forecast_tl(w, u, ps, **kw)
        ref = [[self.key(t), self.enc(o, st)] for t, st in ref.items()]
        res = [[self.key(t), [self.enc(o, st) for st in l]] for t, l in out.items()]
        res = sorted([q for q in res if q[1] or q[0] in op['win']], key=lambda q: op['win'].index(q[0]) if q[0] in op['win'] else -1)
        return dict(out=res, ref=ref, h=op['h'], pure=before == self.snap(o, u, ps, w, s))

    def op_mat(self, o, op):
        if self.sch[o] == 'leapfrog':
            return None
        out = self.models[o].make_M(self.window(op['win'], op['form']))
        n = self.doc['models'][o]['n']
        if np.shape(out) != (n, n):
            return dict(out=[[-1] * n] * n)
        try:
            return dict(out=[ints(r, 10 ** 6 if self.fl else 10 ** 5) for r in out])
        except NotExact:
            return dict(out=[[-1] * n] * n)

    def op_rand(self, o, op):
        """spin-up from a random state, here a known one"""
        if self.sch[o] == 'leapfrog':
            return None
        m, n = self.models[o], self.doc['models'][o]['n']
        dt, steps = op['dt'], 1 + op['r'] % (3 if self.fl else 5)
        m.n, m.nstart = n, steps
        m.set_dt(self.dt(dt))
        before = self.snap(o)
        drawn = []

        def normal(*a, **k):
            drawn.append(a or k)
            return self.vec(op['u'][0], (n,))
        real, np.random.normal = np.random.normal, normal
        try:
            out = m.randstate()
        finally:
            np.random.normal = real
        if not drawn:                   # drawn in another way
            return None
        if np.shape(out) != (n,):
            return dict(out=[[-1]], steps=steps, dt=dt, pure=True)
        if self.fl and np.max(np.abs(out)) > 800:
            raise TooLarge
        try:
            return dict(out=[ints(out, 10 ** 6 if self.fl else 10 ** 5)], steps=steps, dt=dt, pure=before == self.snap(o))
        except (NotExact, ZeroDivisionError):
            return dict(out=[[-2]], steps=steps, dt=dt, pure=True)

    def op_win(self, o, op):
        m = self.models[o]
        dt = abs(op['dt'])
        ident = self.doc['models'][o]['class'] == 'IdentityModel'
        if ident and op['r'] % 2 and (self.num, self.den) == (1, 1):
            dt = 1                      # the default step of the identity model
            m = build(self.doc['models'][o], self.fl)
        else:
            m.set_dt(self.dt(dt))
        start = op['win'][0] if op['r'] % 3 else 0
        steps = op['r'] % 9
        end = self.tm(start + steps * dt)
        w = m.window(end) if start == 0 == self.base else m.window(end, self.tm(start))
        return dict(out=[self.key(t) for t in w], start=start, steps=steps, dt=dt)


def job_session(doc):
    s = Session(doc)
    s.run()
    r = tlc_trace('ModelTrace', dict(models=doc['models'], unit=doc['unit'], events=s.events), {})
    r['traces'] = len(s.events)
    return r
