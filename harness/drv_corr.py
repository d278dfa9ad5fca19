"""Replays closure request histories (CorrLife.tla) into Closure / LocGaussianClosure."""
import random
import sympy
from sympy import symbols, Function, Integer, Rational, Symbol, Add, Mul, Pow, Derivative
from sympy.core.function import AppliedUndef
from core import tlc_trace, SEED

P = 46199


class CorrSer:
    def __init__(self, field, coords, dx):
        self.coords, self.dx, self.tensors = coords, dx, {}
        n = len(coords)
        for kind, f in (('metric', field.metric), ('aspect', field.aspect), ('diffusion', field.diffusion)):
            for i in range(n):
                for j in range(n):
                    self.tensors[str(f[i, j].func)] = (kind, min(i, j) + 1, max(i, j) + 1)
        self.nodes, self.memo = [], {}

    def push(self, nd):
        self.nodes.append(nd)
        return len(self.nodes)

    def __call__(self, e):
        e = sympy.sympify(e)
        if e not in self.memo:
            self.memo[e] = self.ser(e)
        return self.memo[e]

    def tensor(self, e, alpha):
        name = str(e.func)
        if name not in self.tensors or len(e.args) != len(self.coords) + 1 or str(e.args[0]) != 't':
            return self.push(['opaque', str(e)])
        shift = []
        for c, d, a in zip(self.coords, self.dx, e.args[1:]):
            q = sympy.expand(a - c)
            k = q.coeff(d, 1)
            if not isinstance(k, Integer) or sympy.expand(q - k * d) != 0:
                return self.push(['opaque', str(e)])
            shift.append(int(k))
        return self.push(['ten', *self.tensors[name], shift, alpha])

    def ser(self, e):
        if isinstance(e, Integer):
            return self.push(['int', int(e) % P])
        if isinstance(e, Rational) and e.q % P:
            return self.push(['rat', int(e.p) % P, int(e.q) % P])
        if isinstance(e, Symbol):
            if e in self.dx:
                return self.push(['sep', self.dx.index(e) + 1])
            if e in self.coords:
                return self.push(['sym', self.coords.index(e) + 1])
        if isinstance(e, AppliedUndef):
            return self.tensor(e, [0] * len(self.coords))
        if isinstance(e, Derivative) and isinstance(e.expr, AppliedUndef):
            al = [0] * len(self.coords)
            for v, n in e.variable_count:
                if v not in self.coords or not isinstance(n, Integer):
                    return self.push(['opaque', str(e)])
                al[self.coords.index(v)] += int(n)
            return self.tensor(e.expr, al)
        if isinstance(e, (Add, Mul)):
            return self.push(['add' if isinstance(e, Add) else 'mul', [self(a) for a in e.args]])
        if isinstance(e, Pow) and isinstance(e.args[1], Rational):
            b = self(e.args[0])
            return self.push(['pow', b, int(e.args[1].p), int(e.args[1].q)])
        if isinstance(e, sympy.exp):
            return self.push(['exp', self(e.args[0])])
        return self.push(['opaque', str(e)[:200]])


def alpha_of(term, eps, coords, E):
    """multi-index of E[eps D^alpha eps]; None when the term is something else"""
    if not isinstance(term, E):
        return None
    q = term.args[0]
    if q == eps**2:
        return [0] * len(coords)
    rest = [a for a in q.args if a != eps] if isinstance(q, Mul) and len(q.args) == 2 else []
    if len(rest) != 1 or not isinstance(rest[0], Derivative) or rest[0].expr != eps:
        return None
    al = [0] * len(coords)
    for v, n in rest[0].variable_count:
        if v not in coords:
            return None
        al[coords.index(v)] += int(n)
    return al


def applies(term, eps, alpha, coords, E):
    """does the substitution of the term reach the term as the dynamics hold it?"""
    mark = Symbol('mark')
    return E(eps * Derivative(eps, *zip(coords, alpha)).doit()).subs({term: mark}) == mark


NAMES = ['f', 'u', '\\phi', 'V_{1}']


def job_corr(arg):
    from sympkf.symbolic.random import Expectation
    from sympkf.symbolic.pkfcas import Closure, LocGaussianClosure
    rnd = random.Random('%s %s' % (SEED, arg))
    nv, maxord = arg['nv'], arg['maxord']
    t = Symbol('t')
    # (coordinates need not be in alphabetical order)
    coords = tuple(symbols(arg.get('axes') or rnd.choice([['x', 'y', 'z'], ['lon', 'lat', 'alt']])[:nv]))
    dx = tuple(Symbol('d%s' % c) for c in coords)
    cls = Closure if arg['model'] == 'aspect' else LocGaussianClosure
    total = dict(states=0, distinct=0, nchk=0, bad=[], traces=0)
    for hist in arg['hists']:
        same = rnd.random() < 0.5
        fields = {o: Function(NAMES[0 if same else o])(t, *coords) for o in (1, 2)}
        objs = {o: cls(fields[o]) for o in (1, 2)}
        events, last = [], None
        sers = {}
        cases = {}
        for o, kind, n in hist:
            if kind == 'end':
                continue
            c = objs[o]
            text = '%s %dD %s order %s after %s' % (arg['model'], nv, kind, n, [tuple(h) for h in hist[:hist.index([o, kind, n])]])
            if kind == 'alter':
                for d in last or []:
                    for k in list(d)[::2]:
                        d[k] = Integer(7)
                    for k in list(d)[1::2]:
                        del d[k]
                continue
            ser = CorrSer(c.mfield, coords, dx)
            ev = dict(kind=kind, ord=n, text=text, terms=[])
            if kind == 'corr':
                a = [0] * nv if rnd.random() < .5 else [rnd.randint(-1, 2) for _ in coords]
                b = [1] * nv if rnd.random() < .5 else [rnd.randint(-2, 2) for _ in coords]
                px = tuple(x + q * d for x, q, d in zip(coords, a, dx))
                py = tuple(x + q * d for x, q, d in zip(coords, b, dx))
                form = rnd.choice(['own', 'diffusion', 'aspect'] if nv < 3 or arg['model'] == 'aspect' else ['own', 'aspect'])
                if form == 'diffusion':
                    e = c.correlation_in_diffusion(px, py)
                elif arg['model'] == 'aspect':
                    form, e = 'aspect', c.correlation(px, py)
                elif form == 'aspect':
                    form, e = 'local', c.correlation(px, py, metric=False)
                else:
                    form, e = 'local', c.correlation(px, py)
                ev.update(form=form, px=a, py=b, root=ser(e), text='%s %dD correlation %s %s %s' % (arg['model'], nv, form, a, b))
            elif kind == 'taylor':
                ev['root'] = ser(c.taylor(n))
            else:
                if kind == 'closure':
                    r = c.closure(n)
                    last = [r]
                    items = [(-1, k, v) for k, v in r.items()]
                else:
                    r = c.closure_by_order(n) if kind == 'by_order' else c.in_metric_by_order(n)
                    last = list(r.values())
                    items = [(int(lv), k, v) for lv, d in r.items() for k, v in d.items()]
                for lv, k, v in items:
                    al = alpha_of(k, c.epsilon, coords, Expectation)
                    ev['terms'].append(dict(alpha=al if al is not None else [99], level=lv, root=ser(v),
                                            applies=al is not None and applies(k, c.epsilon, al, coords, Expectation)))
            ev['nodes'] = ser.nodes
            events.append(ev)
        case = dict(seed=(SEED * 211 + arg['salt'] * 13 + len(str(hist))) % 40000, model=arg['model'], events=events)
        r = tlc_trace('CorrTrace', case, dict(NV=nv, ND=maxord, TD=0))
        for k in ('states', 'distinct', 'nchk'):
            total[k] += r[k]
        total['bad'] += r['bad']
        total['traces'] += 1
    return total
