"""Drives Expectation / israndom on expressions drawn from ExpGen.tla."""
import sympy
from sympy import Symbol, Function, Derivative, Integral, Rational, symbols, S
from core import tlc_trace, SEED
from ser import Ser

t, x, y, k, omega = symbols('t x y k omega')
COORDS = {'t': 1, 'x': 2, 'y': 3}
RAND = {'X': (t, x, y), 'Y': (t, x, y), 'Z': (x,), 'W': (t, x)}
DET = {'f': (t, x, y), 'g': (x,), 'h': (t, y)}
# printed like X, f, k but other objects (declared positive); written Xp, fp, kp in the texts
TWINS = {'X!@w': RAND['X'], 'f!': DET['f']}


class ESer(Ser):
    def fkey(self, f):
        return str(f.func) + ('!' if f.is_positive else '') + ('@w' if self.omega in f.args else '')

    def _ser(self, e):
        if isinstance(e, Symbol) and e.is_positive:
            return self._push(['sym', str(e) + '!'], 0)
        return super()._ser(e)


def names(E):
    ns = {'t': t, 'x': x, 'y': y, 'k': k, 'omega': omega, 'R': lambda a, b: Rational(a, b),
          'D': lambda e, *v: Derivative(e, *v), 'I': lambda e, *v: Integral(e, *v),
          'F': lambda e: Function('F')(e), 'H': lambda a, b: Function('H')(a, b), 'exp': sympy.exp, 'sin': sympy.sin, 'log': sympy.log,
          'IL': lambda e, v, a, b: Integral(e, (v, a, b)), 'ID': lambda e, v, a, b: Integral(e, (v, a, b)), 'E': lambda e: E(S(e))}
    for n, a in RAND.items():
        ns[n] = Function(n)(*a, omega)
    for n, a in DET.items():
        ns[n] = Function(n)(*a)
    ns.update(Xp=Function('X', positive=True)(t, x, y, omega), fp=Function('f', positive=True)(t, x, y), kp=Symbol('k', positive=True))
    return ns


def build(text, ns):
    """None when the text does not denote a finite expression (division by zero...)."""
    try:
        e = S(eval(text, {'__builtins__': {}}, dict(ns)))
    except (ZeroDivisionError, ValueError, TypeError):
        return None
    if e.has(sympy.zoo, sympy.nan, sympy.oo, -sympy.oo) or len(str(e)) > 500:
        return None
    return e


class Batch:
    def __init__(self, powers=False):
        self.powers = powers
        from sympkf.symbolic.random import Expectation
        self.E = Expectation
        self.ns = names(Expectation)
        self.events = []
        self.depth = 1
        self.texts = []

    def ser(self):
        return ESer(COORDS, self.E, omega, dict({n: tuple(map(str, a)) + (('omega',) if '@w' in n else ()) for n, a in TWINS.items()}, **{n + '@w': tuple(map(str, a)) + ('omega',) for n, a in RAND.items()},
                                               **{n: tuple(map(str, a)) for n, a in DET.items()}), powers=self.powers)

    def _close(self, ser, ids):
        self.depth = max([self.depth] + [ser.d(i) + 1 for i in ids])

    def expect(self, text, args, results, again, shape):
        """args/results/again: parallel lists of scalar expressions"""
        ser = self.ser()
        pairs = [[ser(a), ser(r), ser(q)] for a, r, q in zip(args, results, again)]
        self._close(ser, [i for p in pairs for i in p])
        self.events.append(dict(kind='expect', nodes=ser.nodes or [['int', 0]], pairs=pairs, text=text,
                                again=self._again, shape=shape))

    def case(self, salt=0):
        return dict(seed=(SEED * 131 + salt * 17) % 40000,
                    funs=dict({'X!@w': ['rand', 9, [1, 2, 3]], 'f!': ['given', 9, [1, 2, 3]]}, **{n + '@w': ['rand', i + 1, [COORDS[str(q)] for q in a]] for i, (n, a) in enumerate(RAND.items())},
                              **{n: ['given', i + 1, [COORDS[str(q)] for q in a]] for i, (n, a) in enumerate(DET.items())}),
                    funargs=dict({'X!@w': ['t', 'x', 'y', 'omega'], 'f!': ['t', 'x', 'y']}, **{n + '@w': [str(q) for q in a] + ['omega'] for n, a in RAND.items()},
                                 **{n: [str(q) for q in a] for n, a in DET.items()}),
                    syms={'t': ['coord', 1], 'x': ['coord', 2], 'y': ['coord', 3], 'k': ['const', 1], 'k!': ['const', 2]},
                    events=self.events)

    def validate(self):
        r = tlc_trace('ExpTrace', self.case(), dict(NV=2, ND=min(self.depth, 8), TD=4, K=4))
        r['traces'] = len(self.events)
        return r

    # -- drivers
    def do_expect(self, text, e):
        E = self.E
        r = E(e)
        r2 = E(e)
        rr = E(r)
        self._again = bool(r == r2)
        self.expect('E[%s]' % text, [e], [r], [rr], True)

    def do_random(self, text, obj, roots):
        from sympkf.symbolic.random import israndom
        ser = self.ser()
        ids = [ser(q) for q in roots]
        ans = israndom(obj)
        self.events.append(dict(kind='random', nodes=ser.nodes or [['int', 0]], roots=ids, answer=bool(ans),
                                text='israndom(%s)' % text))

    def do_has(self, text, e, ask):
        ser = self.ser()
        r = self.E(e, evaluate=False)
        i = ser(r)
        ans = r.has(*ask)
        self.events.append(dict(kind='has', nodes=ser.nodes, root=i, ask=[str(q) for q in ask], answer=bool(ans),
                                text='E(%s).has(%s)' % (text, ask)))


def job_expect(arg):
    b = Batch()
    from sympkf.symbolic.util import Eq
    from sympy import Matrix, ImmutableMatrix
    texts = arg['texts']
    exprs = [(s, build(s, b.ns)) for s in texts]
    exprs = [(s, e) for s, e in exprs if e is not None]
    for s, e in exprs:
        b.do_expect(s, e)
    # equations and matrices made of consecutive expressions
    for (s1, e1), (s2, e2) in zip(exprs[::5], exprs[1::5]):
        if e1 == e2 or e1.is_number and e2.is_number:
            continue
        q = Eq(e1, e2)
        r, r2 = b.E(q), b.E(q)
        # an equation whose two sides become identical may collapse to a truth value
        if r in (sympy.true, sympy.false):
            continue
        b._again = bool(r == r2)
        rr = b.E(r)
        b.expect('E[Eq(%s, %s)]' % (s1, s2), [e1, e2], list(r.args), list(rr.args), isinstance(r, sympy.Equality))
    for n in range(0, len(exprs) - 4, 7):
        es = [e for _, e in exprs[n:n + 4]]
        M = (Matrix if n % 2 else ImmutableMatrix)([es[0:2], es[2:4]]) if n % 3 else (Matrix if n % 2 else ImmutableMatrix)(es)
        r, r2 = b.E(M), b.E(M)
        b._again = bool(r == r2)
        rr = b.E(r)
        b.expect('E[Matrix %s]' % (es,), list(M), list(r), list(rr), r.shape == M.shape and rr.shape == M.shape)
    r = b.validate()
    r['skipped'] = len(texts) - len(exprs)
    return r


def job_random(arg):
    b = Batch(powers=True)
    from sympkf.symbolic.util import Eq
    from sympy import Matrix, ImmutableMatrix, Integer
    exprs = [(s, build(s, b.ns)) for s in arg['texts']]
    exprs = [(s, e) for s, e in exprs if e is not None]
    for s, e in exprs:
        b.do_random(s, e, [e])
        b.do_random('sin ' + s, sympy.Function('F')(e, b.ns['f']), [e, b.ns['f']])
    for n, ((s1, e1), (s2, e2)) in enumerate(zip(exprs, exprs[1:])):
        if n % 3 == 0:
            q = sympy.Eq(e1, e2) if n % 2 else Eq(e1, e2)
            if isinstance(q, sympy.Equality):
                b.do_random('Eq(%s,%s)' % (s1, s2), q, [e1, e2])
        if n % 4 == 0:
            M = (Matrix if n % 8 else ImmutableMatrix)([[e1, Integer(1)], [b.ns['f'], e2]])
            b.do_random('Matrix(%s,%s)' % (s1, s2), M, [e1, e2, b.ns['f']])
    for n, (s, e) in enumerate(exprs):
        asks = [(omega,), (x,), (t, omega), (omega, y), (k,), (t, y, k), (y,), (t,)]
        b.do_has(s, e, asks[n % len(asks)])
        if e.atoms(sympy.core.function.AppliedUndef):
            b.do_has(s, e, asks[(n + 3) % len(asks)])
    return b.validate()
