"""Serialisation of expressions with functions on a grid (Lattice.tla); structure only."""
import sympy
from sympy import Integer, Rational, Symbol, Derivative, Add, Mul, Pow
from sympy.core.function import AppliedUndef

APP = {'sin': 1, 'cos': 2, 'exp': 3, 'tanh': 4, 'tan': 5, 'log': 6, 'sinh': 7, 'cosh': 8, 'Abs': 9}


class SerFD:
    def __init__(self, coords):
        """coords: texts of the lattice coordinates, in order"""
        self.coords = list(coords)
        self.nodes, self.memo = [], {}
        self.funs, self.syms = {}, set()

    def push(self, nd):
        self.nodes.append(nd)
        return len(self.nodes)

    def __call__(self, e):
        e = sympy.sympify(e)
        k = (type(e), e)
        if k not in self.memo:
            self.memo[k] = self._ser(e)
        return self.memo[k]

    def _shift(self, a):
        """(coordinate, numerator, denominator) of an argument, or None"""
        for c in self.coords + ['t']:
            s = Symbol(c)
            if a == s:
                return c, 0, 1
            k = sympy.expand((a - s) / Symbol('d' + c))
            if isinstance(k, Rational):
                return c, int(k.p), int(k.q)
        return None

    def _ser(self, e):
        if isinstance(e, Integer):
            return self.push(['int', int(e) % 46199])
        if isinstance(e, (Rational, sympy.Float)):
            e = sympy.nsimplify(e, rational=True)
            return self.push(['rat', int(e.p), int(e.q)])
        if isinstance(e, Symbol):
            self.syms.add(str(e))
            return self.push(['sym', str(e)])
        if isinstance(e, AppliedUndef):
            sh, own = [0] * len(self.coords), []
            for a in e.args:
                r = self._shift(a)
                if r is None or r[2] != 1 or (r[0] not in self.coords and r[1] != 0):
                    return self.push(['off', str(e)])
                if r[0] in self.coords:
                    k = self.coords.index(r[0])
                    sh[k] = r[1]
                    own.append(k + 1)
            self.funs.setdefault(str(e.func), own)
            return self.push(['fun', str(e.func), sh])
        if isinstance(e, (Add, Mul)):
            return self.push(['add' if isinstance(e, Add) else 'mul', [self(a) for a in e.args]])
        if isinstance(e, Pow) and isinstance(e.exp, Rational):
            return self.push(['pow', self(e.base), int(e.exp.p), int(e.exp.q)])
        if isinstance(e, Derivative):
            o = [0] * len(self.coords)
            for v, n in e.variable_count:
                if str(v) not in self.coords:
                    return self.push(['opaque', str(e)])
                o[self.coords.index(str(v))] += int(n)
            return self.push(['D', self(e.args[0]), o])
        n = type(e).__name__
        if n in APP and len(e.args) == 1:
            return self.push(['app', self(e.args[0]), APP[n]])
        return self.push(['opaque', str(e)])
