"""Serialisation of sympy expressions to straight-line programs for Sem.tla.

No semantics here: nodes only describe the structure of the expression.
"""
import zlib
import sympy
from sympy import Add, Mul, Pow, Integer, Rational, Symbol, Derivative, Integral
from sympy.core.function import AppliedUndef

P = 46199


class Ser:
    def __init__(self, coords, expectation, omega, sigs=None, powers=False):
        """coords: dict symbol-name -> jet variable index (1 = t, 2.. = space)"""
        self.coords = coords
        self.E = expectation
        self.omega = omega
        self.sigs = sigs or {}      # function name -> names of its arguments
        self.powers = powers        # powers with a symbolic exponent as arbitrary functions (structure only)
        self.nodes = []
        self.memo = {}
        self.depth = []
        self.funs_seen = {}
        self.syms_seen = {}
        self.ekeys = {}

    def _push(self, node, depth):
        self.nodes.append(node)
        self.depth.append(depth)
        return len(self.nodes)

    def d(self, i):
        return self.depth[i - 1]

    def fkey(self, f):
        return str(f.func) + ('@w' if self.omega in f.args else '')

    def __call__(self, e):
        e = sympy.sympify(e)
        key = (type(e), e)
        if key in self.memo:
            return self.memo[key]
        i = self._ser(e)
        self.memo[key] = i
        return i

    def _ser(self, e):
        if isinstance(e, Integer):
            return self._push(["int", int(e) % P], 0)
        if isinstance(e, Rational):
            if e.q % P == 0:
                return self._push(["opaque", str(e)], 0)
            return self._push(["rat", int(e.p) % P, int(e.q) % P], 0)
        if isinstance(e, sympy.Float):
            r = sympy.nsimplify(e, rational=True)
            return self._push(["rat", int(r.p) % P, int(r.q) % P], 0)
        if isinstance(e, Symbol):
            self.syms_seen[str(e)] = e
            return self._push(["sym", str(e)], 0)
        if isinstance(e, self.E):
            a = self(e.args[0])
            key = sympy.srepr(e.args[0])
            self.ekeys[key] = e
            return self._push(["E", a, key], self.d(a))
        if isinstance(e, AppliedUndef):
            if all(isinstance(a, Symbol) for a in e.args) and (not self.sigs or self.fkey(e) in self.sigs):
                k = self.fkey(e)
                self.funs_seen[k] = e
                return self._push(["fun", k], 0)
            return self._app(str(e.func), e.args)
        if isinstance(e, Add):
            a = [self(x) for x in e.args]
            return self._push(["add", a], max(map(self.d, a)))
        if isinstance(e, Mul):
            a = [self(x) for x in e.args]
            return self._push(["mul", a], max(map(self.d, a)))
        if isinstance(e, Pow):
            b, x = e.args
            if isinstance(x, Rational) and abs(x.p) < 10**6 and x.q < 1000:
                a = self(b)
                return self._push(["pow", a, int(x.p), int(x.q)], self.d(a))
            return self._app('**', e.args) if self.powers else self._push(["opaque", str(e)], 0)
        if isinstance(e, sympy.exp):
            a = self(e.args[0])
            return self._push(["exp", a], self.d(a))
        if isinstance(e, Derivative):
            a = self(e.args[0])
            vs = []
            tot = 0
            for v, n in e.variable_count:
                if str(v) not in self.coords or not isinstance(n, Integer):
                    return self._push(["IL", [a], []], self.d(a))
                vs.append([self.coords[str(v)], int(n)])
                tot += int(n) if self.coords[str(v)] != 1 else 0
            return self._push(["D", a, vs], self.d(a) + tot)
        if isinstance(e, sympy.Subs):
            q = self._evaluated(e)
            if q is not None:
                return q
        if isinstance(e, Integral):
            e = self._rename_bound(e)
            for lim in e.limits:
                if str(lim[0]) not in self.coords or len(lim) not in (1, 3) or not all(isinstance(q, Integer) for q in lim[1:]):
                    a = [self(e.args[0])] + [self(q) for l in e.limits for q in l[1:]]
                    return self._push(["IL", a, [self.coords[str(l[0])] for l in e.limits if str(l[0]) in self.coords]], max(map(self.d, a)))
            a = self(e.args[0])
            for lim in e.limits:        # innermost first
                v = self.coords[str(lim[0])]
                a = self._push(["I", a, [v]] if len(lim) == 1 else ["ID", a, v, int(lim[1]), int(lim[2])], self.d(a))
            return a
        if self.powers and isinstance(e, sympy.Function):
            return self._app(str(e.func), e.args)
        if isinstance(e, (sympy.sin, sympy.cos, sympy.log)) and len(e.args) == 1:
            a = self(e.args[0])
            return self._push([str(e.func), a], self.d(a))
        return self._push(["opaque", str(type(e))], 0)

    def _evaluated(self, e):
        """a derivative of a function of dummy variables, taken at the coordinates of the function"""
        d, at = e.expr, dict(zip(e.variables, e.point))
        if not isinstance(d, Derivative) or not isinstance(d.expr, AppliedUndef):
            return None
        f = d.expr.func(*[at.get(a, a) for a in d.expr.args])
        k = self.fkey(f)
        if k not in self.sigs or tuple(map(str, f.args)) != self.sigs[k]:
            return None
        self.funs_seen[k] = f
        vs = [[self.coords[str(at.get(v, v))], int(n)] for v, n in d.variable_count]
        return self._push(['D', self._push(['fun', k], 0), vs], sum(n for v, n in vs if v != 1))

    def _app(self, name, args):
        """an application of an arbitrary smooth function"""
        a = [self(q) for q in args]
        return self._push(["app", a, zlib.crc32(name.encode()) % 40000], max(map(self.d, a)))

    def _rename_bound(self, e):
        """sympy may rename the bound variable of a definite integral (Z(_0)); undo it"""
        bad = [l for l in e.limits if len(l) == 3 and str(l[0]) not in self.coords]
        s = Symbol('x')
        if not bad or s in e.args[0].free_symbols or 'x' not in self.coords:
            return e
        ren = {l[0]: s for l in bad}
        body = e.args[0].xreplace(ren)
        if all(tuple(map(str, f.args)) == self.sigs.get(self.fkey(f)) for f in body.atoms(AppliedUndef)
               if all(isinstance(a, Symbol) for a in f.args)):
            return e.func(body, *[((s,) + tuple(l[1:])) if l[0] in ren else l for l in e.limits])
        return e
