"""Code rendered for finite-difference expressions, recorded for CodeTrace.tla.

The expressions are drawn by CodeGen.tla; the rendered text is run with arrays of exact numbers
bound to the identifiers of the fields.  Nothing here computes what the code should give."""
import re
import numpy as np
import sympy
from sympy import Symbol, Function, Integer, Rational, Derivative
from sympy.core.function import AppliedUndef
from core import tlc_trace, SEED
from gfnum import G, arr, ints, NotExact
from serfd import SerFD
from drv_gen import rnd
import drv_gen  # noqa: gives the numbers their elementary functions

SLOTS = 'x y z u v f b k c'.split()


class SerCode(SerFD):
    """a function at the time step s is named name@s"""
    def _ser(self, e):
        if isinstance(e, AppliedUndef):
            sh, own, step = [0] * len(self.coords), [], 0
            for a in e.args:
                r = self._shift(a)
                if r is None or r[2] != 1:
                    return self.push(['off', str(e)])
                if r[0] in self.coords:
                    sh[self.coords.index(r[0])] = r[1]
                    own.append(self.coords.index(r[0]) + 1)
                else:
                    step = r[1]
            nm = '%s@%d' % (e.func, step)
            self.funs.setdefault(nm, own)
            return self.push(['fun', nm, sh])
        return super()._ser(e)


def build(doc):
    """the expression of a document, its coordinates"""
    nm = dict(zip(SLOTS, doc['names']))
    t = Symbol('t')
    X = [Symbol(nm[s]) for s in 'xyz'[:doc['nd']]]
    H = [Symbol('d' + str(x)) for x in X]
    dt = Symbol('dt')
    F = [Function(nm[s]) for s in 'uvfb']
    args = [[t] + X, [t] + X, list(X), [t]]
    W = {'': lambda q: q, 'sqrt': sympy.sqrt, 'sin': sympy.sin, 'cos': sympy.cos, 'exp': sympy.exp, 'neg': lambda q: -q}
    for p in (2, 3, -1, -2):
        W['**%s' % (p if p > 0 else '(%d)' % p)] = lambda q, p=p: q ** Integer(p)
    off = doc['off']
    k, c = Symbol(nm['k']), Symbol(nm['c'])

    def fun(q):
        nonlocal off
        sh = {t: q['t'] * dt}
        sh.update({x: n * h for x, n, h in zip(X, q['s'], H)})
        if 0 <= off <= doc['nd']:
            x = t if off == 0 else X[off - 1]
            if x in args[q['f'] - 1]:
                sh[x] += (dt if off == 0 else H[off - 1]) * Rational(1, 2 + (off % 2))
                off = 9
        return F[q['f'] - 1](*[a + sh[a] for a in args[q['f'] - 1]])

    expr, der = F[0](*args[0]), Integer(0)
    for m in doc['terms']:
        h, x = H[m['a'] - 1], X[m['a'] - 1]
        co = {'1': Integer(1), '-1': Integer(-1), '2': Integer(2), '1/3': Rational(1, 3), '-5/2': Rational(-5, 2), 'k': k, 'c': c, 'k*c': k * c,
              '1/k': 1 / k, 'h': h, '1/h': 1 / h, '1/h**2': 1 / h ** 2, '1/(2*h)': 1 / (2 * h), 'dt': dt, '1/dt': 1 / dt, 'k*h**2': k * h ** 2, 'X': x}[m['c']]
        for q in m['fs']:
            if q['kind'] == 'fun':
                w = fun(q)
            else:
                w = F[q['f'] - 1](*args[q['f'] - 1])
                for xx, n in zip(X, q['s']):
                    w = w.diff(xx, n) if n else w
            co = co * W[q['w']](w)
        if co.atoms(Derivative):
            der += co
        else:
            expr += co
    return expr, der, X, [k, c], t, dt


class Self:
    """what the rendered code refers to: the steps and the shifted indices of a periodic grid"""
    def __init__(self, g, dx, coords):
        self.dx, self.g, self.coords = dx, g, coords

    def index(self, coord, step):
        n = self.g[self.coords.index(coord)]
        return (np.arange(n) + int(step)) % n


def tag(step):
    return '' if step == 0 else ('p%d' if step > 0 else 'm%d') % abs(step)


def job_code(arg):
    from sympkf.symbolic.finite_difference import (Code, code_finite_difference, code_regular_function, finite_difference,
                                                   slice_coding_rule, dx_coding_rule)
    from sympkf.symbolic.tool import clean_latex_name as clean
    events = []
    for n, doc in enumerate(arg['docs']):
        expr, der, X, ks, t, dt = build(doc)
        if der != 0:
            expr = expr + finite_difference(der)
        if arg.get('expand') and n % 2:
            expr = sympy.expand(expr)
        g = list(doc['g'])
        npt = int(np.prod(g))
        salt = SEED * 613 + arg['salt'] * 71 + n

        # the numbers of the case
        def val(key, i, sq=True):
            v = rnd(salt % 40000 + sum(ord(q) * (j + 1) for j, q in enumerate(key)), i) or 5
            return v * v % 46199 if sq else v
        ser = SerCode([str(x) for x in X])
        exprs = [('Code', expr)]
        funs = sorted(expr.atoms(AppliedUndef), key=str)
        exprs += [('function', f) for f in funs[:3]]
        h = {str(x): (int(val('d' + str(x), 1, False)) % 89 + 2, int(val('e' + str(x), 2, False)) % 7 + 1) for x in X}
        hdt = (val('dt', 1, False) % 89 + 2, 11)
        dx = {clean(x): G(h[str(x)][0]) / h[str(x)][1] for x in X}
        dx['t'] = G(hdt[0]) / hdt[1]
        roots = [ser(e) for _, e in exprs]
        kv = {str(s): val(str(s), 3) for s in ks}
        syms = {s: [v] for s, v in kv.items()}
        coordv = {}
        for a, x in enumerate(X):
            line = [val('X' + str(x), i) for i in range(g[a])]
            shp = [1] * len(g)
            shp[a] = g[a]
            coordv[str(x)] = arr(line, shp)
            syms[str(x)] = ints(np.broadcast_to(coordv[str(x)], g))
            p, q = h[str(x)]
            syms['d' + str(x)] = ints(np.array([G(p) / q], dtype=object))
        syms['dt'] = ints(np.array([dx['t']], dtype=object))
        vals, ns0 = {}, {}
        for nmf, own in ser.funs.items():
            name, step = nmf.rsplit('@', 1)
            cnt = npt if own else 1
            vs = [val(nmf, i) for i in range(cnt)]
            vals[nmf] = vs
            ns0[clean(name) + tag(int(step))] = arr(vs, g) if own else G(vs[0])
        for s, v in kv.items():
            ns0[clean(s)] = G(v)
        for x in X:
            ns0[clean(x)] = coordv[str(x)]
        me = Self(g, dx, [clean(x) for x in X])
        ns0.update(self=me, np=np, sqrt=np.sqrt, sin=np.sin, cos=np.cos, exp=np.exp)
        fam = doc['rules']

        def rule_i(kk, step):
            return 'IDX(%s,step=%s)' % (kk, step)

        def rule_h(cc):
            return 'H_(%r)' % (cc,)
        ns0.update(IDX=lambda c, step: me.index(c, step), H_=lambda c: dx[c])
        for m, ((what, e), root) in enumerate(zip(exprs, roots)):
            before = sympy.srepr(e)
            ev = dict(g=g, h=[list(h[str(x)]) for x in X], syms=syms, funs=vals or {'_': [1]}, root=root, raised=False, err='', undef=False, same=True,
                      out=[0], text='%s of %s (grid %s)' % (what, e, g))
            # only the nodes up to the root: an expression off the grid does not spoil the others
            ev['nodes'] = reach(ser.nodes, root)
            ev['root'] = len(ev['nodes'])
            try:
                if what == 'Code':
                    if fam <= 1:
                        co = Code(e)
                        txt = co.code
                        ev['same'] = (co.code == txt and repr(co) == txt and Code(e).code == txt
                                      and code_finite_difference(e, slice_coding_rule, dx_coding_rule) == txt)
                    else:
                        txt = code_finite_difference(e, rule_i, rule_h)
                        ev['same'] = code_finite_difference(e, rule_i, rule_h) == txt
                elif m % 2:
                    txt = code_regular_function(e, rule_i if fam > 1 else slice_coding_rule)
                else:
                    txt = Code(e).code
                ev['same'] = ev['same'] and sympy.srepr(e) == before
            except Exception as err:        # noqa
                ev.update(raised=True, err=type(err).__name__ + ': ' + str(err)[:100])
                events.append(ev)
                continue
            ev['text'] = (ev['text'] + ' -> ' + txt)[:500]
            try:
                r = eval(compile(txt, 'rendered', 'eval'), dict(ns0))
                r = np.asarray(r, dtype=object)
                ev['out'] = ints(np.broadcast_to(r, g)) if r.ndim else ints(r.reshape(1))
            except (ZeroDivisionError, NotExact):
                ev['undef'] = True
            except Exception as err:        # noqa
                ev.update(raised=True, err='the code fails, %s: %s' % (type(err).__name__, str(err)[:100]))
            events.append(ev)
    r = tlc_trace('CodeTrace', dict(events=events), {})
    r['traces'] = len(events)
    return r


def reach(nodes, root):
    """the sub-program of a node"""
    def kids(nd):
        return nd[1] if nd[0] in ('add', 'mul') else [nd[1]] if nd[0] in ('pow', 'app', 'D') else []
    need = {root}
    for i in range(root, 0, -1):
        if i in need:
            need |= set(kids(nodes[i - 1]))
    order = sorted(need)
    new = {o: j + 1 for j, o in enumerate(order)}
    out = []
    for o in order:
        nd = list(nodes[o - 1])
        if nd[0] in ('add', 'mul'):
            nd[1] = [new[q] for q in nd[1]]
        elif nd[0] in ('pow', 'app', 'D'):
            nd[1] = new[nd[1]]
        out.append(nd)
    return out
