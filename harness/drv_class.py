"""Classification of the symbols of systems, recorded for ClassTrace.tla."""
import json, os, re, subprocess, sys
import sympy
from sympy import Symbol, Function, Derivative
from sympy.core.function import AppliedUndef
from core import tlc_trace, SEED

ARGS = {1: 'x', 2: 'x,y', 3: 'x,y,z'}


def build(d):
    """document of ClassGen -> list of (lhs, rhs), in the order asked for"""
    from sympkf.symbolic.util import TrainableScalar
    nm = dict(map(tuple, d.get('names', [])))
    T = lambda h: nm.get(h, h)
    ns = {'t': Symbol('t')}
    for h in ('x', 'y', 'z'):
        ns[h] = Symbol(T(h))
    sp = [ns[h] for h in ('x', 'y', 'z')[:d['nd']]]
    x, t = sp[0], ns['t']
    fields = []
    for s in d['fields']:
        n, a = s.rstrip(')').split('(')
        ns[n] = Function(T(n))(*[ns[q] for q in a.split(',')])
        fields.append(ns[n])
    for c in ('k', 'c', 'n', 'm1'):
        ns[c] = Symbol(T(c))
    ns['A'], ns['B'] = TrainableScalar(T('A')), TrainableScalar(T('B'), init_value=2.)
    ns['K'] = Function(T('K'))(*sp)
    ns['P'] = Function('P')(sp[-1])
    ns['U0'] = Function(T('u'))(sp[-1])            # a given function named like a field
    ns['U1'] = Function(T('u'))(t)
    ns['F'] = Function('F')(t, *sp)
    ns['G'] = Function(T('G'))(t)
    ns['S1'] = Function('S1')(2 * x)
    ns['S2'] = Function('S2')(x - ns['k'] * t)
    ns['Z'] = Function('Z')(ns['c'])
    ns['I2'] = sympy.Integer(2)
    ns.update(D=lambda e, *v: Derivative(e, *v), R=sympy.Rational, sqrt=sympy.sqrt, sin=sympy.sin, exp=sympy.exp)
    rhs = []
    for eq in d['eqs']:
        tot = sympy.Integer(0)
        for w in eq:
            p = sympy.Integer(1)
            for a in w['atoms']:
                s = a
                for k in 'uvab':
                    s = s.replace('{%s}' % k, w[k])
                p = p * eval(s, {'__builtins__': {}}, dict(ns))
            tot = tot + p
        rhs.append(tot)
    out = [(Derivative(f, t), r) for f, r in zip(fields, rhs)]
    return out[d.get('order', 0) % len(out):] + out[:d.get('order', 0) % len(out)]


class Tree:
    def __init__(self):
        self.nodes, self.memo, self.chars = [], {}, {}

    def push(self, nd):
        self.nodes.append(nd)
        return len(self.nodes)

    def __call__(self, e):
        k = (type(e), e)
        if k not in self.memo:
            self.memo[k] = self.ser(e)
        return self.memo[k]

    def ser(self, e):
        from sympkf.symbolic.util import TrainableScalar
        if isinstance(e, Symbol):
            self.chars[str(e)] = list(str(e))
            return self.push(['sym', str(e), 'trainable' if isinstance(e, TrainableScalar) else 'plain'])
        if isinstance(e, AppliedUndef):
            return self.push(['fun', str(e.func), [self(a) for a in e.args], str(e)])
        if isinstance(e, Derivative):
            return self.push(['D', self(e.args[0]), [str(v) for v in e.variables]])
        return self.push(['op', [self(a) for a in e.args if isinstance(a, sympy.Basic)]])


def split(s):
    """items of a printed list: commas outside brackets"""
    out, cur, depth = [], '', 0
    for c in s:
        depth += c in '([{'
        depth -= c in ')]}'
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return [q for q in out + [cur.strip()] if q]


def summary(text, name):
    rep = dict(prog=[], const=[], exog=[], constants=[], train=[], name=('\'%s\'' % name in text) if name else True)
    for line in text.splitlines():
        m = re.match(r'\s*(prognostic|constant\s+func|exogen|constants|trainable)[^:]*:(.*)$', line)
        if m:
            key = {'prognostic': 'prog', 'exogen': 'exog', 'constants': 'constants', 'trainable': 'train'}.get(m.group(1), 'const')
            rep[key] = [list(q) for q in split(m.group(2))] if key in ('constants', 'train') else split(m.group(2))
    return rep


def record(eqs, name, single):
    from sympkf.symbolic.util import PDESystem
    pde = PDESystem(eqs[0] if single and len(eqs) == 1 else eqs, **(dict(name=name) if name else {}))
    T = Tree()
    ids = []
    for q in eqs:
        lhs, rhs = q.args
        ids.append([T(lhs), T(rhs), T(sympy.sympify(rhs).doit())])
    s = lambda l: [str(z) for z in l]
    it = list(pde)
    out = dict(prog=s(pde.prognostic_functions), funs=sorted(s(pde.functions)), const=sorted(s(pde.constant_functions)),
               exog=sorted(s(pde.exogenous_functions)), coords=s(pde.coordinates), space=s(pde.spatial_coordinates),
               time=str(pde.time_coordinate), constants=sorted(s(pde.constants)), train=sorted(s(pde.trainable_scalars)),
               ders=[[str(z.args[0]), s(z.variables)] for z in pde.spatial_derivatives], max=int(pde.derivative_max_order),
               iter=len(it) == len(eqs) and all(a == b and pde[n] == b for n, (a, b) in enumerate(zip(it, eqs))) and list(iter(pde)) == it)
    return dict(text=' ; '.join('%s = %s' % q.args for q in eqs)[:400], nodes=T.nodes, eqs=ids, out=out, chars=T.chars,
                rep=summary(repr(pde), name))


def covered(d):
    """every axis is a coordinate of some field"""
    used = {a for f in d['fields'] for a in f.rstrip(')').split('(')[1].split(',')}
    return used >= set('xyz'[:d['nd']])


def equations(d):
    from sympkf.symbolic.util import Eq
    if 'pkf' in d:
        # the closed parametric dynamics of a system, as handed to the model builders
        from systems import System, CORPUS
        from sympkf import SymbolicPKF
        from sympkf.symbolic.random import Expectation
        S = System(CORPUS[d['pkf']])
        pkf = SymbolicPKF(S.eqs(Eq))
        und = sorted(pkf.unclosed_terms, key=str)
        pkf.set_closure({e: sympy.Integer(n + 1) * list(pkf.fields.values())[0].variance for n, e in enumerate(und)})
        eqs = list(getattr(pkf, d['as']))
        # (what these systems hold is the matter of C07; here they are inputs)
        return eqs if all(isinstance(q.args[0], Derivative) and isinstance(q.args[0].args[0], AppliedUndef) for q in eqs) else []
    return [Eq(l, r, evaluate=False) for l, r in build(d)]


def play(arg):
    ev = []
    for n, d in enumerate(arg['docs']):
        eqs = equations(d)
        if eqs:
            ev.append(record(eqs, ['', 'Burgers', 'my system'][n % 3], n % 2 == 0))
    return ev


def job_class(arg):
    if arg.get('env'):
        e = dict(os.environ)
        e.update(arg['env'])
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__)], input=json.dumps(arg), text=True, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=280)
        r = [json.loads(l[7:]) for l in p.stdout.splitlines() if l.startswith('RESULT ')]
        if not r:
            raise RuntimeError('failed: ' + p.stderr[-600:])
        ev = r[0]
    else:
        ev = play(arg)
    r = tlc_trace('ClassTrace', dict(events=ev), {})
    r['traces'] = len(ev)
    return r


if __name__ == '__main__':
    print('RESULT ' + json.dumps(play(json.loads(sys.stdin.read()))))
