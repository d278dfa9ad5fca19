"""Corpus of evolution systems (inputs only; no expected results)."""
import sympy
from sympy import Symbol, Function, Derivative, symbols

# name -> definition.  rhs strings use D(expr, var, var, ...) for derivatives.
CORPUS = {
 'burgers':   dict(coords='t x', fields=['u(t,x)'], consts=['kappa'], rhs=['-u*D(u,x)+kappa*D(u,x,x)']),
 'burgersy':  dict(coords='t y', fields=['u(t,y)'], consts=['kappa'], rhs=['-u*D(u,y)+kappa*D(u,y,y)']),
 'advect1':   dict(coords='t x', fields=['c(t,x)'], given=['a(x)'], rhs=['-a*D(c,x)']),
 'consv1':    dict(coords='t x', fields=['c(t,x)'], given=['a(t,x)'], rhs=['-a*D(c,x)-c*D(a,x)']),
 'hetdiff':   dict(coords='t x', fields=['c(t,x)'], given=['K(x)'], rhs=['K*D(c,x,x)+D(K,x)*D(c,x)']),
 'kdv':       dict(coords='t x', fields=['u(t,x)'], consts=['mu'], rhs=['-6*u*D(u,x)-mu*D(u,x,x,x)']),
 'kuramoto':  dict(coords='t x', fields=['u(t,x)'], consts=['nu_'], rhs=['-u*D(u,x)-D(u,x,x)-nu_*D(u,x,x,x,x)']),
 'react1':    dict(coords='t x', fields=['q(t,x)'], consts=['r'], given=['f(x)'], rhs=['r*q-q**3+f*q**2+f']),
 'fisher':    dict(coords='t x', fields=['u(t,x)'], consts=['r','k'], rhs=['k*D(u,x,x)+r*u*(1-u)']),
 'quaddiff':  dict(coords='t x', fields=['u(t,x)'], consts=['k'], rhs=['k*u*D(u,x,x)+k*D(u,x)**2']),
 'ratio1':    dict(coords='t x', fields=['u(t,x)'], consts=['k'], rhs=['-D(u,x)/(1+k*u)']),
 'ratio2':    dict(coords='t x', fields=['u(t,x)'], rhs=['1/u']),
 'forced':    dict(coords='t x', fields=['u(t,x)'], given=['F(t,x)','G(t)'], rhs=['-u*D(u,x)+F+G*u+x*t']),
 'flux':      dict(coords='t x', fields=['u(t,x)'], given=['K(x)'], rhs=['-D(u**2/2,x)+D(K*D(u,x),x)']),
 'porous':    dict(coords='t x', fields=['u(t,x)'], consts=['k'], rhs=['D(k*u*D(u,x),x)']),
 'smooth':    dict(coords='t x', fields=['u(t,x)','v(t,x)'], consts=['k'], given=['f(x)'], rhs=['exp(-k)*sin(u)-D(u*v,x)','sqrt(v)*cos(f)+log(u)*exp(-t)']),
 'tint':      dict(coords='t x', fields=['u(t,x)'], consts=['k'], rhs=['-u*D(u,x)*t+k*x**2']),
 'pw':        dict(coords='t x', fields=['u(t,x)'], consts=['k'], rhs=['-u**R(3,2)*D(u,x)+k*sqrt(u)/(1+u)']),
 'coup2':     dict(coords='t x', fields=['u(t,x)','v(t,x)'], rhs=['v','-u']),
 'coup2r':    dict(coords='t x', fields=['v(t,x)','u(t,x)'], rhs=['-u','v']),
 'advcoup2':  dict(coords='t x', fields=['u(t,x)','v(t,x)'], given=['f(x)'], rhs=['v-f*D(u,x)','-u-f*D(v,x)']),
 'swe1':      dict(coords='t x', fields=['h(t,x)','u(t,x)'], consts=['g'], rhs=['-u*D(h,x)-h*D(u,x)','-u*D(u,x)-g*D(h,x)']),
 'lotka':     dict(coords='t x', fields=['A(t,x)','B(t,x)'], consts=['a','b'], given=['w(x)'], rhs=['-w*D(A,x)+a*A-b*A*B','-w*D(B,x)-B+b*A*B']),
 'grayscott': dict(coords='t x', fields=['U(t,x)','V(t,x)'], consts=['F','k','d'], rhs=['d*D(U,x,x)-U*V**2+F*(1-U)','D(V,x,x)+U*V**2-(F+k)*V']),
 'three':     dict(coords='t x', fields=['a(t,x)','b(t,x)','c(t,x)'], consts=['k'], rhs=['b','c','-a*b']),
 'threeadv':  dict(coords='t x', fields=['u(t,x)','p(t,x)','q(t,x)'], consts=['k'], rhs=['-u*D(u,x)','-u*D(p,x)-k*p*q','-u*D(q,x)+k*p*q']),
 'concat':    dict(coords='t x', fields=['a(t,x)','bc(t,x)','ab(t,x)','c(t,x)'], consts=['k'], rhs=['bc-k*D(a,x)','-a','a*c','-D(ab,x)']),
 'adv2':      dict(coords='t x y', fields=['c(t,x,y)'], given=['a(x,y)','b(x,y)'], rhs=['-a*D(c,x)-b*D(c,y)']),
 'adv2t':     dict(coords='t x y', fields=['c(t,x,y)'], given=['a(t,x,y)','b(t,y)'], rhs=['-a*D(c,x)-b*D(c,y)-c*D(a,x)']),
 'nl2':       dict(coords='t x y', fields=['c(t,x,y)'], consts=['k'], rhs=['-c*D(c,x)+k*c*D(c,y)']),
 'diff2':     dict(coords='t x y', fields=['c(t,x,y)'], consts=['k'], rhs=['k*D(c,x,x)+k*D(c,y,y)']),
 'mixed2':    dict(coords='t x y', fields=['c(t,x,y)'], consts=['k'], rhs=['k*D(c,x,y)']),
 'two2':      dict(coords='t x y', fields=['p(t,x,y)','q(t,x,y)'], given=['a(x,y)'], rhs=['-a*D(p,x)-q','-a*D(q,y)+p']),
 'react3':    dict(coords='t x y z', fields=['c(t,x,y,z)'], given=['a(x,y,z)'], rhs=['-a*D(c,z)-c**2']),
 'adv3':      dict(coords='t x y z', fields=['c(t,x,y,z)'], given=['a(x,y,z)','b(y)'], rhs=['-a*D(c,x)-b*D(c,y)-D(c,z)']),
}
for k in CORPUS:
    CORPUS[k]['name'] = k


class System:
    """A system definition turned into sympy objects (built here, independently of sympkf)."""

    def __init__(self, d):
        self.d = d
        # the texts and assumptions of the symbols: the right-hand sides are written with handles
        nm = d.get('names', {})
        asm = d.get('assume', {})
        sym = lambda h: Symbol(nm.get(h, h), **asm.get('const' if h not in d['coords'].split() else 'coord' if h != 't' else 'time', {}))
        ns = {h: sym(h) for h in d['coords'].split()}
        self.coords = tuple(ns.values())
        self.space = [c for c in self.coords if str(c) != 't']
        self.index = {str(c): i + 1 for i, c in enumerate([c for c in self.coords if str(c) == 't'] + self.space)}

        def fun(s):
            n, a = s.rstrip(')').split('(')
            args = [ns[q.strip()] for q in a.split(',')]
            return n, Function(nm.get(n, n))(*args)
        self.fields, self.given, self.consts = [], [], []
        for s in d['fields']:
            n, f = fun(s)
            ns[n] = f
            self.fields.append(f)
        for s in d.get('given', []):
            n, f = fun(s)
            ns[n] = f
            self.given.append(f)
        for s in d.get('consts', []):
            ns[s] = sym(s)
            self.consts.append(ns[s])
        ns['D'] = lambda e, *v: Derivative(e, *v)
        ns['R'] = sympy.Rational
        ns.update(sqrt=sympy.sqrt, exp=sympy.exp, sin=sympy.sin, cos=sympy.cos, log=sympy.log)
        self.ns = ns
        loc = dict(ns)
        self.rhs = [sympy.sympify(eval(r, {'__builtins__': {}}, loc)) for r in d['rhs']]
        t = ns['t']
        self.t = t
        self.lhs = [Derivative(f, t) for f in self.fields]

    @property
    def order(self):
        o = 0
        for r in self.rhs:
            for q in r.atoms(Derivative):
                o = max(o, q.derivative_count)
        return o

    def eqs(self, Eq):
        return [Eq(l, r) for l, r in zip(self.lhs, self.rhs)]


# texts a user may give to the unknowns, functions, constants and coordinates; none of them is reserved
TEXTS = [
 dict(fields=[r'\phi', r'\psi_{1}', 'T_b', r'\rho'], given=[r'{U_{x}}', 'E', 'w^2'], consts=[r'\varepsilon', r'\lambda', r'\epsilon', 'tau'],
      coords=[r'\theta', r'\lambda_g', 'z']),
 dict(fields=['E', 'V', 'g', 'e'], given=['nu', 's', 'S'], consts=['epsilon', 'varepsilon', 'I', 'N'], coords=['X', 'Y', 'Z'],
      assume=dict(const=dict(positive=True))),
 dict(fields=['Vu', 'e_u', 'U', r'\mathbf{v}'], given=['eps', 'K_1', 'dt'], consts=['xi', 'h', 'x0', 'dx'], coords=['lon', 'lat', 'alt'],
      assume=dict(const=dict(real=True), coord=dict(real=True))),
]


def renamed(d, n):
    """the same system in other texts"""
    T = TEXTS[n % len(TEXTS)]
    nm = {}
    head = lambda s: s.split('(')[0]
    for kind, hs in [('fields', [head(s) for s in d['fields']]), ('given', [head(s) for s in d.get('given', [])]),
                     ('consts', d.get('consts', [])), ('coords', [h for h in d['coords'].split() if h != 't'])]:
        for h, text in zip(hs, T[kind]):
            nm[h] = text
    return dict(d, names=nm, assume=T.get('assume', {}), name='%s~%d' % (d['name'], n % len(TEXTS)))
