"""Systems for numerical models: texts of NumGen.tla or of the corpus turned into sympy objects (inputs only)."""
import sympy
from sympy import Symbol, Function, Derivative

CORPUS = [
 dict(coords='t x', fields=['u(t,x)'], given=[], consts=['k'], rhs=['-u*D(u,x)+k*D(u,x,x)']),
 dict(coords='t x', fields=['u(t,x)', 'v(t,x)'], given=['f(x)', 'h(t,x)'], consts=['k', 'c'],
      rhs=['-f*D(u,x)+k*D(v,x,x,x)+h', 'c*u*v-D(h*v,x)+R(1,2)*D(u,x,x,x,x)']),
 dict(coords='t x y', fields=['u(t,x,y)'], given=['f(x,y)', 'Q(x,y)'], consts=['k'],
      rhs=['-f*D(u,x)-Q*D(u,y)+k*D(u,x,y)+D(f*D(u,x),x)+D(Q*D(u,y),y)']),
 dict(coords='t x y', fields=['v(t,x,y)', 'u(t,x,y)', 'w(t,x,y)'], given=['f(x,y)', 'G(t)', 'h(t,x,y)'], consts=['k', 'c'],
      rhs=['G*D(u,x)-w', '-k*D(v,y,y)+h*D(w,x,x,y)', 'u*v/c-D(f,x,y)*D(h,y)']),
 dict(coords='t x y z', fields=['u(t,x,y,z)'], given=['f(x,y,z)'], consts=['k'], rhs=['-f*D(u,z)+k*D(u,x,x)+D(u,y,z)']),
 dict(coords='t x', fields=['u(t,x)'], given=['F(t,x)'], consts=[], rhs=['F']),
 dict(coords='t x', fields=['b(t,x)', 'a(t,x)'], given=[], consts=[], rhs=['a', '-b']),
 dict(coords='t x y', fields=['u(t,x,y)'], given=['f(x,y)'], consts=['k'],
      rhs=['-D(u,x,x,y)+k*D(u,x,y,y)+D(f,x)*D(u,x)-D(f,y)*D(u,y)+D(u,x,x)*D(u,y,y)']),
 # several exogenous functions, of time and space or of time only
 dict(coords='t x', fields=['u(t,x)'], given=['a(t,x)', 'b(t)'], consts=[], rhs=['-a*u+b']),
 dict(coords='t x y', fields=['u(t,x,y)', 'v(t,x,y)'], given=['H(t,x,y)', 'B(t)', 'a(t,x,y)', 's(t)'], consts=['k'],
      rhs=['-a*D(u,x)+B*H', 's*D(v,y)-k*D(H,x)*u+D(a,y,y)*B']),
 # derivatives whose variables and orders read alike
 dict(coords='t x y', fields=['u(t,x,y)'], given=['f(x,y)'], consts=['k'], names=[['x', 'x'], ['y', 'x2']],
      rhs=['k*D(u,y)+2*D(u,x,x)+f*D(u,x)-3*D(u,y,y)+D(u,x,x,y)']),
 dict(coords='t x y z', fields=['u(t,x,y,z)', 'v(t,x,y,z)'], given=[], consts=[], names=[['x', 'x'], ['y', 'x1'], ['z', 'x12'], ['u', 'a'], ['v', 'a_x']],
      rhs=['2*D(u,x,x)+3*D(u,y,y)+5*D(u,z)+7*D(v,y)', 'D(u,x,y)-4*D(v,y,y)+9*D(v,z)-2*D(u,x)']),
 # coordinates that are not in alphabetical order
 dict(coords='t x y z', fields=['u(t,x,y,z)'], given=['f(x,y,z)'], consts=['k'], names=[['x', 'lon'], ['y', 'lat'], ['z', 'alt'], ['u', '\\theta']],
      rhs=['-f*D(u,x)+k*D(u,y,x)+2*D(u,x,x,y)-3*D(u,z,x)+D(f,y,x)*D(u,z)']),
]
for n, d in enumerate(CORPUS):
    d['name'] = 'corpus %d: %s' % (n, ' ; '.join(d['rhs']))
    d.setdefault('names', [])


def from_gen(d):
    """document of NumGen -> definition with right-hand sides as texts in handles"""
    ncoord = len(d['coords'].split()) - 1
    rhs = []
    for eq in d['terms']:
        ts = []
        for w in eq:
            s = w['c'] + w['f'].replace('{a}', w['a']).replace('{b}', w['b']) + ('*' + w['g'] if w['g'] else '')
            ts.append(s.replace('{a}', w['a']).replace('{b}', w['b']))
        rhs.append(' + '.join(ts))
    names = [q for q in d['names'] if q[0] not in ('y', 'z') or ncoord >= (2 if q[0] == 'y' else 3)]
    txt = ' '.join(b for a, b in names)
    return dict(coords=d['coords'], fields=d['fields'], given=d['given'], consts=d['consts'], rhs=rhs, names=names,
                name='gen: %s [%s]' % (' ; '.join(rhs), txt))


class NumSystem:
    def __init__(self, d):
        self.d = d
        nm = dict(map(tuple, d.get('names', [])))
        text = lambda h: nm.get(h, h)
        self.text = text
        ns = {}
        self.coords = []
        for h in d['coords'].split():
            s = Symbol(text(h) if h != 't' else 't')
            ns[h] = s
            self.coords.append(s)
        self.t = self.coords[0]
        self.space = self.coords[1:]

        def fun(s):
            n, a = s.rstrip(')').split('(')
            f = Function(text(n))(*[ns[q.strip()] for q in a.split(',')])
            ns[n] = f
            return f
        self.fields = [fun(s) for s in d['fields']]
        self.given = [fun(s) for s in d.get('given', [])]
        for c in d.get('consts', []):
            ns[c] = Symbol(text(c))
        ns.update(D=lambda e, *v: Derivative(e, *v), R=sympy.Rational, sqrt=sympy.sqrt, sin=sympy.sin, cos=sympy.cos, exp=sympy.exp)
        self.ns = ns
        self.rhs = [sympy.sympify(eval(r, {'__builtins__': {}}, dict(ns))) for r in d['rhs']]
        self.lhs = [Derivative(f, self.t) for f in self.fields]

    def eqs(self, Eq):
        return [Eq(l, r) for l, r in zip(self.lhs, self.rhs)]
