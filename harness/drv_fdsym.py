"""Symbolic finite differences recorded for FDSym.tla."""
import sympy
from sympy import Symbol, Derivative, Function
from core import tlc_trace, SEED
from serfd import SerFD
from numsys import NumSystem


class Rec:
    def __init__(self, coords):
        self.coords = coords
        self.events, self.funs, self.syms = [], {}, set()
        self.max = {}

    def add(self, text, want, got, lhs=('', ''), same=True):
        s = SerFD(self.coords)
        w = s(want)
        g = s(got)
        for nd in s.nodes:
            if nd[0] == 'fun':
                for k, n in enumerate(nd[2]):
                    self.max[k] = max(self.max.get(k, 0), abs(n))
            if nd[0] == 'D':
                for k, n in enumerate(nd[2]):
                    self.max[k] = max(self.max.get(k, 0), n if n % 2 else n // 2)
        self.funs.update(s.funs)
        self.syms |= s.syms
        self.events.append(dict(text=text[:400], nodes=s.nodes, want=w, got=g, lhs=list(lhs), same=bool(same)))

    def validate(self, salt):
        g = [min(2 * self.max.get(k, 0) + 1, 13) + (1 if self.max.get(k, 0) == 0 else 0) for k in range(len(self.coords))]
        syms = {}
        for n, s in enumerate(sorted(self.syms)):
            if s in self.coords:
                syms[s] = ['coord', self.coords.index(s) + 1]
            elif s[:1] == 'd' and s[1:] in self.coords:
                syms[s] = ['step', self.coords.index(s[1:]) + 1]
            else:
                syms[s] = ['const', n + 1]
        case = dict(seed=(SEED * 211 + salt * 37) % 40000, g=g,
                    funs={f: [n + 1, a] for n, (f, a) in enumerate(sorted(self.funs.items()))} or {'_': [1, [1]]},
                    syms=syms or {'_': ['const', 1]}, events=self.events)
        r = tlc_trace('FDSym', case, {})
        r['traces'] = len(self.events)
        return r


def job_sys(arg):
    from sympkf.symbolic.finite_difference import finite_difference, finite_difference_system, finite_difference_derivative
    from sympkf.symbolic.util import Eq, PDESystem
    S = NumSystem(arg['sys'])
    R = Rec([str(c) for c in S.coords])
    nm = arg['sys']['name']
    eqs = S.eqs(Eq)
    before = [str(e) for e in eqs]
    pde = PDESystem(eqs)
    outs = [('finite_difference_system', finite_difference_system(eqs)), ('PDESystem.finite_difference', pde.finite_difference),
            ('finite_difference_system of the PDESystem', finite_difference_system(pde))]
    for what, sysm in outs:
        sysm = list(sysm)
        if len(sysm) != len(eqs):
            R.add('%s %s: number of equations' % (what, nm), 0, 1)
        for l, r, q in zip(S.lhs, S.rhs, sysm):
            R.add('%s %s' % (what, nm), r.doit(), q.args[1], (sympy.srepr(l), sympy.srepr(q.args[0])), type(q) is Eq)
    for r in S.rhs:
        R.add('finite_difference %s' % nm, r.doit(), finite_difference(r))
    ders = sorted({d for r in S.rhs for d in r.atoms(Derivative)}, key=str)
    for d in ders:
        R.add('finite_difference_derivative %s' % d, d.doit(), finite_difference_derivative(d))
    if before != [str(e) for e in eqs]:
        R.add('%s: equations changed' % nm, 0, 1)
    return R.validate(arg.get('salt', 0))


def job_expr(arg):
    """coords, list of [function signature, variables...] and free texts"""
    from sympkf.symbolic.finite_difference import finite_difference, finite_difference_derivative
    from sympkf.symbolic.util import Eq
    S = NumSystem(dict(coords=arg['coords'], fields=[], given=arg['given'], consts=['k', 'c'], rhs=arg['texts'], names=arg.get('names', [])))
    R = Rec([str(c) for c in S.coords])
    for s, r in zip(arg['texts'], S.rhs):
        ref = sympy.srepr(r)
        if isinstance(r, Derivative):
            got = finite_difference_derivative(r)
            R.add('finite_difference_derivative(%s)' % s, r.doit(), got, same=sympy.srepr(r) == ref)
        got = finite_difference(r)
        R.add('finite_difference(%s)' % s, r.doit(), got, same=sympy.srepr(r) == ref)
    return R.validate(arg.get('salt', 0))
