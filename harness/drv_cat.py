"""Burgers reference model and catalogue of dynamics."""
import contextlib, io
from fractions import Fraction
import numpy as np
import sympy
from sympy.core.function import AppliedUndef
from core import tlc_trace, SEED
from ser import Ser
from gfnum import G, P, to_gf, NotExact
from drv_gen import Np, rnd

CAT = ['burgers', 'kuramoto', 'diffusion', 'advection', 'advection_in_2D', 'diffusion_in_2D', 'advection_in_3D']
COORDS = {'t': 1, 'x': 2, 'y': 3, 'z': 4}
DTS = [[1, 4], [1, 100], [3, 8]]


def structure(exprs):
    from sympkf.symbolic.random import Expectation
    ser = Ser(COORDS, Expectation, sympy.Symbol('omega'))
    roots = [ser(e) for e in exprs]
    funs, syms = {}, {}
    for f in set().union(*[e.atoms(AppliedUndef) for e in exprs]):
        funs[str(f.func)] = dict(vars=[COORDS.get(str(a), 99) for a in f.args], salt=sum(map(ord, str(f.func))))
    for s in set().union(*[e.atoms(sympy.Symbol) for e in exprs]):
        syms[str(s)] = COORDS[str(s)] if str(s) in COORDS else -sum(map(ord, str(s)))
    return ser, roots, funs, syms


def job_cat(arg):
    from sympkf.symbolic import dynamics
    total = dict(states=0, distinct=0, nchk=0, bad=[], traces=0)
    for name in arg['names']:
        system = getattr(dynamics, name)
        eqs = list(system.equations)
        e = eqs[0]
        ser, roots, funs, syms = structure([e.lhs, e.rhs])
        ev = dict(kind='entry', name=name, nodes=ser.nodes, lhs=roots[0], rhs=roots[1], neq=len(eqs), text=name)
        run(dict(funs=funs, syms=syms, events=[ev]), arg, 3, total)
    return total


def run(case, arg, nv, total):
    case['seed'] = (SEED * 97 + arg['salt'] * 31) % 40000
    case['syms'] = case['syms'] or {'_none_': -1}
    r = tlc_trace('CatTrace', case, dict(NV=nv, ND=4, TD=1, K=1))
    for k in ('states', 'distinct', 'nchk'):
        total[k] += r[k]
    total['bad'] += r['bad']
    total['traces'] += 1


def job_closure(arg):
    from sympkf.dynamics.burgers import Burgers
    total = dict(states=0, distinct=0, nchk=0, bad=[], traces=0)
    for form in ('metric', 'aspect'):
        e = Burgers.p18_closure[form]
        ser, roots, funs, syms = structure([e])
        if len(funs) != 1:
            total['bad'].append(['closure-fields', form])
            continue
        ev = dict(kind='closure', form=form, field=list(funs)[0], nodes=ser.nodes, rhs=roots[0], text='p18_closure ' + form)
        facts = [dict(kind='fact', name='closed', text='closed dynamics has no unclosed term',
                      value=len(Burgers.closed_pkf.unclosed_terms) == 0),
                 dict(kind='fact', name='open', text='the unclosed dynamics keeps its term', value=len(Burgers.pkf.unclosed_terms) == 1)]
        run(dict(funs=funs, syms=syms, events=[ev] + facts), arg, 1, total)
    return total


def size(n):
    return 241 if n == 0 else n


def job_burgers(arg):
    from sympkf.dynamics.burgers import Burgers
    total = dict(states=0, distinct=0, nchk=0, bad=[], traces=0)
    for salt, hist in enumerate(arg['hists']):
        s = (SEED * 71 + arg['salt'] * 19 + salt) % 40000
        sv = [[[pow(rnd(s + 11 * k + q, i) or 5, 2, P) for i in range(241)] for q in range(3)] for k in range(4)]
        events, m = [], {}
        for op, i, a, b in hist:
            if op == 'end':
                continue
            ev = dict(op=op, i=i, text='%s of instance %d after %s' % (op, i, [h for h in hist[:8]]))
            if op == 'new':
                with contextlib.redirect_stdout(io.StringIO()):
                    b_ = Burgers() if a == 0 else Burgers(a)
                m[i] = b_.model
                ns = type(m[i]).trend.__globals__
                for k in [k for k, v in ns.items() if v is np]:
                    ns[k] = Np()
                ev.update(n=size(a), shape=[int(z) for z in m[i].shape], dx=to_gf(m[i].dx[0]), nprog=len(m[i].prognostic_functions))
            elif op == 'set':
                m[i].kappa = G(a)
                ev['v'] = a
            else:
                n = m[i].shape[0]
                state = np.empty((3, n), dtype=object)
                for q in range(3):
                    for p in range(n):
                        state[q, p] = G(sv[a - 1][q][p])
                try:
                    if op == 'trend':
                        out = m[i].trend(0, state)
                    else:
                        dt = Fraction(*DTS[b - 1])
                        out = m[i].forecast([Fraction(0), dt], state)[dt]
                        ev['dt'] = DTS[b - 1]
                except ZeroDivisionError as e:
                    if 'GF' not in str(e):
                        raise
                    continue
                ev.update(st=a, out=[[to_gf(v) for v in o] for o in out], after=[[to_gf(v) for v in o] for o in state])
            events.append(ev)
        r = tlc_trace('BurgersTrace', dict(sv=sv, events=events), {})
        for k in ('states', 'distinct', 'nchk'):
            total[k] += r[k]
        total['bad'] += r['bad']
        total['traces'] += 1
    return total
