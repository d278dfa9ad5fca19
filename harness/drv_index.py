"""Multi-indices: replays the notations of IndexGen.tla."""
from sympy import symbols, Symbol, Derivative, Function
from core import tlc_trace
import sympkf.symbolic.pkfcas as P
from sympkf.symbolic.util import get_total_order


def job(arg):
    n = arg['n']
    cs = tuple(symbols('x y z w v')[:n])
    ev = []
    if arg['kind'] == 'all':
        for d in arg['degs']:
            for cc in (cs, list(cs)):
                out = list(P.PartialOrderDerivative.all_of_degree(cc, d))
                ev.append(dict(kind='all', d=d, out=[list(map(int, i.as_tuple)) for i in out], coords=all(tuple(i.coordinates) == cs for i in out),
                               text='all_of_degree(%d coordinates, %d)' % (n, d)))
    else:
        for dd in arg['docs']:
            ev.append(one(cs, dd))
    r = tlc_trace('IndexTrace', dict(n=n, events=ev), {})
    r['traces'] = len(ev)
    return r


def one(cs, d):
    v, mal, form = d['v'], d['mal'], d['form']
    foreign = Symbol('q')

    def num(a):
        return float(a) + (0.5 if mal == 'float' else 0)
    if form == 'tuple':
        x = tuple({'float': lambda a: a + 0.5, 'str': lambda a: str(a), 'none': lambda a: None}.get(mal, lambda a: a)(a) for a in v)
        if mal == 'listtuple':
            x = [list(x)]
    elif form in ('sequence', 'seqtuple'):
        x = [cs[i - 1] for i in v]
        if mal == 'foreign':
            x.insert(len(x) // 2, foreign)
        if form == 'seqtuple':
            x = tuple(x)
    else:
        x = []
        for q, (i, a) in enumerate(v):
            last = q == len(v) - 1
            c = (foreign if mal == 'foreign' and last else cs[i - 1], a + 0.5 if mal == 'float' and last else a)
            x.append(c + (1,) if mal == 'triple' and last else c)
        if form == 'couple':
            x = x[0]
    res = dict(kind='notation', form=form, v=v, mal=mal, raised='', tuple=[], couples=[], sequence=[], again=True, degree=-1, distinct=True,
               text='%s %r' % (form, x))
    try:
        p = P.PartialOrderDerivative(cs, x)
    except Exception as e:
        res['raised'] = type(e).__name__
        return res
    idx = {c: i + 1 for i, c in enumerate(cs)}
    try:
        res['tuple'] = [int(a) for a in p.as_tuple]
        res['couples'] = [[idx.get(c, 0), int(a)] for c, a in p.as_couples]
        res['sequence'] = [idx.get(c, 0) for c in p.as_sequence]
    except Exception as e:
        if mal != 'no':
            return res
        raise
    if mal == 'no':
        P2 = P.PartialOrderDerivative
        alts = [P2(cs, tuple(p.as_tuple)), P2(cs, list(p.as_couples)), P2(cs, list(p.as_sequence)), p.new(x), p.copy(),
                P2(cs, list(p.as_sequence)[::-1])]
        if len(cs) > 1:
            alts.append(P2(cs, list(p.as_couples)[::-1]))
        res['again'] = all(q == p and p == q and tuple(q.as_tuple) == tuple(p.as_tuple) for q in alts)
        res['degree'] = len(p.as_sequence)
        other = P2(cs, tuple(a + (1 if i == 0 else 0) for i, a in enumerate(p.as_tuple)))
        # the same orders along other coordinates are another derivative
        alien = [P2(cs[:i] + (foreign,) + cs[i + 1:], tuple(p.as_tuple)) for i in range(len(cs)) if p.as_tuple[i]]
        res['distinct'] = not (other == p) and not any(q == p or p == q for q in alien)
        if res['degree'] > 0:
            F = Function('F')(*cs)
            res['degree'] = int(get_total_order(Derivative(F, *p.as_couples))) if any(p.as_tuple) else 0
    return res
