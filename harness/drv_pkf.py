"""Drives sympkf.SymbolicPKF and records what it delivers as cases for PKFReal.tla."""
import itertools
import re
import sympy
from sympy import Derivative, Symbol, Integer, Rational
from sympy.core.function import AppliedUndef
from core import tlc_trace, Machinery, SEED
from ser import Ser
from systems import System

SYS = {  # system name -> (attribute, world, delivered form?)
    'first': ('first_order_reynolds_system', 'first', False),
    'second': ('second_order_reynolds_system', 'second', False),
    'expectation': ('expectation_system', 'main', False),
    'tl_expectation': ('tl_expectation_system', 'first', False),
    'error': ('error_system', 'main', False),
    'epsilon': ('epsilon_system', 'main', False),
    'variance': ('variance_system', 'main', False),
    'std': ('std_system', 'main', False),
    'cross_covariance': ('cross_covariance_system', 'main', False),
    'metric': ('metric_system', 'main', False),
    'in_metric': ('in_metric', 'main', True),
    'in_diffusion': ('in_diffusion', 'main', True),
    'in_aspect': ('in_aspect', 'main', True),
}


class Recorder:
    def __init__(self, sysdef):
        import sympkf
        from sympkf.symbolic.random import Expectation
        self.E = Expectation
        self.omega = Symbol('omega')
        self.S = System(sysdef)
        self.pkf_mod = sympkf
        self.funs = {}          # key -> role
        self.bad = []
        self.maxdepth = 0
        self.events = []
        S = self.S
        for i, f in enumerate(S.fields, 1):
            self.role(f, ['mean', i])
        for n, g in enumerate(S.given, 1):
            self.role(g, ['given', n, [S.index[str(a)] for a in g.args]])
        self.syms = {}
        for c in S.coords:
            self.syms[str(c)] = ['coord', S.index[str(c)]]
        for n, c in enumerate(S.consts, 1):
            self.syms[str(c)] = ['const', n]
        self.syms.setdefault('t', ['coord', 1])
        ser = self.ser()
        self.rhs = [ser(r) for r in S.rhs]
        self.rhsnodes = ser.nodes
        self.maxdepth = S.order + 1

    def key(self, f):
        return str(f.func) + ('@w' if self.omega in f.args else '')

    def role(self, f, r):
        k = self.key(f)
        if k in self.funs and self.funs[k] != r:
            self.bad.append(['roles', 'collision', [k, self.funs[k], r]])
        self.funs[k] = r

    def ser(self):
        return Ser(self.S.index, self.E, self.omega)

    def pkf(self, closure=None, eqs=None):
        from sympkf.symbolic.util import Eq
        from sympkf import SymbolicPKF
        eqs = eqs if eqs is not None else self.S.eqs(Eq)
        arg = eqs if len(eqs) > 1 else eqs[0]
        return SymbolicPKF(arg) if closure is None else SymbolicPKF(arg, closure=closure)

    def roles_of(self, pkf):
        S = self.S
        for f, mf in pkf.fields.items():
            if f not in S.fields:
                self.bad.append(['roles', 'unknown-field', str(f)])
                continue
            i = S.fields.index(f) + 1
            self.role(mf.value, ['mean', i])
            self.role(mf.random, ['random', i])
            self.role(mf.error, ['err', i])
            self.role(mf.epsilon, ['eps', i])
            self.role(mf.variance, ['var', i])
            self.role(mf.std, ['std', i])
            # tensor component (a,b) is for the a-th and b-th space coordinate of the field
            sc = [c for c in f.args if str(c) != 't']
            ix = [S.index[str(c)] - 1 for c in sc]
            for a in range(len(sc)):
                for b in range(len(sc)):
                    q = sorted((ix[a], ix[b]))
                    self.role(mf.metric[a, b], ['g', i] + q)
                    self.role(mf.diffusion[a, b], ['nu', i] + q)
                    self.role(mf.aspect[a, b], ['s', i] + q)
        fs = list(pkf.fields)
        for i in range(len(fs)):
            for j in range(i + 1, len(fs)):
                V = pkf.get_covariance(fs[i], fs[j])
                a, b = sorted((S.fields.index(fs[i]) + 1, S.fields.index(fs[j]) + 1))
                self.role(V, ['cov', a, b])

    def labels(self, pkf):
        """the symbol of a component is named after its field and its two coordinates"""
        text = lambda s: re.sub('[^A-Za-z0-9]', '', str(s))
        for f, mf in pkf.fields.items():
            sc = [c for c in f.args if str(c) != 't']
            for T in (mf.metric, mf.diffusion, mf.aspect):
                for a in range(len(sc)):
                    for b in range(len(sc)):
                        name = text(T[a, b].func)
                        if not any(name.endswith(text(f.func) + text(p) + text(q)) for p, q in ((sc[a], sc[b]), (sc[b], sc[a]))):
                            self.bad.append(['label', str(f), a, b, str(T[a, b])])

    def lhs_role(self, lhs, reyn=False):
        if reyn:
            c = set()
            for f in lhs.atoms(AppliedUndef):
                r = self.funs.get(self.key(f), ['?'])
                if r[0] in ('random', 'err', 'mean'):
                    c.add(r[1])
            return ['mean', c.pop()] if len(c) == 1 else ['?', 0, str(lhs)]
        if isinstance(lhs, Derivative) and lhs.variables == (Symbol('t'),):
            X = lhs.args[0]
            if isinstance(X, self.E) and isinstance(X.args[0], AppliedUndef):
                r = self.funs.get(self.key(X.args[0]), ['?'])
                if r[0] == 'random':
                    return ['mean', r[1]]
            if isinstance(X, AppliedUndef):
                r = self.funs.get(self.key(X))
                if r:
                    return r
        return ['?', 0, str(lhs)]

    def depth_of(self, ser, ids):
        self.maxdepth = max([self.maxdepth] + [ser.d(i) + 1 for i in ids])

    def system_event(self, name, eqs):
        _, world, clean = SYS[name]
        ser = self.ser()
        out = []
        for e in eqs or []:
            lhs, rhs = e.args
            out.append([self.lhs_role(lhs, name in ('first', 'second')), ser(lhs), ser(rhs)])
        self.depth_of(ser, [q for e in out for q in e[1:]])
        self.events.append(dict(kind='system', name=name, world=world, clean=clean,
                                ordered=name in ('first', 'second', 'expectation', 'tl_expectation', 'error'),
                                nodes=ser.nodes or [['int', 0]], eqs=out))

    def identity_event(self, name, pairs, want=(), have=()):
        ser = self.ser()
        out = [[n, ser(a), ser(b)] for n, a, b in pairs]
        self.depth_of(ser, [q for e in out for q in e[1:]])
        self.events.append(dict(kind='identity', name=name, nodes=ser.nodes or [['int', 0]], pairs=out,
                                want=list(want), have=list(have)))

    def closed_event(self, name, eqs, base, closure):
        """closure: dict Expectation -> expression."""
        ser = self.ser()
        ovr = []
        cd = 0
        for k, v in closure.items():
            i = ser(v)
            cd = max(cd, ser.d(i))
            ovr.append([sympy.srepr(k.args[0]), i])
        out = [[self.lhs_role(e.args[0]), ser(e.args[1])] for e in eqs]
        bs = [[self.lhs_role(e.args[0]), ser(e.args[1])] for e in base]
        self.depth_of(ser, [e[1] for e in out + bs])
        self.maxdepth = max(self.maxdepth, cd + 1 + max([0] + [ser.d(e[1]) for e in out + bs]) if cd else 0)
        self.events.append(dict(kind='closed', name=name, nodes=ser.nodes, eqs=out, base=bs, ovr=ovr, clean=True))

    def case(self, salt=0):
        return dict(seed=(SEED * 131 + salt * 17) % 40000, rhs=self.rhs, rhsnodes=self.rhsnodes,
                    funs=self.funs, syms=self.syms, events=self.events)

    def validate(self, salts=1):
        """Check the recorded case with TLC; returns summary dict."""
        tot = dict(states=0, distinct=0, nchk=0, bad=list(self.bad), nd=self.maxdepth)
        done = 0
        for salt in range(salts + 4):
            r = tlc_trace('PKFReal', self.case(salt),
                          dict(NV=len(self.S.space), ND=self.maxdepth, TD=2, K=6 if len(self.S.space) > 2 else 4))
            tot['states'] += r['states']
            tot['distinct'] += r['distinct']
            if not r['defined']:
                continue
            if not r['worldok']:
                raise Machinery('realisation violates its own axioms')
            tot['nchk'] += r['nchk']
            for b in r['bad']:
                if b not in tot['bad']:
                    tot['bad'].append(b)
            done += 1
            if done >= salts:
                break
        if done == 0:
            raise Machinery('no defined realisation')
        return tot


def job_systems(arg):
    """arg: dict(sys=definition, systems=[...], salts=int)"""
    rec = Recorder(arg['sys'])
    pkf = rec.pkf()
    rec.roles_of(pkf)
    if 'metric' in arg['systems']:
        rec.labels(pkf)
    for name in arg['systems']:
        eqs = getattr(pkf, SYS[name][0])
        if name == 'cross_covariance' and len(rec.S.fields) == 1:
            if eqs is not None:
                rec.bad.append(['cross_covariance', 'unexpected', str(eqs)])
            continue
        rec.system_event(name, eqs)
    return rec.validate(arg.get('salts', 1))


# ---------------------------------------------------------------- closures
def closure_value(rec, pkf, n, high=False):
    """n-th closure expression: any expression of the delivered variables may be supplied."""
    mfs = list(pkf.fields.values())
    mf = mfs[n % len(mfs)]
    x = mf.spatial_coordinates[0]
    g, V, u = mf.metric[0, 0], mf.variance, mf.value
    pool = [3 * g ** 2 - 2 * Derivative(g, x, x), Integer(0), g * Derivative(g, x) + 1, u * g, Rational(2, 3),
            Derivative(V, x) / V * g, 1 / g, u * Derivative(u, x) - V]
    if high and n == 0:          # derivatives of higher orders than the ones of the equations
        return u * Derivative(g, x, 3) + Derivative(V, x, 4) * g
    return pool[(n + SEED) % len(pool)]


def make_closure(rec, pkf, terms, off=0, high=False):
    return {k: closure_value(rec, pkf, n + off, high) for n, k in enumerate(sorted(terms, key=str))}


def unclosed_event(rec, name, pkf, expect=None):
    ser = rec.ser()
    eqs = [[rec.lhs_role(e.args[0]), ser(e.args[1])] for e in pkf.in_metric]
    rec.depth_of(ser, [e[1] for e in eqs])
    rec.maxdepth += 1
    rep = sorted(sympy.srepr(k.args[0]) for k in pkf.unclosed_terms)
    rec.events.append(dict(kind='unclosed', name=name, nodes=ser.nodes, eqs=eqs, reported=rep,
                           hasexpect=expect is not None,
                           expect=sorted(sympy.srepr(k.args[0]) for k in (expect or []))))


FORMS = ['in_metric', 'in_diffusion', 'in_aspect']


def job_closed(arg):
    """Closed formulations against the unclosed metric formulation of a fresh object."""
    rec = Recorder(arg['sys'])
    ref = rec.pkf()
    rec.roles_of(ref)
    base = list(ref.in_metric)
    terms = set(ref.unclosed_terms)
    forms = arg.get('forms', FORMS)
    mode = arg.get('mode', 'ctor')
    order = sorted(terms, key=str)
    closure = make_closure(rec, ref, terms, arg.get('off', 0), arg.get('high', False))
    if mode == 'ctor':
        mine = dict(closure)
        p = rec.pkf(closure=mine)
        for f in forms:
            rec.closed_event(f, getattr(p, f), base, closure)
        if mine != closure:
            rec.bad.append(['closure', 'caller-object-altered', arg['sys']['name']])
    elif mode == 'set':
        p = rec.pkf()
        mine = dict(closure)
        p.set_closure(mine)
        p.set_closure({k: closure[k] for k in order[:1]})
        mf = list(p.fields.values())[-1]
        p.set_closure({rec.E(mf.epsilon * Derivative(mf.epsilon, mf.spatial_coordinates[0], 9)): Integer(3)})   # does not occur
        for f in reversed(forms):
            rec.closed_event(f, getattr(p, f), base, closure)
        if mine != closure:
            rec.bad.append(['closure', 'caller-object-altered', arg['sys']['name']])
    elif mode == 'steps':
        # one term at construction, the remaining ones one by one, reading in between
        first = {k: closure[k] for k in order[:1]}
        mine = dict(first)
        p = rec.pkf(closure=mine)
        lent = []
        acc = dict(first)
        unclosed_event(rec, 'unclosed-0', p, set(order[1:]))
        rec.closed_event('in_metric', p.in_metric, base, acc)
        for n, k in enumerate(order[1:], 1):
            step = {k: closure[k]}
            mstep = dict(step)
            p.set_closure(mstep)
            lent.append((mstep, step))
            acc.update(step)
            unclosed_event(rec, 'unclosed-%d' % n, p, set(order[n + 1:]))
            f = forms[n % len(forms)]
            rec.closed_event(f, getattr(p, f), base, acc)
        if mine != first or any(m != s for m, s in lent):
            rec.bad.append(['closure', 'caller-object-altered', arg['sys']['name']])
        if dict(p.closure) != acc:
            rec.bad.append(['closure', 'reported-closure', str(p.closure)[:200]])
        # replacing a closure already supplied
        if order:
            new = {order[0]: Integer(5)}
            p.set_closure(new)
            acc.update(new)
            for f in forms:
                rec.closed_event(f, getattr(p, f), base, acc)
    elif mode == 'other':
        # closures written with expectations that the dynamics did not hold: these are unclosed in turn
        top = max([d.derivative_count for k in terms for d in k.atoms(Derivative)] + [3])
        for n, k in enumerate(order):
            mf = list(ref.fields.values())[n % len(ref.fields)]
            x = mf.spatial_coordinates[-1]
            new = rec.E(mf.epsilon * mf.epsilon.diff(x, top + 1 + n % 2))
            if n % 3 < 2:
                closure[k] = closure[k] * new + 1 if n % 2 else 3 * new
            elif n % 3 == 2:
                closure[k] = closure[k] + 2
        p = rec.pkf(closure=dict(closure)) if arg.get('off', 0) % 2 else rec.pkf()
        p.set_closure(dict(closure))
        unclosed_event(rec, 'unclosed-other', p)
        for f in forms:
            rec.closed_event(f, getattr(p, f), base, closure)
    elif mode == 'open':
        unclosed_event(rec, 'unclosed', ref)
        ser = rec.ser()
        for f in forms:
            for e in getattr(ref, f):
                ser(e.args[1])
        extra = sorted(set(ser.ekeys) - set(sympy.srepr(k.args[0]) for k in terms))
        if extra:
            rec.bad.append(['unclosed', 'depends-on-unreported', extra[:3]])
        if ref.unclosed_terms != terms:
            rec.bad.append(['unclosed', 'not-repeatable', ''])
    return rec.validate(arg.get('salts', 1))


# ---------------------------------------------------------------- statistics
def job_rules(arg):
    """Internal closure and substitution tree of every field."""
    rec = Recorder(arg['sys'])
    pkf = rec.pkf()
    rec.roles_of(pkf)
    pairs = [[str(k), k, v] for k, v in pkf.internal_closure.items()]
    rec.identity_event('internal_closure', pairs, *determined(rec, pkf))
    for f, mf in pkf.fields.items():
        rec.identity_event('field_closure', [[str(k), k, v] for k, v in mf.internal_closure.items()])
        i = rec.S.fields.index(f) + 1
        sc = [str(c) for c in mf.spatial_coordinates]
        # definitions by label
        n = len(sc)
        rec.identity_event('metric_definition', [['g%d%d' % (a, b), mf.metric_definition(a, b), mf.metric[a, b]]
                                                 for a in range(n) for b in range(n)])
        for deg in arg['degrees']:
            tree_event(rec, 'tree-%d' % deg, mf, mf.subs_tree(deg), deg)
            closed = {k: v.subs(pkf.internal_closure).doit() for k, v in mf.subs_tree(deg).items()}
            rec.identity_event('closed-tree', [[str(k), k, v] for k, v in closed.items()])
        if arg.get('full'):
            rec.identity_event('subs_tree', [[str(k), k, v] for k, v in pkf.subs_tree.items()])
    return rec.validate(arg.get('salts', 1))


def determined(rec, pkf):
    """terms that the variances, covariances and metrics determine, and those left once the substitutions are applied"""
    E, want, have = rec.E, [], []
    mfs = list(pkf.fields.values())
    for mf in mfs:
        e, cs = mf.epsilon, mf.spatial_coordinates
        terms = [E(e), E(e ** 2)] + [E(e * e.diff(c)) for c in cs] + \
                [E(e.diff(*q) * e) for m in (2, 3) for q in itertools.combinations_with_replacement(cs, m)] + \
                [E(e.diff(a) * e.diff(b)) for n, a in enumerate(cs) for b in cs[n:]] + \
                [E(e.diff(a) * e.diff(*q)) for a in cs for q in itertools.combinations_with_replacement(cs, 2)]
        tree = mf.subs_tree(3)
        for z in terms:
            want.append(str(z))
            if not z.subs(tree).subs(pkf.internal_closure).atoms(E):
                have.append(str(z))
    for n, a in enumerate(mfs):
        for b in mfs[n + 1:]:
            z = E(a.epsilon * b.epsilon)
            want.append(str(z))
            if not z.subs(pkf.internal_closure).atoms(E):
                have.append(str(z))
    return want, have


def multi_index(d, coords):
    cnt = [0] * len(coords)
    for v in d.variables:
        cnt[coords.index(str(v))] += 1
    return cnt


def tree_key(mf, k, coords):
    """[alpha, beta] of a key E[D^alpha eps D^beta eps]; None if it is not one."""
    a = k.args[0]
    if isinstance(a, sympy.Pow) and a.exp == 2 and isinstance(a.base, Derivative):
        fs = [a.base, a.base]
    elif isinstance(a, sympy.Mul) and len(a.args) == 2 and all(isinstance(q, Derivative) for q in a.args):
        fs = list(a.args)
    else:
        return None
    if any(q.expr != mf.epsilon for q in fs):
        return None
    return [multi_index(q, coords) for q in fs]


def tree_event(rec, name, mf, tree, degree):
    ser = rec.ser()
    coords = [str(c) for c in rec.S.space]
    out = []
    for k, v in tree.items():
        tk = tree_key(mf, k, coords) if isinstance(k, rec.E) else None
        if tk is None:
            rec.bad.append([name, 'key', str(k)])
            continue
        out.append([tk, ser(k), ser(v)])
    rec.depth_of(ser, [q for e in out for q in e[1:]])
    rec.events.append(dict(kind='tree', name=name, nodes=ser.nodes or [['int', 0]], pairs=out, degree=degree))


def job_treehist(arg):
    """Replays a sequence of degree requests on one field; every answer must be complete for its degree."""
    rec = Recorder(arg['sys'])
    pkf = rec.pkf()
    rec.roles_of(pkf)
    mf = list(pkf.fields.values())[0]
    held = []
    for n, deg in enumerate(arg['degrees']):
        t = mf.subs_tree(deg)
        held.append((n, deg, t, dict(t)))
        tree_event(rec, 'tree-hist-%d' % n, mf, t, deg)
    for n, deg, t, c in held:
        if t != c:
            rec.bad.append(['tree-hist', 'answer-changed-later', n])
    return rec.validate(1)
