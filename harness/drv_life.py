"""Sessions of parametric-dynamics objects for LifeTrace.tla (C10)."""
import json, os, subprocess, sys
import sympy
from sympy.core.function import AppliedUndef
from core import tlc_trace, Machinery, SEED
from ser import Ser
from systems import System, CORPUS
import drv_pkf

RAW = [s for s in drv_pkf.SYS if not drv_pkf.SYS[s][2]]
CLOSED = [s for s in drv_pkf.SYS if drv_pkf.SYS[s][2]]


class Obj:
    """One SymbolicPKF object with the vocabulary of its closure terms."""

    def __init__(self, name, items=()):
        self.rec = drv_pkf.Recorder(CORPUS[name])
        self.items = list(items)
        self.pkf = None
        self.held = []

    def build(self, items=()):
        self.pkf = self.rec.pkf(closure=self.closure(items, self.rec.pkf())) if items else self.rec.pkf()

    def closure(self, items, pkf=None):
        """items: [term number, value number]; terms are those of the unclosed dynamics (TERMS)."""
        pkf = pkf or self.pkf
        return {TERMS[self.rec.S.d['name']][k](pkf): drv_pkf.closure_value(self.rec, pkf, v) for k, v in items}

    def answer(self, name):
        p = self.pkf
        if name == 'unclosed':
            return dict(kind='keys', eqs=sorted(map(str, p.unclosed_terms)), nodes=[]), {}, 0
        if name == 'closure':
            return dict(kind='keys', eqs=sorted('%s -> %s' % (k, v) for k, v in p.closure.items()), nodes=[]), {}, 0
        ser = Ser(self.rec.S.index, self.rec.E, self.rec.omega)
        if name == 'internal':
            prs = sorted(((str(k), v) for k, v in p.internal_closure.items()), key=lambda q: q[0])
        else:
            prs = [(str(e.args[0]), e.args[1]) for e in (getattr(p, drv_pkf.SYS[name][0]) or [])]
        eqs = [[k, ser(v)] for k, v in prs]
        funs = {k: [[self.rec.S.index[str(a)] for a in f.args if a != self.rec.omega], self.rec.omega in f.args]
                for k, f in ser.funs_seen.items()}
        return (dict(kind='eqs', eqs=eqs, nodes=ser.nodes or [['int', 0]]),
                dict(funs=funs, syms=sorted(ser.syms_seen), depth=max([0] + [ser.d(i) for _, i in eqs]) + 1), 0)


def _eps(p, i=0):
    mf = list(p.fields.values())[i]
    return mf.epsilon, mf.spatial_coordinates


def _dterm(i, *orders):
    """E[eps_i d^n eps_i] or E[D^a eps_i D^b eps_j] ... as the package writes it"""
    def f(p):
        from sympkf import Expectation
        e, sc = _eps(p, i)
        return Expectation(e * sympy.Derivative(e, *[(sc[0], n) for n in orders]))
    return f


def _cross(i, j, a, b):
    def f(p):
        from sympkf import Expectation
        e, sc = _eps(p, i)
        g, _ = _eps(p, j)
        d = lambda q, n: sympy.Derivative(q, (sc[0], n)) if n else q
        return Expectation(d(e, a) * d(g, b))
    return f


# closure terms that can be supplied (those which the dynamics leaves open, and one it never mentions)
TERMS = {
    'burgers': [_dterm(0, 4), _dterm(0, 6)],
    'burgersy': [_dterm(0, 4), _dterm(0, 6)],
    'kdv': [_dterm(0, 4), _dterm(0, 6)],
    'kuramoto': [_dterm(0, 6), _dterm(0, 4)],
    'hetdiff': [_dterm(0, 4), _dterm(0, 6)],
    'advcoup2': [_cross(0, 1, 1, 1), _cross(0, 1, 1, 0)],
    'coup2': [_cross(0, 1, 1, 1), _cross(0, 1, 1, 0)],
    'coup2r': [_cross(0, 1, 1, 1), _cross(0, 1, 1, 0)],
    'swe1': [_cross(0, 1, 1, 1), _cross(0, 1, 1, 0)],
    'advect1': [_dterm(0, 4), _dterm(0, 6)],
    'nl2': [_dterm(0, 4), _dterm(0, 2)],
    'lotka': [_cross(0, 1, 1, 1), _cross(0, 1, 1, 0)],
}


def fresh(spec):
    """The answers of a fresh object (run in a process of its own)."""
    o = Obj(spec['sys'])
    o.build(spec['items'])
    out = {}
    for n in spec['names']:
        a, m, _ = o.answer(n)
        out[n] = [a, m]
    return out


REFS = {}          # answers of fresh objects, each from a process of its own


def play(arg):
    """Plays the session; returns the events and the metadata of the answers."""
    names = arg['objs']
    objs = {}
    events, metas = [], []
    clos = {}
    for o, n in enumerate(names, 1):
        objs[o] = Obj(n)
        items = arg.get('ctor', {}).get(str(o), [])
        objs[o].build(items)
        clos[o] = {k: v for k, v in items}
        events.append(['new', o, [list(q) for q in clos[o].items()]])
    val = 0
    for a in arg['hist']:
        if a[0] == 'evict':
            sympy.core.cache.clear_cache()
            events.append(['evict'])
        elif a[0] == 'new':
            val += 1
            o, items = a[1], items_of(val, a[2]) if a[2] >= 0 else []
            objs[o] = Obj(names[o - 1])
            objs[o].build(items)
            events.append(['new', o, items])
        elif a[0] == 'set':
            o, k = a[1], a[2]
            val += 1
            items = items_of(val, k)
            objs[o].pkf.set_closure(objs[o].closure(items))
            events.append(['set', o, items])
        elif a[0] == 'get':
            ans, m, _ = objs[a[1]].answer(a[2])
            events.append(['get', a[1], a[2], ans])
            metas.append([names[a[1] - 1], m])
    return dict(events=events, metas=metas)


def items_of(val, k):
    return [[k, (val * 3 + k) % 8]] if k < 2 else [[0, val % 8], [1, (val + 2) % 8]]


def needed(arg):
    """(object, closure items, name) of every request of a session."""
    cl, val, out = {}, 0, []
    for o, n in enumerate(arg['objs'], 1):
        cl[o] = dict(map(tuple, arg.get('ctor', {}).get(str(o), [])))
    for a in arg['hist']:
        if a[0] == 'new':
            val += 1
            cl[a[1]] = dict(map(tuple, items_of(val, a[2]))) if a[2] >= 0 else {}
        elif a[0] == 'set':
            val += 1
            cl[a[1]].update(dict(map(tuple, items_of(val, a[2]))))
        elif a[0] == 'get':
            out.append((a[1], json.dumps(sorted(cl[a[1]].items())), a[2]))
    return sorted(set(out))


def ref_key(arg, o, items, name):
    return '%s|%s|%s' % (arg['objs'][o - 1], items, name)


def job_ref(arg):
    return fresh(arg)[arg['names'][0]]


def job_life(arg):
    if arg.get('env'):
        events, metas = play_elsewhere(arg)
    else:
        r = play(arg)
        events, metas = r['events'], r['metas']
    refs, m2 = [], []
    for o, items, name in needed(arg):
        ans, m = REFS[ref_key(arg, o, items, name)]
        refs.append(dict(obj=o, clos=json.loads(items), name=name, **ans))
        m2.append([arg['objs'][o - 1], m])
    index = {}
    for n in arg['objs']:
        index.update(System(CORPUS[n]).index)
    S0 = max((System(CORPUS[n]) for n in arg['objs']), key=lambda s: len(s.space))
    funs, syms, depth, keys = {}, {}, 1, {}
    for sysn, m in metas + m2:
        if not m:
            continue
        for k, (args, rnd) in m['funs'].items():
            keys.setdefault(k, len(keys) + 1)
            # a function named alike in both objects may have other arguments: all of them count
            old = funs.get(k)
            funs[k] = ['rand' if rnd else 'det', keys[k], sorted(set(args) | set(old[2] if old else []))]
        for s in m['syms']:
            syms[s] = ['coord', index[s]] if s in index else ['const', 1 + sum(ord(c) for c in s)]
        depth = max(depth, m['depth'])
    case = dict(seed=(SEED * 37 + 11) % 30000, funs=funs, funargs={}, syms=syms, refs=refs, events=events)
    r = tlc_trace('LifeTrace', case, dict(NV=len(S0.space), ND=depth, TD=2, K=4))
    for b in r['bad']:
        if b[0] == 'machinery':
            raise Machinery(str(b))
    return dict(states=r['states'], distinct=r['distinct'], nchk=r['nchk'], bad=r['bad'])


def play_elsewhere(arg):
    """The session in another interpreter (other hash seed, other cache policy of the algebra library)."""
    e = dict(os.environ)
    e.update(arg['env'])
    p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(arg), text=True, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=arg.get('limit', 280))
    for line in p.stdout.splitlines():
        if line.startswith('RESULT '):
            r = json.loads(line[7:])
            return r['events'], r['metas']
    raise RuntimeError('session failed: ' + p.stderr[-600:])


if __name__ == '__main__':
    print('RESULT ' + json.dumps(play(json.loads(sys.stdin.read()))))
