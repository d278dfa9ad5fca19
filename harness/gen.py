"""Inputs drawn from the generator specifications by TLC simulation."""
import json, re
from core import tlc, SEED, Machinery


def simulate(module, constants, num, depth, tag, seed_off=0, invariant=(), timeout=120):
    """Runs TLC -simulate and returns the JSON documents printed as '<tag> {...}'."""
    out, st, di, rc = tlc(module, constants, args=['-simulate', 'num=%d' % num, '-depth', str(depth),
                                                   '-seed', str(1000 + SEED * 7919 + seed_off)],
                          invariant=invariant, timeout=timeout)
    docs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + ' '):
            docs.append(json.loads(json.loads(line)[len(tag) + 1:]))
    if not docs:
        raise Machinery('generator %s produced nothing\n%s' % (module, out[-2000:]))
    return docs, st


def pde_systems(num, maxf=2, maxd=1, maxt=3, maxq=2, maxo=2, ratio=False, rich=False, seed_off=0):
    docs, st = simulate('PDEGen', dict(MAXF=maxf, MAXD=maxd, MAXT=maxt, MAXQ=maxq, MAXO=maxo,
                                       ALLOWRATIO='TRUE' if ratio else 'FALSE', RICH='TRUE' if rich else 'FALSE'), num, 40, 'SYS', seed_off,
                        invariant=['WellFormed'])
    uniq, seen = [], set()
    for d in docs:
        k = json.dumps(d['rhs'])
        if k in seen:
            continue
        seen.add(k)
        d['name'] = 'gen:' + ' ; '.join(d['rhs'])
        uniq.append(d)
    return uniq[:num], st


def histories(module, constants, tag='HIST'):
    """All complete histories of a lifecycle model: exhaustive exploration, one printed line per history."""
    kw = dict(cfg=constants) if isinstance(constants, str) else dict(constants=constants)
    out, st, di, rc = tlc(module, workers=1, timeout=300, **kw)
    if rc != 0:
        raise Machinery('%s: %s' % (module, out[-2000:]))
    docs = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + ' '):
            docs.append(json.loads(json.loads(line)[len(tag) + 1:]))
    docs.sort(key=json.dumps)
    return docs, st, di
