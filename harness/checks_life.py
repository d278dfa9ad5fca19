"""Check C10: sessions of parametric-dynamics objects."""
import core, gen
from core import parallel, SEED, TIER
from checks_pkf import collect, ASSUME

Q = TIER == 'quick'
SETS = 'RAW = {%s} CLOSED = {%s} ' % (
    ', '.join('"%s"' % s for s in ['first', 'second', 'expectation', 'tl_expectation', 'error', 'epsilon', 'variance',
                                   'std', 'cross_covariance', 'metric', 'internal']),
    ', '.join('"%s"' % s for s in ['in_metric', 'in_diffusion', 'in_aspect', 'unclosed', 'closure']))
CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT OBJ = {1, 2} TERMS = {0, 1, 2} %s MAXLEN = %d DESIGN = "%s" EMIT = %s\n%s')
SMALL = 'RAW = {"variance", "metric"} CLOSED = {"in_metric", "in_aspect"} '


def histories(num, length, off=0):
    cfg = CFG % (SETS, length, 'sound', 'TRUE', 'INVARIANT Fresh MemoFresh\n')
    out, st, di, rc = core.tlc('PKFLife', cfg=cfg, args=['-simulate', 'num=%d' % (num * 2), '-depth', str(length + 2),
                                                         '-seed', str(77 + SEED * 101 + off)], timeout=300)
    docs, seen = [], set()
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"LIFE '):
            d = core.json.loads(core.json.loads(line)[5:])
            if any(a[0] == 'get' for a in d) and str(d) not in seen:
                seen.add(str(d))
                docs.append(d)
    return docs[:num], st


PAIRS = [['burgers', 'kdv'], ['burgers', 'burgers'], ['advcoup2', 'coup2'], ['kuramoto', 'burgers'],
         ['advect1', 'hetdiff'], ['nl2', 'advect1'], ['swe1', 'burgers'],
         ['burgers', 'burgersy'], ['coup2', 'coup2r']] + ([] if Q else [['hetdiff', 'nl2'], ['lotka', 'swe1']])


def run_C10(chk):
    import drv_life
    import sympkf  # noqa
    chk.model('memo design', 'PKFLife', cfg=CFG % (SMALL, 6 if Q else 8, 'sound', 'FALSE',
              'INVARIANT Fresh MemoFresh\nPROPERTY Isolated\nVIEW View\n'))
    for bad in ('stale', 'shared'):
        out, st, di, rc = core.tlc('PKFLife', cfg=CFG % (SMALL, 5, bad, 'FALSE', 'INVARIANT Fresh\nVIEW View\n'))
        if 'Invariant Fresh is violated' not in out:
            raise core.Machinery('PKFLife: the defective design %s is not told apart\n' % bad + out[-1500:])
    jobs = []
    # short sessions around one closure: read, close, read (every pair of systems meets in the long run)
    hs, st = histories(24 if Q else 200, 7 if Q else 9)
    chk.add_states(st, st)
    for n, h in enumerate(hs):
        a = dict(objs=PAIRS[(n + SEED) % len(PAIRS)], hist=h)
        if n % 5 == 2:
            a['ctor'] = {'1': [[0, 1]]}
        if n % 6 == 3 and a['objs'] != ['nl2', 'advect1']:
            a['env'] = {'SYMPY_USE_CACHE': 'no'} if n % 2 else {'PYTHONHASHSEED': str(n + SEED)}
        jobs.append(a)
    # sessions every object goes through: all systems, closure, all systems again, eviction, again
    r = lambda l, k: l[k % len(l):] + l[:k % len(l)]
    closed = ['in_metric', 'unclosed', 'in_diffusion', 'in_aspect', 'closure']
    raw = ['variance', 'metric', 'error', 'expectation', 'internal']
    for n, objs in enumerate(PAIRS if not Q else PAIRS[:5]):
        h = [['get', 1, s] for s in r(closed, n + SEED)] + [['set', 1, 0]] + [['get', 1, s] for s in r(closed, n + SEED)] + \
            [['get', 2, 'in_metric'], ['set', 1, 1]] + [['get', 1, s] for s in r(closed, n + 2)[:3]] + [['evict']] + \
            [['get', 1, s] for s in r(raw, n)[:3]] + [['get', 1, 'in_metric']] + [['get', 2, s] for s in ('in_aspect', 'unclosed')]
        jobs.append(dict(objs=objs, hist=h))
        jobs.append(dict(objs=objs[::-1], hist=[['evict'], ['get', 1, 'metric'], ['evict'], ['get', 1, 'in_metric'],
                                                ['get', 2, 'in_metric'], ['set', 2, 2], ['evict'], ['get', 2, 'in_aspect'],
                                                ['get', 2, 'unclosed'], ['get', 1, 'unclosed'], ['get', 1, 'in_diffusion']],
                         env=[{'PYTHONHASHSEED': '17'}, {'SYMPY_USE_CACHE': 'no'}, {}][n % 3] or None))
    # objects with fields named alike over other coordinates or in another order, asked alternately
    for objs in PAIRS[-2:] if Q else PAIRS[7:9]:
        for o in (objs, objs[::-1]):
            jobs.append(dict(objs=o, hist=[['get', 1, 'in_metric'], ['get', 2, 'in_metric'], ['get', 1, 'internal'], ['get', 2, 'internal'],
                                           ['get', 2, 'metric'], ['get', 2, 'in_aspect'], ['get', 1, 'in_diffusion'], ['get', 2, 'unclosed']]))
    # objects created while others already hold results
    for n, objs in enumerate([['burgers', 'burgersy'], ['coup2', 'coup2r'], ['burgers', 'burgers'], ['burgersy', 'kdv']] if Q else PAIRS):
        c2 = r(closed, n + SEED)
        jobs.append(dict(objs=objs, hist=[['get', 1, s] for s in c2[:3]] + [['new', 2, -1]] + [['get', 2, s] for s in c2] + [['set', 2, n % 3], ['get', 2, 'in_metric'],
                         ['new', 1, n % 3]] + [['get', 1, s] for s in c2[1:]] + [['new', 1, -1], ['get', 1, 'in_metric'], ['get', 1, 'closure'], ['get', 2, 'unclosed']]))
    # the same term closed again with another expression, the systems being requested in between
    for n, objs in enumerate([['burgers', 'kdv'], ['advcoup2', 'coup2'], ['hetdiff', 'burgers']] if Q else PAIRS):
        h = []
        for k in (0, 0, 1, 0, 2):
            h += [['get', 1, s] for s in (r(closed, n)[:2] + ['in_metric'])] + [['set', 1, k]]
        jobs.append(dict(objs=objs, hist=h + [['get', 1, s] for s in closed], ctor={'1': [[0, 5]]} if n % 2 else {}))
    jobs.sort(key=lambda a: 'swe1' not in a['objs'])
    refs = {}
    for a in jobs:
        for o, items, name in drv_life.needed(a):
            refs[drv_life.ref_key(a, o, items, name)] = dict(sys=a['objs'][o - 1], items=core.json.loads(items), names=[name])
    keys = sorted(refs, key=lambda k: ('swe1' not in k, k))
    rr = parallel(drv_life.job_ref, [refs[k] for k in keys], timeout=200 if Q else 600)
    for k, r in zip(keys, rr):
        if r[0] == 'ok':
            drv_life.REFS[k] = r[1]
        elif r[0] in ('exc', 'timeout'):
            chk.violation('fresh %s: %s' % (k, r[1] if len(r) > 1 else 'no result within the time limit'), r[-1], refs[k])
        else:
            chk.errors.append('%s: %s' % (k, r))
    jobs = [a for a in jobs if all(drv_life.ref_key(a, *q) in drv_life.REFS for q in drv_life.needed(a))]
    chk.extra['fresh_answers'] = len(refs)
    res = parallel(drv_life.job_life, jobs, timeout=300 if Q else 900)
    collect(chk, jobs, res, lambda a: 'session %s %s%s' % (a['objs'], a.get('ctor', ''), ' '.join('/'.join(map(str, q)) for q in a['hist'])[:300]))
    for j in jobs[:6]:
        chk.sample(j)
    chk.extra['sessions'] = len(jobs)
    chk.assumptions += [ASSUME[0], 'a fresh object is one built in a forked process that has computed nothing else',
                        'systems and sessions are sampled; at most two closures per object and sessions of up to 25 requests']
