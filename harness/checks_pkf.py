"""Checks C03-C09 on SymbolicPKF."""
import core
from core import parallel, SEED, TIER
from systems import CORPUS, renamed
import gen


def collect(chk, jobs, results, label):
    """Turn job results into verdicts."""
    for a, r in zip(jobs, results):
        name = label(a)
        if r[0] == 'ok':
            res = r[1]
            chk.add_states(res['states'], res['distinct'])
            chk.traces += res.get('traces', 1)
            chk.checked += res['nchk']
            for b in res['bad']:
                chk.violation('%s: %s' % (name, core.json.dumps(b)), b, a)
        elif r[0] == 'machinery':
            chk.errors.append('%s: %s' % (name, r[1]))
        elif r[0] == 'exc':
            chk.violation('%s: raises %s' % (name, r[1][:200]), r[2][-1500:], a)
        elif r[0] == 'timeout':
            chk.violation('%s: no result within the time limit' % name, 'timeout', a)
        else:
            chk.errors.append('%s: job died' % name)


def run_jobs(chk, jobs, label, timeout=None):
    """jobs: dicts with 'fn' = name of a function of drv_pkf."""
    import drv_pkf
    import sympkf  # noqa: imported once, shared by the forked jobs
    res = parallel(lambda a: getattr(drv_pkf, a['fn'])(a), jobs, timeout=timeout or (300 if Q else 1200))
    # a generated system may be too large for the algebra: not a verdict
    keep_j, keep_r = [], []
    for a, r in zip(jobs, res):
        if r[0] == 'timeout' and a['sys']['name'].startswith('gen:'):
            chk.extra['inconclusive_timeouts'] = chk.extra.get('inconclusive_timeouts', 0) + 1
            continue
        keep_j.append(a)
        keep_r.append(r)
    collect(chk, keep_j, keep_r, label)
    for j in jobs[:3] + jobs[-3:]:
        chk.sample({k: (v if k != 'sys' else {'fields': v['fields'], 'rhs': v['rhs']}) for k, v in j.items()})
    chk.extra['cases'] = chk.extra.get('cases', 0) + len(jobs)
    chk.extra['prime'] = 46199
    for a in ASSUME:
        if a not in chk.assumptions:
            chk.assumptions.append(a)


ASSUME = [
    'identities are decided at random points of GF(46199): a false identity of degree d passes with probability about d/46199',
    'probability space of 4 (6 in 3D) equiprobable outcomes; errors are centred and normalised on it',
    'systems are sampled (curated corpus plus systems drawn from PDEGen.tla within its bounds)',
]


def systems_check(chk, systems, corpus, generated, salts=1):
    jobs = [dict(fn='job_systems', sys=CORPUS[n], systems=systems, salts=salts) for n in corpus]
    jobs += [dict(fn='job_systems', sys=d, systems=systems, salts=salts) for d in texts(corpus)]
    for kw in generated:
        docs, st = gen.pde_systems(**kw)
        chk.add_states(st, st)
        jobs += [dict(fn='job_systems', sys=retext(d, n), systems=systems, salts=salts) for n, d in enumerate(docs)]
    run_jobs(chk, jobs, lambda a: a['sys']['name'])


Q = TIER == 'quick'


def texts(corpus):
    """systems of the corpus in other texts (names of the unknowns, functions, constants, coordinates)"""
    some = ['fisher', 'smooth', 'lotka', 'adv2', 'nl2', 'three', 'mixed2', 'two2', 'forced'] if Q else [n for n in corpus if n not in HEAVY]
    return [renamed(CORPUS[n], i + SEED + k) for i, n in enumerate(some) for k in ([0] if Q and len(CORPUS[n]['coords']) < 5 else range(3))]


def retext(d, n):
    return renamed(d, n // 3) if n % 3 == 2 else d


ONE = ['burgers', 'kdv', 'kuramoto', 'react1', 'quaddiff', 'ratio1', 'forced', 'hetdiff', 'tint', 'pw']
MULTI = ['flux', 'porous', 'smooth', 'coup2', 'advcoup2', 'swe1', 'lotka', 'grayscott', 'three', 'threeadv']
TWO = ['adv2', 'nl2', 'mixed2', 'two2']
ALL = [n for n in CORPUS]


def gens(n1, n2, n3, big=3):
    g = [dict(num=n1, maxf=2, maxd=1, ratio=False, seed_off=1), dict(num=max(4, n1 // 2), maxf=2, maxd=1, maxt=2, maxo=2, rich=True, seed_off=4)]
    if n2:
        g.append(dict(num=n2, maxf=2, maxd=2, maxt=2, ratio=True, seed_off=2))
    if n3:
        g.append(dict(num=n3, maxf=3, maxd=1, maxt=2, maxq=2, maxo=3, ratio=True, seed_off=3))
    return g


def run_C03(chk):
    corpus = ONE + MULTI + ['adv2t', 'nl2', 'mixed2', 'adv3'] if Q else ALL
    systems_check(chk, ['first', 'second', 'expectation'], corpus,
                  gens(20, 10, 8) if Q else gens(120, 60, 60), 1 if Q else 2)


def run_C04(chk):
    corpus = ONE + MULTI + ['adv2t', 'nl2'] if Q else ALL
    systems_check(chk, ['tl_expectation', 'error', 'epsilon'], corpus,
                  gens(14, 6, 6) if Q else gens(100, 60, 60), 1 if Q else 2)


def run_C05(chk):
    corpus = ONE + MULTI + ['adv2t', 'nl2', 'two2', 'concat'] if Q else ALL
    systems_check(chk, ['variance', 'std', 'cross_covariance'], corpus,
                  gens(14, 6, 6) if Q else gens(100, 60, 60), 1 if Q else 2)


def run_C06(chk):
    corpus = ONE + ['coup2', 'swe1', 'lotka', 'threeadv', 'adv2t', 'nl2', 'diff2', 'adv3'] if Q else ALL
    systems_check(chk, ['metric'], corpus,
                  gens(12, 5, 4) if Q else gens(100, 60, 60), 1 if Q else 2)


FORMS_ = ['in_metric', 'in_diffusion', 'in_aspect']
HEAVY = ['diff2', 'mixed2']           # aspect/diffusion forms of second-order 2D systems: minutes


def closed_jobs(corpus, modes, forms=None, gen_n=0, off=0):
    jobs = []
    for n in corpus:
        for m in modes:
            a = dict(fn='job_closed', sys=CORPUS[n], mode=m, off=off)
            if forms:
                a['forms'] = forms
            jobs.append(a)
    return jobs


def name_of(a):
    return '%s/%s/%s' % (a['fn'], a['sys']['name'], a.get('mode', a.get('degrees', '')))


def run_C07(chk):
    three = ['in_metric', 'in_diffusion', 'in_aspect']
    corpus = (['threeadv', 'swe1', 'flux', 'porous', 'nl2', 'adv2t', 'burgers', 'kdv', 'react1', 'forced', 'advcoup2']
              if Q else ['adv3', 'react3', 'diff2', 'mixed2'] + [n for n in ALL if n not in HEAVY and n not in ('adv3', 'react3')])
    jobs = [dict(fn='job_systems', sys=CORPUS[n], systems=three, salts=1 if Q else 2) for n in corpus]
    jobs += closed_jobs(['burgers', 'swe1'] if Q else ['burgers', 'kdv', 'kuramoto', 'hetdiff', 'swe1', 'grayscott', 'advcoup2', 'quaddiff'],
                        ['ctor'])
    jobs += [dict(fn='job_systems', sys=renamed(CORPUS[n], i + SEED), systems=three, salts=1)
             for i, n in enumerate(['nl2', 'fisher', 'two2', 'lotka'] + ([] if Q else ['adv2t', 'adv3', 'grayscott', 'smooth', 'nl2', 'nl2', 'adv3']))]
    # closures written with the metric, of terms of the mean and variance dynamics
    for off in ([0] if Q else [0, 2, 5]):
        jobs += closed_jobs(['kuramoto', 'advcoup2'], ['set'], forms=three[1:], off=off)
    if not Q:
        jobs += closed_jobs(['mixed2', 'diff2'], ['ctor'])
    for kw in ([dict(num=6, maxf=2, maxd=1, maxt=2, maxq=2, maxo=2, seed_off=1), dict(num=4, maxf=2, maxd=1, maxt=1, maxq=2, maxo=2, rich=True, seed_off=4)] if Q else
               [dict(num=60, maxf=2, maxd=1, maxt=3, maxo=2, seed_off=1), dict(num=60, maxf=2, maxd=1, maxt=2, maxo=2, rich=True, seed_off=4),
                dict(num=20, maxf=1, maxd=2, maxt=2, maxo=1, ratio=True, seed_off=2),
                dict(num=20, maxf=3, maxd=1, maxt=2, maxq=2, maxo=3, ratio=True, seed_off=3)]):
        docs, st = gen.pde_systems(**kw)
        chk.add_states(st, st)
        jobs += [dict(fn='job_systems', sys=retext(d, n), systems=three, salts=1) for n, d in enumerate(docs)]
        if not Q:
            jobs += [dict(fn='job_closed', sys=d, mode='set') for d in docs[:12]]
    run_jobs(chk, jobs, name_of)


def run_C08(chk):
    jobs = [dict(fn='job_rules', sys=CORPUS[n], degrees=d, full=f) for n, d, f in
            ([('adv3', [3, 4], False), ('adv2', [1, 2, 3, 4, 5], True), ('swe1', [4], True), ('threeadv', [3], False),
              ('burgers', [2, 5, 8], True), ('two2', [4], False)] if Q else
             [('adv3', [3, 4, 5, 6], True), ('adv2', [1, 2, 3, 4, 5, 6, 7, 8], True), ('swe1', [4, 6], True),
              ('threeadv', [3, 5, 2], True), ('burgers', [2, 5, 8, 11], True), ('two2', [4, 6], True), ('mixed2', [7], True)])]
    jobs += [dict(fn='job_rules', sys=renamed(CORPUS[n], i + SEED), degrees=d, full=f) for i, (n, d, f) in
             enumerate([('adv2', [2, 4], True), ('two2', [3], True), ('adv2', [5], True)] +
                       ([] if Q else [('adv3', [3, 4], True), ('mixed2', [6], True), ('threeadv', [3], True)]))]
    # every short history of degree requests (from the lifecycle model)
    hist = gen.histories('TreeLife', dict(MAXDEG=5 if Q else 6, MAXLEN=2 if Q else 3))
    chk.add_states(hist[1], hist[2])
    hs = hist[0]
    if Q:
        hs = hs[::3] + [[5, 3, 4], [2, 5, 4]]
    for h in hs:
        jobs.append(dict(fn='job_treehist', sys=CORPUS['burgers' if Q or len(h) < 3 else 'adv2'], degrees=h))
    run_jobs(chk, jobs, name_of)


def run_C09(chk):
    jobs = closed_jobs(['swe1', 'kuramoto', 'burgers', 'grayscott'] if Q else
                       ['kuramoto', 'swe1', 'burgers', 'grayscott', 'hetdiff', 'kdv', 'quaddiff', 'lotka', 'advcoup2', 'coup2'], ['steps'],
                       forms=None if not Q else ['in_metric', 'in_aspect'])
    jobs += closed_jobs(['swe1', 'kdv', 'hetdiff', 'quaddiff', 'coup2', 'advcoup2', 'lotka', 'react1'] +
                        ([] if Q else ['threeadv', 'three', 'nl2', 'two2', 'kuramoto', 'grayscott']), ['open'],
                        forms=None if not Q else ['in_metric', 'in_diffusion'])
    jobs += closed_jobs(['mixed2', 'diff2', 'adv3'], ['open'], forms=['in_metric'])
    jobs += closed_jobs(['mixed2', 'two2'], ['set'], forms=['in_metric'])
    jobs += closed_jobs(['kdv', 'advcoup2'], ['set'])
    jobs += closed_jobs(['kuramoto', 'mixed2'] if Q else ['kuramoto', 'kdv', 'mixed2', 'hetdiff', 'advcoup2', 'two2', 'grayscott'], ['other'],
                        forms=['in_metric'] if Q else FORMS_)
    jobs += closed_jobs(['burgers', 'advcoup2'], ['other'], forms=['in_metric', 'in_aspect'], off=1)
    for i, (n, m) in enumerate([('mixed2', 'open'), ('mixed2', 'set'), ('nl2', 'steps'), ('swe1', 'steps')] +
                               ([] if Q else [('mixed2', 'steps'), ('two2', 'set'), ('grayscott', 'set'), ('kuramoto', 'ctor'), ('mixed2', 'ctor')])):
        jobs.append(dict(fn='job_closed', sys=renamed(CORPUS[n], i + SEED), mode=m, off=0, forms=['in_metric'] if n == 'mixed2' else ['in_metric', 'in_aspect']))
    for n, m in [('burgers', 'ctor'), ('advcoup2', 'set')]:
        jobs.append(dict(fn='job_closed', sys=CORPUS[n], mode=m, high=True, forms=['in_metric'] if Q else FORMS_))
    jobs.sort(key=lambda a: a['sys']['name'] not in ('swe1', 'kuramoto', 'grayscott'))
    for kw in ([dict(num=8, maxf=2, maxd=1, maxt=2, maxq=2, maxo=2, seed_off=11), dict(num=6, maxf=2, maxd=1, maxt=2, maxq=2, maxo=2, rich=True, seed_off=14)] if Q else
               [dict(num=60, maxf=2, maxd=1, maxt=2, maxo=2, rich=True, seed_off=14), dict(num=60, maxf=2, maxd=1, maxt=3, maxo=2, seed_off=11),
                dict(num=40, maxf=2, maxd=2, maxt=2, maxo=2, ratio=True, seed_off=12)]):
        docs, st = gen.pde_systems(**kw)
        chk.add_states(st, st)
        for n, d in enumerate(docs):
            d = retext(d, n)
            jobs.append(dict(fn='job_closed', sys=d, mode='open', forms=['in_metric']))
            jobs.append(dict(fn='job_closed', sys=d, mode=['set', 'steps', 'ctor'][n % 3], forms=['in_metric']))
    run_jobs(chk, jobs, name_of)
