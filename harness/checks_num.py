"""C12 (symbolic finite differences), C13/C14/C21 (generated models)."""
import itertools, random
import core, gen, numsys
from core import parallel, SEED, TIER
from checks_pkf import collect
Q = TIER == 'quick'


def num_systems(chk, num, maxf, maxd, maxt, maxo, off):
    docs, st = gen.simulate('NumGen', dict(MAXF=maxf, MAXD=maxd, MAXT=maxt, MAXO=maxo), num, 40, 'NUM', off)
    chk.add_states(st, st)
    out, seen = [], set()
    for d in docs:
        s = numsys.from_gen(d)
        if s['name'] not in seen:
            seen.add(s['name'])
            out.append(s)
    return out


def run_C12(chk):
    import drv_fdsym, sympkf  # noqa
    chk.model('centred stencils', 'FDOrder', constants=dict(MAXN=9 if Q else 12),
              invariant=['Consistent', 'Minimal', 'Symmetric', 'Commute'], workers=1)
    jobs = []
    # every multi-index, in every number of coordinates
    for coords, given, lim in (('t x', ['u(t,x)', 'f(x)', 'G(t)'], 7 if Q else 10), ('t x y', ['u(t,x,y)', 'f(x,y)'], 4 if Q else 6),
                               ('t x y z', ['u(t,x,y,z)', 'f(y,z)'], 3 if Q else 4)):
        cs = coords.split()
        texts = []
        for tot in range(1, lim + 1):
            for o in itertools.product(range(tot + 1), repeat=len(cs)):
                if sum(o) != tot or max(o) > (7 if Q else 10):
                    continue
                vs = [c for c, n in zip(cs, o) for _ in range(n)]
                texts.append('D(u,%s)' % ','.join(vs))
                if o[0] == 0 and 'x' not in vs[:1] or len(cs) < 4 and o[0] == 0:
                    if tot <= 3:
                        texts.append('D(f,%s)' % ','.join(vs))
        n = max(1, len(texts) // 12)
        for i in range(n):
            jobs.append(dict(fn='job_expr', coords=coords, given=given, texts=texts[i::n], salt=i,
                             names=[[], [['x', '\\theta'], ['y', 'dx']], [['x', 'x'], ['y', 'x1'], ['z', 'xi']], [['x', 'lon'], ['y', 'lat'], ['z', 'alt']]][i % 4]))
    # expressions that hold derivatives in every position
    ex1 = ['D(u,x)*D(u,x,x)', 'D(u,x)**2-D(u,x,x)', 'u*D(u,x,x,x)+k*D(u,x)', 'D(f*D(u,x),x)', 'D(f*u,x,x)', 'D(D(u,x),x)', 'x*D(u,x)+D(x*u,x)',
           'D(u,t,x)+D(u,t)*D(u,x)', 'sqrt(u)*D(u,x)', 'D(u**2,x)', 'D(u,x)/(k+D(f,x))', 'k', 'u', 'x*t', 'D(sin(u),x)', 'D(u*D(u,x),x)',
           'D(u,x,x,x,x)-D(u,x,x)', 'D(G,t)*D(u,x)', 'sin(D(u,x))', 'D(u**(-1),x)', 'D(G*u,t)', 'D(u,t,t)-c**2*D(u,x,x)', '2', 'D(f*f,x,x)+f']
    ex2 = ['D(u,x,y)*D(u,x)', 'D(f*D(u,x),y)', 'D(u,x,x,y)-D(u,x,y,y)', 'D(u,x)+D(u,y)+D(u,x,y)', 'u*D(f,x)*D(u,y,y)', 'D(f*u,x,y)',
           'D(D(u,x),y)-D(D(u,y),x)', 'D(u,t,y)', 'D(u,x,x)+D(u,y,y)+D(u,x,x,y,y)', 'x*D(u,y)+y*D(u,x)', 'D(u,y)*D(u,y,y)*D(u,y,y,y)', 'D(f,x)/f']
    jobs.append(dict(fn='job_expr', coords='t x', given=['u(t,x)', 'f(x)', 'G(t)'], texts=ex1, salt=101))
    jobs.append(dict(fn='job_expr', coords='t x y', given=['u(t,x,y)', 'f(x,y)'], texts=ex2, salt=102))
    systems = numsys.CORPUS + num_systems(chk, 30 if Q else 300, 2, 1, 3, 5, 41) + num_systems(chk, 30 if Q else 250, 2, 2, 2, 4, 42) + \
        num_systems(chk, 8 if Q else 80, 2, 3, 2, 3, 43)
    jobs += [dict(fn='job_sys', sys=s, salt=n) for n, s in enumerate(systems)]
    res = parallel(lambda a: getattr(drv_fdsym, a['fn'])(a), jobs, timeout=150 if Q else 900)
    collect(chk, jobs, res, lambda a: a['sys']['name'] if 'sys' in a else 'expressions in %s %d' % (a['coords'], a['salt']))
    for j in jobs[-4:]:
        chk.sample(j['sys']['rhs'])
    chk.sample(jobs[0]['texts'])
    chk.assumptions += ['derivatives of products, powers and functions are expanded by sympy before the comparison (the documented behaviour)',
                        'equality is decided on random lattice functions over GF(46199); lattices are wider than the widest stencil of the case']


def life(chk, num, length, off):
    docs, st = gen.simulate('GenLife', dict(LEN=length), num, length + 2, 'GLF', off)
    chk.add_states(st, st)
    seen, out = set(), []
    for d in docs:
        if str(d) not in seen and any(a[0] == 'new' for a in d):
            seen.add(str(d))
            out.append(d)
    return out


def rational(s):
    return not any(w in ' '.join(s['rhs']) for w in ('sin', 'exp', 'sqrt', '**(-1)', '/'))


# sessions every system goes through: two instances of different shapes with interleaved trends
TREND = [[['new', 1, 15, 0, 1, 1, 1], ['trend', 1, 1, 1], ['new', 2, 15, 1, 2, 0, 2], ['trend', 2, 2, 2], ['trend', 1, 1, 1],
          ['set', 1, 0, 3], ['trend', 1, 0, 3], ['step', 2, 3, 1, 1], ['trend', 2, 2, 1]],
         [['new', 1, 15, 2, 3, 2, 1], ['step', 1, 1, 2, 1], ['code', 'again'], ['new', 2, 15, 3, 1, 3, 3], ['trend', 2, 2, 2],
          ['trend', 1, 2, 3], ['set', 2, 1, 2], ['trend', 2, 1, 2], ['trend', 1, 2, 3], ['code', 'module'], ['new', 1, 15, 1, 2, 1, 2],
          ['trend', 1, 3, 1]]]


def gen_jobs(systems, modes, extra=(), floats=True):
    jobs, nr = [], 0
    for n, s in enumerate(systems):
        for mode in modes:
            jobs.append(dict(sys=s, mode=mode, hist=TREND[n % 2], salt=n))
            if floats and rational(s):
                nr += 1
                if nr % 3 == 1:         # floats and integers by turns
                    jobs.append(dict(sys=s, mode=mode, hist=TREND[(n + 1) % 2], salt=n + 500, floats=True, ints=nr % 2 == 0))
    for n, h in enumerate(extra):
        s = systems[(n * 5 + SEED) % len(systems)]
        a = dict(sys=s, mode=modes[n % len(modes)], hist=h, salt=1000 + n)
        if n % 8 == 5:
            a['env'] = {'PYTHONHASHSEED': str(n + SEED)}
        jobs.append(a)
    return jobs


def many(systems, mode, num):
    """groups of models built in one process: the same names of fields in other coordinates and dimensions, other formulations"""
    S = lambda coords, rhs, names=(), given=(), fields=1: dict(coords=coords, fields=['%s(%s)' % (f, coords.replace(' ', ',')) for f in 'uvw'[:fields]],
                                                              given=list(given), consts=['k', 'c'], rhs=rhs, names=[list(q) for q in names], name='; '.join(rhs))
    one = lambda rhs, n='x': S('t x', rhs, [('x', n)])
    hand = [[S('t y', ['D(u,y)']), S('t x y', ['D(u,y)+k*D(u,x)']), S('t x y z', ['k*D(u,y)+D(u,z)'])],
            [S('t x y', ['D(u,x,y)-u']), S('t y x', ['D(u,x,y)-u']), S('t x', ['D(u,x)*k'])],
            [one(['D(u,x,x)'], 'y'), one(['D(u,x,x)']), one(['k*u*D(u,x)'], 'z')],
            [S('t x', ['D(u,x)', 'k*v'], fields=2), S('t x', ['k*v', 'D(u,x)'], fields=2), S('t x', ['k*u'])],
            [S('t x', ['f*D(u,x)'], given=['f(x)']), S('t x', ['f*D(u,x)'], given=['f(t,x)']), S('t x', ['f*D(u,x)'], given=['f(t)'])],
            [S('t x y z', ['D(u,z)+D(u,y,y)']), S('t z y', ['D(u,z)+D(u,y,y)']), S('t y', ['k*D(u,y,y)'])]]
    rnd = random.Random('%s many' % SEED)
    groups = [h if SEED % 2 else h[::-1] for h in hand] + hand
    for _ in range(num):
        groups.append([dict(rnd.choice(systems)) for _ in range(3)])
    return [dict(parts=[dict(sys=s, mode=mode if n % 4 != 3 or q == 1 else {'fd': 'space', 'space': 'fd'}[mode], hist=TREND[(n + q) % 2], salt=3000 + 3 * n)
                        for q, s in enumerate(g)]) for n, g in enumerate(groups)]


def run_gen(chk, jobs):
    import drv_gen, sympkf  # noqa
    from sympkf.symbolic.model_builder_FD import FDModelBuilder  # noqa
    res = parallel(lambda a: drv_gen.job_many(a) if 'parts' in a else drv_gen.job_gen(a), jobs, timeout=200 if Q else 900)
    for a in jobs:
        if 'parts' in a:
            a['sys'] = dict(a['parts'][0]['sys'], name=' then '.join('%s in %s' % (p['sys']['name'], p['sys']['coords']) for p in a['parts']))
            a.update(mode='many', hist=[], salt=a['parts'][0]['salt'])
    jj, rr = [], []
    for a, r in zip(jobs, res):
        if r[0] == 'timeout' and a['sys']['name'].startswith('gen:'):
            chk.extra['inconclusive_timeouts'] = chk.extra.get('inconclusive_timeouts', 0) + 1
            continue
        if r[0] == 'ok':
            chk.extra['results_not_exact'] = chk.extra.get('results_not_exact', 0) + r[1]['skipped'] % 100
            if r[1].get('why'):
                chk.extra['exact_numbers_refused'] = chk.extra.get('exact_numbers_refused', 0) + 1
        jj.append(a)
        rr.append(r)
    collect(chk, jj, rr, lambda a: '%s %s%s salt %d %s' % (a['mode'], a['sys']['name'], ' floats' if a.get('floats') else '', a['salt'], a.get('env', '')))
    chk.extra['sessions'] = len(jobs)
    chk.assumptions += ['generated code is executed with the exact numbers of GF(46199) (numpy object arrays); a part of the sessions runs on floats and integers',
                        'exp, sin, ... are unspecified functions of that parity', 'grids of at most 512 points']
    for a in jobs[:3] + jobs[-3:]:
        chk.sample(dict(rhs=a['sys']['rhs'], names=a['sys']['names'], hist=a['hist']))


def run_C13(chk):
    systems = numsys.CORPUS + num_systems(chk, 60 if Q else 500, 3, 1, 3, 5, 51) + num_systems(chk, 36 if Q else 300, 2, 2, 3, 4, 52) + \
        num_systems(chk, 10 if Q else 80, 2, 3, 2, 3, 53)
    run_gen(chk, gen_jobs(systems, ['fd']) + many(systems, 'fd', 4 if Q else 60))


def run_C14(chk):
    systems = num_systems(chk, 40 if Q else 200, 3, 1, 2, 2, 54) + num_systems(chk, 24 if Q else 150, 2, 2, 2, 2, 55) + num_systems(chk, 6 if Q else 40, 2, 3, 2, 2, 56)
    jobs = [dict(sys=s, mode='fd', salt=n + 40, hist=[['new', 1, 15, 4, 0, 1, 1], ['held', 1], ['code', 'module'], ['new', 2, n, 2, 1, 0, 2], ['code', 'pde'],
                 ['index', 2, n, n - 9], ['reject', n % 4, 1 + n % 3], ['trend', 2, 1, 1], ['new', 1, n + 3, n, 2, 2, 1], ['held', 2], ['step', 1, 0, 1, 1]])
            for n, s in enumerate(systems[::3])]
    hs = life(chk, 90 if Q else 1000, 12 if Q else 16, 57)
    jobs += gen_jobs(systems, ['fd'], hs, floats=False)[len(systems):]
    run_gen(chk, jobs)


def run_C21(chk):
    systems = numsys.CORPUS + num_systems(chk, 40 if Q else 300, 3, 1, 3, 5, 61) + num_systems(chk, 30 if Q else 250, 2, 2, 3, 4, 62) + \
        num_systems(chk, 10 if Q else 80, 2, 3, 2, 3, 63)
    run_gen(chk, gen_jobs(systems, ['space'], life(chk, 30 if Q else 300, 10, 64)) + many(systems, 'space', 3 if Q else 40))


def run_C11(chk):
    import drv_class, sympkf  # noqa
    docs = []
    for maxf, maxt, num, off in ((3, 4, 500 if Q else 5000, 71), (4, 2, 300 if Q else 3000, 72)):
        ds, st = gen.simulate('ClassGen', dict(MAXF=maxf, MAXT=maxt), num, 14, 'CLS', off)
        chk.add_states(st, st)
        docs += [d for d in ds if drv_class.covered(d)]
    n = 14 if Q else 60
    jobs = [dict(docs=docs[i::n], env={'PYTHONHASHSEED': str(i * 7 + SEED)} if i % 3 == 1 else None) for i in range(n)]
    jobs += [dict(docs=[dict(pkf=p, **{'as': a}) for a in ('in_metric', 'in_aspect', 'in_diffusion')])
             for p in ('burgers', 'hetdiff', 'advcoup2')]
    res = parallel(drv_class.job_class, jobs, timeout=250 if Q else 900)
    collect(chk, jobs, res, lambda a: 'systems')
    chk.extra['systems'] = len(docs)
    for d in docs[:4]:
        chk.sample(d)
    chk.assumptions += ['systems are sampled; every field has time as its first argument']
