"""C19 (equation arithmetic), C20 (multi-indices), C22 (coordinate calculus, comparison, names, shifts)."""
import itertools
import random
from core import parallel, TIER, SEED
import gen
from checks_pkf import collect
Q = TIER == 'quick'


def exprs(chk, n, off, ops=6, stack=3):
    docs, st = gen.simulate('ExpGen', dict(MAXOPS=ops, MAXSTACK=stack, WITHE='FALSE', WITHP='FALSE'), n, 60, 'EXP', seed_off=off)
    chk.add_states(st, st)
    return sorted(set(d['e'] for d in docs))


def run(chk, jobs, timeout=300):
    import drv_alg
    res = parallel(lambda a: getattr(drv_alg, a['fn'])(a), jobs, timeout=timeout if Q else 1500)
    collect(chk, jobs, res, lambda a: a['fn'])


def run_C19(chk):
    ex = [e for e in exprs(chk, 260 if Q else 3000, 31, 4) if 'I(' not in e and 'ID(' not in e and 'E(' not in e]
    hs, st = gen.simulate('EqGen', dict(MAXOPS=7), 120 if Q else 1500, 12, 'EQH', seed_off=32)
    chk.add_states(st, st)
    rnd = random.Random(SEED)
    cases = [dict(texts=['f', 'g*X', 'h+k*x', 'f**2'], ops=h['ops']) for h in hs[:10]]
    for h in hs:
        cases.append(dict(texts=[rnd.choice(ex) for _ in range(6)], ops=h['ops']))
    n = 16 if Q else 48
    jobs = [dict(fn='job_eq', cases=cases[i::n], salt=i) for i in range(n)]
    run(chk, jobs)
    chk.extra['histories'] = len(cases)
    for cse in cases[10:14]:
        chk.sample(cse)


def run_C22(chk):
    ex = exprs(chk, 300 if Q else 3000, 33, 5)
    n = 8 if Q else 32
    jobs = [dict(fn='job_coord', texts=['f', 'X', 'f*X', 'f+X', 'g', 'k*f', 'D(f,x)*X', 'sin(f)', 'exp(f*X)', 'F(f)*f', 'F(g)', 'sin(x)*f', 'H(f,X)', 'D(F(f),x)', 'log(X)*g', 'sin(h)'] + ex[i::n], salt=i) for i in range(n)]
    ex2 = [e for e in ex if 'I(' not in e and 'ID(' not in e]
    jobs += [dict(fn='job_cmp', texts=ex2[i::n], salt=i) for i in range(n)]
    names, st, di = gen.histories('NameGen', '''INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MAXPARTS = %d
INVARIANT Emit
''' % (2 if Q else 3))
    chk.add_states(di, st)
    m = 2 if Q else 16
    jobs += [dict(fn='job_names', names=names[i::m]) for i in range(m)]
    sh, st, di = gen.histories('ShiftGen', dict(MAXN=2 if Q else 3))
    chk.add_states(di, st)
    jobs += [dict(fn='job_shift', shifts=sh[i::m]) for i in range(m)]
    jobs += [dict(fn='job_tri', salt=i) for i in range(1 if Q else 4)]
    # derivatives evaluated at the coordinates
    atoms = [(f, du, od) for f, na in (('f', 3), ('X', 3), ('g', 1), ('h', 2)) for du in itertools.product((0, 1), repeat=na)
             for od in itertools.product((0, 1, 2), repeat=na) if any(du) and 0 < sum(od) <= 3 and any(a and b for a, b in zip(du, od))]
    rnd = random.Random(SEED)
    rnd.shuffle(atoms)
    cases = [[(1, a)] for a in atoms[:60 if Q else len(atoms)]]
    for _ in range(60 if Q else 600):
        cases.append([(rnd.randint(-3, 4) or 2,) + tuple(rnd.choice(atoms) for _ in range(rnd.randint(1, 3))) for _ in range(rnd.randint(1, 3))])
    jobs += [dict(fn='job_eval', cases=cases[i::m], salt=i) for i in range(m)]
    chk.extra['evaluated'] = len(cases)
    chk.extra['names'] = len(names)
    chk.extra['shifts'] = len(sh)
    run(chk, jobs)
    for s in ex[:4]:
        chk.sample(s)


def run_C20(chk):
    import drv_index
    from core import tlc
    jobs = []
    D, N = (7, 4) if Q else (11, 5)
    for n in range(1, N + 1):
        jobs.append(dict(kind='all', n=n, degs=list(range(0, (D if n < 4 else 5 if Q else 7) + 1))))
    for n in ((1, 2, 3) if Q else (1, 2, 3, 4)):
        docs, st, di = gen.histories('IndexGen', dict(N=n, MAXLEN=(4 if n < 3 else 3) if Q else (5 if n < 3 else 4 if n < 4 else 3), MAXORD=2 if Q or n > 2 else 3))
        chk.add_states(di, st)
        chk.extra['notations'] = chk.extra.get('notations', 0) + len(docs)
        m = max(1, len(docs) // 500)
        for i in range(m):
            jobs.append(dict(kind='notation', n=n, docs=docs[i::m]))
        for d in docs[::len(docs) // 3 + 1]:
            chk.sample(d)
    chk.model('IndexBFS', 'IndexBFS', constants=dict(N=3, D=6 if Q else 9), invariant=['Layer', 'NeverTwice', 'Complete'], workers=1)
    res = parallel(drv_index.job, jobs, timeout=300)
    collect(chk, jobs, res, lambda a: a['kind'])
