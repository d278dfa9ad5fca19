"""C24: code rendered for finite-difference expressions."""
from core import parallel, TIER
import gen
from checks_pkf import collect

Q = TIER == 'quick'


def run_C24(chk):
    import drv_code
    import sympkf  # noqa
    docs, st = [], 0
    for mt, ms, num, off in ((1, 1, 60, 41), (3, 2, 120, 42)) if Q else ((1, 1, 300, 41), (3, 2, 800, 42), (4, 3, 300, 43)):
        d, s = gen.simulate('CodeGen', dict(MAXT=mt, MAXS=ms), num, 14, 'CODE', seed_off=off)
        docs += d
        st += s
    chk.add_states(st, st)
    N = 8 if Q else 32
    jobs = [dict(fn='job_code', docs=docs[i::N], salt=i, expand=i % 2 == 1) for i in range(N)]
    res = parallel(lambda a: getattr(drv_code, a['fn'])(a), jobs, timeout=300 if Q else 2500)
    collect(chk, jobs, res, lambda a: 'rendered code')
    for d in docs[:3]:
        chk.sample(d)
    chk.assumptions += ['functions take every coordinate of the grid, no coordinate (functions of time), or time and every coordinate',
                        'the fields, constants, steps and grids are random numbers of GF(46199); grids of 2 to 5 points per coordinate']
