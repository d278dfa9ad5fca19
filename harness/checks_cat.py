"""C23: Burgers reference model and catalogue of dynamics."""
from core import parallel, TIER
import gen
from checks_pkf import collect

Q = TIER == 'quick'


def run_C23(chk):
    import drv_cat
    import sympkf  # noqa
    docs, st = gen.simulate('BurgersLife', dict(MAXLEN=9 if Q else 14), 12 if Q else 80, 20, 'BUR', seed_off=77,
                            invariant=['UseReady'])
    chk.add_states(st, st)
    docs.append([['new', 1, 0, 0], ['set', 1, 3, 0], ['trend', 1, 1, 0], ['new', 2, 6, 0], ['set', 2, 0, 0], ['trend', 2, 2, 0], ['trend', 1, 2, 0],
                 ['step', 2, 1, 1], ['set', 2, 46198, 0], ['trend', 2, 2, 0]])
    jobs = [dict(fn='job_burgers', hists=docs[i::6], salt=i) for i in range(6)]
    jobs += [dict(fn='job_cat', names=drv_cat.CAT[i::3], salt=i + 10 * s) for i in range(3) for s in range(1 if Q else 5)]
    jobs += [dict(fn='job_closure', salt=s) for s in range(1 if Q else 4)]
    res = parallel(lambda a: getattr(drv_cat, a['fn'])(a), jobs, timeout=400 if Q else 3000)
    collect(chk, jobs, res, lambda a: a['fn'])
    for d in docs[:3]:
        chk.sample(d)
    chk.assumptions += ['states, viscosities and steps are numbers of GF(46199) carried exactly through the generated code',
                        'resolutions 2 to 16 and the default 241']
