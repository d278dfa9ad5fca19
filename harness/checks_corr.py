"""C18: closures from correlation models."""
from core import parallel, TIER
import gen
from checks_pkf import collect

Q = TIER == 'quick'
# model, dimension, highest order, histories, length
PLAN = [('aspect', 1, 4, 8, 6), ('local', 1, 5, 6, 8), ('local', 2, 4, 8, 6), ('local', 3, 2, 4, 5)] if Q else \
       [('aspect', 1, 6, 40, 8), ('local', 1, 8, 40, 10), ('local', 2, 5, 40, 8), ('local', 3, 3, 24, 6)]


def run_C18(chk):
    chk.model('CorrLife memo', 'CorrLife', constants=dict(NOBJ=2, MAXORD=2, MAXLEN=4, COPY='TRUE', MODE='"check"'), invariant=['AnswerExact'])
    jobs = []
    for i, (model, nv, mo, num, ln) in enumerate(PLAN):
        docs, st = gen.simulate('CorrLife', dict(NOBJ=2, MAXORD=mo, MAXLEN=ln, COPY='TRUE', MODE='"gen"'), num, ln + 3, 'CORR',
                                seed_off=300 + i)
        chk.add_states(st, st)
        docs = docs[:num]
        if model == 'aspect' or nv == 1:
            docs.append([[1, 'closure', mo], [1, 'by_order', 2], [1, 'alter', 0], [1, 'in_metric', 3], [1, 'closure', 2]])
        else:
            docs.append([[1, 'closure', 2], [1, 'taylor', 2], [2, 'in_metric', 2], [1, 'taylor', mo], [1, 'taylor', mo - 1], [2, 'taylor', 1], [1, 'by_order', mo], [1, 'alter', 0], [1, 'by_order', mo]])
        n = max(1, len(docs) // 3)
        for q in range(0, len(docs), n):
            jobs.append(dict(fn='job_corr', model=model, nv=nv, maxord=mo, hists=docs[q:q + n], salt=q + 100 * i))
        for d in docs[:2]:
            chk.sample(dict(model=model, dim=nv, history=d))
    corr = [[[1, 'corr', 0]] * 4] if Q else [[[1, 'corr', 0]] * 4] * 4
    for nv in (2,) if Q else (2, 3):
        for q, h in enumerate(corr):
            jobs.append(dict(fn='job_corr', model='aspect', nv=nv, maxord=3 if nv == 2 else 2, hists=[h], salt=7 + nv + 10 * q))
    jobs.append(dict(fn='job_corr', model='local', nv=2, maxord=3, hists=[[[1, 'closure', 3], [2, 'in_metric', 3]]], salt=5, axes=['\\theta', 'r']))
    import drv_corr
    import sympkf  # noqa
    res = parallel(lambda a: getattr(drv_corr, a['fn'])(a), jobs, timeout=400 if Q else 3000)
    collect(chk, jobs, res, lambda a: '%s %dD' % (a['model'], a['nv']))
    chk.assumptions += ['tensor fields, metric and separations are random jets over GF(46199); the metric at the point is M M^T (positive)',
                        'terms of the heterogeneous model in 2D and 3D are not expanded (the algebra does not end); its correlation function is',
                        'orders up to %d (1D), %d (2D)' % (PLAN[1][2], PLAN[2][2])]
