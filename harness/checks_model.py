"""C15-C17: time integration, forecasts, ensembles."""
import json
from core import parallel, TIER, SEED
import gen
from checks_pkf import collect
Q = TIER == 'quick'


def sessions(chk, num, ops, floats, par, off, kinds):
    docs, st = gen.simulate('ModelGen', dict(MAXOPS=ops, FLOATS='TRUE' if floats else 'FALSE', PAR='TRUE' if par else 'FALSE',
                                               KINDS='{%s}' % ', '.join('"%s"' % k for k in kinds)),
                            num, ops + 3, 'SESS', seed_off=off)
    chk.add_states(st, st)
    for d in docs:
        for op in d['ops']:
            op['h'] = [1, 10000] if op['r'] % 2 else [1, 2]
    return docs


def run_docs(chk, docs):
    import drv_model
    res = parallel(drv_model.job_session, docs, timeout=200)
    collect(chk, docs, res, lambda a: 'session')
    chk.extra['sessions'] = chk.extra.get('sessions', 0) + len(docs)
    for d in docs[:2]:
        chk.sample({'models': [m['class'] + ':' + m['scheme'] for m in d['models']], 'unit': d['unit'], 'ops': [[o['op'], o['o'], o['win'], o['saved'], o['name']] for o in d['ops'][:6]]})


def design(chk, which):
    if 'order' in which:
        chk.model('ModelOrder', 'ModelOrder', constants=dict(NV=0, ND=0, TD=6, NTRENDS=12 if Q else 60), invariant=['OrdersHold'], workers=1)
    if 'forecast' in which:
        chk.model('ForecastLife', 'ForecastLife', constants=dict(MAXN=5 if Q else 8), invariant=['Exact', 'Ordered'])


def run_C15(chk):
    design(chk, ['order'])
    k = ('set', 'step', 'fc')
    docs = sessions(chk, 30 if Q else 300, 40, False, False, 1, k) + sessions(chk, 12 if Q else 120, 30, True, False, 2, k)
    run_docs(chk, docs)
    chk.assumptions += ['trends are polynomials of degree <= 2 in the state and the time with random coefficients; formulas are compared in GF(46199) through an exact number class, and with floats']


def run_C16(chk):
    design(chk, ['forecast'])
    k = ('set', 'fc', 'pr', 'fc2', 'win', 'rand')
    docs = sessions(chk, 30 if Q else 400, 40, False, False, 3, k) + sessions(chk, 10 if Q else 100, 30, True, False, 4, k)
    run_docs(chk, docs)


def run_C17(chk):
    k = ('set', 'ens', 'tl', 'mat')
    docs = sessions(chk, 24 if Q else 240, 30, False, True, 5, k) + sessions(chk, 8 if Q else 80, 20, True, True, 6, k)
    # completion orders of the pool, forced by delays
    orders = []
    for m, w in ([(3, 2), (4, 3)] if Q else [(3, 2), (4, 2), (4, 4), (5, 3), (5, 5)]):
        h, st, di = gen.histories('EnsLife', dict(M=m, W=w))
        chk.add_states(di, st)
        chk.design.append({'model': 'EnsLife M=%d W=%d' % (m, w), 'states': di, 'transitions': st, 'orders': len(h)})
        orders += h[(SEED % 2)::2] if Q else h
    chk.model('EnsLife', 'EnsLife', constants=dict(M=4, W=3), invariant=['InOrder', 'AtMostW'], workers=1)
    import copy
    op0, d0 = next((op, d) for d in docs for op in d['ops'] if op['op'] == 'ens' and op['o'] == 2 and op['us'])
    forced = []
    per = 6
    for k in range(0, len(orders), per):
        d = copy.deepcopy(d0)
        d['ops'] = []
        for o in orders[k:k + per]:
            op = copy.deepcopy(op0)
            op['win'] = [0, 1, 3]
            op['par'] = True
            op['pool'] = o['w']
            u = op['us'][0]
            op['us'] = [[[(x * (i + 3)) % 46199 for x in u[0][:-1]] + [i + 1]] * 2 for i in range(o['m'])]
            op['delays'] = {str(i): 0.012 * o['order'].index(i) for i in range(1, o['m'] + 1)}
            op['saved'] = dict(kind='all', ts=[])
            d['ops'].append(op)
        forced.append(d)
    chk.extra['completion_orders'] = len(orders)
    run_docs(chk, docs + forced)
