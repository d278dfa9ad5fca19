"""C01, C02: expectation operator and randomness."""
import re
from core import parallel, TIER
import gen
from checks_pkf import collect

Q = TIER == 'quick'
CURATED = ['D(X,x,y)', 'D(X,x,x,y)', 'I(X,x,y)', 'ID(X*f,x,0,1)', 'D(X*f,t)', 'X*D(X*f,t)', '(X+1)**2*f/x', 'X*E(Y)*f*k', 'E(X)*E(Y)',
           'E(X*E(Y))', '2*X*Y*f*g*k*x', '(X+f)*(Y-g)*(Z+2)', '(X+f)**3*Y**2', 'X/f', 'f/X', 'X*Y/(1+X)', 'X**2*E(X**2)', 'D(E(X),x)*X',
           'I(X*E(X),t)', 'R(1,3)*X', '-X', 'X', 'f', 'R(1,3)', 'k*x*t', 'D(X,t)*D(Y,x,y)*f', 'f*D(X,x)*D(g,x)', 'I(D(X,t),x)', 'D(I(X,x),t)',
           'X*(f+g)', '(f+g)*(X+Y)', 'E(X)*X+f', 'X*Y*Z*W', 'D(X,x)**2', 'D(X,x)**2*D(X,y)**2*k', '(X*f)**2', '(X*f)**(-1)', '(X+Y)**2/(f+g)',
           'x*X*omega', 'E(X)**2', 'E(X)**(-1)*X', 'D(E(X)*X,x)', 'D(E(X)*f,x,t)', 'ID(E(X),x,0,1)*X', 'D(X,t,t)', 'D(D(X,x)*f,y)',
           'f*X**R(1,2)', 'k*(X*Y)**R(3,2)', 'X**R(1,2)*E(X)**R(1,2)', 'F(X)*f', 'F(f)*X', 'H(X,f)', 'H(f,g)*Y', 'F(E(X))*X', 'F(X+f)+F(f)', 'exp(X+f)', 'exp(f)*Y',
           'D(exp(X+Y),x)*Z', 'D(F(X),x)', 'f*(X+Y)**R(1,2)', 'D(exp(f*X),x)', 'F(F(X)*g)',
           'IL(f,x,0,X)', 'IL(Y,y,0,X)', 'k*IL(X,y,0,E(Y))', 'IL(f*X,x,k,2*k)', 'IL(f,x,X,Y)*X', 'IL(f,x,E(X),f)', 'X*I(f,x)', 'I(f,x)*D(g,x)*X*Y',
           'X+f*Y', 'X+fp*Y', 'k*X*Y+f', 'kp*X*Y+f', 'X*fp*f', 'X*(f+fp)+1', 'Xp+X', 'D(X*f,x)+k*Y', 'D(X*fp,x)+k*Y', 'D(Xp*f,x)+kp*Y', 'f+X**2', 'f+Xp**2', 'Xp*X*k*kp']


def texts_for(chk, n, off, powers):
    docs, st = gen.simulate('ExpGen', dict(MAXOPS=9, MAXSTACK=3, WITHE='TRUE', WITHP=powers), n, 60, 'EXP', seed_off=off)
    chk.add_states(st, st)
    return sorted(set(d['e'] for d in docs))


def twins(texts):
    """after every fourth text the same one on functions and constants that are printed alike"""
    out = []
    for i, s in enumerate(texts):
        out.append(s)
        if i % 4 == 0:
            q = re.sub(r'\b([Xfk])\b', r'\1p', s) if i % 8 else re.sub(r'\bf\b', 'fp', s)
            if q != s:
                out.append(q)
    return out


def run(chk, fn, n, off, curated):
    import drv_exp
    import sympkf  # noqa
    gtexts = texts_for(chk, n, off, 'TRUE' if fn == 'job_random' else 'FALSE')
    jobs = [dict(fn=fn, texts=curated)] + [dict(fn=fn, texts=twins(gtexts[i::16 if Q else 40])) for i in range(16 if Q else 40)]
    res = parallel(lambda a: getattr(drv_exp, a['fn'])(a), jobs, timeout=400 if Q else 1500)
    for r in res:
        if r[0] == 'ok' and 'nundef' in r[1]:
            chk.extra['undefined_skipped'] = chk.extra.get('undefined_skipped', 0) + r[1]['nundef']
    collect(chk, jobs, res, lambda a: a['fn'])
    chk.extra['expressions'] = len(gtexts) + len(curated)
    for s in curated[:3] + gtexts[:5]:
        chk.sample(s)
    chk.assumptions += ['values are compared at a random point of GF(46199) on 4 equiprobable outcomes',
                        'expressions are drawn from ExpGen.tla (sums, products, integer powers, quotients, mixed derivatives, integrals, nested expectations)']


POW = ['2**X', 'f**X', 'k**X', 'X**k', 'X**f', 'f**E(X)', '2**k', '2**E(X)', 'k**(X+1)', 'f**(E(X)+g)', 'X**Y', 'E(X)**Y', 'E(X)**E(Y)', 'sin(X)', 'sin(E(X))', 'log(X*f)', 'log(f)', '(f**X)**2', 'D(f**X,x)', 'F(2**X)', 'F(2**f)']


def run_C01(chk):
    run(chk, 'job_expect', 500 if Q else 6000, 21, CURATED)


def run_C02(chk):
    run(chk, 'job_random', 400 if Q else 5000, 22, [c for c in CURATED if 'omega' not in c] + POW)
