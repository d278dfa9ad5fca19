"""Equation arithmetic, coordinate systems, comparison, names, shifts: recorded for AlgTrace.tla."""
import keyword, re
import sympy
from sympy import Symbol, Function, Derivative, symbols, Rational, Integer, S
from core import tlc_trace, SEED
from ser import Ser
import drv_exp
from drv_exp import t, x, y, k, omega, COORDS, RAND, DET

c = Symbol('c')


class Rec:
    def __init__(self):
        from sympkf.symbolic.random import Expectation
        self.E = Expectation
        self.ns = drv_exp.names(Expectation)
        self.events = []
        self.depth = 2
        self.base = dict(sub=[], alpha=1, given=[1, 1], operand=[1, 1], i=1, j=1, term=1)

    def ser(self):
        return Ser(COORDS, self.E, omega, dict({n + '@w': tuple(map(str, a)) + ('omega',) for n, a in RAND.items()},
                                               **{n: tuple(map(str, a)) for n, a in DET.items()}), powers=True)

    def add(self, kind2, ser=None, **kw):
        if ser is not None:
            kw['nodes'] = ser.nodes or [['int', 0]]
            self.depth = max([self.depth] + [d + 1 for d in ser.depth])
        self.events.append(dict(self.base, kind2=kind2, **kw) if kind2 == 'eq' else dict(kind2=kind2, **kw))

    def case(self, salt):
        return dict(seed=(SEED * 137 + salt * 19) % 40000,
                    funs=dict({n + '@w': ['rand', i + 1, [COORDS[str(q)] for q in a]] for i, (n, a) in enumerate(RAND.items())},
                              **{n: ['given', i + 1, [COORDS[str(q)] for q in a]] for i, (n, a) in enumerate(DET.items())}),
                    funargs=dict({n + '@w': [str(q) for q in a] for n, a in RAND.items()},
                                 **{n: [str(q) for q in a] for n, a in DET.items()}),
                    syms={'t': ['coord', 1], 'x': ['coord', 2], 'y': ['coord', 3], 'k': ['const', 1], 'c': ['const', 2]},
                    events=self.events)

    def validate(self, salt=0):
        r = tlc_trace('AlgTrace', self.case(salt), dict(NV=2, ND=min(self.depth, 8), TD=4, K=2))
        r['traces'] = len(self.events)
        return r


class Collapse(Exception):
    pass


def sides(q):
    """(lhs, rhs) of an equation, or None when it collapsed to a truth value"""
    return None if q in (S.true, S.false) else q.args


def job_eq(arg):
    """arg: texts (>= 2) of sides, ops history"""
    from sympkf.symbolic.util import Eq
    R = Rec()
    for n, case in enumerate(arg['cases']):
        _history(R, Eq, case, n)
    _options(R, Eq, arg['cases'], arg.get('salt', 0))
    if arg.get('salt', 0) < 2:
        ns = R.ns
        f, g, X, h = (ns[q] for q in 'fgXh')
        for op, eq, text in [(lambda q: q.subs(f, g), Eq(f, g), 'f->g'), (lambda q: q.subs({k: c}), Eq(k * X, c * X), 'k->c'),
                             (lambda q: q.expand(), Eq((f + X) ** 2, f ** 2 + 2 * f * X + X ** 2), 'expand'),
                             (lambda q: q.doit(), Eq(Derivative(x * g, x), g + x * Derivative(g, x)), 'doit'),
                             (lambda q: q.subs([(k, 2), (c, 2)]), Eq(k, c), 'k,c->2'), (lambda q: q.subs([(k, 2), (c, 3)]), Eq(k, c), 'k,c->2,3')]:
            ser = R.ser()
            q = op(eq)
            R.add('truth', ser, text='%s %s' % (eq, text), out=[ser(f)] * 2 if text[-1] != '3' else [ser(f), ser(g)],
                  got='true' if q == True else 'false' if q == False else 'other')  # noqa: E712
    return R.validate(arg.get('salt', 0))


def _options(R, Eq, cases, salt):
    """operations with options: as on each side"""
    ns = R.ns
    f, g, h, X = (ns[q] for q in 'fghX')
    I, D = sympy.Integral, Derivative
    es = [e for case in cases[:6] for e in (drv_exp.build(s, ns) for s in case['texts']) if e is not None and not e.is_number and len(str(e)) < 200]
    own = [D(x * g, x) + I(x * k, x), (f + X) * (k + 2), (k * c) ** 3 * f, sympy.sin(k + c) * g, k - c, (f * X) ** 2 + k * (c + 1), sympy.exp(k + c), h * (k + c) ** 2]
    ops = [('doit', (), dict(integrals=False)), ('expand', (), dict(mul=False)), ('expand', (), dict(power_base=False)), ('expand', (), dict(trig=True)),
           ('expand', (), dict(multinomial=False)), ('expand', (), dict(power_exp=False)), ('subs', ([(k, c), (c, k)],), dict(simultaneous=True)),
           ('subs', ({k: c, c: k},), dict(simultaneous=True)), ('subs', ([(k, c), (c, k)],), {}), ('expand', (), dict(deep=False)), ('subs', ([(f, X), (X, f)],), dict(simultaneous=True))]
    lhs = own + es
    for n, a in enumerate(lhs):
        for m in range(3):
            b = lhs[(n * 3 + m + salt + 1) % len(lhs)]
            name, args, kw = ops[(n + 4 * m + salt) % len(ops)]
            eq = Eq(a, b)
            if sides(eq) is None or name == 'subs' and (a.has(I) or b.has(I)):
                continue
            want = [getattr(z, name)(*args, **kw) for z in (a, b)]
            if sides(sympy.Eq(*want)) is None:
                continue
            ser = R.ser()
            ids = [ser(z) for z in want]
            out = getattr(eq, name)(*args, **kw)
            R.add('sides', ser, text='%s(%s %s) of %s' % (name, args, kw, eq), want=ids, out=[ser(z) for z in out.args], kind=type(out) is Eq,
                  operand=[ser(a), ser(b)], after=[ser(z) for z in eq.args])


def _history(R, Eq, case, n):
    ns = R.ns
    es = [drv_exp.build(s, ns) for s in case['texts']]
    es = [e for e in es if e is not None and not e.is_number]
    if len(es) < 4:
        return
    a, b, d, e = es[:4]
    # a term that occurs linearly so that it can be isolated
    tms = [Derivative(ns['f'], t), ns['h'], c, Derivative(ns['g'], x), ns['X'], c]
    tm = tms[n % len(tms)]
    if any(z.has(tm) for z in (a, b, d, e)):
        tm = c
    start = [Eq(a + tm * (2 if n % 2 else ns['k']), b), Eq(d, e + 3 * tm)]
    if n % 4 == 1:          # the term under a fraction, or squared
        start = [Eq(k + tm ** 2, b * tm), Eq(d, e + c * k / (tm + 1))] if tm != c else [Eq(k + c ** 2, 2 * k * c + b), Eq(d * c, 1 + k / c)]
    if any(sides(q) is None for q in start):
        return
    alphas = [x, k, ns['f'], Rational(2, 3), ns['X'], ns['g'] + k, Derivative(ns['f'], x), Integer(-1)]
    subs_ = [[(k, x * c)], [(k, Integer(2)), (x, y)], [(ns['f'], ns['g'] * k)], [(ns['X'], ns['Y'] + ns['f'])], [(c, k + 1)],
             [(ns['g'], Rational(1, 2))], [(k, ns['h']), (c, k)], [(y, x + 1)]]
    events = []
    pool = []
    base0 = len(R.events)

    def emit(op, q, text, operand=None, **kw):
        sd = sides(q) if isinstance(q, sympy.Basic) else None
        if sd is None:
            raise Collapse
        ser = R.ser()
        ev = dict(kw)
        if operand is not None:
            ev['operand'] = [ser(z) for z in operand]
        if 'alpha' in ev:
            ev['alpha'] = ser(ev['alpha'])
        if 'given' in ev:
            ev['given'] = [ser(z) for z in ev['given']]
        if 'term' in ev:
            ev['term'] = ser(ev['term'])
        if 'sub' in ev:
            ev['sub'] = [[ser.fkey(s) if s.args else str(s), ser(v)] for s, v in ev['sub']]
        ev['out'] = [ser(z) for z in sd]
        R.add('eq', ser, op=op, text='%s %s' % (op, text), kind=type(q) is Eq, **ev)
        pool.append(q)

    def truth(q, eq, text, args=None):
        """the operation makes the two sides one and the same"""
        ser = R.ser()
        R.add('truth', ser, text=text, out=[ser(z) for z in args or eq.args], got='true' if q == True else 'false' if q == False else 'other')  # noqa: E712

    R.events.append(dict(R.base, kind2='eq', op='reset', nodes=[['int', 0]], out=[1, 1], kind=True, text='reset'))
    for q, g in zip(start, [(start[0].args), (start[1].args)]):
        emit('new', q, str(q), given=g)
    for op in case['ops']:
        i, j = op['i'], op['j']
        if i > len(pool) or j > len(pool):
            break
        q1, q2 = pool[i - 1], pool[j - 1]
        before = (q1.args, q2.args)
        o = op['op']
        al = alphas[op['a'] % 8]
        text = '%s ; %s ; %s' % (q1, q2, al)
        try:
            if o == 'add':
                if sides(sympy.Eq(q1.args[0] + q2.args[0], q1.args[1] + q2.args[1])) is None:
                    break
                emit(o, q1 + q2, text, before[0], i=i, j=j)
            elif o == 'sub':
                if i == j or sides(sympy.Eq(q1.args[0] - q2.args[0], q1.args[1] - q2.args[1])) is None:
                    break
                emit(o, q1 - q2, text, before[0], i=i, j=j)
            elif o == 'neg':
                emit(o, -q1, text, before[0], i=i, j=j)
            elif o == 'doit':
                if not q1.has(sympy.Integral):
                    if sides(sympy.Eq(*[z.doit() for z in q1.args])) is None:
                        truth(q1.doit(), q1, text + 'doit')
                        break
                    emit(o, q1.doit(), text, before[0], i=i, j=j)
            elif o == 'expand':
                if sides(sympy.Eq(*[z.expand() for z in q1.args])) is None:
                    truth(q1.expand(), q1, text + 'expand')
                    break
                emit(o, q1.expand(), text, before[0], i=i, j=j)
            elif o == 'scale':
                emit(o, q1 * al, text, before[0], i=i, j=j, alpha=al)
            elif o == 'iscale':
                p = q1
                p *= al
                emit(o, p, text, q1.args, i=i, j=j, alpha=al)
            elif o == 'imul':
                p = q1
                p *= q2
                emit(o, p, text, q1.args, i=i, j=j)
            elif o == 'subs':
                sb = subs_[op['a'] % 8]
                if any(z.has(sympy.Integral) for z in q1.args) or (sb[0][0] in (x, y)) or len(sb) > 1 and sb[1][0] == x:
                    if sb[0][0] in (x, y) or len(sb) > 1 and sb[1][0] == x:
                        continue         # coordinates inside functions: see the finite-difference shifts
                if any(n_ == s for s, _ in sb for n_ in q1.atoms(Symbol, Function)) and not any(z.has(sympy.Integral) for z in q1.args):
                    try:
                        new = sympy.Eq(*[z.subs(sb) for z in q1.args])
                    except Exception:
                        break
                    if sides(new) is None:
                        truth(q1.subs(sb), Eq(*q1.args), text + 'subs', [z.subs(sb) for z in q1.args])
                        break
                    r = q1.subs(sb) if op['a'] % 2 or len(sb) > 1 else q1.subs(*sb[0])
                    emit(o, r, text + str(sb), before[0], i=i, j=j, sub=[(s, v) for s, v in sb][:1] if len(sb) == 1 else sb)
            elif o == 'isolate':
                poly = sympy.expand(q1.args[0] - q1.args[1])
                if not poly.has(tm) or q1.has(sympy.Integral):
                    continue
                if any(dd != tm and (dd.has(tm) or not isinstance(dd.expr, sympy.core.function.AppliedUndef)) for dd in poly.atoms(Derivative)):
                    continue        # unevaluated derivatives may hide the term
                T = Symbol('_T')
                num = sympy.fraction(sympy.together(poly.xreplace({tm: T})))[0].expand()
                # linear, quadratic, or fractional in the term
                if not num.has(T) or not num.is_polynomial(T) or sympy.degree(num, T) > 2 or any(q.has(T) for q in num.atoms(sympy.Function, sympy.Derivative)):
                    continue
                if len(str(poly)) > 220 or not sympy.solve(sympy.Eq(*q1.args), tm):
                    continue
                emit(o, q1.isolate(tm), text + str(tm), before[0], i=i, j=j, term=tm)
        except Collapse:
            break


def job_coord(arg):
    from sympkf.symbolic.util import CoordinateSystem
    R = Rec()
    ns = R.ns
    es = [(s, drv_exp.build(s, ns)) for s in arg['texts']]
    es = [(s, e) for s, e in es if e is not None]
    systems = [(x,), (y,), (x, y), (y, x), (t, x), (t, x, y), (y, t)]
    for n, (s, e) in enumerate(es):
        for cs in (systems[n % 7], systems[(n // 7 + 3) % 7]):
            C = CoordinateSystem(cs if n % 2 else list(cs))
            ser = R.ser()
            try:
                out = C.gradient(e)
                raised = False
                ids = [ser(q) for q in out]
            except ValueError:
                raised, ids = True, []
            R.add('grad', ser, text='grad_%s(%s)' % (cs, s), coords=[str(q) for q in cs], field=ser(e), out=ids, raised=raised)
        vec = [q for _, q in (es + es)[n:n + 3]]
        cs = systems[(n * 5) % 7]
        v = vec[:len(cs)]
        ser = R.ser()
        C = CoordinateSystem(cs)
        try:
            out = C.div(sympy.Matrix(v) if n % 2 else v)
            raised = False
            ids = [ser(out)]
        except ValueError:
            raised, ids = True, []
        R.add('div', ser, text='div_%s(%s)' % (cs, v), coords=[str(q) for q in cs], vector=[ser(q) for q in v], out=ids, raised=raised)
    return R.validate(arg.get('salt', 0))


def job_cmp(arg):
    from sympkf.symbolic.util import CompareExpression, CompareEquation, Eq
    R = Rec()
    ns = R.ns
    es = [(s, drv_exp.build(s, ns)) for s in arg['texts']]
    es = [e for s, e in es if e is not None and not e.has(sympy.Integral)]

    def one(c, e1, e2, text):
        ser = R.ser()
        com = [ser(q) for q in c.common]
        sp = [[ser(q) for q in z] for z in c.specific]
        R.add('cmp', ser, text=text, common=com, spec=sp, exprs=[ser(e1), ser(e2)])
    for n in range(len(es) - 3):
        a, b, d, e = es[n:n + 4]
        pairs = [(a + b, a - d), (a * b + d, d + b * a + e), ((a + b) * d, d * a + e * b), (a, a), (a, b), (a - b, -(b - a)), ((a + 1) ** 2, a ** 2 + e)]
        for m in (n % 7, (n // 7 + 3) % 7):
            p, q = pairs[m]
            if len(str(p)) + len(str(q)) > 400:
                continue
            cc = CompareExpression(p, q)
            if n % 2:
                cc.specific
            one(cc, p, q, 'compare(%s , %s)' % (p, q))
        if n % 5 == 0 and sides(sympy.Eq(a, b)) and sides(sympy.Eq(a + d, b - e)):
            ce = CompareEquation(Eq(a, b), Eq(a + d, b - e))
            one(ce.lhs, a, a + d, 'compare lhs')
            one(ce.rhs, b, b - e, 'compare rhs')
    return R.validate(arg.get('salt', 0))


def job_eval(arg):
    """removing the evaluation marks of derivatives"""
    from sympkf.symbolic.util import remove_eval_derivative
    R = Rec()
    ns = R.ns
    for case in arg['cases']:
        e = Integer(0)
        for term in case:
            p = Integer(term[0]) * (k if term[0] % 2 else x)
            for name, dummies, orders in term[1:]:
                f = ns[name]
                own = [q for q in f.args if q != omega]
                ds = [Symbol('z%d' % (i + 1)) for i in range(len(own))]
                args = [d if u else q for q, d, u in zip(own, ds, dummies)]
                g = f.func(*(args + [omega] * (omega in f.args)))
                vc = [(a, n) for a, n in zip(args, orders) if n]
                q = sympy.Subs(Derivative(g, *vc), [d for d, u in zip(ds, dummies) if u], [q for q, u in zip(own, dummies) if u]) if vc else f
                p = p * q
            e = e + p
        ser = R.ser()
        i = ser(e)
        try:
            out = remove_eval_derivative(e)
        except Exception as err:
            R.add('evald', ser, text='evaluated %s raises %s' % (e, err), arg=i, out=i, clean=False)
            continue
        R.add('evald', ser, text='evaluated %s' % e, arg=i, out=ser(out), clean=not out.has(sympy.Subs))
    return R.validate(arg.get('salt', 0))


def job_tri(arg):
    """the upper part of a matrix, row by row"""
    from sympkf.symbolic.util import Matrix, upper_triangle
    R = Rec()
    ns = R.ns
    atoms = [ns['f'], ns['X'], k, c, x, y, ns['g'] * k, ns['h'] + 1, Integer(0), Integer(2), ns['f'] ** 2]
    for rows in range(1, 6):
        for cols in range(1, 6):
            es = [[atoms[(3 * i + 5 * j + i * j + arg['salt']) % 11] * (i + 1) + j for j in range(cols)] for i in range(rows)]
            for how in range(3):
                M = sympy.Matrix(es) if how == 2 else Matrix(es)
                out = upper_triangle(M) if how else M.upper_triangle
                ser = R.ser()
                R.add('tri', ser, text='upper part (%d) of %d x %d' % (how, rows, cols), mat=[[ser(e) for e in r] for r in es], out=[ser(e) for e in out],
                      after=[[ser(M[i, j]) for j in range(cols)] for i in range(rows)])
    return R.validate(arg['salt'])


def job_names(arg):
    from sympkf.symbolic.tool import clean_latex_name
    R = Rec()
    for n, name in enumerate(arg['names']):
        s = ''.join(name)
        obj = s if n % 3 else (Symbol(s) if n % 2 else Function(s))
        out = clean_latex_name(obj)
        R.add('name', text=s, name=list(s), out=list(out), ident=out.isidentifier() and not keyword.iskeyword(out))
    return R.validate()


def job_shift(arg):
    from sympkf.symbolic.util import get_function_coordinates, get_coordinates
    from sympkf.symbolic.finite_difference import get_displacement
    R = Rec()
    for names, disp in arg['shifts']:
        cs = [Symbol(n) for n in names]
        F = Function('U')(*[ci + Rational(*d) * Symbol('d' + n) for ci, n, d in zip(cs, names, disp)])
        co, di = get_function_coordinates(F)
        co2, di2 = get_coordinates(F)
        q = get_displacement(F)
        same = [str(z) for z in co] == [str(z) for z in co2] and [str(z) for z in di] == [str(z) for z in di2]
        R.add('shift', text='%s' % F, coords=names, coordsOut=[str(z) for z in co] if same else ['disagree'], diffsOut=[str(z) for z in di],
              disp=['%s' % Rational(*d) for d in disp], dispOut=[str(z) for z in q])
    return R.validate()
