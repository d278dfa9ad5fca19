"""Numbers of GF(46199) that numpy object arrays can compute with.

Any rational constant met by the code under test (ints, Fractions, floats such as dt/6) is
mapped to the field; nothing here knows what is computed."""
from fractions import Fraction
import numbers
import numpy as np

P = 46199


class NotExact(Exception):
    pass


def to_gf(x, maxden=100000):
    if isinstance(x, G):
        return x.v
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, numbers.Integral):
        return int(x) % P
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float('inf'), float('-inf')):
            raise NotExact(x)
        f = Fraction(float(x)).limit_denominator(maxden)
        if abs(float(f) - float(x)) > 1e-9 * max(1.0, abs(float(x))):
            raise NotExact(x)
        x = f
    if hasattr(x, 'p') and hasattr(x, 'q'):         # sympy rational
        x = Fraction(int(x.p), int(x.q))
    if isinstance(x, numbers.Rational):
        if x.denominator % P == 0:
            raise ZeroDivisionError('GF')
        return x.numerator * pow(x.denominator, -1, P) % P
    raise NotExact(repr(x))


def inv(v):
    if v % P == 0:
        raise ZeroDivisionError('GF')
    return pow(v, -1, P)


class G:
    __slots__ = ('v',)

    def __init__(self, x):
        self.v = to_gf(x)

    def _b(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return None
        try:
            return to_gf(o.item() if isinstance(o, np.ndarray) else o)
        except NotExact:
            return None

    @staticmethod
    def _m(v):
        g = G.__new__(G)
        g.v = v % P
        return g

    def __add__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else G._m(self.v + b)
    __radd__ = __add__

    def __sub__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else G._m(self.v - b)

    def __rsub__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else G._m(b - self.v)

    def __mul__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else G._m(self.v * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else G._m(self.v * inv(b))

    def __rtruediv__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else G._m(b * inv(self.v))

    def __pow__(self, n):
        f = Fraction(n).limit_denominator(64) if not isinstance(n, G) else None
        if f is None:
            return NotImplemented
        Q = (P - 1) // 2
        if f.denominator == 1:
            return G._m(pow(self.v, int(f), P) if f >= 0 else pow(inv(self.v), -int(f), P))
        # principal root of a quadratic residue
        if pow(self.v, Q, P) != 1:
            raise ZeroDivisionError('GF root')
        return G._m(pow(self.v, f.numerator * pow(f.denominator, -1, Q) % Q, P))

    def sqrt(self):
        return self ** Fraction(1, 2)

    def __neg__(self):
        return G._m(-self.v)

    def __pos__(self):
        return self

    def conjugate(self):
        return self

    def __bool__(self):
        return self.v != 0

    def __eq__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else self.v == b

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'G%d' % self.v

    def __getstate__(self):
        return self.v

    def __setstate__(self, v):
        self.v = v

    def __reduce__(self):
        return (G, (self.v,))


def arr(vals, shape):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = G(v)
    return a.reshape(shape)


def ints(a, maxden=100000):
    return [to_gf(v, maxden) for v in np.asarray(a, dtype=object).ravel()]
