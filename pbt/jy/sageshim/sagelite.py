"""The part of Sage that GRF uses, exact, over Q (Jython 2.7).

Sage itself is not installed.  Anything that is not modelled raises Missing, which is never a verdict."""
import fractions
import math
from fractions import Fraction

from java.math import BigInteger

_plain_gcd = fractions.gcd


def _fast_gcd(a, b):
    """fractions.gcd for long numbers: Fraction spends most of its time there"""
    if isinstance(a, long) and isinstance(b, long) and a and b:
        g = long(BigInteger(str(a)).gcd(BigInteger(str(b))))
        return -g if b < 0 else g
    return _plain_gcd(a, b)


fractions.gcd = _fast_gcd


class Missing(AttributeError):
    pass


class State(object):
    missing = None


def missing(what):
    State.missing = what
    raise Missing(what)


NUM = (int, long, Fraction)


def is_num(v):
    return isinstance(v, NUM) or isinstance(v, float)


class Rationals(object):
    def __call__(self, v):
        if isinstance(v, Poly):
            return v._const()
        if isinstance(v, (str, unicode)):
            return Fraction(str(v))
        if isinstance(v, float):
            return Fraction(repr(v))
        return Fraction(v)

    def __getitem__(self, names):
        if isinstance(names, (str, unicode)):
            names = [str(n).strip() for n in names.split(',')]
        return ring(tuple(names))

    def __str__(self):
        return 'Rational Field'


QQ = Rationals()
_rings = {}


def ring(names):
    if names not in _rings:
        _rings[names] = Ring(names)
    return _rings[names]


class Ring(object):
    def __init__(self, names):
        self.names = names

    def gens(self):
        return tuple(Poly(self, {((n, 1),): Fraction(1)}) for n in self.names)

    def gen(self, i=0):
        return self.gens()[i]

    def ngens(self):
        return len(self.names)

    def variable_names(self):
        return self.names

    def base_ring(self):
        return QQ

    def zero(self):
        return Poly(self, {})

    def one(self):
        return Poly(self, {(): Fraction(1)})

    def __call__(self, v):
        if isinstance(v, Frac):
            q = v.num._exact(v.den)
            if q is None:
                raise TypeError('denominator must be a unit')
            v = q
        if isinstance(v, Poly):
            for m in v.d:
                for n, _ in m:
                    if n not in self.names:
                        raise TypeError('%s is not in %s' % (n, self))
            return Poly(self, v.d)
        if isinstance(v, UPoly):
            missing('conversion of univariate polynomials')
        if isinstance(v, (str, unicode)):
            return Poly(self, {(): sage_eval(v)})
        return Poly(self, {(): QQ(v)})

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return hash(self.names)

    def __str__(self):
        return 'Polynomial Ring in %s over Rational Field' % ', '.join(self.names)
    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('ring.' + n)


def PolynomialRing(base, name, n=None, order=None):
    if n is None:
        return base[name]
    if order not in (None, 'degrevlex'):
        missing('order ' + str(order))
    return ring(tuple('%s%d' % (name, i) for i in range(n)))


def parent(v):
    if isinstance(v, Poly):
        return v.parent()
    if isinstance(v, NUM):
        return QQ
    missing('parent')


def _mul(a, b):
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + e
    return tuple(sorted(d.items()))


def _index(n):
    i = len(n)
    while i and n[i - 1].isdigit():
        i -= 1
    return (n[:i], int(n[i:] or 0))


def _key(m, names):
    """degrevlex"""
    d = dict(m)
    return (sum(e for _, e in m), tuple(-d.get(n, 0) for n in reversed(names)))


class Poly(object):
    """Polynomials over Q; equality and hash go by variable names, so polynomials of different rings compare as in Sage."""

    def __init__(self, R, d):
        self._R = R
        self.d = dict((m, Fraction(c)) for m, c in d.items() if c != 0)

    # -- structure --
    def parent(self):
        return self._R

    def _names(self):
        s = set()
        for m in self.d:
            for n, _ in m:
                s.add(n)
        return sorted(s, key=_index)

    def _order(self):
        return sorted(set(self._R.names) | set(self._names()), key=_index)

    def _sorted(self):
        o = self._order()
        return sorted(self.d, key=lambda m: _key(m, o), reverse=True)

    def variables(self):
        return tuple(Poly(self._R, {((n, 1),): 1}) for n in self._names())

    def nvariables(self):
        return len(self._names())

    def monomials(self):
        return [Poly(self._R, {m: 1}) for m in self._sorted()]

    def coefficients(self):
        return [self.d[m] for m in self._sorted()]

    def lt(self):
        m = self._sorted()[:1]
        return Poly(self._R, dict((k, self.d[k]) for k in m))

    def lm(self):
        return Poly(self._R, dict((k, 1) for k in self._sorted()[:1]))

    def lc(self):
        m = self._sorted()[:1]
        return self.d[m[0]] if m else Fraction(0)

    def is_constant(self):
        return all(m == () for m in self.d)

    def is_zero(self):
        return not self.d

    def constant_coefficient(self):
        return self.d.get((), Fraction(0))

    def total_degree(self):
        return max([sum(e for _, e in m) for m in self.d] or [-1])

    def _name(self):
        if len(self.d) == 1:
            m, c = list(self.d.items())[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        missing('not a generator: %s' % self)

    def degree(self, v=None):
        if v is None:
            return self.total_degree()
        n = v._name()
        return max([dict(m).get(n, 0) for m in self.d] or [-1])

    def dict(self):
        missing('dict')

    def _const(self):
        if not self.is_constant():
            raise TypeError('not a constant polynomial')
        return self.d.get((), Fraction(0))

    # -- arithmetic --
    def _up(self, o):
        """o as a polynomial, and the common ring"""
        if isinstance(o, Poly):
            if o._R is self._R:
                return o, self._R
            big = self._R if set(o._R.names) <= set(self._R.names) else o._R
            if not set(self._R.names) | set(o._R.names) == set(big.names):
                big = ring(tuple(sorted(set(self._R.names) | set(o._R.names), key=_index)))
            return o, big
        if isinstance(o, NUM):
            return Poly(self._R, {(): o}), self._R
        if isinstance(o, float):
            missing('polynomial arithmetic with floats')
        return None, None

    def __add__(self, o):
        if isinstance(o, float) and self.is_constant():
            return float(self._const()) + o
        o, R = self._up(o)
        if o is None:
            return NotImplemented
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return Poly(R, d)
    __radd__ = __add__

    def __neg__(self):
        return Poly(self._R, dict((m, -c) for m, c in self.d.items()))

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float):
            return self + (-o)
        if not isinstance(o, (Poly,) + NUM):
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, float) and self.is_constant():
            return float(self._const()) * o
        o, R = self._up(o)
        if o is None:
            return NotImplemented
        d = {}
        for m, c in self.d.items():
            for n, k in o.d.items():
                q = _mul(m, n)
                d[q] = d.get(q, 0) + c * k
        return Poly(R, d)
    __rmul__ = __mul__

    def __pow__(self, n):
        if not isinstance(n, (int, long)) or n < 0:
            missing('power')
        r = self._R.one()
        for _ in range(n):
            r = r * self
        return r

    def _exact(self, q):
        """self / q if q divides self, else None"""
        o, R = self._up(q)
        if o.is_zero():
            raise ZeroDivisionError('division by zero')
        names = R.names
        lead = o._sorted()[0]
        rest, out = dict(self.d), {}
        while rest:
            m = max(rest, key=lambda k: _key(k, sorted(names, key=_index)))
            dm, dl = dict(m), dict(lead)
            if any(dm.get(n, 0) < e for n, e in dl.items()):
                return None
            t = tuple(sorted((n, e - dl.get(n, 0)) for n, e in dm.items() if e - dl.get(n, 0)))
            c = rest[m] / o.d[lead]
            out[t] = out.get(t, 0) + c
            for n, k in o.d.items():
                z = _mul(t, n)
                v = rest.get(z, 0) - c * k
                if v:
                    rest[z] = v
                else:
                    rest.pop(z, None)
        return Poly(R, out)

    def __div__(self, o):
        p, R = self._up(o)
        if p is None:
            return NotImplemented
        if p.is_zero():
            raise ZeroDivisionError('polynomial division by zero')
        if p.is_constant():
            k = p._const()
            return Poly(R, dict((m, c / k) for m, c in self.d.items()))
        q = self._exact(p)
        return q if q is not None else Frac(self, p)
    __truediv__ = __div__

    def __rdiv__(self, o):
        p, R = self._up(o)
        if p is None:
            return NotImplemented
        return p / self
    __rtruediv__ = __rdiv__

    # -- comparison --
    def _cmp(self, o):
        # as in Sage, polynomials that are not constant are comparable too, by a rule that says nothing about values
        if isinstance(o, float):
            if not self.is_constant():
                missing('order of polynomials and floats')
            return cmp(self._const(), o)
        d = self - o
        return cmp(d.lc(), 0)

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.d == o.d
        if is_num(o):
            return self.is_constant() and self._const() == o
        return False

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __nonzero__(self):
        return bool(self.d)

    def __hash__(self):
        if self.is_constant():
            return hash(self._const())
        return hash(frozenset(self.d.items()))

    def __float__(self):
        return float(self._const())

    def __str__(self):
        out = []
        for m in self._sorted():
            c = self.d[m]
            t = '*'.join(n if e == 1 else '%s^%d' % (n, e) for n, e in m)
            s = str(abs(c)) if not t else t if abs(c) == 1 else str(abs(c)) + '*' + t
            out.append(('-' if c < 0 else '') + s if not out else (' - ' if c < 0 else ' + ') + s)
        return ''.join(out) or '0'
    __repr__ = __str__

    # -- substitution --
    def substitute(self, d=None, **k):
        if k or d is None:
            missing('keyword substitution')
        vals = dict((v._name() if isinstance(v, Poly) else v, x) for v, x in d.items())
        if any(isinstance(x, float) for n, x in vals.items() if n in self._names()):
            r = 0.0
            for m, c in self.d.items():
                t = c
                for n, e in m:
                    if n not in vals:
                        missing('partial substitution of floats')
                    v = vals[n]
                    t = t * (float(v) if isinstance(v, float) else Fraction(v)) ** e
                r = r + t
            return float(r)
        r = Poly(self._R, {})
        for m, c in self.d.items():
            t = Poly(self._R, {(): c})
            for n, e in m:
                if n in vals:
                    v = vals[n]
                    t = t * (v ** e if isinstance(v, Poly) else Fraction(v) ** e)
                else:
                    t = t * Poly(self._R, {((n, e),): 1})
            r = r + t
        return r
    subs = substitute

    def __call__(self, *a):
        missing('call')

    # -- elimination --
    def coefficient(self, d):
        if isinstance(d, Poly):
            missing('coefficient of a monomial')
        want = dict((v._name(), e) for v, e in d.items())
        out = {}
        for m, c in self.d.items():
            dm = dict(m)
            if all(dm.get(n, 0) == e for n, e in want.items()):
                k = tuple((n, e) for n, e in m if n not in want)
                out[k] = out.get(k, 0) + c
        return Poly(self._R, out)

    def _list(self, x):
        """coefficients with respect to x, highest first"""
        return [self.coefficient({x: e}) for e in range(self.degree(x), -1, -1)]

    def derivative(self, x):
        n = x._name()
        out = {}
        for m, c in self.d.items():
            dm = dict(m)
            e = dm.get(n, 0)
            if e:
                dm[n] = e - 1
                out[tuple(sorted((k, v) for k, v in dm.items() if v))] = c * e
        return Poly(self._R, out)

    def resultant(self, q, x):
        q, R = self._up(q)
        p = Poly(R, self.d)
        if p.is_zero() or q.is_zero():
            return R.zero()
        a, b = p._list(x), q._list(x)
        n, k = len(a) - 1, len(b) - 1
        if n + k == 0:
            return R.one()
        z = R.zero()
        rows = [[z] * i + a + [z] * (k - 1 - i) for i in range(k)] + [[z] * i + b + [z] * (n - 1 - i) for i in range(n)]
        return _det(rows, R)

    def discriminant(self, x):
        n = self.degree(x)
        if n < 1:
            return self._R.zero()
        r = self.resultant(self.derivative(x), x)._exact(self.coefficient({x: n}))
        return -r if (n * (n - 1) // 2) % 2 else r

    def univariate_polynomial(self):
        ns = self._names()
        if len(ns) > 1:
            raise TypeError('polynomial must involve at most one variable')
        n = ns[0] if ns else None
        c = {}
        for m, v in self.d.items():
            c[dict(m).get(n, 0)] = v
        return UPoly([c.get(i, Fraction(0)) for i in range(max(c or [0]) + 1)])

    def factor(self):
        """list of (irreducible factor, multiplicity), without the unit"""
        if self.is_zero():
            raise ArithmeticError('factorization of 0 is not defined')
        if self.is_constant():
            return []
        import sympy
        e = sympy.Integer(0)
        for m, c in self.d.items():
            t = sympy.Rational(c.numerator, c.denominator)
            for n, k in m:
                t = t * sympy.Symbol(n) ** k
            e = e + t
        gens = [sympy.Symbol(n) for n in self._names()]
        out = []
        for f, k in sympy.factor_list(e, *gens)[1]:
            d = {}
            for m, c in sympy.Poly(f, *gens).terms():
                d[tuple((str(g), int(x)) for g, x in zip(gens, m) if x)] = Fraction(int(c.p), int(c.q))
            d = dict((tuple(sorted(m)), c) for m, c in d.items())
            out.append((Poly(self._R, d), k))
        return out

    # -- Groebner --
    def reduce(self, basis):
        basis = [b for b in basis if not b.is_zero()]
        names = self._order()
        for b in basis:
            names = sorted(set(names) | set(b._order()), key=_index)
        key = lambda m: _key(m, names)
        leads = [(max(b.d, key=key), b) for b in basis]
        rest, out = dict(self.d), {}
        while rest:
            m = max(rest, key=key)
            dm = dict(m)
            for lead, b in leads:
                dl = dict(lead)
                if all(dm.get(n, 0) >= e for n, e in dl.items()):
                    t = tuple(sorted((n, e - dl.get(n, 0)) for n, e in dm.items() if e - dl.get(n, 0)))
                    c = rest[m] / b.d[lead]
                    for n, k in b.d.items():
                        z = _mul(t, n)
                        v = rest.get(z, 0) - c * k
                        if v:
                            rest[z] = v
                        else:
                            rest.pop(z, None)
                    break
            else:
                out[m] = rest.pop(m)
        return Poly(self._R, out)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('polynomial.' + n)


def _det(rows, R):
    """Bareiss"""
    a = [list(r) for r in rows]
    n, sign, prev = len(a), 1, R.one()
    for k in range(n - 1):
        if a[k][k].is_zero():
            for i in range(k + 1, n):
                if not a[i][k].is_zero():
                    a[k], a[i] = a[i], a[k]
                    sign = -sign
                    break
            else:
                return R.zero()
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j])._exact(prev)
        prev = a[k][k]
    return a[n - 1][n - 1] * sign


class Frac(object):
    """a quotient that is not a polynomial"""

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('fraction.' + n)


class Ideal(object):
    def __init__(self, ps):
        self.ring = ps[0].parent()
        self.ps = [p for p in ps if not p.is_zero()]

    def groebner_basis(self):
        G = list(self.ps)
        if not G:
            return [self.ring.zero()]
        R = G[0]
        for p in G[1:]:
            R = R + p
        names = R._order()
        Rg = R.parent()
        key = lambda m: _key(m, names)
        G = [Poly(Rg, p.d) for p in G]
        pairs = [(i, j) for i in range(len(G)) for j in range(i)]
        steps = 0
        while pairs:
            steps += 1
            if steps > 300:
                missing('large Groebner basis')
            i, j = pairs.pop(0)
            f, g = G[i], G[j]
            lf, lg = max(f.d, key=key), max(g.d, key=key)
            df, dg = dict(lf), dict(lg)
            l = dict((n, max(df.get(n, 0), dg.get(n, 0))) for n in set(df) | set(dg))
            tf = tuple(sorted((n, e - df.get(n, 0)) for n, e in l.items() if e - df.get(n, 0)))
            tg = tuple(sorted((n, e - dg.get(n, 0)) for n, e in l.items() if e - dg.get(n, 0)))
            s = f * Poly(Rg, {tf: 1 / f.d[lf]}) - g * Poly(Rg, {tg: 1 / g.d[lg]})
            r = s.reduce(G)
            if not r.is_zero():
                pairs += [(len(G), k) for k in range(len(G))]
                G.append(r)
        # reduced basis
        G = [g * (1 / g.d[max(g.d, key=key)]) for g in G]
        G.sort(key=lambda g: key(max(g.d, key=key)))
        out = []
        for g in G:
            dg = dict(max(g.d, key=key))
            if not any(all(dg.get(n, 0) >= e for n, e in max(h.d, key=key)) for h in out):
                out.append(g)
        return [g.reduce([h for h in out if h is not g]) for g in out]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('ideal.' + n)


def ideal(*ps):
    if len(ps) == 1 and isinstance(ps[0], (list, tuple)):
        ps = ps[0]
    return Ideal(ps)


# ---- univariate polynomials over Q, lowest coefficient first ----

def _norm(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return c


def _divmod(a, b):
    a, q = list(a), [Fraction(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b):
        k = a[-1] / b[-1]
        q[len(a) - len(b)] = k
        for i in range(len(b)):
            a[len(a) - len(b) + i] -= k * b[i]
        a = _norm(a[:-1])
    return _norm(q), a


def _prim(a):
    """positive multiple with coprime integer coefficients"""
    den = 1
    for c in a:
        if not isinstance(c, (int, long)) and c.denominator != 1:
            den = den // fractions.gcd(den, c.denominator) * c.denominator
    v = [c * den if isinstance(c, (int, long)) else c.numerator * (den // c.denominator) for c in a]
    g = 0
    for c in v:
        g = abs(fractions.gcd(g, c))
        if g == 1:
            return v
    return [c // g for c in v] if g else v


def _irem(a, b):
    """positive multiple of the remainder of a by b, integer coefficients"""
    a = list(a)
    lb = b[-1]
    s = 1 if lb > 0 else -1
    while len(a) >= len(b):
        k, o = a[-1] * s, len(a) - len(b)
        a = [c * lb * s for c in a]
        for i in range(len(b)):
            a[o + i] -= k * b[i]
        a = _norm(a[:-1])
    return _prim(a)


def _gcd(a, b):
    a, b = _prim(a), _prim(b)
    if len(a) < len(b):
        a, b = b, a
    while b:
        a, b = b, _irem(a, b)
    return [Fraction(c, a[-1]) for c in a]


def _diff(a):
    return _norm([a[i] * i for i in range(1, len(a))])


def _val(a, x):
    r = Fraction(0)
    for c in reversed(a):
        r = r * x + c
    return r


def _sturm(a):
    a = _prim(a)
    s = [a, _prim(_diff(a))]
    while s[-1]:
        s.append([-c for c in _irem(s[-2], s[-1])])
    return s[:-1]


def _sign_at(p, n, d):
    """sign of p(n / d), d > 0, integer coefficients"""
    r, t = 0, 1
    for c in reversed(p):
        r = r * n + c * t
        t = t * d
    return cmp(r, 0)


def _changes(s, x):
    n, d = (x.numerator, x.denominator) if isinstance(x, Fraction) else (x, 1)
    v = [w for w in [_sign_at(p, n, d) for p in s] if w]
    return sum(1 for i in range(len(v) - 1) if v[i] != v[i + 1])


class UPoly(object):
    def __init__(self, c):
        self.c = _norm(c)

    def degree(self):
        return len(self.c) - 1

    def __mul__(self, o):
        if isinstance(o, NUM):
            return UPoly([c * o for c in self.c])
        if not isinstance(o, UPoly):
            return NotImplemented
        r = [Fraction(0)] * max(0, len(self.c) + len(o.c) - 1)
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                r[i + j] += a * b
        return UPoly(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = UPoly([Fraction(1)])
        for _ in range(n):
            r = r * self
        return r

    def __sub__(self, o):
        return self + (-1 * o if isinstance(o, UPoly) else -o)

    def __add__(self, o):
        oc = o.c if isinstance(o, UPoly) else [Fraction(o)]
        n = max(len(self.c), len(oc))
        return UPoly([(self.c[i] if i < len(self.c) else 0) + (oc[i] if i < len(oc) else 0) for i in range(n)])
    __radd__ = __add__

    def __eq__(self, o):
        return self.c == (o.c if isinstance(o, UPoly) else _norm([o]))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(self.c))

    def parent(self):
        return UParent()

    def is_constant(self):
        return len(self.c) < 2

    def is_zero(self):
        return not self.c

    def gcd(self, o):
        return UPoly(_gcd(self.c, o.c))

    def derivative(self):
        return UPoly(_diff(self.c))

    def quo_rem(self, o):
        q, r = _divmod(self.c, o.c)
        return UPoly(q), UPoly(r)

    def __floordiv__(self, o):
        return self.quo_rem(o)[0]

    def __mod__(self, o):
        return self.quo_rem(o)[1]

    def __call__(self, x):
        return _val(self.c, x)

    def squarefree_part(self):
        return UPoly(_divmod(self.c, _gcd(self.c, _diff(self.c)))[0]) if len(self.c) > 1 else self

    radical = squarefree_part

    def _mult(self, root):
        k, p = 0, self.c
        while p and _val(p, root) == 0:
            p, k = _diff(p), k + 1
        return k

    def _isolate(self):
        """closed intervals (l, u) with one root each, disjoint; l == u for a rational root found"""
        a = self.squarefree_part().c
        if len(a) < 2:
            return []
        s = _sturm(a)
        bound = 1 + max(abs(c / a[-1]) for c in a)
        todo, out = [(-bound, bound)], []
        while todo:
            l, u = todo.pop()
            n = _changes(s, l) - _changes(s, u)      # roots in (l, u]
            if n == 0:
                continue
            m = (l + u) / 2
            if n == 1:
                out.append((l, u))
                continue
            todo += [(l, m), (m, u)]
        res = []
        for l, u in out:
            if _val(a, u) == 0:
                res.append((u, u))
                continue
            # the left end may be another root: move it in
            while _val(a, l) == 0:
                m = (l + u) / 2
                if _val(a, m) == 0:
                    l = u = m
                    break
                if _changes(s, m) - _changes(s, u) == 1:
                    l = m
                else:
                    u = m
            res.append((l, u))
        return sorted(res)

    def real_root_intervals(self):
        out = []
        for l, u in self._isolate():
            # multiplicity: number of derivatives sharing the root, by gcds
            k, p = 0, self.c
            while True:
                k += 1
                p = _gcd(p, _diff(p)) if len(p) > 1 else [Fraction(1)]
                if len(p) < 2:
                    break
                q = UPoly(p).squarefree_part().c
                if l == u:
                    if _val(q, l) != 0:
                        break
                elif _changes(_sturm(q), l) - _changes(_sturm(q), u) == 0:
                    break
            out.append(((l, u), k))
        return out

    def roots(self, R=None, multiplicities=True):
        """rational roots"""
        if R is not None and R is not QQ:
            missing('roots over another ring')
        if not self.c:
            raise ArithmeticError('roots of 0 are not defined')
        a = self.squarefree_part().c
        if len(a) < 2:
            return []
        den = 1
        for c in a:
            den = den * c.denominator // _igcd(den, c.denominator)
        ints = [int(c * den) for c in a]
        lead = abs(ints[-1])
        out = []
        s = _sturm(a)
        for l, u in self._isolate():
            # a rational root is a multiple of 1/lead
            while (u - l) * lead >= 1:
                m = (l + u) / 2
                if _val(a, m) == 0:
                    l = u = m
                elif _changes(s, l) - _changes(s, m) == 1:
                    u = m
                else:
                    l = m
            k = _ceil(l * lead)
            for j in (k, k + 1):
                r = Fraction(j, lead)
                if l <= r <= u and _val(a, r) == 0:
                    out.append(r)
                    break
        out = sorted(set(out))
        return [(r, self._mult(r)) for r in out] if multiplicities else out

    def __str__(self):
        return ' + '.join('%s*t^%d' % (c, i) for i, c in enumerate(self.c) if c) or '0'
    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('univariate.' + n)


class UParent(object):
    def gen(self):
        return UPoly([Fraction(0), Fraction(1)])

    def __call__(self, v):
        return v if isinstance(v, UPoly) else UPoly([Fraction(v)])

    def one(self):
        return UPoly([Fraction(1)])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('univariate ring.' + n)


def _igcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def _ceil(v):
    v = Fraction(v)
    return -((-v.numerator) // v.denominator)


def floor(v):
    if isinstance(v, Poly):
        v = v._const()
    v = Fraction(v)
    return v.numerator // v.denominator


def ceil(v):
    if isinstance(v, Poly):
        v = v._const()
    return _ceil(v)


class Real(float):
    def exact_rational(self):
        return Fraction(*float(self).as_integer_ratio())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('real.' + n)


def RR(v):
    return Real(v)


def sage_eval(s):
    s = str(s).strip()
    try:
        return Fraction(s[:-1] if s.endswith('.') else s)
    except ValueError:
        missing('sage_eval of %r' % s)


def join(words, sep=' '):
    return sep.join(words)


# ---- 0-1 programs ----

class Lin(object):
    def __init__(self, d, c=0):
        self.d, self.c = d, c

    def __add__(self, o):
        if is_num(o):
            return Lin(self.d, self.c + o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Lin(d, self.c + o.c)
    __radd__ = __add__

    def __mul__(self, k):
        return Lin(dict((a, b * k) for a, b in self.d.items()), self.c * k)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-1 * o)

    def __rsub__(self, o):
        return (-1) * self + o

    def __ge__(self, o):
        return ('>=', self - o)

    def __le__(self, o):
        return ('<=', self - o)

    def __eq__(self, o):
        return ('==', self - o)

    def value(self, a):
        return self.c + sum(v * a[k] for k, v in self.d.items())


class Var(object):
    def __init__(self, p):
        self.p = p

    def __getitem__(self, i):
        if i not in self.p.names:
            self.p.names.append(i)
        return Lin({i: 1})


class MIPSolverException(RuntimeError):
    pass


class MixedIntegerLinearProgram(object):
    def __init__(self, maximization=True, **k):
        self.max, self.names, self.cons, self.obj, self.best = maximization, [], [], Lin({}), None

    def new_variable(self, binary=False, **k):
        if not binary:
            missing('non-binary variables')
        return Var(self)

    def add_constraint(self, c, *a, **k):
        if a or k:
            missing('constraint with bounds')
        if isinstance(c, bool):
            if not c:
                self.cons.append(('>=', Lin({}, -1)))
            return
        self.cons.append(c)

    def set_objective(self, o):
        self.obj = o if isinstance(o, Lin) else Lin({}, o)

    def show(self):
        print self.cons

    def solve(self, **k):
        names = sorted(self.names)
        if len(names) > 14:
            missing('large program')
        best, arg = None, None
        sign = -1 if self.max else 1
        for bits in range(1 << len(names)):
            a = dict((n, (bits >> i) & 1) for i, n in enumerate(names))
            ok = True
            for op, e in self.cons:
                v = e.value(a)
                if not (v >= 0 if op == '>=' else v <= 0 if op == '<=' else v == 0):
                    ok = False
                    break
            if ok:
                v = sign * self.obj.value(a)
                if best is None or v < best:
                    best, arg = v, a
        if arg is None:
            raise MIPSolverException('no feasible solution')
        self.best = arg
        return sign * best

    def get_values(self, x):
        if isinstance(x, Lin):
            return float(x.value(self.best))
        return dict((k, float(v)) for k, v in self.best.items())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        missing('program.' + n)


def Integer(v):
    return int(v)


def namespace():
    return {'QQ': QQ, 'PolynomialRing': PolynomialRing, 'parent': parent, 'ideal': ideal, 'RR': RR, 'floor': floor, 'ceil': ceil,
            'true': True, 'false': False, 'join': join, 'sage_eval': sage_eval, 'MixedIntegerLinearProgram': MixedIntegerLinearProgram,
            'Integer': Integer, 'RealNumber': float, '__name__': 'grf', '__builtins__': __builtins__}


def preparse(src):
    """Sage's ^ is a power (outside strings and comments)."""
    import tokenize
    import StringIO
    lines = src.split('\n')
    for t, s, (r, c), _, _ in reversed(list(tokenize.generate_tokens(StringIO.StringIO(src).readline))):
        if t == tokenize.OP and s == '^':
            lines[r - 1] = lines[r - 1][:c] + '**' + lines[r - 1][c + 1:]
    return '\n'.join(lines)


def load(path, ns):
    f = open(path)
    try:
        src = f.read()
    finally:
        f.close()
    exec compile(preparse(src), path, 'exec') in ns
