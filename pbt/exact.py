"""Exact real algebra over Q, written for this framework and independent of /repo.

Univariate polynomials are lists of Fractions, index = power, no trailing zeros ([] is zero).
Everything is decided exactly: Sturm sequences, rational isolating intervals, gcds.
"""
import math
from fractions import Fraction as F
from functools import lru_cache


def norm(p):
    p = [F(c) for c in p]
    while p and p[-1] == 0:
        p.pop()
    return p


def deg(p):
    return len(p) - 1


def add(a, b):
    n = max(len(a), len(b))
    return norm([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def neg(a):
    return [-c for c in a]


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if not a or not b:
        return []
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return norm(r)


def scale(a, c):
    return norm([x * c for x in a])


def power(a, n):
    r = [F(1)]
    for _ in range(n):
        r = mul(r, a)
    return r


def divmod_(a, b):
    if not b:
        raise ZeroDivisionError
    r = norm(a)
    q = [F(0)] * max(0, len(a) - len(b) + 1)
    while len(r) >= len(b):
        c = r[-1] / b[-1]
        k = len(r) - len(b)
        q[k] = c
        for i, y in enumerate(b):
            r[i + k] -= c * y
        r = norm(r)
    return norm(q), r


def rem(a, b):
    return divmod_(a, b)[1]


def monic(a):
    return scale(a, 1 / a[-1]) if a else []


def gcd(a, b):
    a, b = norm(a), norm(b)
    while b:
        a, b = b, monic(rem(a, b))
    return monic(a)


def der(a):
    return norm([c * i for i, c in enumerate(a)][1:])


def ev(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def sgn(v):
    return (v > 0) - (v < 0)


def squarefree(a):
    if len(a) <= 1:
        return a
    return divmod_(a, gcd(a, der(a)))[0]


def sturm(a):
    s = [a, der(a)]
    while s[-1]:
        s.append(neg(rem(s[-2], s[-1])))
    s.pop()
    return s


def variations(vals):
    vals = [v for v in vals if v != 0]
    return sum(1 for a, b in zip(vals, vals[1:]) if (a > 0) != (b > 0))


def _var_at(seq, x):
    return variations([ev(p, x) for p in seq])


def root_bound(a):
    return 1 + max([abs(c / a[-1]) for c in a[:-1]] or [F(0)])


class Root(object):
    """A real root: the only root of the squarefree poly `p` in [lo, hi]; lo == hi if rational and known."""

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi

    def refine(self):
        if self.lo == self.hi:
            return
        m = (self.lo + self.hi) / 2
        v = ev(self.p, m)
        if v == 0:
            self.lo = self.hi = m
        elif sgn(v) == sgn(ev(self.p, self.lo)):
            self.lo = m
        else:
            self.hi = m

    def sign(self, q):
        """Sign of polynomial q at this root, exactly."""
        if not q:
            return 0
        if self.lo == self.hi:
            return sgn(ev(q, self.lo))
        g = gcd(self.p, q)
        if deg(g) > 0:
            a, b = sgn(ev(g, self.lo)), sgn(ev(g, self.hi))
            if a != b:      # g divides the squarefree p, so it has a root in the interval iff it changes sign
                return 0
        s = sturm(squarefree(q))
        while True:
            if self.lo == self.hi:
                return sgn(ev(q, self.lo))
            if ev(q, self.lo) != 0 and ev(q, self.hi) != 0 and _var_at(s, self.lo) == _var_at(s, self.hi):
                return sgn(ev(q, self.lo))
            self.refine()

    def sign_right(self, q):
        """Sign of q just to the right of this root."""
        q = norm(q)
        while q:
            s = self.sign(q)
            if s:
                return s
            q = der(q)
        return 0

    def tight(self, width=F(1, 1 << 20)):
        while self.hi - self.lo > width:
            self.refine()
        return self.lo, self.hi

    def close(self):
        """Bounds that are tight relative to the root as well."""
        self.tight()
        if self.sign([F(0), F(1)]) == 0:
            return F(0), F(0)
        while self.lo <= 0 <= self.hi or (self.hi - self.lo) * (1 << 30) > abs(self.lo):
            self.refine()
        return self.lo, self.hi

    def approx(self):
        for _ in range(60):
            self.refine()
        return float((self.lo + self.hi) / 2)


def roots(a):
    """Distinct real roots of a (nonzero), increasing."""
    a = norm(a)
    p = squarefree(a)
    if len(p) <= 1:
        return []
    s = sturm(p)
    B = root_bound(p)
    out = []

    def rec(lo, hi, vlo, vhi):
        n = vlo - vhi
        if n == 0:
            return
        if n == 1:
            # one root in (lo, hi]
            if ev(p, hi) == 0:
                out.append(Root(p, hi, hi))
                return
            # make lo a non-root
            while ev(p, lo) == 0:
                m = (lo + hi) / 2
                if ev(p, m) == 0:
                    out.append(Root(p, m, m))
                    return
                if _var_at(s, m) == vhi:
                    hi = m
                else:
                    lo = m
            out.append(Root(p, lo, hi))
            return
        m = (lo + hi) / 2
        vm = _var_at(s, m)
        rec(lo, m, vlo, vm)
        rec(m, hi, vm, vhi)
    rec(-B, B, _var_at(s, -B), _var_at(s, B))
    return [snap(r) for r in out]


def snap(r):
    """The same root, exactly, if it is rational (its denominator divides the leading coefficient) and not too long."""
    if r.lo == r.hi:
        return r
    m = 1
    for c in r.p:
        m = m * c.denominator // math.gcd(m, c.denominator)
    lc = abs(int(r.p[-1] * m))
    if lc.bit_length() > 90:
        return r
    t = Root(r.p, r.lo, r.hi)
    while t.lo != t.hi and (t.hi - t.lo) * 2 * lc >= 1:
        t.refine()
    v = F(round((t.lo + t.hi) / 2 * lc), lc)
    return Root(r.p, v, v) if r.lo <= v <= r.hi and ev(r.p, v) == 0 else r


def sign_table(polys):
    return cells(polys)[1]


def cells(polys):
    """Exact sign vectors of `polys` on every cell of R, left to right.

    Returns the roots and a list of (kind, vector): 'iv' for open intervals, 'pt' for points; starts and ends with 'iv'.
    """
    polys = [norm(p) for p in polys]
    prod = [F(1)]
    for p in polys:
        if len(p) > 1:
            q = squarefree(p)
            g = gcd(prod, q)
            prod = mul(prod, divmod_(q, g)[0])
    rs = roots(prod) if len(prod) > 1 else []
    # separate neighbouring intervals so that sample points lie strictly between
    for a, b in zip(rs, rs[1:]):
        while a.hi >= b.lo:
            a.refine()
            b.refine()
    cells = []
    if not rs:
        return rs, [('iv', tuple(sgn(ev(p, F(0))) for p in polys))]
    pts = [rs[0].lo - 1]
    for a, b in zip(rs, rs[1:]):
        pts.append((a.hi + b.lo) / 2)
    pts.append(rs[-1].hi + 1)
    for i, r in enumerate(rs):
        cells.append(('iv', tuple(sgn(ev(p, pts[i])) for p in polys)))
        cells.append(('pt', tuple(r.sign(p) for p in polys)))
    cells.append(('iv', tuple(sgn(ev(p, pts[-1])) for p in polys)))
    return rs, cells


OK = {'le': lambda s: s <= 0, 'lt': lambda s: s < 0, 'eq': lambda s: s == 0,
      'ne': lambda s: s != 0, 'ge': lambda s: s >= 0, 'gt': lambda s: s > 0}


def satisfiable(constraints):
    """constraints: list of (op, poly). Is there a real x satisfying all?"""
    for _, v in sign_table([p for _, p in constraints]):
        if all(OK[op](s) for (op, _), s in zip(constraints, v)):
            return True
    return False


def tarski(p, q):
    """Sum of sign(q) over the distinct real roots of p (p nonzero)."""
    return sum(r.sign(norm(q)) for r in roots(p))


# ---- complex univariate ----

def complex_satisfiable(eqs, neqs):
    """Is there a complex x with all eqs zero and all neqs nonzero?"""
    eqs = [norm(p) for p in eqs]
    neqs = [norm(p) for p in neqs]
    if any(not p for p in neqs):
        return False
    g = []
    for p in eqs:
        g = gcd(g, p)
    if not g:               # all equalities are 0 = 0
        return True
    # remove from g every root it shares with some neq
    for q in neqs:
        while True:
            h = gcd(g, q)
            if deg(h) <= 0:
                break
            g = divmod_(g, h)[0]
    return deg(g) > 0


# ---- multivariate (sparse dict: exponent tuple -> Fraction) ----

def msub(poly, names, values):
    """poly: list of (coef, {var: exp}); substitute `values` (dict) for all variables -> Fraction."""
    t = F(0)
    for c, e in poly:
        v = F(c)
        for n, k in e.items():
            v *= F(values[n]) ** k
        t += v
    return t


def muni(poly, values, var):
    """Substitute all variables but `var`: univariate list."""
    r = {}
    for c, e in poly:
        v = F(c)
        k0 = 0
        for n, k in e.items():
            if n == var:
                k0 = k
            else:
                v *= F(values[n]) ** k
        r[k0] = r.get(k0, F(0)) + v
    if not r:
        return []
    return norm([r.get(i, F(0)) for i in range(max(r) + 1)])
