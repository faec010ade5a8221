"""Hypothesis strategies for polynomials and constraint systems.  Every case is JSON-able."""
from fractions import Fraction as F

from hypothesis import strategies as st

from . import exact as X

small = st.integers(-4, 4)
coef = st.one_of(st.integers(-3, 3), st.integers(-3, 3), st.integers(-9, 9))
nz = st.integers(-4, 4).filter(lambda v: v != 0)


@st.composite
def factor(draw):
    """A factor with few real roots: linear, or quadratic (irrational roots or none), or cubic."""
    k = draw(st.integers(0, 9))
    if k <= 5:
        if draw(st.integers(0, 11)) == 0:       # far away, or close to zero
            n = draw(st.sampled_from([30, 1000, 10 ** 7])) * draw(st.sampled_from([1, -1]))
            return [n, 1] if draw(st.booleans()) else [draw(st.sampled_from([1, -1])), abs(n)]
        a = draw(st.sampled_from([1, 1, 1, 2, 3]))
        return [draw(st.integers(-6, 6)), a]
    if k <= 7:
        return draw(st.sampled_from([[-2, 0, 1], [-3, 0, 1], [1, 0, 1], [2, 0, 1], [-1, -1, 1], [3, 2, 1], [-5, 0, 2], [-1, 2, 1]]))
    if k == 8:
        return draw(st.sampled_from([[-2, 0, 0, 1], [1, -3, 0, 1], [-1, -1, 0, 1], [1, 0, 0, 1]]))
    return draw(st.lists(small, min_size=2, max_size=4).filter(lambda p: p[-1] != 0))


def ints(p):
    """Fraction list -> int list (same polynomial up to a positive factor)."""
    from math import lcm
    m = 1
    for c in p:
        m = lcm(m, F(c).denominator)
    return [int(c * m) for c in p]


def nroots(p):
    return len(X.roots(X.norm(p))) if len(X.norm(p)) > 1 else 0


@st.composite
def poly(draw, pool, max_deg=6, max_roots=3, constants=True, zero=False):
    k = draw(st.integers(0, 19))
    if zero and k == 0:
        return []
    if constants and k == 1:
        return [draw(nz)]
    if k <= 5:
        p = draw(st.lists(coef, min_size=2, max_size=min(max_deg, 4) + 1))
        while p and p[-1] == 0:
            p = p[:-1]
        if len(p) < 2:
            p = [draw(small), draw(nz)]
    else:
        p = [F(draw(nz))]
        n = draw(st.integers(1, 3))
        for _ in range(n):
            f = draw(st.sampled_from(pool)) if (pool and draw(st.integers(0, 3)) > 0) else draw(factor())
            m = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
            for _ in range(m):
                q = X.mul(p, X.norm(f))
                if len(q) - 1 > max_deg or nroots(q) > max_roots:
                    break
                p = q
        p = [int(c) for c in p]
        if len(p) < 2 and not constants:
            p = [draw(small), draw(nz)]
    while nroots(p) > max_roots:
        p = p[1:]               # construction, not rejection: lower the degree until few roots are left
    k = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 7, 10 ** 6, 2 ** 40 + 1]))
    return [int(c) * k for c in p]


OPS4 = ['le', 'lt', 'eq', 'ne']


@st.composite
def system(draw, max_n=4, max_deg=6, max_roots=3, zero=True, shape=None):
    """A conjunction: {'le': [...], 'lt': [...], 'eq': [...], 'ne': [...]} of integer coefficient lists."""
    pool = draw(st.lists(factor(), min_size=1, max_size=3))
    n = draw(st.integers(0, max_n)) if draw(st.integers(0, 9)) else 1
    out = {k: [] for k in OPS4}
    style = draw(st.integers(0, 6))
    if style == 0:          # squeeze: a root of one polynomial pinned, others must agree there
        f = draw(poly(pool, max_deg, max_roots, constants=False))
        out['eq'].append(f)
        n = max(0, n - 1)
    elif style == 1:        # open or closed interval that may be a single point or empty
        a, b = draw(st.integers(-4, 4)), draw(st.integers(-4, 4))
        out[draw(st.sampled_from(['le', 'lt']))].append([-b, 1])
        out[draw(st.sampled_from(['le', 'lt']))].append([a, -1])
        n = max(0, n - 2)
    elif style == 2:        # p and -p
        p = draw(poly(pool, max_deg, max_roots))
        out[draw(st.sampled_from(['le', 'lt']))].append(p)
        out[draw(st.sampled_from(OPS4))].append([-c for c in p])
        n = max(0, n - 2)
    elif style == 3:
        # near twins: large coefficients that differ in the last digits
        p = draw(poly(pool, min(max_deg, 3), max_roots, constants=False))
        k = draw(st.sampled_from([10 ** 3, 10 ** 8, 10 ** 15, 2 ** 64]))
        big = [c * k for c in p]
        polys = [big]
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(p) - 1))
            twin = list(big)
            twin[i] += draw(st.sampled_from([1, -1, 3, 10]))
            if nroots(twin) <= max_roots:
                polys.append(twin)
        planted(draw, out, polys, 1)
        focus(draw, out)
        return out
    elif style >= 4:
        planted(draw, out, [draw(poly(pool, max_deg, max_roots, constants=False)) for _ in range(max(1, n))])
        focus(draw, out)
        return out
    for _ in range(n):
        out[draw(st.sampled_from(OPS4))].append(draw(poly(pool, max_deg, max_roots, zero=zero)))
    if draw(st.integers(0, 2)) > 0:
        focus(draw, out)
    return out


def planted(draw, out, polys, points=2):
    """Relations for the polynomials such that a chosen cell, most often an interval, is a solution."""
    rs, table = X.cells([X.norm(p) for p in polys])
    i = draw(st.integers(0, len(table) - 1))
    if i % 2 and draw(st.integers(0, 2)) < points - 1:
        i += draw(st.sampled_from([-1, 1]))
    i = min(i, len(table) - 1)
    for p, s in zip(polys, table[i][1]):
        if s > 0 and draw(st.integers(0, 3)):
            p, s = [-c for c in p], -1
        op = draw(st.sampled_from([o for o in OPS4 if X.OK[o](s)]))
        out[op].append(p)


def focus(draw, out):
    """Cut a system with many solutions down to (about) one cell, by bounds at the ends of that cell.

    Decision procedures look at one candidate per end point of the solution set: with one cell left, exactly one
    candidate is right, and it is the end of a generated polynomial of a generated kind."""
    cs = constraints(out)
    rs, table = X.cells([p for _, p in cs])
    hits = [i for i, (k, v) in enumerate(table) if all(X.OK[op](s) for (op, _), s in zip(cs, v))]
    if len(hits) < 2:
        return
    i = draw(st.sampled_from(hits))
    # cell i is an interval between root i/2 - 1 and root i/2 if even, root (i-1)/2 if odd
    left = (i // 2 - 1) if i % 2 == 0 else (i - 1) // 2
    right = (i // 2) if i % 2 == 0 else (i - 1) // 2
    if left >= 0:
        lo = rs[left]
        if lo.lo == lo.hi:
            out['le'].append([lo.lo.numerator, -lo.lo.denominator])
        else:           # a rational between this root and the one before it
            a = (rs[left - 1].hi + lo.lo) / 2 if left else lo.lo - 1
            if i % 2 == 0:
                a = lo.hi if draw(st.booleans()) else a
            out[draw(st.sampled_from(['le', 'lt']))].append([a.numerator, -a.denominator])
    if right < len(rs) and draw(st.integers(0, 3)):
        hi = rs[right]
        b = hi.hi
        out['le' if i % 2 or draw(st.booleans()) else 'lt'].append([-b.numerator, b.denominator])


def constraints(c):
    return [(k, X.norm(p)) for k in OPS4 for p in c[k]]


# ---- expression trees: see ops_vts.build ----

NAMES = ['x', 'y', 't', 'skoX', '_a', 'x1']


def as_expr(draw, p, name, style=None):
    """An expression tree equal to the integer polynomial p times a positive rational (p may be [])."""
    v = ['v', name]
    d = draw(st.sampled_from([1, 1, 1, 2, 3, 6, 7]))

    def n(c):
        c = F(c) / d
        return ['n', int(c) if c.denominator == 1 else '%d/%d' % (c.numerator, c.denominator)]

    def power(k):
        return v if k == 1 else ['^', v, k]
    style = draw(st.integers(0, 4)) if style is None else style
    if not p:
        return draw(st.sampled_from([['n', 0], ['-', v, v], ['-', ['*', v, ['-', v, ['n', 1]]], ['-', ['^', v, 2], v]]]))
    if style in (0, 4):         # expanded, any order, possibly with cancelling terms
        terms = [n(c) if i == 0 else ['*', n(c), power(i)] for i, c in enumerate(p) if c]
        if style == 4:
            k = draw(st.integers(1, len(p) + 1))
            c = draw(st.integers(1, 5))
            terms += [['*', n(c), power(k)]]
            order = draw(st.permutations(list(range(len(terms)))))
            e = ['+'] + [terms[i] for i in order] if len(terms) > 1 else terms[0]
            # subtract inside a product so that sympy does not cancel it before expansion
            return ['-', e, ['*', ['n', 1], ['*', n(c), power(k)]]] if draw(st.booleans()) else \
                ['+', e, ['neg', ['*', n(c), power(k)]]]
        order = draw(st.permutations(list(range(len(terms)))))
        return ['+'] + [terms[i] for i in order] if len(terms) > 1 else terms[0]
    if style == 1:              # Horner
        e = n(p[-1])
        for c in reversed(p[:-1]):
            e = ['+', n(c), ['*', v, e]]
        return e
    if style == 2:              # shifted: a(x+1) written in powers of (x+1)
        s = draw(st.integers(-2, 2))
        q = X.norm(p)
        # p(x) = sum c_k (x - s)^k
        cs = []
        while q:
            q, r = X.divmod_(q, X.norm([-s, 1]))
            cs.append(r[0] if r else F(0))
        base = ['-', v, ['n', s]]
        e = n(cs[0])
        for k, c in enumerate(cs[1:], 1):
            e = ['+', e, ['*', n(c), ['^', base, k]]]
        return e
    # difference of two polynomials
    q = [draw(st.integers(-3, 3)) for _ in range(len(p))]
    left = as_expr_plain([a + b for a, b in zip(p, q)], v, d)
    right = as_expr_plain(q, v, d)
    return ['-', left, ['*', ['n', 1], right]]


def as_expr_plain(p, v, d):
    def n(c):
        c = F(c) / d
        return ['n', int(c) if c.denominator == 1 else '%d/%d' % (c.numerator, c.denominator)]
    terms = [n(c) if i == 0 else ['*', n(c), v if i == 1 else ['^', v, i]] for i, c in enumerate(p)]
    return ['+'] + terms if len(terms) > 1 else terms[0]


def expr_poly(e):
    """Univariate polynomial of an expression tree (all variables identified)."""
    k = e[0]
    if k in ('n', 'int'):
        return X.norm([F(e[1]) if not isinstance(e[1], dict) else F(e[1]['f'])])
    if k == 'v':
        return [F(0), F(1)]
    if k == '^':
        return X.power(expr_poly(e[1]), e[2])
    a = [expr_poly(z) for z in e[1:]]
    if k == 'neg':
        return X.neg(a[0])
    if k == '-':
        return X.sub(a[0], a[1])
    r = a[0]
    for b in a[1:]:
        r = X.add(r, b) if k == '+' else X.mul(r, b)
    return r


@st.composite
def symbolic_system(draw, **kw):
    c = draw(system(**kw))
    name = draw(st.sampled_from(NAMES))
    return {k: [as_expr(draw, p, name) for p in c[k]] for k in OPS4}
