# Jython ops around /repo/vts
import os
import sys

import sympy

from harness import need
import harness

import isym
import uni_vts
import matrix_of_signs
import z3rcf

Q = sympy.Rational


def num(s):
    """JSON number -> sympy number: int, 'n/d', or {'f': '1.5'} for a Float."""
    if isinstance(s, (int, long)):
        return sympy.Integer(s)
    if isinstance(s, dict):
        return sympy.Float(s['f'])
    n, d = str(s).split('/')
    return Q(int(n), int(d))


def ints(p):
    return [int(c) if not isinstance(c, float) else c for c in p]


def plist(ps):
    return [ints(p) for p in ps]


def groups(c):
    return [plist(c[k]) for k in ('le', 'lt', 'eq', 'ne')]


def truth(v):
    if v is True or v is False:
        return v
    raise TypeError('not a bool: %r' % (v,))


def guard_roots(guard):
    """The root isolation library itself (z3rcf) is not under test and has wrong answers for some polynomials with
    large roots.  guard: [[poly, [[lo, hi], ...]], ...] exact tight bounds of its real roots."""
    for p, bounds in guard:
        rs = z3rcf.MkRoots(ints(p))
        good = len(rs) == len(bounds)
        if good:
            for r, (lo, hi) in zip(rs, bounds):
                if not (r >= lo and r <= hi):
                    good = False
        if not good:
            raise harness.LibraryWrong(str(p))


def op_guard_signs(table):
    """[[poly, [[others], [[signs at root 0], ...], [[signs right of root 0], ...]]]]: asked only before a violation is reported."""
    eps = z3rcf.MkInfinitesimal('eps')

    def sign(q, x):
        v = z3rcf.MkSmall(0) if hasattr(z3rcf, 'MkSmall') else 0
        for c in reversed(ints(q)):
            v = v * x + c
        return 0 if v == 0 else 1 if v > 0 else -1
    for p, others, at, right in table:
        rs = z3rcf.MkRoots(ints(p))
        got = [[sign(q, r) for q in others] for r in rs]
        gotr = [[sign(q, r + eps) for q in others] for r in rs]
        if got != at or gotr != right:
            raise harness.LibraryWrong(str(p))
    return True


def op_guard(guard):
    guard_roots(guard)
    return True


def op_ivts(c):
    return truth(need(uni_vts, 'internal_vts')(*groups(c)))


def op_its(c):
    return truth(need(uni_vts, 'internal_ts')(*groups(c)))


# ---- symbolic expressions: ['n', num], ['v', name], ['+', a, b...], ['*', ...], ['-', a, b], ['neg', a], ['^', a, k] ----

def build(e, env=None):
    k = e[0]
    if k == 'n':
        return num(e[1])
    if k == 'int':
        return int(e[1])
    if k == 'v':
        return sympy.Symbol(str(e[1]))
    a = [build(x, env) for x in e[1:]] if k != '^' else [build(e[1], env)]
    if k == '+':
        r = a[0]
        for b in a[1:]:
            r = r + b
        return r
    if k == '*':
        r = a[0]
        for b in a[1:]:
            r = r * b
        return r
    if k == '-':
        return a[0] - a[1]
    if k == 'neg':
        return -a[0]
    if k == '^':
        return a[0] ** e[2]
    raise ValueError(k)


def exprs(c):
    return [[build(e) for e in c[k]] for k in ('le', 'lt', 'eq', 'ne')]


def op_vts(c):
    return truth(need(isym, 'vts')(*exprs(c)))


def op_ts(c):
    return truth(need(isym, 'ts')(*exprs(c)))


# polynomials over Q[eps]: a coefficient is a list of ints, index = power of eps

_eps = []


def eps_at(level):
    while len(_eps) <= level:
        _eps.append(z3rcf.MkInfinitesimal('e%d' % len(_eps)))
    return _eps[level]


def rcf(coef, nested):
    if isinstance(coef, (int, long)):
        return int(coef)
    r = 0
    for (c, a, b) in coef:          # c * e0^a * e1^b
        t = int(c)
        if a:
            t = t * eps_at(0) ** int(a)
        if b:
            t = t * eps_at(1) ** int(b)
        r = r + t
    return r


def op_ivts_eps(c):
    g = [[[rcf(k, 0) for k in p] for p in c[n]] for n in ('le', 'lt', 'eq', 'ne')]
    return truth(need(uni_vts, 'internal_vts')(*g))


def op_guard_eps(polys):
    """[[coefs, roots]]: does the library find exactly the known roots?"""
    for coefs, roots in polys:
        want = []
        for r in roots:
            eps_at(1)
            v = (rcf(r[0], 0) + (eps_at(0) - eps_at(0))) / (rcf(r[1], 0) + (eps_at(0) - eps_at(0)))
            if not any(v == w for w in want):
                want.append(v)
        got = z3rcf.MkRoots([rcf(c, 0) for c in coefs])
        if len(got) != len(want) or not all(any(g == w for g in got) for w in want):
            raise harness.LibraryWrong(str(coefs))
    return True


# ---- pieces ----

def plain(v):
    """Coefficient -> 'n/d' text."""
    if isinstance(v, (int, long)):
        return str(v)
    v = sympy.nsimplify(v) if isinstance(v, float) else sympy.sympify(v)
    return '%d/%d' % (v.p, v.q)


def plains(p):
    return [plain(c) for c in p]


def op_tarski(p, q):
    return int(need(uni_vts, 'tarski_query')(ints(p), ints(q)))


def op_cauchy(p, q):
    return int(need(uni_vts, 'signed_remainder_cauchy_index')(ints(p), ints(q)))


def op_srs(p, q):
    return [plains(s) for s in need(uni_vts, 'signed_remainder_sequence')(ints(p), ints(q))]


def op_prem(f, g):
    return plains(need(uni_vts, 'signed_pseudo_remainder')(ints(f), ints(g)))


def op_mult(p, q):
    return plains(need(uni_vts, 'multiply')(ints(p), ints(q)))


def op_products(ps):
    return [plains(s) for s in need(uni_vts, 'make_product_list')(plist(ps))]


def op_deriv(p):
    return plains(need(uni_vts, 'derivative')(ints(p)))


def op_evalpoly(p, x):
    return plain(need(uni_vts, 'evaluate_poly')(ints(p), num(x)))


def encodings(p):
    p = ints(p)
    roots = z3rcf.MkRoots(p)
    enc = need(uni_vts, 'get_discri_der_signs')(roots, p)
    for d in enc:
        d.set_origin_poly(p)
    return p, roots, enc


def op_encodings(p):
    """Root encodings of p: for each, the position of its point among the roots and its (poly, sign) list."""
    p, roots, enc = encodings(p)
    out = []
    for d in enc:
        at = [i for i, r in enumerate(roots) if r == d.point]
        out.append([at[0] if len(at) == 1 else -1,
                    [[plains(q), int(d.get_sign(q))] for q in d.get_all_polies()]])
    return {'roots': len(roots), 'enc': out}


def op_signs_at(p, goals):
    """For every encoded root of p (position), the sign of each goal at it and just right of it."""
    p, roots, enc = encodings(p)
    at_f = need(uni_vts, 'evaluate_single_on_sign_assignment')
    right_f = need(uni_vts, 'e_close_evaluate_single_on_sign_assignment')
    out = []
    for d in enc:
        i = [i for i, r in enumerate(roots) if r == d.point][0]
        out.append([i, [[int(at_f(d, ints(g))), int(right_f(d, ints(g)))] for g in goals]])
    return out


# ---- sign matrices ----

def mat(m):
    return [[plain(m[i, j]) for j in range(m.cols)] for i in range(m.rows)]


def op_matrix(n, inverse):
    f = need(matrix_of_signs, 'get_matrix_inverse' if inverse else 'get_matrix')
    return mat(f(n))


# ---- isym.convert ----

def op_convert(e):
    r = need(isym, 'convert')(build(e))
    return {'coefs': [str(c) for c in r], 'types': [type(c).__name__ for c in r]}


def op_convert_back(p):
    r = sympy.Poly(need(isym, 'convert_back')(ints(p)), sympy.Symbol('x'))
    return [plain(c) for c in reversed(r.all_coeffs())]


def op_round_trip(p):
    """convert(convert_back(p))"""
    return [str(c) for c in need(isym, 'convert')(need(isym, 'convert_back')(ints(p)))]


OPS = dict((k[3:], v) for k, v in globals().items() if k.startswith('op_'))
