"""vts: the GRF text format, trace files, the pickled example store, and the checker that runs on it."""
import re
from fractions import Fraction as F

from hypothesis import strategies as st

from . import exact as X
from . import gen
from .core import Check, Skip, Violation
from .vts_checks import VTS, guard, satisfiable

COMMON = ['x', 'y', 'z', 'skoX', 'x_1', '_t', 'X', 'aVeryLongVariableName_0']
# names that also mean something in Python, in the parser, or in sympy
ODD = ['sympy', 'pyp', 'term', 'int', 'nat', 'real', 'number', 'doInt', 'doVariable', 'proc_le', 'fn_add', 'lit_minus',
       'sequent', 'antecedent', 'succedent', 'S', 'I', 'E', 'pi', 'N', 'Q', 'O', 'C', 'lambda', 'None', 'True', 'print', 's', 'l', 't', 'cmd', 'fmls', 'rln']


# terms: ['n', 'text', 'value'], ['v', name], [op, a, b], ['neg', a]

def tev(t, pt):
    """Exact value of a term, None where it divides by zero."""
    k = t[0]
    if k == 'n':
        return F(t[2])
    if k == 'v':
        return F(pt[t[1]])
    a = tev(t[1], pt)
    if a is None:
        return None
    if k == 'neg':
        return -a
    b = tev(t[2], pt)
    if b is None:
        return None
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a * b
    return a / b if b else None


def float_size(t, pt):
    """(bound of the absolute values, common denominator, exact): exact if doubles hold every intermediate value."""
    k = t[0]
    if k in 'nv':
        v = F(t[2]) if k == 'n' else F(pt[t[1]])
        m, d, ok = abs(v), v.denominator, True
    else:
        m, d, ok = float_size(t[1], pt)
        if k != 'neg':
            m2, d2, ok2 = float_size(t[2], pt)
            ok = ok and ok2
            if k in '+-':
                m, d = m + m2, max(d, d2)
            elif k == '*':
                m, d = m * m2, d * d2
            else:
                c = abs(F(t[2][2]))
                m, d = m / c, d * c.numerator
    return m, d, ok and m * d < 2 ** 50


def term_vars(t):
    if t[0] == 'v':
        return {t[1]}
    if t[0] == 'n':
        return set()
    return set().union(*[term_vars(a) for a in t[1:]])


def tpoly(t, name=None):
    """Univariate polynomial with all variables identified (no division by variables)."""
    k = t[0]
    if k == 'n':
        return X.norm([F(t[2])])
    if k == 'v':
        return [F(0), F(1)]
    a = tpoly(t[1])
    if k == 'neg':
        return X.neg(a)
    b = tpoly(t[2])
    if k == '+':
        return X.add(a, b)
    if k == '-':
        return X.sub(a, b)
    if k == '*':
        return X.mul(a, b)
    return X.scale(a, 1 / b[0])


@st.composite
def number(draw, floats):
    n = draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(0, 9), st.integers(0, 10 ** 12), st.integers(0, 10 ** 25)))
    style = draw(st.integers(0, 6 if floats else 4))
    sign = '-' if draw(st.integers(0, 3)) == 0 else ''
    if sign and draw(st.integers(0, 3)) == 0:
        sign = '- '
    m = -1 if sign else 1
    if style <= 2:
        return ['n', sign + ('00' if style == 2 and n < 10 else '') + str(n), str(m * n)]
    if style <= 4:
        return ['n', sign + '%d.' % n, str(m * n)]
    n = n % 1000
    frac, val = draw(st.sampled_from([('5', F(1, 2)), ('25', F(1, 4)), ('0', F(0)), ('750', F(3, 4)), ('125', F(1, 8)), ('0625', F(1, 16)), ('00', F(0)), ('03125', F(1, 32))]))
    return ['n', sign + '%d.%s' % (n, frac), str(m * (n + val))]


@st.composite
def term(draw, names, depth, floats=False, divide=True, negs=2):
    k = draw(st.integers(0, 11)) if depth > 0 else draw(st.integers(0, 3))
    if k <= 1:
        return ['v', draw(st.sampled_from(names))]
    if k <= 3:
        return draw(number(floats))
    if k <= 9:
        op = ['+', '-', '*'][k % 3]
        return [op, draw(term(names, depth - 1, floats, divide, negs)), draw(term(names, depth - 1, floats, divide, negs))]
    if k == 10 and negs:
        return ['neg', draw(term(names, depth - 1, floats, divide, negs - 1))]
    if k == 11 and divide:
        a = draw(term(names, depth - 1, floats, divide, negs))
        if floats:
            c = draw(st.sampled_from([1, 2, 4, 8]))
            b = ['n', draw(st.sampled_from(['%d', '%d.', '%d.0'])) % c, str(c)]
        elif divide == 'constants' or draw(st.integers(0, 2)):
            c = draw(st.integers(1, 12))
            b = draw(st.sampled_from([['n', '%d' % c, str(c)], ['n', '%d.' % c, str(c)], ['n', '-%d' % c, str(-c)],
                                      ['neg', ['n', '%d' % c, str(c)]]]))
        else:
            b = ['v', draw(st.sampled_from(names))]
        return ['/', a, b]
    return ['v', draw(st.sampled_from(names))]


def text(draw, t):
    def sp(required):
        w = draw(st.sampled_from([' ', ' ', ' ', ' ', '  ', '\n', ' \n  ', '\t']))
        if not required and draw(st.integers(0, 2)):
            return ''
        return w

    def go(t):
        if t[0] == 'n':
            return t[1]
        if t[0] == 'v':
            return t[1]
        op = '-' if t[0] == 'neg' else t[0]
        parts = [go(a) for a in t[1:]]
        # a space after the operator unless the operand cannot run into it
        out = '(' + sp(False) + op
        for i, a in enumerate(parts):
            need = not (i == 0 and (a[0] == '(' or (op in '+*/' and a[0] not in '-.'))) and not a[0] == '('
            if op in ('<', '>', '<=', '>=', '=', '!='):
                need = True
            out += sp(need) + a
        return out + sp(False) + ')'
    return go(t)


RELS = ['<=', '<', '>=', '>', '=', '!=']
REL_OK = {'<=': lambda d: d <= 0, '<': lambda d: d < 0, '>=': lambda d: d >= 0, '>': lambda d: d > 0,
          '=': lambda d: d == 0, '!=': lambda d: d != 0}


def rel_truth(r, pt):
    a, b = tev(r[1], pt), tev(r[2], pt)
    if a is None or b is None:
        return None
    return REL_OK[r[0]](a - b)


@st.composite
def relation(draw, names, depth, floats=False, divide=True):
    op = draw(st.sampled_from(RELS))
    a = draw(term(names, depth, floats, divide))
    k = draw(st.integers(0, 5))
    if k == 0:
        b = ['n', '0', '0']
    elif k == 1:
        b = a
    else:
        b = draw(term(names, depth, floats, divide))
    return [op, a, b]


DYADIC = ['0', '1', '-1', '2', '-2', '3', '1/2', '-3/2', '7', '-10', '100']


def point_values(draw, names, n=5, pool=DYADIC + ['5/3']):
    vals = st.sampled_from([F(v) for v in pool])
    return [{k: str(draw(vals)) for k in names} for _ in range(n)]


def js(pt):
    """Point for the worker."""
    return {k: (v if '/' in v else int(v)) for k, v in pt.items()}


@st.composite
def texts(draw, tier):
    names = draw(st.lists(st.sampled_from(COMMON), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 2)) == 0:
        names = names + [draw(st.sampled_from(ODD))]
    out = []
    for _ in range(draw(st.integers(1, 4))):
        floats = draw(st.integers(0, 3)) == 0
        if draw(st.integers(0, 5)) == 0:
            out.append({'kind': 'number', 'text': draw(st.sampled_from(['', '-', '- '])) + str(draw(st.integers(0, 10 ** draw(st.integers(1, 9))))) + '.' +
                        ''.join(draw(st.lists(st.sampled_from('0123456789'), min_size=1, max_size=7)))})
            continue
        kind = draw(st.sampled_from(['term', 'rln', 'rln']))
        depth = draw(st.integers(0, 3 if tier == 'quick' else 5))
        t = draw(term(names, depth, floats)) if kind == 'term' else draw(relation(names, min(depth, 3), floats))
        s = text(draw, t)
        item = {'kind': kind, 'ast': t, 'text': s, 'floats': floats}
        if draw(st.integers(0, 7)) == 0:
            # not well-formed: one parenthesis lost or added, or an operand too many
            marks = [i for i, c in enumerate(s) if c in '()']
            if marks:
                i = draw(st.sampled_from(marks))
                item = {'kind': 'bad', 'what': kind, 'text': s[:i] + s[i + 1:]}
            else:
                item = {'kind': 'bad', 'what': kind, 'text': s + ')'}
        out.append(item)
    return {'items': out, 'points': point_values(draw, names), 'dyadic': point_values(draw, names, 5, DYADIC)}


class Parser(Check):
    """C11"""
    id = 'C11'
    ops = ('ops_parse',)
    paths = VTS
    quick = 220
    thorough = 4000
    rule = ('a case is a sequence of terms and relations rendered as text (all operators and number formats, free white space, variable '
            'names that collide with Python, sympy and the parser itself, some texts with a parenthesis lost) parsed in one '
            'interpreter and evaluated exactly at rational points; non-trivial: a term of depth >= 1 with a variable')
    assumptions = ['numbers with a fractional part are dyadic and only divided by powers of two, so that floating point is exact; where doubles are too short, a tolerance is used']

    def strategy(self, tier):
        return texts(tier)

    def run(self, ctx, case):
        for it in case['items']:
            pts = case['dyadic' if it.get('floats') else 'points']
            ctx.label(it['kind'])
            if it['kind'] == 'bad':
                r = ctx.call('reject', text=it['text'], what=it['what'])
                if r.raised or r.ok:
                    raise Violation('%r is not well formed, but: %s' % (it['text'], r))
                continue
            if it['kind'] == 'number':
                r = ctx.call('term', text=it['text'], points=[{}])
                want = F(it['text'].replace(' ', ''))
                if r.raised or r.ok[0].startswith('not') or abs(F(r.ok[0]) - want) > abs(want) / 10 ** 13:
                    raise Violation('the number %r is parsed as %s' % (it['text'], r))
                continue
            t = it['ast']
            vs = term_vars(t if it['kind'] == 'term' else ['+', t[1], t[2]])
            ctx.nontrivial(bool(vs) and any(a[0] not in 'nv' for a in ([t] if it['kind'] == 'term' else t[1:])))
            if vs & set(ODD):
                ctx.label('variable named like something else')
            r = ctx.call(it['kind'], text=it['text'], points=[js(p) for p in pts])
            if r.raised:
                raise Violation('parsing %r %s' % (it['text'], r))
            for p, got in zip(pts, r.ok):
                if it.get('floats'):
                    m, _, exact = float_size(t if it['kind'] == 'term' else ['-', t[1], t[2]], p)
                    if not exact:
                        ctx.label('too long for doubles: compared with a tolerance')
                        if it['kind'] == 'term':
                            if got.startswith('not') or abs(F(got) - tev(t, p)) > m / 10 ** 11:
                                raise Violation('%r at %r is %s, parsed as %s' % (it['text'], p, tev(t, p), got))
                        elif abs(tev(t[1], p) - tev(t[2], p)) > m / 10 ** 11 and got != rel_truth(t, p):
                            raise Violation('%r at %r is %s, parsed as %s' % (it['text'], p, rel_truth(t, p), got))
                        continue
                if it['kind'] == 'term':
                    want = tev(t, p)
                    ok = want is None or (not got.startswith('not') and F(got) == want)
                else:
                    want = rel_truth(t, p)
                    ok = want is None or got == want
                    if want is not None and tev(t[1], p) == tev(t[2], p):
                        ctx.label('relation evaluated where both sides are equal')
                if not ok:
                    raise Violation('%r at %r is %s, parsed as %s' % (it['text'], p, want, got))


# ---- trace files ----

NOISE = ['', '\n', '-----[begin problem]-----\n', '% In Mathematica format:\nTiming[Resolve[Exists[{x}, And[x*(-1+x)<=0]], Reals]]\n',
         '(E x) [[(x (-1+(x (-1))))<=0]/\\[0<x]].\n', '(declare-fun x () Real) (assert (and (<= (* x 2.) 0.)))\n',
         '; sequent\n', '(sequents)\n', '(antecedent (<= x 1))\n', '"quoted"\n', '(<= x 0)\n', ')\n', '(\n', '(sequent "unfinished" (antecedent\n']


@st.composite
def sequent(draw, names, max_f=3, min_f=0, depth=2, divide=True):
    na, ns = draw(st.integers(min_f, max_f)), draw(st.integers(min_f, 2))
    if draw(st.integers(0, 9)) == 0:        # many short formulas
        na, ns, depth = draw(st.integers(4, 9)), draw(st.integers(2, 7)), 1
    ante = [draw(relation(names, depth, False, divide)) for _ in range(na)]
    succ = [draw(relation(names, depth, False, divide)) for _ in range(ns)]
    return {'name': draw(st.sampled_from(['a', 'Problem 1', 'x<=y & (z)', 'two\nlines', "it's", 'sequent'])), 'ante': ante, 'succ': succ}


def sequent_text(draw, s):
    def w():
        return draw(st.sampled_from([' ', '\n', '\n   ', '  ']))
    return '(sequent' + w() + '"%s"' % s['name'] + w() + \
        '(antecedent' + ''.join(w() + text(draw, r) for r in s['ante']) + ')' + w() + \
        '(succedent' + ''.join(w() + text(draw, r) for r in s['succ']) + '))'


@st.composite
def trace(draw, names, max_s=4, **kw):
    n = draw(st.integers(0, max_s))
    if max_s > 3 and draw(st.integers(0, 9)) == 0:
        n, kw = draw(st.integers(5, 12)), dict(kw, max_f=1, depth=1)
    seqs = [draw(sequent(names, **kw)) for _ in range(n)]
    out = draw(st.sampled_from(NOISE))
    for s in seqs:
        out += draw(st.sampled_from(['', '\n', ' '])) + sequent_text(draw, s) + draw(st.sampled_from(NOISE))
    return {'seqs': seqs, 'text': out}


@st.composite
def traces(draw, tier):
    names = draw(st.lists(st.sampled_from(COMMON), min_size=1, max_size=3, unique=True))
    files = {}
    for n in draw(st.lists(st.sampled_from(['a.trace', 'b.trace', 'noext', 'Z-1.trace', 'a.trace~', 'sub/c.trace', 'sub/deep er/d.trace']), min_size=1, max_size=3, unique=True)):
        files[n] = draw(trace(names))
    return {'files': files, 'points': point_values(draw, names, 4)}


class TraceFiles(Check):
    """C12"""
    id = 'C12'
    ops = ('ops_parse',)
    paths = VTS
    quick = 90
    thorough = 1500
    rule = ('a case is a directory of trace files, each a generated mix of noise (other formats of the same problem, stray '
            'parentheses, comments) and sequents; non-trivial: at least two sequents with formulas in one file')

    def strategy(self, tier):
        return traces(tier)

    def run(self, ctx, case):
        pts = case['points']
        r = ctx.call('sequents', files={k: v['text'] for k, v in case['files'].items()}, points=[js(p) for p in pts])
        if r.raised:
            raise Violation('reading %r %s' % ({k: v['text'] for k, v in case['files'].items()}, r))
        base = {k: k.split('/')[-1] for k in case['files']}       # files are named without their subdirectory
        if sorted(r.ok) != sorted(base.values()):
            raise Violation('files read: %r, there are %r' % (sorted(r.ok), sorted(case['files'])))
        for k, v in case['files'].items():
            full = [s for s in v['seqs'] if s['ante'] and s['succ']]
            ctx.label('%d sequents' % len(v['seqs']))
            ctx.nontrivial(len(full) > 1)
            got = r.ok[base[k]]
            names = [g['name'] for g in got]
            if names != [s['name'] for s in v['seqs']]:
                raise Violation('sequents found in %r: %r, there are %r' % (v['text'], names, [s['name'] for s in v['seqs']]))
            for s, g in zip(v['seqs'], got):
                for part in ('ante', 'succ'):
                    if len(g[part]) != len(s[part]):
                        raise Violation('%d formulas instead of %d in %s of %r' % (len(g[part]), len(s[part]), part, v['text']))
                    for rel, truths in zip(s[part], g[part]):
                        for p, t in zip(pts, truths):
                            w = rel_truth(rel, p)
                            if w is not None and w != t:
                                raise Violation('formula %r of %r at %r: %s' % (rel, v['text'], p, t))


# ---- make_univariate ----

@st.composite
def uni_case(draw, tier):
    names = draw(st.lists(st.sampled_from(COMMON), min_size=1, max_size=4, unique=True))
    divide = draw(st.sampled_from(['constants', 'constants', True]))
    rels = [draw(relation(names, draw(st.integers(0, 3)), False, divide)) for _ in range(draw(st.integers(0, 4)))]
    xs = draw(st.lists(st.sampled_from(['0', '1', '-1', '2', '-2', '1/2', '-3/2', '3', '7']), min_size=4, max_size=6, unique=True))
    return {'rels': rels, 'texts': [text(draw, r) for r in rels], 'xs': xs}


class Univariate(Check):
    """C13"""
    id = 'C13'
    ops = ('ops_parse',)
    paths = VTS
    quick = 130
    thorough = 2500
    rule = ('lists of parsed multivariate relations (some already decided by sympy); compared at rational points, all variables '
            'identified (not where a relation divides by zero); non-trivial: a relation with two or more variables')

    def strategy(self, tier):
        return uni_case(tier)

    def run(self, ctx, case):
        ctx.nontrivial(any(len(term_vars(['+', r[1], r[2]])) > 1 for r in case['rels']))
        ctx.label('%d relations' % len(case['rels']))
        r = ctx.call('univariate', texts=case['texts'], points=[x if '/' in x else int(x) for x in case['xs']])
        if r.raised:
            raise Violation('univariate forms of %r %s' % (case['texts'], r))
        if len(r.ok) != len(case['rels']):
            raise Violation('%d univariate forms of %r' % (len(r.ok), case['texts']))
        for rel, tx, (zero, only, truths) in zip(case['rels'], case['texts'], r.ok):
            if not zero:
                raise Violation('the univariate form of %r has a right hand side' % tx)
            if not only:
                raise Violation('the univariate form of %r has a variable other than x' % tx)
            everything = sorted(term_vars(['+', rel[1], rel[2]]))
            for x, t in zip(case['xs'], truths):
                w = rel_truth(rel, {n: x for n in everything})
                if w is None:
                    ctx.label('divides by zero')
                elif t != w:
                    raise Violation('the univariate form of %r at x = %s is %s instead of %s' % (tx, x, t, w))


# ---- the checker's reduction ----

SIX = ['le', 'lt', 'eq', 'ne', 'ge', 'gt']


@st.composite
def implication(draw, tier, bools=True, max_a=3, max_s=3, **kw):
    pool = draw(st.lists(gen.factor(), min_size=1, max_size=2))

    def rel():
        if bools and draw(st.integers(0, 9)) == 0:
            return ['bool', draw(st.booleans())]
        p = draw(gen.poly(pool, 3, 3, constants=False))
        return [draw(st.sampled_from(SIX)), gen.as_expr(draw, p, 'x', style=draw(st.sampled_from([0, 1])))]
    more = 3 if draw(st.integers(0, 7)) == 0 else 0
    ante = [rel() for _ in range(draw(st.integers(1, max_a + more)))]
    succ = [rel() for _ in range(draw(st.integers(1, max_s + more)))]
    xs = set(['0', '1', '-1', '2', '-3/2'])
    for r in ante + succ:
        if r[0] != 'bool':
            for root in X.roots(gen.expr_poly(r[1])):
                if root.lo == root.hi:
                    xs.add(str(root.lo))
    xs = sorted(xs)[:9]
    return {'ante': ante, 'succ': succ, 'xs': xs}


def spec_truth(r, x):
    if r[0] == 'bool':
        return r[1]
    return X.OK[r[0]](X.sgn(X.ev(gen.expr_poly(r[1]), F(x))))


class Preformat(Check):
    """C14"""
    id = 'C14'
    ops = ('ops_parse',)
    paths = VTS
    quick = 130
    thorough = 2500
    rule = ('implications of all six relations (true and false among them) with shared rational roots; evaluated at rational points '
            'that include those roots; non-trivial: >= and > or = occur and there are two succedents')

    def strategy(self, tier):
        return implication(tier)

    def run(self, ctx, case):
        ante, succ, xs = case['ante'], case['succ'], case['xs']
        jx = [x if '/' in x else int(x) for x in xs]
        rels = [r for r in ante + succ if r[0] != 'bool']
        ctx.nontrivial(len(set(r[0] for r in rels) - {'le', 'lt'}) > 0 and len(succ) > 1)
        r = ctx.call('negate', rels=rels, points=jx)
        if r.raised or len(r.ok) != len(rels):
            raise Violation('negating %r: %r' % (rels, r))
        for rel, truths in zip(rels, r.ok):
            for x, t in zip(xs, truths):
                if t is not (not spec_truth(rel, x)):
                    raise Violation('the negation of %r at x = %s is %s' % (rel, x, t))
        r = ctx.call('rewrite', rels=rels, points=jx)
        if r.raised or len(r.ok) != len(rels):
            raise Violation('rewriting %r: %r' % (rels, r))
        for rel, (cls, truths) in zip(rels, r.ok):
            if cls in ('GreaterThan', 'StrictGreaterThan'):
                raise Violation('%r is rewritten to a %s' % (rel, cls))
            for x, t in zip(xs, truths):
                if t is not spec_truth(rel, x):
                    raise Violation('%r rewritten to less is %s at x = %s' % (rel, t, x))
        real_a = [r for r in ante if r != ['bool', True]]
        real_s = [r for r in succ if r != ['bool', True]]
        r = ctx.call('preformat', ante=ante, succ=succ, points=jx)
        if not real_a or not real_s:
            ctx.label('only true on one side')
            if r.raised and r.etype == 'Exception':
                return              # declined, as the code says
        if r.raised:
            raise Violation('preformat of %r => %r %s' % (ante, succ, r))
        for i, x in enumerate(xs):
            want = all(spec_truth(a, x) for a in ante) and not all(spec_truth(s, x) for s in succ)
            got = any(all(t[i] is True for t in c['truth']) for c in r.ok)
            ctx.label('counterexample point' if want else 'no counterexample at the point')
            if got != want:
                raise Violation('%r => %r at x = %s: the clauses say %s' % (ante, succ, x, 'refuted' if got else 'not refuted'))
            for c in r.ok:
                m = [X.OK[k](X.sgn(F(v[i]))) for k, v in c['map']]
                if all(m) != all(t[i] is True for t in c['truth']):
                    raise Violation('the relation map of a clause of %r => %r differs from the clause at x = %s' % (ante, succ, x))


# ---- pickled examples, end to end ----

@st.composite
def store_case(draw, tier):
    names = draw(st.lists(st.sampled_from(COMMON), min_size=1, max_size=2, unique=True))
    files = {}
    for n in draw(st.lists(st.sampled_from(['a.trace', 'b.trace', 'Z-1.trace', 'sub/c.trace']), min_size=0, max_size=3, unique=True)):
        files[n] = draw(trace(names, 3, divide='constants'))
    before = {}
    if files and draw(st.booleans()):       # an earlier version of some of the files was stored before
        for n in draw(st.lists(st.sampled_from(sorted(files)), min_size=1, unique=True)):
            before[n] = draw(trace(names, 2, divide='constants'))['text']
    xs = draw(st.lists(st.sampled_from(['0', '1', '-1', '2', '1/2']), min_size=3, max_size=4, unique=True))
    return {'files': files, 'before': before, 'xs': xs}


class Store(Check):
    """C15"""
    id = 'C15'
    ops = ('ops_parse',)
    paths = VTS
    quick = 60
    thorough = 1000
    rule = ('a case is a set of trace files; they are parsed, written to the example store (half the time over earlier versions) and read back in both ways in a scratch '
            'tree; non-trivial: at least one sequent with formulas')

    def strategy(self, tier):
        return store_case(tier)

    def run(self, ctx, case):
        xs = case['xs']
        files = {'GRF/Examples/MetiTarski/' + k: v['text'] for k, v in case['files'].items()}
        ctx.nontrivial(any(s['ante'] or s['succ'] for v in case['files'].values() for s in v['seqs']))
        ctx.label('%d files' % len(files))
        want = {}
        for k, v in case['files'].items():
            want[k.split('/')[-1]] = [[[[REL_OK[r[0]](X.ev(X.sub(tpoly(r[1]), tpoly(r[2])), F(x))) for x in xs] for r in s[part]]
                        for part in ('ante', 'succ')] for s in v['seqs']]
        before = {'GRF/Examples/MetiTarski/' + k: v for k, v in case.get('before', {}).items()}
        if before:
            ctx.label('stored over an earlier version')
        r = ctx.call('store', files=files, before=before, points=[x if '/' in x else int(x) for x in xs])
        if r.raised:
            raise Violation('storing %r %s' % (files, r))

        def flat(d):
            """{file: examples} over all directories; the stored names carry a suffix."""
            out = {}
            for sub in d.values():
                for f, c in sub.items():
                    out[f[:-4] if f.endswith('.pkl') else f] = c
            return out
        for how in ('direct', 'stored'):
            if flat(r.ok[how]) != want:
                raise Violation('%s examples of %r: %r instead of %r' % (how, files, r.ok[how], want))
        key = lambda c: repr(c)
        if sorted(r.ok['gen'], key=key) != sorted(want.values(), key=key):
            raise Violation('examples of %r read one by one: %r instead of %r' % (files, r.ok['gen'], want))


@st.composite
def e2e_case(draw, tier):
    names = draw(st.lists(st.sampled_from(COMMON), min_size=1, max_size=2, unique=True))
    pool = draw(st.lists(gen.factor(), min_size=1, max_size=2))

    def poly_term(p, name):
        t = ['n', str(p[-1]), str(p[-1])]
        for c in reversed(p[:-1]):
            t = ['+', ['n', str(c), str(c)], ['*', ['v', name], t]]
        return t

    def rel():
        p = draw(gen.poly(pool, 3, 3, constants=False))
        k = draw(st.integers(0, len(p) - 1))
        q = [0] * k + [draw(st.integers(-3, 3))]
        op = draw(st.sampled_from(RELS))
        left = [a + b for a, b in zip(p, q + [0] * len(p))]
        while len(left) > 1 and left[-1] == 0:
            left = left[:-1]
        return [op, poly_term(left, draw(st.sampled_from(names))), poly_term(q, draw(st.sampled_from(names)))]

    files = {}
    for n in draw(st.lists(st.sampled_from(['a.trace', 'b.trace', 'c.trace']), min_size=1, max_size=2, unique=True)):
        seqs = []
        for _ in range(draw(st.integers(1, 2))):
            seqs.append({'name': 's', 'ante': [rel() for _ in range(draw(st.integers(1, 2)))],
                         'succ': [rel() for _ in range(draw(st.integers(1, 2)))]})
        files[n] = {'seqs': seqs, 'text': ''.join(sequent_text(draw, s) + '\n' for s in seqs)}
    return {'files': files, 'vts': draw(st.integers(0, 2)) > 0}


NEG = {'<=': '>', '<': '>=', '>=': '<', '>': '<=', '=': '!=', '!=': '='}
OPN = {'<=': 'le', '<': 'lt', '>=': 'ge', '>': 'gt', '=': 'eq', '!=': 'ne'}


class EndToEnd(Check):
    """C16"""
    id = 'C16'
    ops = ('ops_parse',)
    paths = VTS
    quick = 40
    thorough = 700
    rule = ('a case is one or two trace files of sequents in one or two variables (identified by the reader); they are stored and '
            'checked by check_examples with either procedure, and every reported truth value is compared with the exact truth of '
            '"for every x, antecedents imply all succedents"; non-trivial: the truth is not settled by a single formula')
    assumptions = ['sequents whose antecedents or succedents all become trivially true are declined by the code and not generated',
                   'the reported values are the lines "formula value: ..." and "parsing FILE" of check_examples']

    def strategy(self, tier):
        return e2e_case(tier)

    def run(self, ctx, case):
        files = {'GRF/Examples/MetiTarski/' + k: v['text'] for k, v in case['files'].items()}
        want, polys = {}, []
        for k, v in case['files'].items():
            want[k] = []
            for s in v['seqs']:
                form = {part: [(r[0], X.sub(tpoly(r[1]), tpoly(r[2]))) for r in s[part]] for part in ('ante', 'succ')}
                for part in form:
                    if all(len(p) <= 1 and REL_OK[op](p[0] if p else 0) for op, p in form[part]):
                        ctx.label('declined: trivially true side')
                        raise Skip('declined input')
                polys += [gen.ints(p) for part in form for _, p in form[part]]
                a = [(OPN[op], p) for op, p in form['ante']]
                refuted = any(satisfiable(a + [(OPN[NEG[op]], p)])[1] for op, p in form['succ'])
                want[k].append(not refuted)
                ctx.label('formula %s' % (not refuted))
        ctx.label('vts' if case['vts'] else 'ts')
        ctx.nontrivial(any(len(p) > 2 for p in polys))
        r = ctx.call('check_examples', files=files, vts=case['vts'], guard=guard(polys))
        if r.raised:
            raise Violation('check_examples on %r %s' % (files, r))
        got, cur = {}, None
        for m in re.finditer(r'done parsing (\S+?)(?:\.pkl)?\n|formula value: (True|False)', r.ok):
            if m.group(1):
                cur = m.group(1)
                got[cur] = []
            elif cur is not None:
                got[cur].append(m.group(2) == 'True')
        if not got and 'formula value' not in r.ok:
            ctx.label('inconclusive: nothing recognisable was printed')
            raise Skip('output')
        if got != want:
            raise Violation('check_examples on %r reports %r, the truth is %r' % (files, got, want))


CHECKS = [Parser(), TraceFiles(), Univariate(), Preformat(), Store(), EndToEnd()]
