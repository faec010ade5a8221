"""vts: one-variable decision procedures, sign determination, conversions."""
from fractions import Fraction as F

from hypothesis import strategies as st

from . import exact as X
from . import gen
from .core import Check, Skip, Violation

VTS = ['$REPO/vts']


def fr(s):
    return F(s)


def fl(p):
    return X.norm([F(c) for c in p])


def guard(polys):
    """Exact root bounds of the polynomials, for the worker to compare with the root isolation library."""
    out = []
    for p in polys:
        q = X.norm(p)
        if len(q) > 1:
            out.append([p, [[str(b) for b in r.close()] for r in X.roots(q)]])
    return out


def guard_signs(polys):
    """Exact signs of all polynomials (and derivatives) at and right of all roots, for the worker to compare with the library's arithmetic."""
    out = []
    for p in polys:
        q = X.norm(p)
        if len(q) > 1:
            others = [o for o in polys]
            d = X.der(q)
            while d:
                others.append([int(c) for c in d])
                d = X.der(d)
            rs = X.roots(q)
            out.append([p, others, [[r.sign(X.norm(o)) for o in others] for r in rs], [[r.sign_right(X.norm(o)) for o in others] for r in rs]])
    return out


def satisfiable(cs):
    table = X.sign_table([p for _, p in cs])
    hits = [k for k, v in table if all(X.OK[op](s) for (op, _), s in zip(cs, v))]
    return table, hits


class Verdict(Check):
    """C01: the virtual term substitution verdict; C02: the term substitution verdict."""
    id = 'C01'
    ops = ('ops_vts',)
    paths = VTS
    raw, sym = 'ivts', 'vts'
    quick = 240
    thorough = 6000
    rule = ('a case is a conjunction of p<=0, p<0, p=0, p!=0 in one variable, as integer coefficient lists or as sympy expressions '
            '(rational coefficients, unexpanded); roots are shared, multiple, irrational; constants and zero polynomials occur; '
            'non-trivial: the exact sign table has more than one cell')
    assumptions = ['the oracle is our own exact sign table (Sturm sequences over Q), compared with sympy in selftest',
                   'polynomials whose roots the z3rcf library itself isolates wrongly are excluded and counted']

    def strategy(self, tier):
        raw, sym = gen.system(), gen.symbolic_system(max_n=3, max_deg=4)
        if tier != 'quick':
            raw = st.one_of(raw, gen.system(max_n=6, max_deg=8), gen.system(max_deg=7, max_roots=5))
        return st.one_of(raw.map(lambda c: {'raw': c}), raw.map(lambda c: {'raw': c}), sym.map(lambda c: {'sym': c}))

    def corpus(self):
        e = {'le': [], 'lt': [], 'eq': [], 'ne': []}
        raw = [dict(e), dict(e, le=[[]]), dict(e, ne=[[]]), dict(e, lt=[[-1, 1], [1, -1]]), dict(e, le=[[-1, 1], [1, -1]]),
               dict(e, le=[[0, 0, 1]], ne=[[0, 1]]), dict(e, lt=[[-2, 0, 1]], eq=[[-2, 0, 0, 0, 1]])]
        return [{'raw': c} for c in raw]

    def run(self, ctx, case):
        if 'raw' in case:
            op, c = self.raw, case['raw']
            polys = [p for k in gen.OPS4 for p in c[k]]
            cs = gen.constraints(c)
        else:
            op, c = self.sym, case['sym']
            cs = [(k, gen.expr_poly(e)) for k in gen.OPS4 for e in c[k]]
            polys = [gen.ints(p) for _, p in cs]
        table, hits = satisfiable(cs)
        sat = bool(hits)
        ctx.label(op)
        ctx.label('satisfiable' if sat else 'unsatisfiable')
        ctx.label('%d constraints' % len(cs))
        ctx.nontrivial(len(table) > 1)
        if sat and 'iv' not in hits:
            ctx.label('satisfiable only at isolated points')
        if sat and len(hits) == 1 and hits != [0]:
            ctx.label('exactly one satisfying cell')
        ctx.call('guard', guard=guard(polys))
        r = ctx.call(op, c=c)
        if r.raised or r.ok != sat:
            if 'more than 5 polies' in (r.emsg or ''):
                ctx.label('declined: more than 5 polynomials')
                raise Skip('documented limit')
            ctx.call('guard_signs', table=guard_signs(polys))
        if r.raised:
            raise Violation('%s on %r: %s, but the system is %s' % (op, c, r, 'satisfiable' if sat else 'unsatisfiable'))
        if r.ok != sat:
            raise Violation('%s says %s for %r, which is %s' % (op, r.ok, c, 'satisfiable' if sat else 'unsatisfiable'))


class TsVerdict(Verdict):
    id = 'C02'
    raw, sym = 'its', 'ts'
    quick = 550
    thorough = 12000

    def strategy(self, tier):
        # one generator more than for C01: nothing here grows with the number of roots
        raw = st.one_of(gen.system(), gen.system(max_n=5, max_deg=7, max_roots=6))
        sym = gen.symbolic_system(max_n=3, max_deg=4)
        return st.one_of(raw.map(lambda c: {'raw': c}), raw.map(lambda c: {'raw': c}), sym.map(lambda c: {'sym': c}))


# ---- infinitesimal coefficients ----

def eps_value(coef, e0, e1):
    if isinstance(coef, int):
        return F(coef)
    return sum((F(c) * e0 ** a * e1 ** b for c, a, b in coef), F(0))


DENS = [[[1, 0, 0]]] * 4 + [[[1, 1, 0]], [[-1, 1, 0]], [[1, 0, 1]], [[1, 0, 0], [1, 1, 0]]]


@st.composite
def eps_system(draw):
    """Products of factors (a x - b), a and b polynomials in two infinitesimals e0 >> e1 > 0, with multiplicity:
    roots may be infinitely close to each other and infinitely large, leading coefficients infinitesimal."""
    def root():
        r = [[draw(st.integers(-2, 2)), 0, 0]]
        for _ in range(draw(st.integers(0, 2))):
            r.append([draw(gen.nz), *draw(st.sampled_from([(1, 0), (0, 1), (1, 0), (0, 1), (2, 0), (1, 1)]))])
        return [r, draw(st.sampled_from(DENS))]
    pool = [root() for _ in range(draw(st.integers(1, 3)))]

    def mulc(p, q):         # polynomials in x with coefficients {(a, b): c}
        out = [dict() for _ in range(len(p) + len(q) - 1)]
        for i, x in enumerate(p):
            for j, y in enumerate(q):
                for (a, b), c in x.items():
                    for (a2, b2), c2 in y.items():
                        k = (a + a2, b + b2)
                        out[i + j][k] = out[i + j].get(k, 0) + c * c2
        return out

    def poly():
        p = [{draw(st.sampled_from([(0, 0), (0, 0), (1, 0), (0, 1)])): draw(st.sampled_from([1, -1, 2]))}]
        rs = []
        for _ in range(draw(st.integers(1, 2))):
            r = draw(st.sampled_from(pool))
            f = {}
            for c, a, b in r[0]:
                f[(a, b)] = f.get((a, b), 0) - c
            p = mulc(p, [f, {(a, b): c for c, a, b in r[1]}])
            rs.append(r)
        return {'coefs': [[[c, a, b] for (a, b), c in sorted(t.items()) if c] for t in p], 'roots': rs}
    out = {k: [] for k in gen.OPS4}
    for _ in range(draw(st.integers(1, 3))):
        out[draw(st.sampled_from(gen.OPS4))].append(poly())
    return out


class EpsVerdict(Check):
    """C03: verdict with infinitesimal coefficients."""
    id = 'C03'
    ops = ('ops_vts',)
    paths = VTS
    quick = 120
    thorough = 2500
    call_timeout = 25
    quick_cap = 90
    calls_per_worker = 400      # RCF numbers are never freed
    rule = ('a case is a conjunction over polynomials with known roots in Q(e0, e1), finite or infinite, e0 >> e1 > 0 infinitesimal; '
            'non-trivial: some coefficient really contains an infinitesimal')
    assumptions = ['transfer: the verdict over the real closed field Q(e0, e1) is the verdict for all sufficiently small rational values '
                   '1 >> e0 >> e1; three such values are evaluated exactly and must agree (else the case is dropped)']

    def strategy(self, tier):
        return eps_system()

    def run(self, ctx, case):
        answers = set()
        for e0, e1 in [(F(1, 10 ** 12), F(1, 10 ** 60)), (F(1, 10 ** 15), F(1, 10 ** 90)), (F(3, 10 ** 20), F(7, 10 ** 140))]:
            cs = [(k, X.norm([eps_value(c, e0, e1) for c in p['coefs']])) for k in gen.OPS4 for p in case[k]]
            answers.add(bool(satisfiable(cs)[1]))
        if len(answers) != 1:
            ctx.label('dropped: the finite values disagree')
            raise Skip('oracle')
        sat = answers.pop()
        c = {k: [p['coefs'] for p in case[k]] for k in gen.OPS4}
        eps = any(a or b for ps in c.values() for p in ps for co in p for _, a, b in co)
        ctx.nontrivial(eps)
        ctx.label('satisfiable' if sat else 'unsatisfiable')
        ctx.label('infinitesimal coefficients' if eps else 'no infinitesimal')
        ctx.call('guard_eps', polys=[[p['coefs'], p['roots']] for k in gen.OPS4 for p in case[k]])
        r = ctx.call('ivts_eps', c=c)
        if r.raised or r.ok != sat:
            raise Violation('verdict %s for %r, which is %s' % (r, c, 'satisfiable' if sat else 'unsatisfiable'))


# ---- Tarski queries and remainder sequences ----

def sparse(draw, top):
    """Few terms, high degree: long gaps in remainder sequences."""
    p = [0] * (draw(st.integers(2, top)) + 1)
    p[-1] = draw(gen.nz)
    for _ in range(draw(st.integers(1, 3))):
        p[draw(st.integers(0, len(p) - 2))] = draw(st.integers(-9, 9))
    return p


@st.composite
def pair(draw, q_deg=5):
    pool = draw(st.lists(gen.factor(), min_size=1, max_size=3))
    if draw(st.integers(0, 7)) == 0:
        return {'p': sparse(draw, 9), 'q': sparse(draw, 8)}       # coefficients of the sequence grow exponentially
    p = draw(gen.poly(pool, 7, 7, constants=False))
    k = draw(st.integers(0, 5))
    if k == 0:
        q = draw(gen.poly(pool, q_deg, 7))
        q = [int(c) for c in X.mul(X.norm(q), X.norm(p))]       # vanishes at every root of p
    elif k == 1:
        q = [int(c) for c in X.der(X.norm(p))]
    else:
        q = draw(gen.poly(pool, q_deg, 7))
    return {'p': p, 'q': q}


class Tarski(Check):
    """C04"""
    id = 'C04'
    ops = ('ops_vts',)
    paths = VTS
    quick = 700
    thorough = 20000
    rule = 'pairs (p, q), p of degree >= 1 with shared, multiple, irrational roots; non-trivial: p has a real root and q is not constant'

    def strategy(self, tier):
        return pair() if tier == 'quick' else st.one_of(pair(), pair(12))

    def run(self, ctx, case):
        p, q = X.norm(case['p']), X.norm(case['q'])
        rs = X.roots(p)
        want = sum(r.sign(q) for r in rs)
        ctx.nontrivial(bool(rs) and len(q) > 1)
        ctx.label('query value %d' % want if abs(want) < 3 else 'query value beyond 2')
        ctx.label('p not squarefree' if len(X.squarefree(p)) < len(p) else 'p squarefree')
        r = ctx.call('tarski', **case)
        if r.raised or r.ok != want:
            raise Violation('Tarski query of %r: %s instead of %d' % (case, r, want))


def cauchy(p, q):
    """Cauchy index of q/p on the real line."""
    t = 0
    for r in X.roots(p):
        def mult(f):
            m = 0
            while f and r.sign(f) == 0:
                f = X.der(f)
                m += 1
            return m
        if q and (mult(p) - mult(q)) > 0 and (mult(p) - mult(q)) % 2:
            t += r.sign_right(p) * r.sign_right(q)
    return t


class Remainders(Check):
    """C05"""
    id = 'C05'
    ops = ('ops_vts',)
    paths = VTS
    quick = 500
    thorough = 12000
    rule = ('pairs (p, q) of nonzero polynomials in both degree orders; the sequence, the pseudo remainder and the Cauchy index are all '
            'checked; non-trivial: q has degree >= 1')

    def strategy(self, tier):
        return pair() if tier == 'quick' else st.one_of(pair(), pair(10))

    def run(self, ctx, case):
        for a, b in ((case['p'], case['q']), (case['q'], case['p'])):
            p, q = X.norm(a), X.norm(b)
            if not p or not q:
                continue
            ctx.nontrivial(len(q) > 1)
            ctx.label('degree %s' % ('falls' if len(p) > len(q) else 'rises' if len(p) < len(q) else 'same'))
            r = ctx.call('prem', f=a, g=b)
            if r.raised:
                raise Violation('pseudo remainder of %r by %r %s' % (a, b, r))
            if not positive_multiple(fl(r.ok), X.rem(p, q)):
                raise Violation('pseudo remainder of %r by %r is %r: not a positive multiple of the remainder %r'
                                % (a, b, r.ok, [str(c) for c in X.rem(p, q)]))
            r = ctx.call('srs', p=a, q=b)
            if r.raised:
                raise Violation('signed remainder sequence of %r, %r %s' % (a, b, r))
            s = [fl(t) for t in r.ok]
            if len(s) < 2 or s[0] != p or s[1] != q:
                raise Violation('signed remainder sequence of %r, %r does not start with them: %r' % (a, b, r.ok))
            for i in range(1, len(s)):
                if not s[i]:
                    raise Violation('signed remainder sequence of %r, %r contains zero: %r' % (a, b, r.ok))
                nxt = s[i + 1] if i + 1 < len(s) else []
                if not positive_multiple(nxt, X.neg(X.rem(s[i - 1], s[i]))):
                    raise Violation('signed remainder sequence of %r, %r is wrong after element %d: %r' % (a, b, i, r.ok))
            want = cauchy(p, q)
            r = ctx.call('cauchy', p=a, q=b)
            ctx.label('Cauchy index %d' % want if abs(want) < 3 else 'Cauchy index beyond 2')
            if r.raised or r.ok != want:
                raise Violation('Cauchy index of q/p for p=%r, q=%r: %s instead of %d' % (a, b, r, want))


def positive_multiple(a, b):
    if not b or not a:
        return not a and not b
    if len(a) != len(b):
        return False
    c = a[-1] / b[-1]
    return c > 0 and all(x == c * y for x, y in zip(a, b))


# ---- root encodings and signs at encoded roots ----

@st.composite
def root_case(draw, max_roots=3, max_deg=6, goals=3):
    pool = draw(st.lists(gen.factor(), min_size=1, max_size=3))
    p = draw(gen.poly(pool, max_deg, max_roots, constants=False))
    gs = []
    for _ in range(goals):
        k = draw(st.integers(0, 5))
        if k == 0:
            g = [int(c) for c in X.der(X.norm(p))] or [1]
        elif k == 1:
            g = draw(gen.poly(pool, 2, 7))
            g = [int(c) for c in X.mul(X.norm(g), X.norm(p))]
        else:
            g = draw(gen.poly(pool, 4, 7))
        gs.append(g)
    return {'p': p, 'goals': gs}


class Encodings(Check):
    """C06"""
    id = 'C06'
    ops = ('ops_vts',)
    paths = VTS
    quick = 400
    thorough = 8000
    rule = ('polynomials with up to 6 real roots; every root encoding is checked; non-trivial: at least two real roots')
    assumptions = Verdict.assumptions

    def strategy(self, tier):
        return st.one_of(root_case(6, 7, 0), root_case(4, 9, 0), many_roots())

    def run(self, ctx, case):
        p = X.norm(case['p'])
        rs = X.roots(p)
        ctx.nontrivial(len(rs) > 1)
        ctx.label('%d roots' % len(rs))
        ctx.call('guard', guard=guard([case['p']]))
        r = ctx.call('encodings', p=case['p'])
        if r.raised:
            raise Violation('root encodings of %r %s' % (case['p'], r))
        enc = r.ok['enc']
        if sorted(i for i, _ in enc) != list(range(len(rs))):
            raise Violation('the encodings of the roots of %r are not one per root: %r' % (case['p'], enc))
        for i, conds in enc:
            conds = [(fl(q), s) for q, s in conds]
            for j, root in enumerate(rs):
                good = all(root.sign(q) == s for q, s in conds)
                if good != (i == j):
                    raise Violation('the encoding of root %d of %r %s root %d: %r' % (
                        i, case['p'], 'also holds at' if good else 'does not hold at', j, enc))


@st.composite
def many_roots(draw):
    rs = draw(st.lists(st.integers(-8, 8), min_size=2, max_size=6, unique=True))
    p = [F(draw(st.sampled_from([1, -1, 3])))]
    for r in rs:
        p = X.mul(p, X.norm([-r, draw(st.sampled_from([1, 1, 2]))]))
    if draw(st.booleans()):
        p = X.mul(p, X.norm(draw(st.sampled_from([[1, 0, 1], [-2, 0, 1], [2, 2, 1]]))))
    return {'p': [int(c) for c in p], 'goals': []}


class SignsAt(Check):
    """C07"""
    id = 'C07'
    ops = ('ops_vts',)
    paths = VTS
    quick = 130
    thorough = 3000
    rule = ('a polynomial with up to 4 real roots and goal polynomials; every goal is signed at every encoded root and just right of '
            'it; non-trivial: the polynomial has at least two real roots')
    assumptions = Verdict.assumptions

    def strategy(self, tier):
        return root_case(3, 6, 3) if tier == 'quick' else st.one_of(root_case(3, 7, 4), root_case(5, 6, 3))

    def run(self, ctx, case):
        p = X.norm(case['p'])
        rs = X.roots(p)
        ctx.nontrivial(len(rs) > 1)
        ctx.label('%d roots' % len(rs))
        ctx.call('guard', guard=guard([case['p']]))
        r = ctx.call('signs_at', **case)
        if r.raised:
            if 'more than 5 polies' in (r.emsg or ''):
                raise Skip('documented limit')
            raise Violation('signs at the roots of %r %s' % (case, r))
        for i, signs in r.ok:
            for g, (at, right) in zip(case['goals'], signs):
                q = X.norm(g)
                w = (rs[i].sign(q), rs[i].sign_right(q))
                ctx.label('goal sign %d, right of the root %d' % w)
                if (at, right) != w:
                    raise Violation('at root %d of %r the sign of %r (at, just right) is %r, not %r' % (i, case['p'], g, w, (at, right)))


# ---- sums, products, derivatives, product lists ----

class Arithmetic(Check):
    """C08"""
    id = 'C08'
    ops = ('ops_vts',)
    paths = VTS
    quick = 400
    thorough = 8000
    rule = ('lists of up to four polynomials (constants, internal zeros and high degrees included); non-trivial: at least two polynomials of degree >= 1')

    def strategy(self, tier):
        @st.composite
        def long(draw):
            return sparse(draw, 14)
        ps = st.one_of(st.lists(gen.poly([], 4, 9), min_size=0, max_size=3), st.lists(gen.poly([], 4, 9), min_size=0, max_size=3),
                       st.lists(gen.poly([], 2, 9), min_size=4, max_size=4), st.lists(long(), min_size=1, max_size=2))
        return st.fixed_dictionaries({'ps': ps, 'x': st.one_of(st.integers(-5, 5), st.integers(-1000, 1000)), 'd': st.integers(1, 4)})

    def run(self, ctx, case):
        ps = case['ps']
        ctx.nontrivial(sum(len(p) > 1 for p in ps) > 1)
        ctx.label('%d polynomials' % len(ps))
        r = ctx.call('products', ps=ps)
        want = [[F(1)]]
        for p in reversed(ps):
            want = [X.mul(X.power(X.norm(p), k), w) for k in (0, 1, 2) for w in want]
        if r.raised or [fl(t) for t in r.ok] != want:
            raise Violation('product list of %r: %r' % (ps, r))
        for p in ps:
            r = ctx.call('deriv', p=p)
            if r.raised or fl(r.ok) != X.der(X.norm(p)):
                raise Violation('derivative of %r: %r' % (p, r))
            x = F(case['x'], case['d'])
            r = ctx.call('evalpoly', p=p, x='%d/%d' % (x.numerator, x.denominator))
            if r.raised or F(r.ok) != X.ev(X.norm(p), x):
                raise Violation('%r at %s: %r' % (p, x, r))
            for q in ps:
                r = ctx.call('mult', p=p, q=q)
                if r.raised or fl(r.ok) != X.mul(X.norm(p), X.norm(q)) or len(r.ok) != len(p) + len(q) - 1:
                    raise Violation('product of %r and %r: %r' % (p, q, r))


# ---- conversions ----

class Convert(Check):
    """C09"""
    id = 'C09'
    ops = ('ops_vts',)
    paths = VTS
    quick = 130
    thorough = 8000
    rule = ('univariate sympy expressions in several shapes (expanded in any order, Horner, shifted powers, cancelling differences), '
            'rational coefficients, any variable name; non-trivial: degree >= 1')

    def strategy(self, tier):
        @st.composite
        def s(draw):
            p = draw(gen.poly([], 7 if tier == 'quick' else 12, 20, zero=True)) if draw(st.integers(0, 7)) else sparse(draw, 16)
            return {'e': as_int(draw, p) or gen.as_expr(draw, p, draw(st.sampled_from(gen.NAMES))), 'p': p}

        def as_int(draw, p):
            if len(p) <= 1 and draw(st.booleans()):
                return ['int', p[0] if p else 0]
        return s()

    def run(self, ctx, case):
        want = gen.expr_poly(case['e'])
        ctx.nontrivial(len(want) > 1)
        ctx.label('degree %d' % (len(want) - 1))
        r = ctx.call('convert', e=case['e'])
        if r.raised:
            raise Violation('convert(%r) %s' % (case['e'], r))
        got = [F(c) for c in r.ok['coefs']]
        if len(got) != len(want) or not positive_multiple(got, want):
            raise Violation('convert(%r) is %r: not the coefficients of a positive multiple of %r' % (
                case['e'], r.ok['coefs'], [str(c) for c in want]))
        if any(c.denominator != 1 for c in got) or any(t not in ('int', 'long') for t in r.ok['types']):
            raise Violation('convert(%r) is %r: not integers' % (case['e'], r.ok))
        if all(c.denominator == 1 for c in want) and got != want:
            raise Violation('convert(%r) is %r: the coefficients are already integers %r' % (case['e'], r.ok['coefs'], want))
        p = case['p']
        r = ctx.call('convert_back', p=p)
        if r.raised or fl(r.ok) != X.norm(p):
            raise Violation('convert_back(%r): %r' % (p, r))
        r = ctx.call('round_trip', p=p)
        if r.raised or [int(c) for c in r.ok] != p:
            raise Violation('convert(convert_back(%r)): %r' % (p, r))


# ---- sign matrices and their cache ----

def kron(a, b):
    return [[x * y for x in r for y in t] for r in a for t in b]


_signs = {}


def sign_matrix(n):
    if n not in _signs:
        base = [[1, 1, 1], [0, 1, -1], [0, 1, 1]]
        _signs[n] = base if n == 1 else kron(sign_matrix(n - 1), base)
    return _signs[n]


def is_inverse(m, v):
    """m * v == 1, with v of Fractions."""
    n = len(m)
    if len(v) != n or any(len(r) != n for r in v):
        return False
    for i, r in enumerate(m):
        nzr = [(k, x) for k, x in enumerate(r) if x]
        row = [F(0)] * n
        for k, x in nzr:
            vk = v[k]
            for j in range(n):
                if vk[j]:
                    row[j] += x * vk[j]
        if row != [F(int(i == j)) for j in range(n)]:
            return False
    return True


class Matrices(Check):
    """C10: histories of requests, restarts, and crashes over one cache directory."""
    id = 'C10'
    ops = ('ops_matrix',)
    uses_worker = False
    paths = VTS
    quick = 60
    thorough = 1000
    call_timeout = 200
    quick_cap = 60
    shrink_cap = 60
    rule = ('a case is a history over one cache directory: requests for the matrix or its inverse (1..3, thorough 1..4 polynomials), '
            'interpreter restarts, and runs killed after a generated number of bytes of cache writing (some by really ending the '
            'process); non-trivial: a request for two or more polynomials after a restart or a kill')
    assumptions = ['a kill lets exactly the bytes written before it reach the disk; simulated kills stop every later file-system '
                   'change of the code through open() and os, real ones end the process with Runtime.halt']

    def strategy(self, tier):
        top = 3 if tier == 'quick' else 4
        req = st.tuples(st.sampled_from([1, 2, 2, 2, 3] + ([4] if top > 3 else [])), st.booleans())
        step = st.one_of(req.map(lambda r: ['get', r[0], r[1]]), req.map(lambda r: ['get', r[0], r[1]]),
                         st.just(['restart']),
                         st.tuples(st.integers(1, 2), st.booleans(),
                                   st.one_of(st.integers(0, 40), st.integers(0, 3000), st.integers(0, 20000))).map(
                             lambda t: ['kill', t[0], t[1], t[2]]))
        return st.lists(step, min_size=2, max_size=7)

    def corpus(self):
        out = [[['get', n, i] for i in (False, True) for n in (3, 2, 1, 3)]]
        out += [[['get', 2, True], ['restart'], ['get', 2, True], ['get', 3, True], ['restart'], ['get', 3, True], ['get', 2, False]]]
        out += [[['end', 2, True, k], ['get', 2, True], ['restart'], ['get', 2, True], ['get', 2, False]] for k in (100, 1500)]
        out += [[['get', 4, False]]]
        return out

    def run(self, ctx, case):
        import os
        import shutil
        import tempfile
        from . import client
        paths = [p.replace('$REPO', client.REPO) for p in self.paths]
        d = tempfile.mkdtemp(prefix='pbtm-')
        moved = False

        def worker():
            if ctx.worker is None:
                ctx.starts += 1
                ctx.worker = client.Worker(self.ops, paths)
            return ctx.worker
        try:
            r = worker().call('begin', 60, name=os.path.join(d, 'w'))
            for step in case:
                ctx.label(step[0])
                if ctx.worker is None:
                    worker()
                    ctx.worker.call('enter', 60, name=os.path.join(d, 'w'))
                if step[0] == 'get':
                    n, inv = step[1], step[2]
                    ctx.nontrivial(moved and n > 1)
                    r = ctx.worker.call('get', self.call_timeout, n=n, inverse=inv)
                    if r.missing:
                        ctx.label('inconclusive: entry point not there')
                        raise Skip('no entry point')
                    if r.raised:
                        raise Violation('history %r: %s %s' % (case, step, r))
                    m = [[F(x) for x in row] for row in r.ok]
                    if inv and not is_inverse(sign_matrix(n), m):
                        raise Violation('history %r: at %r the matrix is not the inverse of the sign matrix of %d polynomials' % (case, step, n))
                    if not inv and m != sign_matrix(n):
                        raise Violation('history %r: at %r the matrix is not the sign matrix of %d polynomials' % (case, step, n))
                    continue
                moved = True
                if step[0] in ('kill', 'end'):
                    try:
                        r = ctx.worker.call('crash', self.call_timeout, n=step[1], inverse=step[2], after=step[3], hard=step[0] == 'end')
                        if r.missing:
                            raise Skip('no entry point')
                        if r.raised:
                            raise Violation('history %r: %s %s' % (case, step, r))
                        ctx.label('killed while writing' if r.ok['died'] else 'kill came after everything was written')
                    except client.Dead:
                        ctx.label('process ended while writing')
                        ctx.drop()
                        continue
                r = ctx.worker.call('load', 100)
                if r.raised:
                    raise Violation('history %r: after %r the next run fails to start: %s' % (case, step, r))
        except (client.Timeout, client.Dead):
            ctx.label('inconclusive: time limit or lost worker')
            ctx.drop()
            raise Skip('time')
        finally:
            shutil.rmtree(d, ignore_errors=True)


CHECKS = [Matrices(), Verdict(), TsVerdict(), EpsVerdict(), Tarski(), Remainders(), Encodings(), SignsAt(), Arithmetic(), Convert()]
