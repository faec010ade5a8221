"""highschool_qe: quantifier elimination over the reals and the complex numbers, and its algebra."""
from fractions import Fraction as F

from hypothesis import strategies as st

from . import exact as X
from . import gen
from .core import Check, Skip, Violation

PATHS = ['$SHIM', '$REPO/highschool_qe']

# A polynomial is [[coefficient, {name: exponent}], ...]; x is eliminated, y and z are parameters.


def simplify(terms):
    d = {}
    for c, m in terms:
        k = tuple(sorted((n, e) for n, e in m.items() if e))
        d[k] = d.get(k, F(0)) + F(c)
    return [[str(c), dict(k)] for k, c in sorted(d.items()) if c]


def value(terms, env):
    r = F(0)
    for c, m in terms:
        t = F(c)
        for n, e in m.items():
            t *= env[n] ** e
        r += t
    return r


def in_x(terms, env):
    """Univariate polynomial in x at a parameter point."""
    out = {}
    for c, m in terms:
        t = F(c)
        for n, e in m.items():
            if n != 'x':
                t *= env[n] ** e
        out[m.get('x', 0)] = out.get(m.get('x', 0), F(0)) + t
    return X.norm([out.get(i, F(0)) for i in range(max(out) + 1)]) if out else []


def names(polys):
    return sorted({n for p in polys for _, m in p for n in m} - {'x'})


def in_y(terms, env, var='y'):
    out = {}
    for c, m in terms:
        t = F(c)
        for n, e in m.items():
            if n != var:
                t *= env[n] ** e
        out[m.get(var, 0)] = out.get(m.get(var, 0), F(0)) + t
    return X.norm([out.get(i, F(0)) for i in range(max(out) + 1)]) if out else []


def critical(polys, env):
    """Polynomials in y whose roots are where the answer can change: coefficients, discriminants, resultants (sympy; only chooses test points)."""
    import sympy
    x, y = sympy.symbols('x y')
    out = []
    ps = []
    for p in polys:
        e = sum((sympy.Rational(str(c)) * sympy.prod([(x if n == 'x' else y if n == 'y' else sympy.Rational(str(env[n]))) ** k for n, k in m.items()]) for c, m in p), sympy.Integer(0))
        ps.append(sympy.expand(e))

    def add(e):
        e = sympy.expand(e)
        if e.has(y) and e.is_polynomial(y):
            out.append(X.norm([F(int(c.p), int(c.q)) for c in reversed(sympy.Poly(e, y).all_coeffs())]))
    for e in ps:
        q = sympy.Poly(e, x)
        for c in q.all_coeffs():
            add(c)
        if q.degree() >= 2:
            add(sympy.discriminant(e, x))
    for i, a in enumerate(ps):
        for b in ps[:i]:
            if a.has(x) and b.has(x):
                add(sympy.resultant(a, b, x))
    return out


def points_for(polys_y, limit=24):
    """Rational points in every cell of the line cut at the roots of these polynomials (irrational roots: both sides)."""
    prod = [F(1)]
    seen = []
    for p in polys_y:
        if len(p) > 1:
            p = X.squarefree(p)
            if p not in seen:
                seen.append(p)
    for p in seen:
        prod = X.mul(prod, X.divmod_(p, X.gcd(prod, p))[0])
        if len(prod) > 40:
            break
    if len(prod) < 2:
        return [F(0), F(1), F(-2)]
    rs = X.roots(prod)
    pts = []
    for i, r in enumerate(rs):
        lo, hi = r.tight() if hasattr(r, 'tight') else (r.lo, r.hi)
        if lo == hi:
            pts.append(lo)
        prev = F(lo) - 1 if i == 0 else (rs[i - 1].tight()[1] + lo) / 2
        pts.append(prev)
    if rs:
        pts.append(rs[-1].tight()[1] + 1)
    return pts[:limit] or [F(0)]


def exists_real(groups, env):
    cs = []
    for op, ps in groups:
        for p in ps:
            cs.append((op, in_x(p, env)))
    return X.satisfiable(cs)


def exists_complex(eq, ne, env):
    es = [in_x(p, env) for p in eq]
    ns = [in_x(p, env) for p in ne]
    if any(not p for p in ns):
        return False
    es = [p for p in es if p]
    if not es:
        return True
    g = es[0]
    for p in es[1:]:
        g = X.gcd(g, p)
    for p in ns:
        while len(g) > 1:
            d = X.gcd(g, p)
            if len(d) < 2:
                break
            g = X.divmod_(g, d)[0]
    return len(g) > 1


SIGN3 = (lambda v: v < 0, lambda v: v == 0, lambda v: v > 0)
SIGN2 = (lambda v: v == 0, lambda v: v != 0)


def holds(clauses, tests, env):
    return any(all(t(value(p, env)) for t, part in zip(tests, c) for p in part) for c in clauses)


# ---- generators ----

LIN = [[['1', {'y': 1}]], [['-1', {'y': 1}]], [['1', {'y': 1}], ['1', {}]], [['2', {'y': 1}], ['-1', {}]], [['1', {'y': 2}]],
       [['1', {'y': 2}], ['-1', {}]], [['1', {'z': 1}]], [['1', {'z': 1}], ['-1', {'y': 1}]]]


@st.composite
def coefficient(draw, params, deg):
    """A coefficient as terms in the parameters."""
    if not params or draw(st.integers(0, 9)) > 5:
        c = draw(st.integers(-3, 3))
        return [[str(c), {}]] if c else []
    c = [t for t in draw(st.sampled_from(LIN)) if set(t[1]) <= set(params)]
    return c


@st.composite
def qpoly(draw, params, max_deg):
    d = draw(st.sampled_from([1] * 4 + [2] * 4 + [0] + [3] * (max_deg >= 3) + [4] * (max_deg >= 4)))
    d = min(d, max_deg)
    out = []
    for i in range(d + 1):
        if i == d and draw(st.integers(0, 2)):
            c = [[str(draw(gen.nz)), {}]]
        else:
            c = draw(coefficient(params, d))
        out += [[k, dict(m, x=i) if i else m] for k, m in c]
    out = simplify(out)
    if params and not names([out]):
        out = simplify(out + [['1', {'y': 1, 'x': draw(st.integers(0, max(d, 1)))}]])
    return out


X1 = [['1', {'x': 1}]]
FACTORS = [X1, [['1', {'x': 1}], ['-1', {}]], [['1', {'x': 1}], ['1', {}]], [['2', {'x': 1}], ['-1', {}]], [['1', {'x': 2}], ['1', {}]],
           [['1', {'x': 2}], ['-2', {}]], [['-1', {'x': 1}], ['2', {}]]]
PFACTORS = [[['1', {'x': 1}], ['1', {'y': 1}]], [['1', {'x': 1}], ['-1', {'y': 1}]], [['1', {'x': 1, 'y': 1}], ['-1', {}]],
            [['1', {'y': 1}]], [['1', {'x': 2}], ['1', {'y': 1}]], [['1', {'x': 1}], ['-1', {'y': 2}]]]

CONSTS = [[['1', {'y': 1}]], [['1', {'y': 1}]], [['1', {'y': 1}], ['1', {}]], [['1', {'y': 1}], ['-1', {}]], [['1', {'y': 2}], ['-1', {}]]]


def product(fs):
    r = [['1', {}]]
    for f in fs:
        r = tmul(r, f)
    return r


@st.composite
def structured(draw, kinds, tier):
    """Multiple roots and roots shared between the polynomials, for all or for particular values of y."""
    out = {k: [] for k in kinds}
    k = draw(st.integers(0, 3))
    if k == 3:
        # the same parametric polynomials more than once, scaled, and with or without x
        pool = draw(st.lists(st.sampled_from(CONSTS), min_size=1, max_size=2))
        ps = []
        for _ in range(draw(st.integers(2, 4))):
            p = tmul(draw(st.sampled_from(pool)), [[draw(st.sampled_from(['1', '1', '-1', '2'])), {}]])
            j = draw(st.integers(0, 7))
            if j < 3:
                p = times_x(p, 1)
            elif j == 3:
                p = tadd(times_x(p, 1), draw(st.sampled_from(pool)))
            ps.append(p)
    elif k == 0:
        # x^d + c x^e, and small polynomials that meet it in 0 or 1
        d = draw(st.integers(2, 4))
        c = draw(st.sampled_from([c for c in LIN if names([c]) == ['y']] + [[['-1', {}]], [['1', {}]]]))
        ps = [tadd(times_x([[draw(st.sampled_from(['1', '-1', '2'])), {}]], d), times_x(c, draw(st.sampled_from([0, 0, 0, 1]))))]
        if draw(st.integers(0, 3)):
            ps.append(draw(st.sampled_from([X1, X1, FACTORS[1], tadd(X1, X1)])))
    elif k == 1:
        a = draw(st.sampled_from(PFACTORS))
        b = draw(st.sampled_from(FACTORS[:4]))
        ps = [product(draw(st.sampled_from([[a], [a, b], [a, a], [a, b], [a, b, b]])))]
        if draw(st.integers(0, 3)):
            ps.append(b)
    else:
        pool = draw(st.lists(st.sampled_from(FACTORS), min_size=1, max_size=2))
        ps = []
        for _ in range(draw(st.integers(1, 3))):
            fs = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3))
            ps.append(tmul(product(fs), [[draw(st.sampled_from(['1', '-1', '2'])), {}]]))
    for i, p in enumerate(ps):
        out[draw(st.sampled_from(kinds) if i or k >= 2 else st.sampled_from(('eq', 'eq')[:2 * ('eq' in kinds)] + kinds))].append(p)
    out['z'] = []
    return out


@st.composite
def formula(draw, kinds, tier):
    """{kind: [polynomials]}: without parameters more and larger polynomials, with them few and small ones."""
    if draw(st.integers(0, 9)) < 5:
        return scaled(draw, draw(structured(kinds, tier)), kinds)
    shape = draw(st.integers(0, 9))
    if shape > 7:
        params, n, deg = [], draw(st.integers(1, 3)), 3
    elif shape > 0:
        params, n, deg = ['y'], draw(st.sampled_from([1, 1, 2, 2, 2])), 2
    else:
        params, n, deg = ['y', 'z'], draw(st.integers(1, 2)), 2
    if tier != 'quick' and draw(st.integers(0, 3)) == 0:
        n, deg = n + 1, deg + 1
    out = {k: [] for k in kinds}
    for i in range(n):
        # the second and later ones have to be small, or the elimination runs for minutes
        p = draw(qpoly(params if i == 0 or draw(st.booleans()) else [], deg if not params or i == 0 else 1))
        if not p and draw(st.integers(0, 5)):
            p = [['1', {'x': 1}]]
        out[draw(st.sampled_from(kinds))].append(p)
    out['z'] = [str(draw(st.sampled_from([0, 1, -1, 2, F(1, 2)]))) for _ in range(2)] if 'z' in params else []
    return scaled(draw, out, kinds)


def scaled(draw, f, kinds):
    """Sometimes fractions for coefficients."""
    if draw(st.integers(0, 4)) > 2:
        for k in kinds:
            f[k] = [tmul(p, [[draw(st.sampled_from(['1/2', '-1/2', '1', '2/3'])), {}]]) for p in f[k]]
    return f


class QE(Check):
    ops = ('ops_qe',)
    paths = PATHS
    quick = 60
    thorough = 1500
    call_timeout = 120
    near_copies = True      # most fresh cases are too large, near copies of a small one are small
    quick_cap = 90
    calls_per_worker = 400
    kinds = ('lt', 'eq', 'gt')
    op = None
    limit = 3000
    unknowns = 1000
    rule = ('a case is a formula "exists x" over one to three polynomials (degree up to 3, up to two parameters, leading coefficients that vanish '
            'for some parameter values); the answer is evaluated in every cell of the parameter line; non-trivial: it was compared at two or more '
            'parameter points, or (no parameters) against the sign table of a non-constant polynomial')
    assumptions = ['parameter points are rational; both sides of every irrational critical value are sampled, the irrational value itself is not',
                   'blist (a C extension that is not installed) is replaced by a pure-Python stand-in with the documented behaviour of sortedset',
                   'eliminations that need more than a fixed number of algebra operations are stopped and counted']

    def strategy(self, tier):
        return st.tuples(formula(self.kinds, tier), st.sampled_from(['cached', 'cached', 'cached', 'plain']), st.integers(0, 5)).map(
            lambda t: dict(t[0], kind=t[1], turn=t[2] == 5))

    def truth(self, c, env):
        return exists_real([('lt', c['lt']), ('eq', c['eq']), ('gt', c['gt'])], env)

    tests = SIGN3

    def answer(self, r, params, env):
        return holds(r['clauses'], self.tests, env)

    def run(self, ctx, case):
        polys = [p for k in self.kinds for p in case[k]]
        params = names(polys)
        ctx.label('%d parameters' % len(params))
        ctx.label('%d polynomials' % len(polys))
        r = ctx.call(self.op, kind=case['kind'], limit=self.limit * (3 if self.tier == 'thorough' else 1), unknowns=self.unknowns, turn=case.get('turn', False), **{k: case[k] for k in self.kinds})
        what = '%s(%s)' % (self.op, ', '.join('%s=%s' % (k, [show(p) for p in case[k]]) for k in self.kinds))
        if case.get('turn'):
            ctx.label('with the names x and y exchanged')
            what += ', with the names x and y exchanged'
        if r.raised:
            raise Violation('%s %s' % (what, r))
        if r.ok.get('toobig'):
            ctx.label('stopped: too many algebra operations')
            raise Skip('size')
        clauses = r.ok['clauses']
        ctx.label('up to %d algebra operations' % (1 << r.ok['operations'].bit_length()))
        clause_polys = [p for c in clauses for part in c for p in part]
        extra = set(names(clause_polys) + ['x' for p in clause_polys for _, m in p if 'x' in m]) - set(params)
        if extra:
            raise Violation('%s: the answer mentions %s' % (what, sorted(extra)))
        envs = []
        if not params:
            envs = [{}]
        else:
            others = [n for n in params if n != 'y']
            for zv in (case['z'] if others else ['0']):
                env = {n: F(zv) for n in others}
                if 'y' not in params:
                    envs.append(env)
                    continue
                uniq = []
                for p in clause_polys:
                    q = in_y(p, dict(env))
                    if q not in uniq:
                        uniq.append(q)
                envs += [dict(env, y=v) for v in points_for(critical(polys, env) + uniq)]
        seen = set()
        for env in envs:
            want = self.truth(case, env)
            got = self.answer(r.ok, params, env)
            seen.add(want)
            if got != want:
                raise Violation('%s at %s: the answer is %s, but such an x %s' % (
                    what, {k: str(v) for k, v in env.items()} or 'no parameters', got, 'exists' if want else 'does not exist'))
        ctx.nontrivial(len(envs) > 1 or any('x' in m for p in polys for _, m in p))
        ctx.label('answer %s' % ('depends on the parameters' if len(seen) > 1 else 'always ' + str(seen.pop()).lower()))


def show(p):
    return ' + '.join('*'.join([c] + ['%s^%d' % i if i[1] > 1 else i[0] for i in sorted(m.items())]) for c, m in p) or '0'


class MuchnikComplex(QE):
    id = 'C17'
    unknowns = 9
    op = 'complex_full'
    kinds = ('eq', 'ne')
    tests = SIGN2

    def truth(self, c, env):
        return exists_complex(c['eq'], c['ne'], env)

    def answer(self, r, params, env):
        if not params:
            if r['verdict'] is None and not r['clauses']:
                raise Skip('nothing recognisable was printed')
            if r['verdict'] is not None:
                return r['verdict'] == 'Sat'
        return holds(r['clauses'], self.tests, env)


class MuchnikReal(QE):
    id = 'C18'
    unknowns = 5
    limit = 6000
    op = 'real_full'
    answer = MuchnikComplex.answer


class CohenHormander(QE):
    id = 'C19'
    op = 'ch_full'


# ---- the algebra ----

def tadd(a, b, k=1):
    return simplify([list(t) for t in a] + [[str(F(c) * k), m] for c, m in b])


def tmul(a, b):
    out = []
    for c, m in a:
        for c2, m2 in b:
            out.append([str(F(c) * F(c2)), {n: m.get(n, 0) + m2.get(n, 0) for n in set(m) | set(m2)}])
    return simplify(out)


def xdeg(p):
    return max([m.get('x', 0) for _, m in p]) if p else None


def lead(p):
    d = xdeg(p)
    return simplify([[c, {n: e for n, e in m.items() if n != 'x'}] for c, m in p if m.get('x', 0) == d])


def times_x(p, k):
    return simplify([[c, dict(m, x=m.get('x', 0) + k)] for c, m in p])


@st.composite
def anypoly(draw, pool):
    k = draw(st.integers(0, 5))
    if pool and k == 0:
        return draw(st.sampled_from(pool))
    if k == 1:
        return []
    params = draw(st.sampled_from([[], ['y'], ['y', 'z']]))
    if k == 2 and pool:
        return tmul(draw(st.sampled_from(pool)), draw(qpoly(params, 2)))
    p = draw(qpoly(params, 4))
    d = draw(st.sampled_from([1, 1, 2, 3]))
    return simplify([[str(F(c) / d), m] for c, m in p])


def swap(p):
    """x and y exchanged."""
    return simplify([[c, {{'x': 'y', 'y': 'x'}.get(n, n): e for n, e in m.items()}] for c, m in p])


@st.composite
def history(draw):
    pool = []
    calls = []
    for _ in range(draw(st.integers(1, 12))):
        name = draw(st.sampled_from(['LT', 'LC', 'LS', 'degree', 'p_tail', 'has_variable', 'derivative', 'sign', 'div', 'pseudo_div', 'pseudo_div']))
        p = draw(anypoly(pool))
        pool.append(p)
        if name == 'sign':
            p = simplify([[str(draw(st.sampled_from([0, 1, -1, 5, F(-2, 3), 10 ** 20]))), {}]])
        args = [p]
        if name == 'div':
            q = X1
            if draw(st.integers(0, 2)) == 0:        # any divisor with leading coefficient one
                q = draw(anypoly(pool))
                q = tadd(q, times_x(X1, xdeg(q) or 0))
                q = q if lead(q) == [['1', {}]] else X1
            args.append(q)
        elif name == 'pseudo_div':
            q = draw(anypoly(pool))
            # the algorithms divide by polynomials that contain x and are not longer than the dividend
            if not xdeg(q):
                q = simplify(q + [['1', {'x': draw(st.integers(1, 2))}]])
            pool.append(q)
            args.append(q)
        calls.append([name, args, draw(st.sampled_from(['x', 'x', 'x', 'x', 'y']))])
        if draw(st.integers(0, 3)) == 0:
            n, a, v = draw(st.sampled_from(calls))
            k = draw(st.integers(0, 3))
            if k == 3 and len(a) == 1:      # the same expression, for the algebra of the other variable
                a, v = [swap(a[0])], 'xy'[v == 'x']
            elif k == 0 and n != 'sign':
                a = [simplify([[str(-F(c)), m] for c, m in a[0]])] + a[1:]
            elif k == 1 and len(a) == 2 and xdeg(a[0]) and (n == 'pseudo_div' or lead(a[0]) == [['1', {}]]):
                a = [a[1], a[0]]
            calls.append([n, a, v])
    return {'calls': calls, 'kind': draw(st.sampled_from(['plain', 'cached', 'cached']))}


class Algebra(Check):
    id = 'C20'
    ops = ('ops_qe',)
    paths = PATHS
    quick = 150
    thorough = 4000
    quick_cap = 60
    rule = ('a case is a history of calls on algebra objects for one or two elimination variables, plain or cached, with repeated calls, over polynomials with rational coefficients and up to '
            'two parameters; non-trivial: some argument contains x')
    assumptions = QE.assumptions[1:2]

    def strategy(self, tier):
        return history()

    def run(self, ctx, case):
        r = ctx.call('laws', calls=case['calls'], kind=case['kind'])
        if r.raised:
            raise Violation('%s algebra, calls %s: %s' % (case['kind'], [(n, [show(p) for p in a]) for n, a, _ in case['calls']], r))
        ctx.label(case['kind'])
        ctx.label('%d elimination variables' % len({v for _, _, v in case['calls']}))
        for (name, args, var), got in zip(case['calls'], r.ok):
            ctx.label(name)
            p = simplify(args[0])
            ctx.nontrivial(any('x' in m for _, m in p))

            def bad(want):
                raise Violation('%s(%s) is %s on a %s algebra%s, not %s' % (
                    name, ', '.join(show(a) for a in args), got, case['kind'], '' if var == 'x' else ' for y, after an exchange of x and y', want))
            if isinstance(got, dict):
                bad('an exception')
            if name == 'degree':
                if got != xdeg(p):
                    bad(xdeg(p))
            elif name == 'has_variable':
                if got != any(m for _, m in p):
                    bad(not got)
            elif name in ('LC', 'LT', 'p_tail', 'derivative', 'sign'):
                d = xdeg(p) or 0
                want = {'LC': lambda: lead(p), 'LT': lambda: times_x(lead(p), d), 'p_tail': lambda: tadd(p, times_x(lead(p), d), -1),
                        'derivative': lambda: simplify([[str(F(c) * m.get('x', 0)), dict(m, x=m.get('x', 0) - 1)] for c, m in p if m.get('x')]),
                        'sign': lambda: simplify([[str(X.sgn(value(p, {}))), {}]])}[name]()
                if simplify(got) != simplify(want):
                    bad(show(want))
            elif name == 'LS':
                # the coefficient of one of the monomials: a number, zero only for zero
                if any(m for _, m in got) or bool(got) != bool(p) or (got and got[0][0] not in [str(F(c)) for c, _ in p]):
                    bad('a coefficient of the polynomial')
            else:
                q = simplify(args[1])
                quot, rem = simplify(got[0]), simplify(got[1])
                if rem and xdeg(rem) >= xdeg(q):
                    bad('reduced')
                left = p
                if name == 'pseudo_div' and p and xdeg(p) >= xdeg(q):
                    for _ in range(xdeg(p) - xdeg(q) + 1):
                        left = tmul(lead(q), left)
                if left != tadd(tmul(quot, q), rem):
                    bad('such that LC(q)^k p = quotient q + remainder with k = deg p - deg q + 1' if name == 'pseudo_div' else 'p = quotient q + remainder')


# ---- diagrams ----

@st.composite
def planted(draw, kinds, tier):
    """Polynomials with conditions that hold at a chosen parameter point in a chosen cell, so that diagrams are shown."""
    f = draw(formula(('all',), tier))
    polys = f['all']
    params = names(polys)
    env = {n: draw(st.sampled_from([F(0), F(1), F(-1), F(2), F(1, 2)])) for n in params}
    us = [in_x(p, env) for p in polys]
    out = {k: [] for k in kinds}
    if kinds[0] == 'lt':
        _, table = X.cells(us)
        v = draw(st.sampled_from(table))[1]
        for p, s in zip(polys, v):
            out[{-1: 'lt', 0: 'eq', 1: 'gt'}[s]].append(p)
    else:
        for p, u in zip(polys, us):
            out['ne' if u and draw(st.integers(0, 2)) else 'eq' if not u or len(u) > 1 and not out['eq'] else 'ne'].append(p)
    out['z'] = f['z']
    return out


def patterns(polys):
    """Number of distinct complex roots by the set of polynomials that vanish there (zero polynomials vanish everywhere)."""
    basis = []          # pairwise coprime, squarefree
    for p in polys:
        if len(p) < 2:
            continue
        todo = [X.monic(X.squarefree(p))]
        while todo:
            a = todo.pop()
            if len(a) < 2:
                continue
            for i, b in enumerate(basis):
                g = X.gcd(a, b)
                if len(g) > 1:
                    basis[i] = g
                    rest = X.divmod_(b, g)[0]
                    if len(rest) > 1:
                        basis.append(X.monic(rest))
                    todo.append(X.divmod_(a, g)[0])
                    break
            else:
                basis.append(X.monic(a))
    out = []
    for b in basis:
        v = tuple(0 if not p or not X.rem(p, b) else 1 for p in polys)
        out += [v] * (len(b) - 1)
    return sorted(out)


@st.composite
def single(draw, modes, tier):
    """One assignment only, so larger polynomials are possible."""
    if draw(st.booleans()):
        polys = draw(formula(('all',), tier))['all']
    else:
        params = draw(st.sampled_from([[], ['y'], ['y'], ['y', 'z']]))
        polys = [draw(qpoly(params, 3)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    if draw(st.booleans()):
        polys = polys[:2] + [draw(st.sampled_from(FACTORS[:4]))]
    polys = [p for p in polys if xdeg(p)] or [[['1', {'x': 2}], ['1', {'y': 1}]]]
    at = {n: str(draw(st.sampled_from([F(0), F(0), F(1), F(-1), F(2), F(1, 2), F(-1, 4), F(-3)]))) for n in 'yz'}
    return {'polys': polys, 'mode': draw(st.sampled_from(modes)), 'at': at, 'turn': draw(st.integers(0, 5)) == 5}


class Diagrams(Check):
    ops = ('ops_qe',)
    paths = PATHS
    quick = 40
    thorough = 1000
    call_timeout = 120
    near_copies = True      # most fresh cases are too large, near copies of a small one are small
    quick_cap = 90
    calls_per_worker = 400
    kinds = ('lt', 'eq', 'gt')
    which = ('muchnik', 'ch', 'ch')
    rule = ('a case is a set of one to three polynomials with conditions planted so that the procedure shows diagrams; each diagram is compared, column by column, '
            'with the exact one at every sampled parameter point that matches its assignments; non-trivial: at least one diagram with a root column was compared')
    assumptions = QE.assumptions

    partials = ('point', 'point', 'default', 'r_assignment_interactive', 'r_assignment_all_zero', 'r_assignment_all_pos')

    def strategy(self, tier):
        full = st.tuples(planted(self.kinds, tier), st.sampled_from(self.which), st.integers(0, 5)).map(lambda t: dict(t[0], which=t[1], turn=t[2] == 5))
        return st.one_of(full, full, single(self.partials, tier))

    def one_assignment(self, ctx, case):
        """The partial procedure: one assignment of the parameters."""
        polys, mode = case['polys'], case['mode']
        params = names(polys)
        env = {n: F(case['at'][n]) for n in params}
        which = 'complex' if 'complex' in self.which else 'real'
        r = ctx.call('partial', which=which, polys=polys, mode=mode, turn=case.get('turn', False), at={n: str(v) for n, v in env.items()})
        what = 'partial %s(%s, %s)' % (which, [show(p) for p in polys], mode)
        if r.raised:
            if mode.endswith(('all_zero', 'all_pos', 'all_one')) and r.etype != 'TypeError':
                # no parameter values need to give these signs
                ctx.label('partial: impossible assignment')
                raise Skip('assignment')
            raise Violation('%s %s' % (what, r))
        if r.ok.get('toobig'):
            ctx.label('stopped: too many algebra operations')
            raise Skip('size')
        ctx.label('partial')
        rows = r.ok['shown'][0] if r.ok['shown'] else []
        if mode in ('point', 'default') or mode.endswith('interactive'):
            points = [env]
        else:
            points = [dict(env, y=v) for v in points_for(critical(polys, env))] if 'y' in params else [env]
        done = False
        for e in points:
            if not self.matches(rows, None, e):
                if mode in ('point', 'default') or mode.endswith('interactive'):
                    raise Violation('%s: the diagram of %s does not have the signs given for %s' % (what, [(show(p), v) for p, v in rows], e))
                continue
            have = [simplify(p) for p, _ in rows]
            for p in polys:
                if simplify(p) not in have:
                    raise Violation('%s: %s is not in the diagram of %s' % (what, show(p), [show(q) for q in have]))
            us = [in_x(p, e) for p, _ in rows]
            nroots, want = self.expected(us)
            got = self.columns(rows)
            if got != want:
                raise Violation('%s at %s: the diagram of %s has columns %s, not %s' % (
                    what, {k: str(v) for k, v in e.items()} or 'no parameters', [show(p) for p, _ in rows], got, want))
            done = True
            ctx.nontrivial(nroots > 0)
        ctx.label('partial: compared' if done else 'partial: assignment of no sampled point')

    def matches(self, rows, clause, env):
        if clause is not None:
            return all(t(value(p, env)) for t, part in zip(SIGN3, clause) for p in part)
        return all(X.sgn(value(p, env)) == v[0] for p, v in rows if parametric(p))

    def expected(self, us):
        rs, table = X.cells(us)
        cols = [v for _, v in table]
        return len(rs), [cols[0]] + cols + [cols[-1]]

    def columns(self, rows):
        return list(zip(*[v for _, v in rows]))

    def run(self, ctx, case):
        if 'mode' in case:
            return self.one_assignment(ctx, case)
        polys = [p for k in self.kinds for p in case[k]]
        params = names(polys)
        which = case['which']
        r = ctx.call('diagrams', which=which, groups=[case[k] for k in self.kinds], limit=(3000 if which != 'muchnik' else 6000) * (3 if self.tier == 'thorough' else 1),
                     unknowns={'muchnik': 5, 'complex': 9, 'ch': 1000}[which], turn=case.get('turn', False))
        what = '%s(%s)' % (which, ', '.join('%s=%s' % (k, [show(p) for p in case[k]]) for k in self.kinds))
        if r.raised:
            raise Violation('%s %s' % (what, r))
        if r.ok.get('toobig'):
            ctx.label('stopped: too many algebra operations')
            raise Skip('size')
        shown, clauses = r.ok['shown'], r.ok['clauses']
        ctx.label(which)
        if which == 'ch' and len(shown) != len(clauses):
            ctx.label('diagrams not shown one per clause')
            raise Skip('shape')
        points = []
        others = [n for n in params if n != 'y']
        for zv in (case['z'] if others else ['0']):
            env = {n: F(zv) for n in others}
            if 'y' in params:
                points += [dict(env, y=v) for v in points_for(critical(polys, env))]
            else:
                points.append(env)
        done = 0
        for i, rows in enumerate(shown):
            if any(v is None for _, vs in rows for v in vs):
                continue        # shown as unfinished
            clause = clauses[i] if which == 'ch' else None
            for env in points:
                if not self.matches(rows, clause, env):
                    continue
                us = [in_x(p, env) for p, _ in rows]
                nroots, want = self.expected(us)
                got = self.columns(rows)
                if which == 'ch' and got != want:
                    # further columns without a root that repeat their neighbours change nothing
                    got = condense(got)
                    want = condense(want)
                if got != want:
                    raise Violation('%s at %s: the diagram of %s has columns %s, not %s' % (
                        what, {k: str(v) for k, v in env.items()}, [show(p) for p, _ in rows], got, want))
                done += 1
                ctx.nontrivial(nroots > 0)
        ctx.label('diagrams compared' if done else 'no diagram compared')


def parametric(p):
    """A constant whose sign is an assignment: it has parameters and no x."""
    return any(m for _, m in p) and not any('x' in m for _, m in p)


def condense(cols):
    out = []
    for c in cols:
        if not out or out[-1] != c:
            out.append(c)
    return out


class RealDiagrams(Diagrams):
    id = 'C21'


class ComplexDiagrams(Diagrams):
    id = 'C22'
    partials = ('point', 'point', 'default', 'c_assignment_interactive', 'c_assignment_all_zero', 'c_assignment_all_one')
    kinds = ('eq', 'ne')
    which = ('complex',)

    def matches(self, rows, clause, env):
        return all((0 if value(p, env) == 0 else 1) == v[0] for p, v in rows if parametric(p))

    def expected(self, us):
        pat = patterns(us)
        return len(pat), [tuple(1 if u else 0 for u in us)] + pat

    def columns(self, rows):
        cols = list(zip(*[v for _, v in rows]))
        return cols[:1] + sorted(cols[1:])


CHECKS = [MuchnikComplex(), MuchnikReal(), CohenHormander(), Algebra(), RealDiagrams(), ComplexDiagrams()]
