"""GRF: hiding problems, their atoms and goals, the CAD sample points, and the choice of hypotheses."""
import random
import re
from fractions import Fraction as F

from hypothesis import strategies as st

from . import exact as X
from .core import Check, Skip, Violation
from .parse_checks import RELS, REL_OK
from .qe_checks import critical, in_x, points_for, show, simplify, tadd, tmul, value

PATHS = ['$SAGE', '$REPO/GRF']
STANDIN = ['Sage is not installed: pbt/jy/sageshim models the part of it that GRF uses, exactly and over the rationals; code that needs more of Sage gives no verdict']
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '=': '!=', '!=': '='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '=': '=', '!=': '!='}


def holds(atom, env):
    return REL_OK[atom[1]](value(atom[0], env))


def atom_names(a):
    return {n for _, m in a[0] for n in m}


def same(a, b):
    """The same relation: equal polynomials up to a factor, with the relation turned round if it is negative."""
    p, q = simplify(a[0]), simplify(b[0])
    if not p or not q:
        return (not p) == (not q) and REL_OK[a[1]](0) == REL_OK[b[1]](0)
    k = F(q[0][0]) / F(p[0][0])
    if simplify([[str(F(c) * k), m] for c, m in p]) != q:
        return False
    return (a[1] if k > 0 else FLIP[a[1]]) == b[1] or (all(not m for _, m in p) and REL_OK[a[1]](F(p[0][0])) == REL_OK[b[1]](F(q[0][0])))


def show_atom(a):
    return '%s %s 0' % (show(a[0]), a[1])


class Sage(Check):
    ops = ('ops_grf',)
    paths = PATHS
    assumptions = STANDIN


# ---- text ----

NAMES = ['x', 'y', 'z', 'A', 'b', 'ep', 'x_358', 'v_3', 'ox_6', 't_403', 'Abs_13', 'skoXC1', 'a-1', 'k:0', 't.1', 'x0', 'x1', 'x2', 'x10', 'sequent', 'antecedent', 'Real', 'e', 'E1', '4x']


@st.composite
def numeral(draw):
    k = draw(st.integers(0, 5))
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 10 ** 9)))
    frac = draw(st.sampled_from(['', '', '0', '5', '25', '1', '125', '3', '001', '50']))
    v = F('%d.%s' % (n, frac or '0'))
    t = '%d.%s' % (n, frac)
    if k == 0:
        return ['n', draw(st.sampled_from(['~', '~', '~ '])) + t, str(-v)]
    return ['n', t, str(v)]


@st.composite
def sterm(draw, names, depth):
    k = draw(st.integers(0, 11)) if depth > 0 else draw(st.integers(0, 4))
    if k <= 2:
        return ['v', draw(st.sampled_from(names))]
    if k <= 4:
        return draw(numeral())
    if k <= 8:
        return [['+', '-', '*', '*'][k - 5], draw(sterm(names, depth - 1)), draw(sterm(names, depth - 1))]
    if k <= 10:
        return ['neg', draw(sterm(names, depth - 1))]
    c = draw(st.integers(1, 12))
    den = draw(st.sampled_from([['n', '%d.' % c, str(c)], ['n', '%d.0' % c, str(c)], ['neg', ['n', '%d.' % c, str(c)]], ['n', '~%d.' % c, str(-c)],
                                ['+', ['n', '1.', '1'], ['n', '%d.' % c, str(c)]]]))
    return ['/', draw(sterm(names, depth - 1)), den]


def stext(draw, t):
    sp = lambda: draw(st.sampled_from([' ', ' ', ' ', ' ', ' ', '  ', '\n', '\t']))
    op = lambda: draw(st.sampled_from(['', '', '', '', ' ']))

    def go(t):
        if t[0] in 'nv':
            return t[1]
        return '(' + op() + ('-' if t[0] == 'neg' else t[0]) + ''.join(sp() + go(a) for a in t[1:]) + op() + ')'
    return go(t)


def spoly(t):
    k = t[0]
    if k == 'n':
        return simplify([[t[2], {}]])
    if k == 'v':
        return [['1', {t[1]: 1}]]
    a = spoly(t[1])
    if k == 'neg':
        return tadd([], a, -1)
    b = spoly(t[2])
    if k == '+':
        return tadd(a, b)
    if k == '-':
        return tadd(a, b, -1)
    if k == '*':
        return tmul(a, b)
    return simplify([[str(F(c) / F(b[0][0])), m] for c, m in a])


@st.composite
def problem_texts(draw, tier):
    hist = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True))
        depth = draw(st.integers(1, 3))
        if draw(st.integers(0, 7)) == 0:        # more variables than digits
            names = draw(st.lists(st.sampled_from(NAMES), min_size=11, max_size=15, unique=True))
            depth = 4
        rel = lambda: [draw(st.sampled_from(RELS)), draw(sterm(names, depth)), draw(sterm(names, draw(st.integers(0, depth))))]
        how = draw(st.sampled_from(['fmls', 'sequent', 'sequent']))
        h = {'fresh': draw(st.integers(0, 2)) > 0, 'how': how}
        if how == 'fmls':
            rels = [rel() for _ in range(draw(st.integers(1, 3)))]
            h['text'] = draw(st.sampled_from([' ', '\n', '  '])).join(stext(draw, r) for r in rels)
            h['rels'] = rels
        else:
            h['ant'] = [rel() for _ in range(draw(st.integers(0, 3)))]
            h['suc'] = [rel() for _ in range(draw(st.integers(0, 2)))]
            h['name'] = draw(st.sampled_from(['MetiTarski formula', ' x >= 0 ==> y ', 'a (b) c', '(antecedent', 'n\nm']))
            h['text'] = '(sequent "%s" (antecedent %s) (succedent %s))%s' % (
                h['name'], ' '.join(stext(draw, r) for r in h['ant']), '\n'.join(stext(draw, r) for r in h['suc']), draw(st.sampled_from(['', '\n'])))
        hist.append(h)
    return hist


class Text(Sage):
    id = 'C23'
    quick = 300
    thorough = 6000
    quick_cap = 70
    rule = ('a case is a history of one to three problem texts (formulas or sequents over up to six variables each, first seen anywhere in the text) parsed in one context or '
            'in fresh ones; every parsed atom must be the relation that the text denotes; non-trivial: some formula with two or more variables was compared')

    def strategy(self, tier):
        return problem_texts(tier)

    def compare(self, what, got, rels, ctx):
        if len(got) != len(rels):
            raise Violation('%s: %d formulas instead of %d' % (what, len(got), len(rels)))
        for g, r in zip(got, rels):
            want = [tadd(spoly(r[1]), spoly(r[2]), -1), r[0]]
            if not same(g, want):
                raise Violation('%s: parsed as %s, not %s' % (what, show_atom(g), show_atom(want)))
            ctx.nontrivial(len(atom_names(want)) > 1)

    def run(self, ctx, case):
        r = ctx.call('parse', history=[{k: h[k] for k in ('fresh', 'how', 'text')} for h in case])
        if r.raised:
            raise Violation('parsing %s %s' % ([h['text'] for h in case], r))
        for h, got in zip(case, r.ok):
            what = 'text %r%s' % (h['text'], '' if len(case) == 1 else ' after %r' % [k['text'] for k in case if k is not h])
            if 'etype' in got:
                raise Violation('%s: rejected (%s: %s)' % (what, got['etype'], got['emsg']))
            ctx.label(h['how'])
            if h['how'] == 'fmls':
                self.compare(what, got['atoms'], h['rels'], ctx)
            elif got.get('none'):
                raise Violation('%s: no sequent was found' % what)
            else:
                self.compare(what, got['ant'], h['ant'], ctx)
                self.compare(what, got['suc'], h['suc'], ctx)
                if got['name'] != h['name']:
                    raise Violation('%s: the sequent is called %r' % (what, got['name']))


# ---- atoms and goals ----

small = st.sampled_from([0, 0, 1, -1, 2, -2, 3, F(1, 2), F(-3, 2)])


@st.composite
def mpoly(draw, n, deg, maxterms=4):
    out = []
    for _ in range(draw(st.integers(1, maxterms))):
        m = {}
        for _ in range(draw(st.integers(0, deg))):
            v = 'x%d' % draw(st.integers(0, n - 1))
            m[v] = m.get(v, 0) + 1
        out.append([str(draw(st.sampled_from([1, 1, -1, 2, -3, F(1, 2)]))), m])
    return simplify(out)


@st.composite
def matom(draw, n, deg, at=None, ops=RELS):
    """at: a point where the polynomial often vanishes"""
    p = draw(mpoly(n, deg))
    if at is not None and draw(st.booleans()):
        p = tadd(p, [[str(value(p, at)), {}]], -1)
    return [p, draw(st.sampled_from(ops))]


@st.composite
def mpoint(draw, n):
    return {'x%d' % i: str(draw(small)) for i in range(n)}


def ev(p):
    return {k: F(v) for k, v in p.items()}


@st.composite
def eval_case(draw, tier):
    n = draw(st.integers(2, 4))
    pts = [draw(mpoint(n)) for _ in range(4)]
    atoms = [draw(matom(n, 3, at=ev(draw(st.sampled_from(pts))))) for _ in range(draw(st.integers(1, 3)))]
    parts = []
    for p in pts[:2]:
        keep = draw(st.lists(st.sampled_from(sorted(p)), min_size=1, unique=True))
        parts.append({k: p[k] for k in keep})
    main = draw(matom(n, 2, at=ev(pts[0])))
    hyps = [draw(matom(n, 2, at=ev(draw(st.sampled_from(pts))), ops=['=', '=', '<', '>=', '!='])) for _ in range(draw(st.integers(0, 4)))]
    for h in hyps:
        if draw(st.integers(0, 3)) == 0:
            i = draw(st.integers(0, n - 2))
            h[0], h[1] = simplify([['1', {'x%d' % i: 1}], [str(draw(st.sampled_from([-1, 1, 2]))), {'x%d' % draw(st.integers(i + 1, n - 1)): 1}],
                                   [str(draw(small)), {}]]), '='
        elif draw(st.integers(0, 3)) == 0:
            h[0] = simplify([['1', {'x%d' % draw(st.integers(0, n - 1)): draw(st.integers(1, 2))}], [str(draw(small)), {}]])
    if len(hyps) > 1 and draw(st.integers(0, 3)) == 0:
        hyps[-1] = [simplify([[str(F(c) * 2), m] for c, m in hyps[0][0]]), hyps[0][1]]
    if draw(st.booleans()):
        # a point that refutes the goal: no restriction of it may be called true
        at = ev(pts[0])
        for h in hyps:
            if h[1] == '=':
                h[0] = tadd(h[0], [[str(value(h[0], at)), {}]], -1)
            elif not holds(h, at):
                h[1] = NEG[h[1]]
        if holds(main, at):
            main[1] = NEG[main[1]]
    if draw(st.integers(0, 2)):
        # points on which the equations hold are what reduction by them is about
        pts += [{k: str(F(v) * draw(st.sampled_from([1, 1, 0, -1, 2]))) for k, v in p.items()} for p in pts[:2]]
    return {'n': n, 'points': pts + parts, 'atoms': atoms, 'main': main, 'hyps': hyps, 'gbs': [draw(st.integers(0, 3)) > 0 for _ in hyps]}


class Atoms(Sage):
    id = 'C24'
    quick = 400
    thorough = 4000
    quick_cap = 60
    rule = ('a case is a set of atoms and a goal to which up to four hypotheses are promoted one by one, with or without reduction by equations, over two to four variables; '
            'atoms, their negations and the goal after every step are evaluated at complete and partial points; non-trivial: the truth of some atom differs between two points, '
            'or an equation was promoted with reduction')

    def strategy(self, tier):
        return eval_case(tier)

    def run(self, ctx, case):
        n, pts = case['n'], case['points']
        r = ctx.call('atoms', n=n, atoms=case['atoms'], points=pts)
        if r.raised:
            raise Violation('evaluating %s %s' % ([show_atom(a) for a in case['atoms']], r))
        for a, rows in zip(case['atoms'], r.ok):
            seen = set()
            for p, (yes, no, twice) in zip(pts, rows):
                if not atom_names(a) <= set(p):
                    want = (None, None, None)
                    ctx.label('partial point')
                else:
                    w = holds(a, ev(p))
                    want = (w, not w, w)
                    seen.add(w)
                if (yes, no, twice) != want:
                    raise Violation('%s at %s: the atom, its negation and its double negation are %s, not %s' % (show_atom(a), p, (yes, no, twice), want))
            ctx.nontrivial(len(seen) > 1)
        full = [p for p in pts if len(p) == n]
        part = [p for p in pts if len(p) < n]
        r = ctx.call('goal', n=n, main=case['main'], hyps=case['hyps'], gbs=case['gbs'], points=full + part)
        what = 'goal %s with hypotheses %s' % (show_atom(case['main']), [(show_atom(h), g) for h, g in zip(case['hyps'], case['gbs'])])
        if r.raised:
            raise Violation('%s %s' % (what, r))
        for k, row in enumerate(r.ok['truth']):
            for p, got in zip(full, row):
                e = ev(p)
                want = holds(case['main'], e) or not all(holds(h, e) for h in case['hyps'][:k])
                if got != want:
                    raise Violation('%s: after %d promotions it is %s at %s, not %s (hypotheses now %s)' % (
                        what, k, got, p, want, [show_atom(h) for h in r.ok['hyps']]))
            # at a partial point "true" has to hold for every completion
            for p, got in zip(part, row[len(full):]):
                for f in full if got is True else []:
                    e = dict(ev(f), **ev(p))
                    if not holds(case['main'], e) and all(holds(h, e) for h in case['hyps'][:k]):
                        raise Violation('%s: after %d promotions it is true at the partial point %s, but false at %s (hypotheses now %s)' % (
                            what, k, p, {a: str(b) for a, b in e.items()}, [show_atom(h) for h in r.ok['hyps']]))
        if any(g and h[1] == '=' for h, g in zip(case['hyps'], case['gbs'])):
            ctx.nontrivial()
            ctx.label('promoted equation')


# ---- sample points ----

@st.composite
def upoly(draw):
    """A polynomial in x0 with rational and irrational roots."""
    p = [F(draw(st.sampled_from([1, 1, -1, 2])))]
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
        k = draw(st.integers(0, 6))
        if k <= 2:
            r = F(draw(st.integers(-8, 8)), draw(st.sampled_from([1, 1, 2, 3])))
            if draw(st.integers(0, 4)) == 0:        # close to others, or far away
                r = r + F(draw(st.integers(-3, 3)), 1000) if draw(st.booleans()) else r * 10 ** 5
            p = X.mul(p, [-r, F(1)])
        elif k <= 4:
            a, b = draw(st.integers(-3, 3)), draw(st.sampled_from([2, 3, 5, 7, 10]))
            p = X.mul(p, [F(a * a - b), F(-2 * a), F(1)])           # (x - a)^2 = b
        elif k == 5:
            p = X.mul(p, [F(draw(st.integers(1, 3))), F(draw(st.integers(-1, 1))), F(1)])
        else:
            p = X.mul(p, [F(draw(st.integers(-3, 3))) for _ in range(3)] + [F(1)])
    return [[str(c), {'x0': i} if i else {}] for i, c in enumerate(p) if c]


@st.composite
def sps_case(draw, tier):
    polys = [draw(upoly()) for _ in range(draw(st.integers(0, 4 if tier == 'quick' else 6)))]
    if draw(st.integers(0, 3)) == 0:
        polys.append(simplify([['3', {'x0': draw(st.integers(1, 4))}]]))
    if draw(st.integers(0, 5)) == 0:
        polys.append([['2', {}]])
    if polys and draw(st.integers(0, 3)) == 0:
        polys.append(polys[0])
    return {'polys': polys, 'num_sps': draw(st.integers(1, 3)), 'seed': draw(st.integers(0, 10 ** 6))}


class Sectors(Sage):
    id = 'C25'
    quick = 350
    thorough = 6000
    quick_cap = 50
    rule = ('a case is a family of up to five univariate polynomials with rational, irrational, multiple and shared roots; the sample points must meet every interval between '
            'neighbouring roots and every rational root; non-trivial: two or more distinct roots')

    def strategy(self, tier):
        return sps_case(tier)

    def run(self, ctx, case):
        us = []
        for p in case['polys']:
            d = {m.get('x0', 0): F(c) for c, m in p}
            u = X.norm([d.get(i, F(0)) for i in range(max(d) + 1)])
            if len(u) > 1:
                us.append(u)
        r = ctx.call('sps', n=2, var='x0', polys=case['polys'], num_sps=case['num_sps'], seed=case['seed'])
        what = 'sample points for the roots of %s' % [show(p) for p in case['polys']]
        if r.raised:
            raise Violation('%s %s' % (what, r))
        pts = sorted({F(p) for p in r.ok['points']})
        prod = [F(1)]
        for u in us:
            prod = X.mul(prod, u)
        rs = X.roots(X.squarefree(prod)) if len(prod) > 1 else []
        ctx.nontrivial(len(rs) > 1)
        ctx.label('%d roots' % len(rs))
        hit = set()
        for a in pts:
            pos, on = 0, None
            for i, rt in enumerate(rs):
                c = compare(rt, a)
                if c < 0:
                    pos = i + 1
                elif c == 0:
                    on = i
            hit.add(('root', on) if on is not None else ('sector', pos))
        for i in range(len(rs) + 1):
            if ('sector', i) not in hit:
                raise Violation('%s: no point in sector %d of %d: %s' % (what, i, len(rs) + 1, [str(p) for p in pts]))
        for i, rt in enumerate(rs):
            lo, hi = rt.tight()
            if lo == hi and ('root', i) not in hit:
                raise Violation('%s: the rational root %s is not a sample point: %s' % (what, lo, [str(p) for p in pts]))


def compare(root, a):
    """sign of root - a"""
    return root.sign([-a, F(1)])


# ---- CAD in several variables ----

@st.composite
def cad_case(draw, tier):
    n = 2 if tier == 'quick' or draw(st.integers(0, 3)) else 3
    polys = [draw(mpoly(n, 2, 3)) for _ in range(draw(st.integers(1, 3 if n == 2 else 2)))]
    k = draw(st.integers(0, 10))
    if k == 0:
        polys.append(tmul(polys[0], draw(mpoly(n, 1, 2))))         # shared factor
    elif k == 1:
        polys[0] = tmul(polys[0], polys[0])
    elif k == 2:
        i, j = draw(st.sampled_from([(0, 1), (1, 0)]))
        polys.append(simplify([['1', {'x%d' % i: 2}], ['-1', {'x%d' % j: 1}], [str(draw(small)), {}]]))
    elif k == 3:
        polys.append(simplify([['1', {'x0': 2}], ['1', {'x1': 2}], ['-1', {}]]))
    elif 3 < k < 9:
        # a leading coefficient that vanishes where the discriminant does not
        u, v = draw(st.sampled_from([('x0', 'x1'), ('x1', 'x0')]))
        d = draw(st.sampled_from([1, 2, 2, 2]))
        c = draw(st.sampled_from([0, 0, 1, -1]))
        w = draw(st.sampled_from([1, 4, 8]))
        cut = [[str(w), {u: 1}], [str(draw(st.sampled_from([1, -1])) - w * c), {}]]
        if draw(st.integers(0, 3)):         # the variable of lower degree is eliminated first
            cut = tmul(cut, [['1', {u: 2}], ['1', {}]])
        polys = [[['1', {u: 1, v: d}], [str(-c), {v: d}], [draw(st.sampled_from(['1', '-1', '2'])), {v: d - 1}], [draw(st.sampled_from(['1', '-1', '0', '-2'])), {}],
                  [draw(st.sampled_from(['0', '0', '1', '-1'])), {u: 1}]],
                 cut, [['1', {v: 1}], [str(draw(st.integers(-6, 6))), {}]]]
        if draw(st.integers(0, 3)) == 0:
            polys.pop(draw(st.integers(0, 2)))
        polys = draw(st.permutations(polys))
        polys = [simplify(p) for p in polys]
    polys = [p for p in polys if any(m for _, m in p)] or [[['1', {'x0': 1}]]]
    pts = [{'x%d' % i: str(F(draw(st.integers(-60, 60)), draw(st.sampled_from([1, 4, 7, 16])))) for i in range(n)} for _ in range(12 if n > 2 else 0)]
    goal = None
    if not 3 < k < 9 and draw(st.integers(0, 2)) == 0:
        goal = [draw(st.sampled_from(['<', '>', '<=', '>='])) for _ in polys]
    return {'n': n, 'polys': polys, 'points': pts, 'goal': goal, 'seed': draw(st.integers(0, 10 ** 6))}


def all_signs(polys):
    """[(value of x0, strict sign combination)] for every full-dimensional cell of polynomials in x0 and x1. sympy chooses the values of x0;
    each combination is then exact."""
    ren = [[[c, {{'x0': 'y', 'x1': 'x'}[k]: e for k, e in m.items()}] for c, m in p] for p in polys]
    out = []
    for a in points_for(critical(ren, {}), 60):
        for kind, s in X.cells([in_x(p, {'y': a}) for p in ren])[1]:
            if 0 not in s and s not in [t for _, t in out]:
                out.append((a, s))
    return out


class Cad(Sage):
    id = 'C26'
    quick = 100
    thorough = 1000
    quick_cap = 65
    call_timeout = 12
    rule = ('a case is one to four polynomials in two variables (three in the thorough tier), with shared factors and squares; the strict sign combination of every full-dimensional cell (two variables), and at each of twelve rational '
            'points (three variables), must also occur at a sample point, or, with a goal, a goal that fails at one of them with all polynomials non-zero must fail at a sample point; non-trivial: the points show two or more combinations')

    def strategy(self, tier):
        return cad_case(tier)

    def run(self, ctx, case):
        polys, n = case['polys'], case['n']
        goal = case['goal']
        r = ctx.call('cad', n=n, polys=polys, main=[polys[0], goal[0]] if goal else None,
                     hyps=[[p, o] for p, o in zip(polys[1:], goal[1:])] if goal else [], num_sps=1, seed=case['seed'], partial=bool(goal))
        what = 'sample points for %s%s' % ([show(p) for p in polys], ' with goal relations %s' % goal if goal else '')
        if r.raised:
            raise Violation('%s %s' % (what, r))
        sig = lambda d: tuple(X.sgn(value(p, d)) for p in polys)
        got = set()
        for d in r.ok:
            if set(d) != {'x%d' % i for i in range(n)}:
                raise Violation('%s: the point %s does not assign every variable' % (what, d))
            got.add(sig(ev(d)))
        seen = set()
        false = lambda s: not REL_OK[goal[0]](s[0]) and all(REL_OK[o](v) for o, v in zip(goal[1:], s[1:]))
        witnesses = [(p, sig(ev(p))) for p in case['points']]
        if n == 2:
            witnesses += [({'x0': str(a)}, s) for a, s in all_signs(polys)]
        for p, s in witnesses:
            if 0 in s:
                continue
            seen.add(s)
            if goal is None and s not in got:
                raise Violation('%s: the signs %s at %s occur at none of the %d points' % (what, s, p, len(r.ok)))
            if goal is not None and false(s) and not any(false(g) for g in got):
                raise Violation('%s: the goal fails at %s but at none of the %d points' % (what, p, len(r.ok)))
        ctx.nontrivial(len(seen) > 1)
        ctx.label('with a goal' if goal else 'all signs')
        ctx.label('up to %d points' % (1 << len(r.ok).bit_length()))


# ---- which hypotheses ----

@st.composite
def choice_case(draw, tier):
    n = draw(st.integers(2, 4))
    at = draw(mpoint(n))
    near = [draw(mpoint(n)) for _ in range(draw(st.integers(0, 8)))]
    hyps = [draw(matom(n, 2, at=ev(draw(st.sampled_from([at] + near))))) for _ in range(draw(st.integers(1, 6)))]
    main = draw(matom(n, 2, at=ev(at), ops=['<', '>', '=', '!=', '<=', '>=']))
    gh = [draw(matom(n, 1, at=ev(at), ops=['>=', '<', '='])) for _ in range(draw(st.sampled_from([0, 0, 1])))]
    k = len(hyps)
    bads = [sorted(draw(st.sets(st.integers(0, k - 1), max_size=k - 1))) for _ in range(draw(st.integers(0, 5)))]
    return {'n': n, 'at': at, 'near': near, 'hyps': hyps, 'main': main, 'gh': gh, 'bads': bads}


class Choice(Sage):
    id = 'C27'
    quick = 500
    thorough = 10000
    quick_cap = 60
    rule = ('a case is up to six hypotheses, a goal and up to nine points; the reported bad sets must generate exactly the hypothesis sets that fail to exclude a point where the goal fails, and '
            'the chosen set for generated bad sets must be a lightest one that is in none of them; non-trivial: two or more points where the goal fails, or two or more bad sets')

    def strategy(self, tier):
        return choice_case(tier)

    def run(self, ctx, case):
        n, hyps, main, gh = case['n'], case['hyps'], case['main'], case['gh']
        r = ctx.call('bads', n=n, hyps=hyps, main=main, goal_hyps=gh, at=case['at'], near=case['near'])
        what = 'hypotheses %s, goal %s (given %s) at %s and %s' % ([show_atom(h) for h in hyps], show_atom(main), [show_atom(h) for h in gh], case['at'], case['near'])
        if r.raised:
            raise Violation('%s %s' % (what, r))
        goal = lambda e: holds(main, e) or not all(holds(h, e) for h in gh)
        if goal(ev(case['at'])):
            ctx.label('goal true')
            if r.ok != {'bads': None}:
                raise Violation('%s: %s although the goal holds at the point' % (what, r.ok))
        else:
            sets = []
            for p in [case['at']] + case['near']:
                if not goal(ev(p)):
                    sets.append(frozenset(i for i, h in enumerate(hyps) if holds(h, ev(p))))
            ctx.nontrivial(len(set(sets)) > 1)
            if any(len(s) == len(hyps) for s in sets):
                ctx.label('counterexample')
                if 'counterexample' not in r.ok:
                    raise Violation('%s: the counterexample is not reported: %s' % (what, r.ok))
            else:
                if r.ok.get('bads') is None:
                    raise Violation('%s: %s although the goal fails at the point' % (what, r.ok))
                got = {frozenset(b) for b in r.ok['bads']}
                top = {s for s in sets if not any(s < t for t in sets)}
                if not top <= got or any(not any(g <= t for t in top) for g in got):
                    raise Violation('%s: bad sets %s, but the maximal ones are %s' % (what, r.ok['bads'], sorted(sorted(s) for s in top)))
                ctx.label('bad sets')
        bads = [frozenset(b) for b in case['bads']]
        r = ctx.call('good', n=n, hyps=hyps, main=main, bads=case['bads'])
        if r.raised:
            raise Violation('choosing from %s with bad sets %s %s' % ([show_atom(h) for h in hyps], case['bads'], r))
        w, got = r.ok['weights'], frozenset(r.ok['chosen'])
        cost = lambda s: sum(w[i] for i in s)
        ok = lambda s: all(not s <= b for b in bads)
        k = len(hyps)
        sets = [frozenset(i for i in range(k) if m >> i & 1) for m in range(1 << k)]
        best = min(cost(s) for s in sets if ok(s))
        ctx.nontrivial(len(bads) > 1)
        if not ok(got) or cost(got) != best:
            raise Violation('hypotheses %s, weights %s, bad sets %s: chose %s' % ([show_atom(h) for h in hyps], w, case['bads'], sorted(got)))
        used = {v for h in [main] for v in atom_names(h)}
        inside = [w[i] for i, h in enumerate(hyps) if atom_names(h) & used]
        outside = [w[i] for i, h in enumerate(hyps) if not atom_names(h) & used]
        if inside and outside and max(inside) >= min(outside):
            raise Violation('hypotheses %s, goal %s: weights %s prefer a hypothesis without variables of the goal' % ([show_atom(h) for h in hyps], show_atom(main), w))
        if any(x <= 0 for x in w):
            raise Violation('weights %s' % w)


# ---- whole runs ----

VN = ['x', 'y', 'z', 'w', 'b', 'A']


def lin(draw, names):
    p = []
    for v in draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)):
        p.append([str(draw(st.sampled_from([1, 1, 1, -1, 2]))), {v: 1}])
    if draw(st.booleans()):
        p.append([str(draw(st.sampled_from([1, -1, 2, F(1, 2)]))), {}])
    return simplify(p)


def as_text(p):
    """SMT2 text of a polynomial"""
    def mono(c, m):
        v = F(c)
        t = '%d.' % abs(v.numerator)
        if v < 0:
            t = '(- %s)' % t
        if v.denominator != 1:
            t = '(/ %s %d.)' % (t, v.denominator)
        for n in sorted(m):
            for _ in range(m[n]):
                t = '(* %s %s)' % (t, n)
        return t
    out = None
    for c, m in p:
        out = mono(c, m) if out is None else '(+ %s %s)' % (out, mono(c, m))
    return out or '0.'


@st.composite
def hiding(draw, tier):
    names = VN[:draw(st.integers(2, 3))]
    strict = lambda: draw(st.sampled_from(['>', '>', '<']))
    ant = []
    a, b = lin(draw, names), lin(draw, names)
    k = draw(st.integers(0, 6))
    if k == 0:
        ant, goal = [[a, '>'], [b, '>']], [tmul(a, b), '>']
    elif k == 1:
        ant, goal = [[a, '>'], [b, '>']], [tadd(a, b), '>']
    elif k == 2:
        ant, goal = [[tadd(a, b, -1), '<'], [b, '<']], [a, '<']
    elif k == 3:
        ant, goal = [[a, '>']], [a, '>']
    elif k == 4:
        ant, goal = [[a, '>'], [b, '<']], [tmul(a, b), '<']
    elif k == 5:
        ant, goal = [[a, '='], [b, '>']], [tadd(a, b), '>']
    else:
        ant, goal = [[a, strict()], [b, strict()]], [tadd(tmul(a, a), b), strict()]
    for _ in range(draw(st.integers(0, 2))):
        ant.append([lin(draw, names), draw(st.sampled_from(['>', '<', '>=', '<=', '=', '!=']))])
    suc = [goal]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        suc.append([lin(draw, names), strict()])
    if k < 5 and draw(st.integers(0, 3)) == 0 and len(ant) > 1:
        # one needed hypothesis as a negated succedent
        h = ant.pop(1)
        suc.append([h[0], NEG[h[1]]])
    ant = draw(st.permutations(ant))
    suc = draw(st.permutations(suc))
    return {'ant': [list(x) for x in ant], 'suc': [list(x) for x in suc], 'zero': draw(st.booleans())}


@st.composite
def runs(draw, tier):
    ps = [draw(hiding(tier)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    pts = [{v: str(F(draw(st.integers(-40, 40)), 7)) for v in VN} for _ in range(12)]
    return {'problems': ps, 'points': pts, 'seed': draw(st.integers(0, 10 ** 6))}


def problem_text(p, i):
    def rel(a):
        return '(%s %s 0.0)' % (a[1], as_text(a[0])) if p['zero'] or not a[0] else '(%s %s %s)' % (a[1], as_text(a[0][:1]), as_text(simplify([[str(-F(c)), m] for c, m in a[0][1:]])))
    return '(sequent "problem %d" (antecedent %s) (succedent %s))' % (i, ' '.join(map(rel, p['ant'])), ' '.join(map(rel, p['suc'])))


class Runs(Sage):
    id = 'C28'
    quick = 25
    thorough = 600
    quick_cap = 55
    call_timeout = 100
    calls_per_worker = 100
    rule = ('a case is one or two hiding problems over two or three variables, run one after the other through files; the result must name existing formulas, and what is not hidden must '
            'still prove the sequent at 262 generated points where no polynomial vanishes; a reported counterexample must be one; non-trivial: some formula was hidden or a counterexample reported')
    assumptions = STANDIN + ['points where some polynomial vanishes are not decided: the procedure samples open cells']

    def strategy(self, tier):
        return runs(tier)

    def run(self, ctx, case):
        texts = [problem_text(p, i) for i, p in enumerate(case['problems'])]
        r = ctx.call('run', problems=texts, seed=case['seed'], limit=20)
        if r.raised:
            raise Violation('%s %s' % (texts, r))
        for i, (p, got) in enumerate(zip(case['problems'], r.ok)):
            what = texts[i] + (' after %s' % texts[:i] if i else '')
            if 'limit' in got:
                ctx.label('stopped: time limit')
                continue
            if 'etype' in got:
                raise Violation('%s raised %s: %s' % (what, got['etype'], got['emsg']))
            if 'counterexample' in got:
                ctx.label('counterexample')
                ctx.nontrivial()
                pt = got['counterexample']
                if pt is None:
                    continue
                e = {v: F(0) for v in VN}
                e.update(ev(pt))
                vals = [abs(value(a[0], e)) for a in p['ant'] + p['suc']]
                if any(0 < v < F(1, 10 ** 9) for v in vals):
                    continue        # floating point near a zero
                if not (all(holds(a, e) for a in p['ant']) and not any(holds(a, e) for a in p['suc'])):
                    raise Violation('%s: %s is reported as a counterexample, but it is none' % (what, {k: str(v) for k, v in e.items()}))
                continue
            m = re.match(r'^\("(.*)" \(((?:hide_antecedent_\d+ ?)*)\) \(((?:hide_succedent_\d+ ?)*)\)\)$', got['text'], re.S)
            if not m or m.group(1) != 'problem %d' % i:
                raise Violation('%s: the result is %r' % (what, got['text']))
            ha = [int(t) for t in re.findall(r'antecedent_(\d+)', m.group(2))]
            hs = [int(t) for t in re.findall(r'succedent_(\d+)', m.group(3))]
            if [len(ha), len(hs)] != got['counts'] or len(set(ha)) < len(ha) or len(set(hs)) < len(hs):
                raise Violation('%s: the result %r with counts %s' % (what, got['text'], got['counts']))
            if any(k >= len(p['ant']) for k in ha) or any(k >= len(p['suc']) for k in hs):
                raise Violation('%s: the result %r hides a formula that does not exist (%d antecedents, %d succedents)' % (what, got['text'], len(p['ant']), len(p['suc'])))
            if len(hs) >= len(p['suc']):
                raise Violation('%s: the result %r hides the goal' % (what, got['text']))
            ctx.nontrivial(bool(ha or hs))
            ctx.label('hidden' if ha or hs else 'nothing hidden')
            ant = [a for k, a in enumerate(p['ant']) if k not in ha]
            suc = [a for k, a in enumerate(p['suc']) if k not in hs]
            rnd = random.Random(case['seed'])
            more = []
            for k in range(250):
                size = rnd.choice([1, 1, 1, 4, 30])
                more.append({v: str(F(rnd.randint(-700, 700) * size, rnd.choice([211, 401, 1009]))) for v in VN})
            for pt in case['points'] + more:
                e = ev(pt)
                if any(value(a[0], e) == 0 for a in ant + suc):
                    continue
                if all(holds(a, e) for a in ant) and not any(holds(a, e) for a in suc):
                    raise Violation('%s: after hiding %s, %s the sequent fails at %s' % (what, ha, hs, pt))


# ---- local search ----

@st.composite
def search_case(draw, tier):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(st.integers(2, 4))
        at = draw(mpoint(n))
        hyps = [draw(matom(n, 2, at=ev(at))) for _ in range(draw(st.integers(1, 3)))]
        main = draw(matom(n, 2, at=ev(at)))
        out.append({'n': n, 'at': at, 'hyps': hyps, 'main': main, 'seed': draw(st.integers(0, 10 ** 6))})
    return out


class Search(Sage):
    id = 'C29'
    quick = 150
    thorough = 1000
    quick_cap = 60
    rule = ('a case is a history of one to three searches for problems over two to four variables in one process; every returned point must assign exactly the variables of its problem and the start '
            'point must be among them; non-trivial: more than one search')

    def strategy(self, tier):
        return search_case(tier)

    def run(self, ctx, case):
        for i, s in enumerate(case):
            r = ctx.call('search', **s)
            what = 'search %d from %s for %s, goal %s' % (i, s['at'], [show_atom(h) for h in s['hyps']], show_atom(s['main']))
            if r.raised:
                raise Violation('%s %s' % (what, r))
            for p in r.ok:
                if set(p) != set(s['at']):
                    raise Violation('%s: the point %s does not assign exactly the variables' % (what, p))
            if ev(s['at']) not in [ev(p) for p in r.ok]:
                raise Violation('%s: the start point is not among the %d points' % (what, len(r.ok)))
            # points found by the search (not those around the start) are where the goal itself fails
            far = [p for p in r.ok if any(abs(F(p[k]) - F(s['at'][k])) > F(1, 90) for k in p)]
            ctx.label('points found' if far else 'only around the start')
            for p in far:
                e = ev(p)
                v = value(s['main'][0], e)
                if abs(v) > F(1, 10 ** 9) and holds(s['main'], e):
                    raise Violation('%s: the goal holds at the point %s' % (what, p))
        ctx.nontrivial(len(case) > 1)


CHECKS = [Text(), Atoms(), Sectors(), Cad(), Choice(), Runs(), Search()]
