# Jython ops around /repo/highschool_qe
import sys

import sympy

import harness
from harness import need
from fractions import Fraction

import sympywrapper
import cachedsympywrapper
import muchnik
import cohenhorm

sys.setrecursionlimit(2 ** 20)
X = sympy.Symbol('x')


class TooBig(Exception):
    """The case needs more algebra operations than the check allows (not a verdict)."""


NAMES = ('LT', 'LC', 'LS', 'degree', 'div', 'p_tail', 'has_variable', 'pseudo_div', 'derivative', 'sign')


class Counting(object):
    """Hands every operation on to the algebra under test and stops after a number of them."""

    def __init__(self, inner, limit, unknowns):
        self._unknowns, self._seen = unknowns, set()
        self._inner, self._left, self.used = inner, limit, 0

    def __getattr__(self, name):
        f = getattr(self._inner, name)
        if name.startswith('_'):
            return f

        def g(*a):
            self._left -= 1
            self.used += 1
            if self._left < 0:
                raise TooBig('operation limit')
            r = f(*a)
            if name == 'has_variable' and r:
                # one case split per parametric constant: stop before the exponential part
                self._seen.add(a[0])
                if len(self._seen) > self._unknowns:
                    raise TooBig('parametric constants')
            return r
        return g


TURN = [False]      # y is eliminated and x a parameter, instead of the other way round


def algebra(kind, limit=None, unknowns=1000, var=None):
    var = var or ('y' if TURN[0] else 'x')
    a = {'plain': sympywrapper, 'cached': cachedsympywrapper}[kind]
    a = need(a, 'SympyWrapper' if kind == 'plain' else 'CachedSympyWrapper')(sympy.Symbol(var))
    return a if limit is None else Counting(a, limit, unknowns)


def poly(terms):
    """[[coefficient, {name: exponent}], ...] -> expanded sympy polynomial"""
    e = sympy.Integer(0)
    for c, m in swapped(terms) if TURN[0] else terms:
        t = sympy.Rational(str(c))
        for k in sorted(m):
            t = t * sympy.Symbol(str(k)) ** m[k]
        e = e + t
    return sympy.expand(e)


def terms(e):
    """sympy polynomial -> [[coefficient string, {name: exponent}], ...]"""
    e = sympy.expand(sympy.sympify(e))
    out = []
    for t in sympy.Add.make_args(e):
        c, m = Fraction(1), {}
        for f in sympy.Mul.make_args(t):
            if f.is_Rational:
                c = c * Fraction(int(f.p), int(f.q))
            else:
                b, k = f.as_base_exp()
                if not (b.is_Symbol and k.is_Integer and int(k) > 0):
                    raise ValueError('not a polynomial: %s' % (e,))
                m[b.name] = m.get(b.name, 0) + int(k)
        if c != 0:
            out.append([str(c), m])
    return swapped(out) if TURN[0] else out


def clauses(r):
    return [[[terms(p) for p in part] for part in clause] for clause in r]


def verdict(text):
    return 'Unsat' if 'Unsatisfiabl' in text else 'Sat' if 'Satisfiable' in text else None


def run(alg, f, *a):
    harness.sink.start()
    try:
        r = f(*a)
    finally:
        text = harness.sink.stop()
    return {'clauses': clauses(r), 'verdict': verdict(text), 'operations': alg.used}


def limited(f):
    def g(turn=False, **k):
        TURN[0] = bool(turn)
        try:
            return f(**k)
        except TooBig:
            return {'toobig': True}
        finally:
            TURN[0] = False
    return g


def complex_full(eq, ne, kind='plain', limit=3000, unknowns=1000):
    a = algebra(kind, limit, unknowns)
    m = need(muchnik, 'Muchniker')(a)
    return run(a, m.complex_full, [poly(p) for p in eq], [poly(p) for p in ne])


def real_full(lt, eq, gt, kind='plain', limit=3000, unknowns=1000):
    a = algebra(kind, limit, unknowns)
    m = need(muchnik, 'Muchniker')(a)
    return run(a, m.real_full, [poly(p) for p in lt], [poly(p) for p in eq], [poly(p) for p in gt])


def ch_full(lt, eq, gt, kind='plain', limit=3000, unknowns=1000):
    a = algebra(kind, limit, unknowns)
    c = need(cohenhorm, 'CohenHormander')(a)
    return run(a, c.real_full, [poly(p) for p in lt], [poly(p) for p in eq], [poly(p) for p in gt])


def diagrams(which, groups, kind='cached', limit=3000, unknowns=1000):
    """Every diagram the procedure shows, with the clause it belongs to (Muchnik's diagrams contain their assignments)."""
    a = algebra(kind, limit, unknowns)
    base = need(cohenhorm, 'CohenHormander') if which == 'ch' else need(muchnik, 'Muchniker')
    need(base, 'pprint_diagram')
    shown = []

    class Spy(base):
        def pprint_diagram(self, diagram):
            cols = sorted(set(c for row in diagram.values() for c in row))
            rows = []
            for p in diagram:
                vals = [diagram[p].get(c) for c in cols]
                rows.append([terms(p), [None if v is None else int(v[0] if isinstance(v, tuple) else v) for v in vals]])
            shown.append(rows)
            return base.pprint_diagram(self, diagram)
    m = Spy(a)
    f = m.complex_full if which == 'complex' else m.real_full
    r = run(a, f, *[[poly(p) for p in g] for g in groups])
    r['shown'] = shown
    return r


def sign_at(e, at):
    v = sympy.sympify(e).subs(dict((sympy.Symbol(str(k)), sympy.Rational(str(x))) for k, x in at.items()))
    return 0 if v == 0 else 1 if v > 0 else -1


def partial(which, polys, mode, at, kind='cached', limit=3000):
    """The diagram for one assignment: the signs at a parameter point, given by a function or typed in, or one of the fixed assignments."""
    if TURN[0]:
        at = dict(('x' if n == 'y' else n, v) for n, v in at.items())
    a = algebra(kind, limit)
    base = need(muchnik, 'Muchniker')
    final = []

    def rows_of(diagram):
        cols = sorted(set(c for row in diagram.values() for c in row))
        rows = []
        for p in diagram:
            vals = [diagram[p].get(c) for c in cols]
            rows.append([terms(p), [None if v is None else int(v[0]) for v in vals]])
        return rows

    class Spy(base):
        def pprint_diagram(self, diagram):
            if which == 'complex':
                final[:] = [rows_of(diagram)]
            return base.pprint_diagram(self, diagram)

        def real_extend(self, diagram, rest):
            r = base.real_extend(self, diagram, rest)
            if which == 'real':
                final[:] = [rows_of(r)]
            return r
    m = Spy(a)
    f = need(m, 'complex_partial' if which == 'complex' else 'real_partial')
    asked = []

    def assign(frag):
        d = muchnik.defaultdict(dict)
        for c in frag:
            if which == 'complex':
                d[c][0] = (abs(sign_at(c, at)), c)
            else:
                for col in (0, 0.5, 1.0):
                    d[c][col] = (sign_at(c, at), c)
        return d

    def typed(prompt=''):
        text = ''.join(harness.sink.parts)
        e = text[text.rindex('value for: ') + len('value for: '):].rstrip().rstrip(':')
        v = sign_at(e, at)
        asked.append(e)
        return str(abs(v) if which == 'complex' else v)
    harness.sink.start()
    import __builtin__
    old = __builtin__.raw_input
    __builtin__.raw_input = typed
    try:
        ps = [poly(p) for p in polys]
        if mode == 'point':
            f(ps, assign)
        elif mode == 'default':
            f(ps)
        else:
            f(ps, need(m, mode))
    finally:
        __builtin__.raw_input = old
        harness.sink.stop()
    return {'shown': final, 'asked': len(asked), 'operations': a.used}


def swapped(ts):
    return [[c, dict((u'y' if n == 'x' else u'x' if n == 'y' else n, e) for n, e in m.items())] for c, m in ts]


def laws(calls, kind):
    """A history of algebra calls on one object, or on one for x and one for y (there x and y are exchanged going in and coming out)."""
    same = lambda ts: ts
    objects = {'x': (algebra(kind, var='x'), same), 'y': (algebra(kind, var='y'), swapped)}
    out = []
    for name, args, var in calls:
        a, turn = objects[var]
        f = need(a, name)
        try:
            r = f(*[poly(turn(p)) for p in args])
        except ArithmeticError as e:
            out.append({'etype': type(e).__name__})
            continue
        if name == 'degree':
            r = None if r == -sympy.oo else int(r)
        elif name == 'has_variable':
            r = bool(r)
        elif name in ('div', 'pseudo_div'):
            r = [turn(terms(r[0])), turn(terms(r[1]))]
        else:
            r = turn(terms(r))
        out.append(r)
    return out


OPS = dict((k, limited(v)) for k, v in {'complex_full': complex_full, 'real_full': real_full, 'ch_full': ch_full,
                                        'diagrams': diagrams, 'partial': partial}.items())
OPS['laws'] = laws


# Expressions are immutable and printing them is most of the run time: remember their text.
_texts = {}
_str = sympy.Basic.__str__


def _memo_str(self):
    r = _texts.get(self)
    if r is None:
        if len(_texts) > 20000:
            _texts.clear()
        r = _texts[self] = _str(self)
    return r


sympy.Basic.__str__ = _memo_str
