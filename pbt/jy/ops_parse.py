# Jython ops around /repo/vts/grf_parser.py, examples_parser.py, checker.py
import os
import shutil
import sys
import tempfile

import sympy

import harness
from harness import need
from ops_vts import build, num, plain, truth, guard_roots

import grf_parser
import examples_parser
import checker

sys.setrecursionlimit(2 ** 20)


from fractions import Fraction


class Undefined(Exception):
    pass


def fraction(v):
    if isinstance(v, (int, long)):
        return Fraction(v)
    n, _, d = str(v).partition('/')
    return Fraction(int(n), int(d or 1))


def walk(e, env):
    """Exact value of a sympy expression tree; sympy's own evaluation is not involved."""
    if e.is_Symbol:
        return env[e.name]
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e.is_Float:
        sign, man, exp, _ = e._mpf_
        v = Fraction(int(man)) * Fraction(2) ** int(exp)
        return -v if sign else v
    if e.is_Add:
        return sum([walk(a, env) for a in e.args], Fraction(0))
    if e.is_Mul:
        r = Fraction(1)
        for a in e.args:
            r = r * walk(a, env)
        return r
    if e.is_Pow and e.args[1].is_Integer:
        b, k = walk(e.args[0], env), int(e.args[1])
        if k < 0 and b == 0:
            raise Undefined('division by zero')
        return b ** k
    raise Undefined(str(e))


def exact(e, point):
    env = dict((str(k), fraction(v)) for k, v in point.items())
    return walk(sympy.sympify(e), env)


def value(e, point):
    """Exact value at a rational point, as text."""
    try:
        v = exact(e, point)
    except Undefined as u:
        return 'not a rational: %s' % u
    return '%d/%d' % (v.numerator, v.denominator)


CLS = [(sympy.Le, '<='), (sympy.Lt, '<'), (sympy.Ge, '>='), (sympy.Gt, '>'), (sympy.Eq, '='), (sympy.Ne, '!=')]


def holds(r, point):
    """Truth of a relation (or an already evaluated one) at a rational point."""
    if r == True:
        return True
    if r == False:
        return False
    for c, name in CLS:
        if isinstance(r, c):
            try:
                d = exact(r.lhs, point) - exact(r.rhs, point)
            except Undefined as u:
                return 'undefined: %s' % u
            return bool({'<=': d <= 0, '<': d < 0, '>=': d >= 0, '>': d > 0, '=': d == 0, '!=': d != 0}[name])
    return 'not a relation: %s' % type(r).__name__


def op_term(text, points):
    e = need(grf_parser, 'term').parseString(text, parseAll=True)[0]
    return [value(e, p) for p in points]


def op_rln(text, points):
    r = need(grf_parser, 'rln').parseString(text, parseAll=True)[0]
    return [holds(r, p) for p in points]


def op_reject(text, what):
    """Does the parser accept the whole text?"""
    import pyparsing
    try:
        need(grf_parser, what).parseString(text, parseAll=True)
        return True
    except pyparsing.ParseException:
        return False


def sequent(r, points):
    return {'name': str(r['str_name']),
            'ante': [[holds(f, p) for p in points] for f in r['antecedent']['fmls']],
            'succ': [[holds(f, p) for p in points] for f in r['succedent']['fmls']]}


def op_sequents(files, points):
    """The sequents found in trace files, as the reader of a directory of them finds them."""
    d = tempfile.mkdtemp(prefix='pbt-seq-')
    try:
        write_tree(dict((os.path.join(d, k), v) for k, v in files.items()))
        r = need(examples_parser, 'parse_files_from_dir')(d)
        return dict((k, [sequent(s, points) for s in v]) for k, v in r.items())
    finally:
        shutil.rmtree(d)


def op_univariate(texts, points):
    """Univariate forms of the parsed relations: [rhs is zero or already decided, only x is left, truth at x = ...]"""
    rs = [need(grf_parser, 'rln').parseString(t, parseAll=True)[0] for t in texts]
    us = need(examples_parser, 'make_univariate')(rs)
    out = []
    for u in us:
        rel = isinstance(u, sympy.Rel)
        out.append([(not rel) or u.rhs == 0, (not rel) or u.free_symbols <= set([sympy.Symbol('x')]),
                    [holds(u, {'x': x}) for x in points]])
    return out


REL = {'le': sympy.Le, 'lt': sympy.Lt, 'eq': sympy.Eq, 'ne': sympy.Ne, 'ge': sympy.Ge, 'gt': sympy.Gt}


def relation(spec):
    if spec[0] == 'bool':
        return sympy.true if spec[1] else sympy.false
    return REL[spec[0]](build(spec[1]), 0)


def op_preformat(ante, succ, points):
    """Clauses of the negated implication; for each: truth of every member at the points, and the relation map."""
    clauses = need(checker, 'vts_preformat')([relation(a) for a in ante], [relation(s) for s in succ])
    out = []
    for c in clauses:
        m = need(checker, 'make_relation_map')(c)
        tests = {'le': sympy.Le, 'lt': sympy.Lt, 'eq': sympy.Eq, 'ne': sympy.Ne}
        mapped = []
        for k in ('le', 'lt', 'eq', 'ne'):
            for p in m[k]:
                mapped.append([k, [value(p, {'x': x}) for x in points]])
        out.append({'truth': [[holds(r, {'x': x}) for x in points] for r in c], 'map': mapped})
    return out


def op_negate(rels, points):
    rs = need(checker, 'negate_relations')([relation(r) for r in rels])
    return [[holds(r, {'x': x}) for x in points] for r in rs]


def op_rewrite(rels, points):
    rs = need(checker, 'rewrite_to_less')([relation(r) for r in rels])
    return [[type(r).__name__, [holds(r, {'x': x}) for x in points]] for r in rs]


def write_tree(files):
    for name, text in files.items():
        d = os.path.dirname(name)
        if d and not os.path.isdir(d):
            os.makedirs(d)
        with open(name, 'w') as f:
            f.write(text)


def in_tree(files, action):
    """Run action in a new directory tree: <top>/vts is the current directory, files are relative to <top>."""
    top = tempfile.mkdtemp(prefix='pbt-tree-')
    old = os.getcwd()
    try:
        os.makedirs(os.path.join(top, 'vts'))
        os.chdir(top)
        write_tree(files)
        os.chdir(os.path.join(top, 'vts'))
        return action()
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)


def example_truth(content, points):
    return [[[[holds(r, {'x': x}) for x in points] for r in ante], [[holds(r, {'x': x}) for x in points] for r in succ]]
            for ante, succ in content]


def op_store(files, points, before=None):
    """Write the pickled examples (of the files before, then of the files), then read them both ways."""
    def go():
        if before:
            write_tree(dict((os.path.join('..', k), v) for k, v in before.items()))
            need(examples_parser, 'write_sympy_parseable_examples')()
            write_tree(dict((os.path.join('..', k), v) for k, v in files.items()))
        need(examples_parser, 'write_sympy_parseable_examples')()
        direct = need(examples_parser, 'examples_preformat_uni')()
        stored = need(examples_parser, 'unpickle_dirs')()
        gen = list(need(examples_parser, 'unpickle_dirs_gen')())
        return {
            'direct': dict((d, dict((f, example_truth(c, points)) for f, c in v.items())) for d, v in direct.items()),
            'stored': dict((d, dict((f, example_truth(c, points)) for f, c in v.items())) for d, v in stored.items()),
            'gen': [example_truth(c, points) for c in gen],
        }
    return in_tree(files, go)


def op_check_examples(files, vts, guard):
    """Trace files -> pickled examples -> check_examples; what it prints."""
    guard_roots(guard)

    def go():
        need(examples_parser, 'write_sympy_parseable_examples')()
        harness.sink.start()
        try:
            need(checker, 'check_examples')(vts)
        finally:
            text = harness.sink.stop()
        return text
    return in_tree(files, go)


OPS = dict((k[3:], v) for k, v in globals().items() if k.startswith('op_'))
