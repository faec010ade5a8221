# Jython ops around /repo/GRF, with sageshim/ standing in for Sage, scipy and matplotlib's pyparsing
import os
import random
import sys
import traceback
from fractions import Fraction

import harness
from harness import NotHere
import sagelite as S

sys.setrecursionlimit(2 ** 20)
GRF = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'GRF')
_ns = []


def ns():
    if not _ns:
        d = S.namespace()
        try:
            S.load(os.path.join(GRF, 'grf.sage'), d)
            S.load(os.path.join(GRF, 'smt2.py'), d)
        except (S.Missing, ImportError, NameError) as e:
            raise NotHere('loading GRF needs more of Sage than is modelled: %s' % e)
        _ns.append(d)
    return _ns[0]


def need(name):
    try:
        return ns()[name]
    except KeyError:
        raise NotHere(name)


def lacking(e):
    """A global name of Sage's that the stand-in does not provide."""
    return isinstance(e, NameError) and not isinstance(e, UnboundLocalError)


def guarded(f):
    """A part of Sage that the stand-in does not model is never a verdict."""
    def g(**k):
        S.State.missing = None
        try:
            r = f(**k)
        except NotHere:
            raise
        except Exception as e:
            if S.State.missing or isinstance(e, S.Missing) or lacking(e):
                raise NotHere('not modelled: %s' % (S.State.missing or e))
            raise
        if S.State.missing:
            raise NotHere('not modelled: %s' % S.State.missing)
        return r
    return g


def q(s):
    return Fraction(str(s))


def num(v):
    if isinstance(v, S.Poly):
        v = v._const()
    if isinstance(v, float):
        v = Fraction(*v.as_integer_ratio())
    return str(Fraction(v))


def poly(terms, R):
    d = {}
    for c, m in terms:
        k = tuple(sorted((str(n), e) for n, e in m.items() if e))
        d[k] = d.get(k, 0) + q(c)
    return S.Poly(R, d)


def terms(p, names=None):
    if not isinstance(p, S.Poly):
        return [[num(p), {}]] if p else []
    return [[str(c), dict((names[n] if names else n, e) for n, e in m)] for m, c in sorted(p.d.items())]


def names_of(ctx):
    return dict((v._name(), k) for k, v in ctx.var_map.items())


def atom_out(a, names=None):
    return [terms(a.poly, names), a.op]


@guarded
def parse(history):
    """Each entry of history: {'fresh': bool, 'how': 'fmls'|'sequent', 'text': ...} -> the atoms with the names of the text."""
    out = []
    P = None
    base = need('SMTContext')

    class Recording(base):
        def perform_grf(self, s, l, t):
            self.seen = ([a for a in self.antecedent], [a for a in self.succedent], t[1])
            return self

    for h in history:
        if P is None or h['fresh']:
            P = need('ParseSMT')(context=Recording(interactive=False))
        text = h['text']
        if isinstance(text, unicode):
            text = text.encode('ascii')
        try:
            if h['how'] == 'fmls':
                got = P.fmlsTokenList(text)
                nm = names_of(P.context)
                out.append({'atoms': [atom_out(a, nm) for a in got]})
            else:
                P.context.seen = None
                P.processCommands(text)
                nm = names_of(P.context)
                if P.context.seen is None:
                    out.append({'none': True})
                else:
                    a, s, name = P.context.seen
                    out.append({'ant': [atom_out(x, nm) for x in a], 'suc': [atom_out(x, nm) for x in s], 'name': name})
        except Exception as e:
            if S.State.missing or lacking(e):
                raise
            out.append({'etype': type(e).__name__, 'emsg': str(e)[:200]})
            P = None
    return out


def factory(n):
    return need('QE_Factory')(n)


def atom(a, R):
    return need('RCF_Atom')(poly(a[0], R), str(a[1]), R(0))


def point(d, R):
    g = dict((v._name(), v) for v in R.gens())
    return dict((g[str(k)], q(v)) for k, v in d.items())


@guarded
def atoms(n, atoms, points):
    """Truth of every atom and of its negation at every (possibly partial) point."""
    R = factory(n).R
    out = []
    for a in atoms:
        x, y = atom(a, R), atom(a, R)
        y.negate()
        z = atom(a, R)
        z.negate()
        z.negate()
        out.append([[x.eval_on_dict(point(p, R)), y.eval_on_dict(point(p, R)), z.eval_on_dict(point(p, R))] for p in points])
    return out


@guarded
def goal(n, main, hyps, gbs, points):
    """A goal to which hypotheses are promoted one by one; its truth at the points after each step."""
    R = factory(n).R
    g = need('RCF_Goal')(main_goal=atom(main, R))
    out = [[g.eval_on_dict(point(p, R)) for p in points]]
    for h, use in zip(hyps, gbs):
        g.add_goal_hyp(atom(h, R), use_gbs=use)
        out.append([g.eval_on_dict(point(p, R)) for p in points])
    return {'truth': out, 'hyps': [atom_out(h) for h in g.goal_hyps]}


@guarded
def sps(n, var, polys, num_sps, seed):
    random.seed(seed)
    f = factory(n)
    ps = f.filter_proj_set([poly(p, f.R) for p in polys])
    iv = f.iso_root_intvls(ps)
    pts = f.sector_sps(iv, num_sps=num_sps)
    return {'intervals': [[num(i[0][0]), num(i[0][1])] for i in iv], 'points': [num(p) for p in pts]}


@guarded
def cad(n, polys, main, hyps, num_sps, seed, partial):
    random.seed(seed)
    f = factory(n)
    R = f.R
    g = need('RCF_Goal')(main_goal=atom(main, R), goal_hyps=[atom(h, R) for h in hyps]) if main else None
    if g is None:
        class Never(object):
            def eval_on_dict(self, d):
                return False
        g = Never()
    f.install_polys(*[poly(p, R) for p in polys])
    ds = f.sample_pt_dicts(goal=g, num_sps=num_sps)
    return [dict((v._name(), num(x)) for v, x in d.items()) for d in ds]


class Fixed(object):
    pass


@guarded
def bads(n, hyps, main, goal_hyps, at, near):
    """Bad subsets at a point, with the neighbouring points given instead of searched for."""
    d = need('RCF_GD_Decide')(n)
    R = d.q.R
    d.assert_hyps(*[atom(h, R) for h in hyps])
    d.assert_goal(atom(main, R))
    for h in goal_hyps:
        d.goal.add_goal_hyp(atom(h, R))
    d.sample_points = lambda *a, **k: [point(p, R) for p in near]
    try:
        r = d.bad_subsets_on_dict(point(at, R))
    except Exception as e:
        if str(e).startswith('Counterexample'):
            return {'counterexample': True}
        raise
    return {'bads': None if r is None else [list(b) for b in r]}


@guarded
def good(n, hyps, main, bads):
    d = need('RCF_GD_Decide')(n)
    R = d.q.R
    d.assert_hyps(*[atom(h, R) for h in hyps])
    d.assert_goal(atom(main, R))
    return {'weights': [int(w) for w in d.weight_hyps()], 'chosen': [int(i) for i in d.good_hyps([list(b) for b in bads])]}


@guarded
def search(n, hyps, main, at, seed):
    """Points that the local search returns around a point."""
    random.seed(seed)
    d = need('RCF_GD_Decide')(n)
    R = d.q.R
    d.assert_hyps(*[atom(h, R) for h in hyps])
    d.assert_goal(atom(main, R))
    r = d.sample_points(point(at, R))
    return [dict((v._name(), num(x)) for v, x in p.items()) for p in r]


class Stop(Exception):
    pass


@guarded
def run(problems, seed, limit):
    """grf_on_file over problem files one after the other in this process."""
    import time
    random.seed(seed)
    out = []
    for i, text in enumerate(problems):
        name, res = 'p%d.smt' % i, 'r%d.out' % i
        f = open(name, 'w')
        f.write(text.encode('ascii'))
        f.close()
        end = time.time() + limit
        A = need('RCF_Atom')
        old = A.eval_on_dict
        seen = []

        def timed(self, d, old=old, end=end):
            if time.time() > end:
                seen.append('limit')
                raise Stop('limit')
            return old(self, d)
        captured = []
        old_perform = need('SMTContext').perform_grf

        def perform(self, s, l, t, old_perform=old_perform):
            self.kept = ([a for a in self.antecedent], [a for a in self.succedent])
            try:
                return old_perform(self, s, l, t)
            except Exception as e:
                # pyparsing hides what a parse action raises
                captured.append((type(e).__name__, str(e), names_of(self), traceback.format_exc()[-600:]))
                raise
        A.eval_on_dict = timed
        need('SMTContext').perform_grf = perform
        try:
            try:
                r = need('grf_on_file')(name, interactive=False, outfile=res)
                g = open(res)
                out.append({'counts': list(r), 'text': g.read()})
                g.close()
            except Exception as e:
                if S.State.missing or lacking(e):
                    raise
                et, em, nm, tb = captured[0] if captured else (type(e).__name__, str(e), {}, '')
                if seen:
                    out.append({'limit': True})
                elif em.startswith('Counterexample'):
                    env = dict((k, k) for k in nm)
                    env['Fraction'] = Fraction
                    try:
                        pt = eval(em.split(':', 1)[1], env)
                        pt = dict((nm[k], num(v)) for k, v in pt.items())
                    except Exception:
                        pt = None
                    out.append({'counterexample': pt})
                else:
                    out.append({'etype': et, 'emsg': em[:300], 'tb': tb})
        finally:
            A.eval_on_dict = old
            need('SMTContext').perform_grf = old_perform
            for p in (name, res):
                if os.path.exists(p):
                    os.remove(p)
    return out


OPS = {'parse': parse, 'atoms': atoms, 'goal': goal, 'sps': sps, 'cad': cad, 'bads': bads, 'good': good, 'search': search, 'run': run}
