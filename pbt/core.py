"""Runs one property: generated cases in parallel shards against the real code, shrinking, replay, evidence."""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

import hypothesis
sys.set_int_max_str_digits(0)      # remainder sequences have long coefficients

from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st

from . import client

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """The case gave no verdict (time limit, worker lost, entry point not there)."""


class Violation(Exception):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Ctx(object):
    """What a property's `run` sees: calls into the real code, labels, counters."""

    def __init__(self, check):
        self.check = check
        self.worker = None
        self.labels = {}
        self.starts = 0
        self.restarts = 0
        self.history = []       # cases run on the current worker, for replay of history-dependent failures
        self.case_labels = None
        self.case_nontrivial = False

    def fresh(self):
        self.drop()
        self.starts += 1
        self.worker = client.Worker(self.check.ops, [p.replace('$REPO', client.REPO).replace('$SHIM', client.SHIM).replace('$SAGE', client.SAGE) for p in self.check.paths])
        self.history = []
        return self.worker

    def drop(self):
        if self.worker is not None:
            self.worker.close()
            self.worker = None

    def call(self, op, timeout=None, **args):
        if self.worker is None or self.worker.calls > self.check.calls_per_worker:
            self.fresh()
        try:
            # the first calls of an interpreter load libraries
            limit = timeout or (self.check.call_timeout if self.worker.calls > 2 else max(25, self.check.call_timeout))
            r = self.worker.call(op, limit, **args)
        except client.Timeout:
            self.drop()
            self.label('inconclusive: time limit')
            raise Skip('time limit')
        except client.Dead:
            self.drop()
            self.label('inconclusive: worker lost')
            raise Skip('worker lost')
        if r.raised and r.etype in ('OutOfMemoryError', 'MemoryError', 'StackOverflowError', 'KeyboardInterrupt'):
            self.drop()
            self.label('inconclusive: ' + r.etype)
            raise Skip(r.etype)
        if r.etype == 'LibraryWrong':
            self.label('excluded: z3rcf itself isolates the roots of an input polynomial wrongly')
            raise Skip('library')
        if r.missing:
            self.label('inconclusive: entry point not there: ' + r.emsg)
            raise Skip('no entry point')
        return r

    def label(self, text):
        if self.case_labels is not None:
            self.case_labels.add(text)
        else:
            self.labels[text] = self.labels.get(text, 0) + 1

    def nontrivial(self, yes=True):
        if yes:
            self.case_nontrivial = True


class Check(object):
    id = None
    ops = ()
    paths = ()
    rule = ''
    quick = 100             # cases per shard
    thorough = 1000
    shards = 7
    call_timeout = 60
    calls_per_worker = 4000
    quick_cap = 70         # seconds after which a shard stops generating
    thorough_cap = 600
    shrink_cap = 40
    tier = 'thorough'       # replays run with the larger limits
    near_copies = False     # True: let Hypothesis follow each generated case by near copies of it
    level = 'exploration'
    uses_worker = True      # False: run() starts its own processes
    assumptions = ()

    def strategy(self, tier):
        raise NotImplementedError

    def corpus(self):
        """Fixed cases run first (regressions and shapes the generator may take long to reach)."""
        return []

    def run(self, ctx, case):
        """Raise Violation if the property fails on `case`."""
        raise NotImplementedError

    def show(self, case):
        return case


class Shard(object):
    def __init__(self, check, tier, seed, index, total, stop):
        self.stop = stop        # set when some shard has found a violation: the others stop generating
        self.check, self.tier, self.seed, self.index, self.total = check, tier, seed, index, total
        self.ctx = Ctx(check)
        self.evaluations = 0
        self.skipped = 0
        self.verdicts = {}
        self.nontrivial = set()
        self.samples = []
        self.failures = []      # (case, message, history)
        self.known = []
        self.t0 = time.monotonic()
        self.t_fail = None

    def one(self, case):
        """Verdict of one case: None or a message."""
        key = canon(case)
        if key in self.verdicts:
            return self.verdicts[key]
        ctx = self.ctx
        ctx.case_labels = set()
        ctx.case_nontrivial = False
        msg = None
        try:
            if ctx.worker is None and self.check.ops and self.check.uses_worker:
                ctx.fresh()
            self.check.run(ctx, case)
        except Skip:
            self.skipped += 1
            ctx.case_nontrivial = False
        except Violation as v:
            msg = str(v)
        labels, ctx.case_labels = ctx.case_labels, None
        for l in labels:
            ctx.labels[l] = ctx.labels.get(l, 0) + 1
        self.evaluations += 1
        if ctx.case_nontrivial:
            self.nontrivial.add(hashlib.sha1(key.encode()).hexdigest()[:16])
            if len(self.samples) < 4 and len(key) < 4000:
                self.samples.append(self.check.show(case))
        if msg is not None:
            self.failures.append((case, msg, list(ctx.history)))
        ctx.history.append(case)
        self.verdicts[key] = msg
        return msg

    def run(self):
        check = self.check
        cap = check.quick_cap if self.tier == 'quick' else check.thorough_cap
        corpus = check.corpus()
        for i, case in enumerate(corpus):
            if i % self.total == self.index:
                self.one(case)
        if self.failures:
            return
        n = check.quick if self.tier == 'quick' else check.thorough
        shrink_cap = float(os.environ.get('PBT_SHRINK', check.shrink_cap if self.tier == 'quick' else 3 * check.shrink_cap))
        if n <= 0:
            return

        def body(case):
            now = time.monotonic()
            if self.t_fail is None and (now - self.t0 > cap or self.stop.is_set()):
                return
            if self.t_fail is not None and now - self.t_fail > shrink_cap:
                return
            msg = self.one(case)
            if msg is not None:
                if self.t_fail is None:
                    self.t_fail = time.monotonic()
                    self.stop.set()
                raise AssertionError(msg)

        engine = getattr(hypothesis.internal.conjecture, 'engine', None)
        if not check.near_copies and hasattr(engine, 'ConjectureRunner'):
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None      # this process runs nothing else
        test = given(check.strategy(self.tier))(body)
        test = hypothesis.seed(self.seed)(test)
        test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        phases=(Phase.generate, Phase.shrink))(test)
        try:
            test()
        except AssertionError:
            pass
        except BaseException as e:
            if not (self.failures and ('Flaky' in type(e).__name__ or isinstance(e, hypothesis.errors.HypothesisException))):
                raise


def _shard_main(check, tier, seed, index, total, stop, conn):
    sys.stdout = open(os.devnull, 'w')
    s = Shard(check, tier, seed, index, total, stop)
    out = {'index': index}
    try:
        s.run()
    except client.NotReady as e:
        out['notready'] = e.info
    except BaseException:
        out['error'] = traceback.format_exc()
    finally:
        s.ctx.drop()
    out.update(evaluations=s.evaluations, skipped=s.skipped, nontrivial=sorted(s.nontrivial), samples=s.samples,
               labels=s.ctx.labels, failures=s.failures, starts=s.ctx.starts, wall=time.monotonic() - s.t0)
    conn.send(out)
    conn.close()


def _confirm(check, failures):
    """Smallest failing case, run again in a fresh worker; else the history that led to it."""
    failures = sorted(failures, key=lambda f: (len(canon(f[0])), canon(f[0])))
    for case, msg, _ in failures[:3]:
        ctx = Ctx(check)
        ctx.case_labels = set()
        try:
            if check.ops and check.uses_worker:
                ctx.fresh()
            check.run(ctx, case)
        except Violation as v:
            return [case], str(v)
        except Skip:
            pass
        finally:
            ctx.drop()
    # history-dependent: replay what the worker had seen before the first failure, then drop what is not needed
    first = min(failures, key=lambda f: len(f[2]))
    seq = first[2] + [first[0]]
    got = _replay(check, seq)
    if got is None:
        return None, 'seen once, not reproduced: ' + first[1]
    end = time.monotonic() + check.shrink_cap
    chunk = max(1, (len(seq) - 1) // 2)
    while time.monotonic() < end:
        changed = False
        i = 0
        while i < len(seq) - 1 and time.monotonic() < end:
            trial = seq[:i] + seq[min(i + chunk, len(seq) - 1):]
            m = _replay(check, trial)
            if m is not None:
                seq, got, changed = trial, m, True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = max(1, chunk // 2)
    return seq, got


def _replay(check, cases):
    """Run cases in order in one fresh worker; message of the last if it violates."""
    ctx = Ctx(check)
    msg = None
    try:
        if check.ops and check.uses_worker:
            ctx.fresh()
        for c in cases:
            msg = None
            ctx.case_labels = set()
            try:
                check.run(ctx, c)
            except Violation as v:
                msg = str(v)
            except Skip:
                pass
        return msg
    finally:
        ctx.drop()


def run_check(check, tier, seed):
    t0 = time.monotonic()
    check.tier = tier
    shards = check.shards
    mp = multiprocessing.get_context('fork')
    procs = []
    stop = mp.Event()
    for i in range(shards):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_shard_main, args=(check, tier, seed * 1009 + i, i, shards, stop, b))
        p.start()
        b.close()
        procs.append((p, a))
    outs = []
    for p, a in procs:
        try:
            outs.append(a.recv())
        except EOFError:
            outs.append({'index': len(outs), 'error': 'shard died'})
        p.join()
    failures = [f for o in outs for f in o.get('failures', [])]
    errors = [o['error'] for o in outs if 'error' in o]
    notready = [o['notready'] for o in outs if 'notready' in o]
    labels = {}
    for o in outs:
        for k, v in o.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for k in range(4):
        for o in outs:
            if len(o.get('samples', [])) > k and len(samples) < 12:
                samples.append(o['samples'][k])
    distinct = set(h for o in outs for h in o.get('nontrivial', []))
    evaluations = sum(o.get('evaluations', 0) for o in outs)
    status, replay, message = 0, None, None
    if failures:
        cases, message = _confirm(check, failures)
        if cases is None:
            # a wrong answer was seen; keep every case of that worker so that it can be looked into
            f = min(failures, key=lambda f: len(f[2]))
            cases = f[2] + [f[0]]
        replay = write_replay(check, tier, seed, cases, message)
        status = 1
    elif notready and not any(o.get('evaluations') for o in outs):
        # the code under test cannot even be loaded
        message = 'cannot load the code: %s: %s' % (notready[0].get('etype'), notready[0].get('emsg'))
        if notready[0].get('etype') != 'WorkerStart':
            status = 1
            replay = write_replay(check, tier, seed, [], message)
        else:
            errors.append(message)
    evidence = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': check.rule,
            'samples': samples,
            'classes': dict(sorted(labels.items())),
            'inconclusive_or_excluded': sum(o.get('skipped', 0) for o in outs),
            'shards': shards,
            'interpreter_starts': sum(o.get('starts', 0) for o in outs),
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if status == 1 else 0,
    }
    if message:
        evidence['coverage']['message'] = message[:2000]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', check.id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %.1f s' % (
        check.id, tier, seed, evaluations, len(distinct), evidence['coverage']['inconclusive_or_excluded'], evidence['wall_s']))
    for k, v in sorted(labels.items()):
        print('   %-60s %d' % (k, v))
    if status == 1:
        print(message)
        print('VIOLATION property=%s replay=%s' % (check.id, replay))
        return 1
    for k in known_findings(check.id):
        print('KNOWN-FINDING: property=%s %s' % (check.id, k))
    if errors:
        for e in errors:
            print('CHECK ERROR ' + e, file=sys.stderr)
        return 3
    if evaluations and not distinct:
        print('CHECK ERROR no case gave a verdict', file=sys.stderr)
        # entry points gone: nothing was decided
        return 0 if any('entry point not there' in k for k in labels) else 4
    return 0


def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line.split(' ', 2)[2].strip())
    except IOError:
        pass
    return out


def write_replay(check, tier, seed, cases, message):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (check.id, hashlib.sha1(canon(cases).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'tier': tier, 'seed': seed, 'message': message, 'cases': cases,
                   'run': 'cd /verif && ./check %s --replay %s' % (check.id, path)}, f, indent=1)
        f.write('\n')
    return path


def replay_file(check, path):
    d = json.load(open(path))
    msg = _replay(check, d['cases']) if d['cases'] else None
    if not d['cases']:
        try:
            c = Ctx(check)
            c.fresh()
            c.drop()
        except client.NotReady as e:
            msg = str(e)
    if msg:
        print(msg)
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    print('replay: the property holds on these cases')
    return 0
