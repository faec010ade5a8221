#!/usr/bin/env python3
"""Make or try a planted bug.
  seed.py make ID PROP FILE <<< json {"edits": [[old, new], ...], "needs":..., "breaks":..., "demo": python text (py2, run by Jython)}
  seed.py try ID [PROP...]    apply to /repo, run stable tests, demo, and the checks; undo
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
VP = os.environ.get('SEED_VP', '/opt/vp')     # a scratch copy of the repository needs build scripts that name it


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = '''#!/bin/bash
# cwd is the repository; exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JYTHONPATH=/opt/py2/lib:$repo/vts:$repo/highschool_qe:$repo/GRF:$here
export DEMO_REPO=$repo
/opt/py2/bin/jython "$here/demo.py"
'''


def make(id, prop, spec):
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    by = {}
    for e in spec['edits']:
        by.setdefault(e[0], []).append(e[1:])
    try:
        for f, es in by.items():
            p = os.path.join(REPO, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            for old, new in es:
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert s.count(old) == 1, (f, s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w', newline='').write(s)
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(spec.get('demo_sh', DEMO))
    if 'demo' in spec:
        open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'])
    for f in spec.get('files', ()):
        q = os.path.join(d, os.path.basename(f))
        if os.path.isdir(f):
            shutil.copytree(f, q, dirs_exist_ok=True, ignore=shutil.ignore_patterns('__pycache__', '*.class'))
        else:
            shutil.copy(f, q)
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def demo(id):
    r = sh('bash', os.path.join(ROOT, 'seeded', id, 'demo.sh'), cwd=REPO)
    return r.returncode, r.stdout[-400:]


def tests():
    sh('bash', VP + '/build.sh')
    sh('bash', VP + '/test.sh', REPO.replace('/', '_').join(['/tmp/seed-tests', '.json']))
    o = json.load(open(REPO.replace('/', '_').join(['/tmp/seed-tests', '.json'])))
    return sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed']))


def attempt(id, props, skip_tests=False):
    meta = json.load(open(os.path.join(ROOT, 'seeded', id, 'meta.json')))
    props = props or [meta['property']]
    a = demo(id)
    r = sh('git', '-C', REPO, 'apply', os.path.join(ROOT, 'seeded', id, 'patch.diff'))
    assert r.returncode == 0, r.stdout
    try:
        miss = [] if skip_tests else tests()
        b = demo(id)
        out = []
        for q in props:
            c = sh('./check', q, cwd=ROOT, env=dict(os.environ, VERIF_REPO=REPO))
            tail = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or l.startswith(q) or 'ERROR' in l]
            out.append((q, c.returncode, ' | '.join(tail)[:300], c.stdout.splitlines()[-2][:300] if c.returncode == 1 else ''))
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    cf = os.path.join(ROOT, 'tools', 'caught.json')
    rec = json.load(open(cf)) if os.path.exists(cf) else {}
    rec[id] = ', '.join(o[0] for o in out if o[1] == 1) or 'missed'
    json.dump(rec, open(cf, 'w'), indent=1, sort_keys=True)
    ok = a[0] == 0 and b[0] != 0 and not miss
    print('%s %s demo clean=%d bug=%d tests lost=%s' % (id, 'VALID' if ok else 'INVALID', a[0], b[0], miss))
    if not ok:
        print('   ', a, b)
    for o in out:
        print('   %s exit %d %s\n      %s' % o)
    sys.stdout.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'try':
        attempt(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
        for i in ids:
            attempt(i, [], skip_tests=sys.argv[1] == 'fast')
