"""Client side of the Jython worker: start, call with a time limit, restart."""
import json
import os
import select
import shutil
import signal
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(HERE, 'jy', 'shim')
SAGE = os.path.join(HERE, 'jy', 'sageshim')
REPO = os.environ.get('VERIF_REPO', '/repo')
JAVA = '/usr/lib/jvm/java-21-openjdk-amd64/bin/java'
BASE = [JAVA, '-Xss256m', '-Xmx3g', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC',
        '-Djava.library.path=/usr/lib/x86_64-linux-gnu/jni',
        '-cp', '/usr/share/java/jython.jar:/usr/share/java/com.microsoft.z3.jar',
        '-Dpython.cachedir.skip=true', '-Dpython.home=/usr/share/jython',
        '-Dpython.executable=/opt/py2/bin/jython', '-Dfile.encoding=UTF-8', 'org.python.util.jython']


class Timeout(Exception):
    pass


class Dead(Exception):
    pass


class NotReady(Exception):
    """The worker could not import the code under test."""

    def __init__(self, info):
        Exception.__init__(self, info.get('etype', '') + ': ' + info.get('emsg', ''))
        self.info = info


def environment(extra_path=()):
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR')}
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['JYTHONPATH'] = ':'.join(['/opt/py2/lib'] + list(extra_path))
    env['VERIF_REPO'] = REPO
    return env


class Result(object):
    """Outcome of one call: value in .ok, or the exception in .etype/.emsg."""

    def __init__(self, d):
        self.d = d
        self.raised = 'etype' in d
        self.ok = d.get('ok')
        self.etype = d.get('etype')
        self.emsg = d.get('emsg')
        self.tb = d.get('tb')

    @property
    def missing(self):
        return self.etype == 'NotHere'

    def __repr__(self):
        return 'raised %s: %s' % (self.etype, self.emsg) if self.raised else repr(self.ok)


class Worker(object):
    """One Jython process.  Its cwd is a private scratch directory that is removed with it."""

    def __init__(self, ops, paths, cwd=None, start_timeout=180):
        self.ops, self.paths = ops, paths
        self.own = cwd is None
        self.cwd = cwd or tempfile.mkdtemp(prefix='pbtw-')
        self.calls = 0
        self.err = open(os.path.join(self.cwd, '.stderr'), 'wb')
        self.p = subprocess.Popen(BASE + [os.path.join(HERE, 'jy', 'worker.py')] + list(ops),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=self.cwd, env=environment(paths), start_new_session=True)
        self.buf = b''
        try:
            first = self._read(start_timeout)
        except (Timeout, Dead):
            tail = open(os.path.join(self.cwd, '.stderr'), errors='replace').read()[-2000:]
            self.close()
            raise NotReady({'etype': 'WorkerStart', 'emsg': 'the worker did not start: ' + tail})
        if not first.get('ready'):
            self.close()
            raise NotReady(first)

    def _read(self, timeout):
        end = time.monotonic() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout()
            r, _, _ = select.select([fd], [], [], left)
            if r:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    raise Dead()
                self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode('utf-8'))

    def call(self, op, timeout=60, **args):
        self.calls += 1
        try:
            self.p.stdin.write(json.dumps({'op': op, 'args': args}).encode() + b'\n')
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise Dead()
        return Result(self._read(timeout))

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass
        if self.own:
            shutil.rmtree(self.cwd, ignore_errors=True)
