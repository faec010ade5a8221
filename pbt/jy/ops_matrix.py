# Jython ops around /repo/vts/matrix_of_signs.py, which keeps a cache in ./cache
import os
import sys

import sympy

from harness import need

_mod = [None]


def load():
    """A fresh interpreter's view: the module is imported anew, nothing in memory survives."""
    sys.modules.pop('matrix_of_signs', None)
    import matrix_of_signs
    _mod[0] = matrix_of_signs
    return matrix_of_signs


def plain(v):
    v = sympy.sympify(v)
    return '%d/%d' % (v.p, v.q)


def mat(m):
    return [[plain(m[i, j]) for j in range(m.cols)] for i in range(m.rows)]


def op_load():
    load()
    return True


def op_get(n, inverse):
    m = _mod[0]
    if m is None:
        m = load()
    f = need(m, 'get_matrix_inverse' if inverse else 'get_matrix')
    return mat(f(n))


class Killed(BaseException):
    pass


def halt():
    from java.lang import Runtime
    Runtime.getRuntime().halt(9)


class Dying(object):
    """File opened for writing; the process "dies" (see op_crash) after a number of bytes."""

    def __init__(self, f, state):
        self.f, self.state = f, state

    def write(self, data):
        self.state.alive()
        left = self.state.left
        if len(data) >= left:
            self.f.write(data[:left])
            self.f.flush()
            self.state.die()
        self.state.left -= len(data)
        self.f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def close(self):
        self.f.close()

    def flush(self):
        self.f.flush()

    def __getattr__(self, name):
        return getattr(self.f, name)


class State(object):
    def __init__(self, left, hard):
        self.left, self.hard, self.dead = left, hard, False

    def alive(self):
        if self.dead:
            raise Killed()

    def die(self):
        self.dead = True
        if self.hard:
            halt()
        raise Killed()


CHANGING = ['rename', 'remove', 'unlink', 'rmdir', 'mkdir', 'makedirs', 'removedirs', 'renames', 'link', 'symlink', 'utime', 'chmod', 'open', 'write']


def op_crash(n, inverse, after, hard):
    """get(n, inverse) in a new interpreter state that is killed after `after` bytes of cache writing.

    hard: the process really ends.  Otherwise the kill is simulated: from that byte on nothing the code does reaches the
    disk any more (every later open-for-writing and every call that changes the file system raises), and the module is
    thrown away.
    """
    import __builtin__
    real = __builtin__.open
    state = State(after, hard)

    def dying_open(name, mode='r', *rest):
        if 'w' in mode or 'a' in mode or '+' in mode:
            state.alive()
            return Dying(real(name, mode, *rest), state)
        return real(name, mode, *rest)

    saved = {}

    def stop_when_dead(f):
        def g(*a, **k):
            state.alive()
            return f(*a, **k)
        return g
    __builtin__.open = dying_open
    for k in CHANGING:
        if hasattr(os, k):
            saved[k] = getattr(os, k)
            setattr(os, k, stop_when_dead(saved[k]))
    try:
        try:
            load()
            op_get(n, inverse)
        except BaseException:
            if not state.dead:
                raise
    finally:
        __builtin__.open = real
        for k, v in saved.items():
            setattr(os, k, v)
    _mod[0] = None
    return {'died': state.dead}


def op_begin(name):
    """A new, empty directory becomes the current one."""
    os.makedirs(name)
    os.chdir(name)
    _mod[0] = None
    return os.path.isdir('cache')


def op_enter(name):
    os.chdir(name)
    load()
    return True


def op_files():
    return sorted(os.listdir('cache')) if os.path.isdir('cache') else []


OPS = dict((k[3:], v) for k, v in globals().items() if k.startswith('op_'))
