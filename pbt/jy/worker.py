# Runs under Jython 2.7: a JSON-lines server around the code in /repo.
# usage: worker.py OPS_MODULE...   (each module has OPS = {name: function(**args)})
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

_out = sys.stdout


class Sink(object):
    """stdout of the code under test; keeps the last characters for ops that read it."""
    softspace = 0

    def __init__(self):
        self.parts = []
        self.keep = False

    def write(self, s):
        if self.keep:
            self.parts.append(s)

    def flush(self):
        pass

    def start(self):
        self.parts = []
        self.keep = True

    def stop(self):
        self.keep = False
        r = ''.join(self.parts)
        self.parts = []
        return r


sink = Sink()
sys.stdout = sink


def send(obj):
    _out.write(json.dumps(obj) + '\n')
    _out.flush()


def describe(e):
    try:
        msg = str(e)
    except BaseException:
        msg = '<unprintable>'
    return msg[:400]


def main():
    ops = {}
    import harness
    harness.sink = sink
    for m in sys.argv[1:]:
        try:
            ops.update(__import__(m).OPS)
        except BaseException as e:
            import traceback
            send({'ready': False, 'etype': type(e).__name__, 'emsg': describe(e), 'tb': traceback.format_exc()[-3000:]})
            return
    send({'ready': True})
    # readline, not iteration: iteration reads ahead and would wait
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        req = json.loads(line)
        try:
            r = {'ok': ops[req['op']](**dict((str(k), v) for k, v in req['args'].items()))}
        except BaseException as e:
            import traceback
            r = {'etype': type(e).__name__, 'emsg': describe(e),
                 'tb': traceback.format_exc()[-1500:]}
            sys.exc_clear()
        sink.stop()
        send(r)


main()
