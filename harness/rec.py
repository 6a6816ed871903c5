"""Recording of observable behaviour of the code under /repo as an event log (one JSON object per line).

An event is {"op", "a": arguments, "r": observed views, "err": names of views that raised, hung or had a wrong shape}.
The log is checked by TLC against the TLA+ specification; nothing here judges the values.
"""
import json
import os
import random
import resource
import signal
import sys
import traceback

import numpy as np

sys.modules.setdefault('rec', sys.modules[__name__])  # run as a script, this is still the module the recordings import


class Shape(Exception):
    """An observed value does not have the shape the encoder expects."""


class Lazy:
    """evaluate once, inside a view; remember the value or the exception"""

    def __init__(self, thunk):
        self.thunk, self.done, self.value, self.error = thunk, False, None, None

    def __call__(self):
        if not self.done:
            try:
                self.value = self.thunk()
            except Exception as e:
                self.error = e
            self.done = True
        if self.error is not None:
            raise self.error
        return self.value


class Hang(BaseException):
    """A call into the code under test took too long."""


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

CALL_LIMIT = float(os.environ.get('VERIF_CALL_LIMIT', '60'))


def limited(thunk, limit=CALL_LIMIT):
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return thunk()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# ---------------------------------------------------------------- encoders

def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def integer(x):
    """an integer that fits TLC's 32 bits"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (float, np.floating)) and x == int(x):
        x = int(x)
    if not is_int(x) or abs(int(x)) >= 2 ** 31:
        raise Shape(f'integer expected: {x!r}')
    return int(x)


def boolean(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if is_int(x) and x in (0, 1):
        return bool(x)
    raise Shape(f'boolean expected: {x!r}')


def bit(x):
    return int(boolean(x))


def bits(xs):
    """binary vector (Binv, list, tuple, array, generator) as list of 0 and 1"""
    return [bit(x) for x in xs]


def big(x):
    """natural number of any size as little-endian bits without leading zeros"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (float, np.floating)) and x == int(x):
        x = int(x)
    if not is_int(x) or x < 0:
        raise Shape(f'natural number expected: {x!r}')
    x = int(x)
    return [(x >> i) & 1 for i in range(x.bit_length())]


def ints(xs):
    return [integer(x) for x in xs]


def iset(xs):
    """set of integers as sorted list; duplicates are a wrong shape"""
    result = sorted(integer(x) for x in xs)
    if len(set(result)) != len(result):
        raise Shape(f'duplicate elements: {xs!r}')
    return result


def matrix(m):
    return [[integer(x) for x in row] for row in m]


def text(s):
    if not isinstance(s, str):
        raise Shape(f'string expected: {s!r}')
    return s


def opt(encoder):
    """None as <<>>, anything else as a one-element sequence"""
    def encode(x):
        return [] if x is None else [encode_inner(x)]
    encode_inner = encoder
    return encode


def listof(encoder):
    return lambda xs: [encoder(x) for x in xs]


def fract(x):
    """Fraction as a pair of naturals of any size"""
    return [big(x.numerator), big(x.denominator)]


# ---------------------------------------------------------------- recorder

class Recorder:

    def __init__(self, path, seed, tier, shard, nshards, focus=None):
        self.out = open(path, 'w')
        self.seed = seed
        self.tier = tier
        self.shard = shard
        self.nshards = nshards
        self.rng = random.Random(f'{seed}/{shard}/{nshards}')
        self.shared = random.Random(f'{seed}/shared')  # the same in all shards
        self.scale = SCALE.get(focus, 0.25)
        self.count = 0
        self.turn = 0
        self.ops = {}
        self.missing = {}

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        """quick runs take a share of the way to the thorough ones"""
        if not self.quick:
            return thorough
        amount = quick + (thorough - quick) * self.scale
        return int(amount) if isinstance(quick, int) and isinstance(thorough, int) else amount

    def mine(self):
        """round robin over shards for exhaustive enumerations"""
        self.turn += 1
        return self.turn % self.nshards == self.shard

    def share(self, xs):
        for x in xs:
            if self.mine():
                yield x

    def event(self, op, a, views):
        """views: name -> (thunk, encoder)"""
        r, err, why = {}, [], {}
        for name, (thunk, encoder) in views.items():
            try:
                r[name] = limited(lambda: encoder(thunk()))
            except Hang:
                err.append(name)
                why[name] = 'no answer within %g s' % CALL_LIMIT
            except KeyboardInterrupt:
                raise
            except BaseException as e:  # anything raised by the code under test is an observation
                err.append(name)
                why[name] = f'{type(e).__name__}: {e}'[:1800]
        line = {'op': op, 'a': a, 'r': r, 'err': err}
        if why:
            line['why'] = why
        self.out.write(json.dumps(line, ensure_ascii=True) + '\n')
        self.count += 1
        self.ops[op] = self.ops.get(op, 0) + 1

    def rejects(self, op, a, thunk):
        """record whether the call is rejected by an exception"""
        def attempt():
            try:
                thunk()
            except Exception:
                return True
            return False
        self.event(op, a, {'rejected': (attempt, boolean)})

    def helper(self, module, name):
        """a helper function that may legitimately have moved away: its absence is noted, not judged"""
        import importlib
        f = getattr(importlib.import_module(module), name, None)
        if f is None:
            self.missing[f'{module}.{name}'] = self.missing.get(f'{module}.{name}', 0) + 1
        return f

    def close(self):
        self.out.close()


def main():
    import importlib
    pid, path, seed, tier, shard, nshards = sys.argv[1:7]
    repo = os.environ['VERIF_REPO']
    sys.path.insert(0, repo)
    import discretehelpers
    assert os.path.realpath(discretehelpers.__file__).startswith(os.path.realpath(repo) + '/'), discretehelpers.__file__
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))  # endless iteration must not eat the machine
    suite, _, gen = SUITES[pid].partition(':')
    module = importlib.import_module(suite)
    rec = Recorder(path, int(seed), tier, int(shard), int(nshards), pid)
    sys.stdout = open(os.devnull, 'w')  # the code under test prints now and then
    try:
        getattr(module, gen)(rec)
    except Exception:
        # only code under test can make the difference to the unchanged tree, where this does not happen
        trace = traceback.format_exc()[-1500:]

        def again():
            raise RuntimeError(trace)
        rec.event('uncaught', {'suite': suite}, {'recording': (again, text)})
    rec.close()
    with open(path + '.stats', 'w') as f:
        json.dump({'events': rec.count, 'ops': rec.ops, 'missing': rec.missing}, f)


from suites import SCALE, SUITES  # noqa: E402

if __name__ == '__main__':
    main()
