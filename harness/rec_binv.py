"""recordings of Binv"""
from itertools import product

import numpy as np
from discretehelpers.binv import Binv

from rec import Lazy, big, bits, boolean, ints, integer, iset, listof, text


def chars(s):
    return list(text(s))


def desc(kind, **kw):
    d = dict(kind=kind, bits=[], chars=[], n=[], set=[], length=[], minimal=[])
    d.update(kw)
    return d


def build(d, variant=0):
    kind = d['kind']
    if kind == 'list':
        form = [[0, 1], [False, True], ['0', '1'], [0.0, 1.0]][variant % 4]
        return Binv([form[x] for x in d['bits']])
    if kind == 'tuple':
        return Binv(tuple(d['bits']))
    if kind == 'array':
        return Binv(np.array(d['bits'], dtype=[int, bool][variant % 2]))
    if kind == 'binv':
        return Binv(Binv(list(d['bits'])))
    if kind == 'str':
        return Binv(''.join(d['chars']))
    kw = {}
    if d['length']:
        kw['length'] = d['length'][0]
    if d['minimal']:
        kw['minimal_length'] = d['minimal'][0]
    if kind == 'intval':
        return Binv(intval=sum(1 << i for i, x in enumerate(d['n']) if x), **kw)
    if kind == 'exposet':
        typ = [set, list, tuple][variant % 3]
        return Binv(exposet=typ(d['set']), **kw)
    raise AssertionError(kind)


def blocks(p):
    return sorted(iset(b) for b in p.blocks)


def record_make(rec, d, variant=0):
    v = Lazy(lambda: build(d, variant))

    def pretty():
        try:
            return [chars(v().pretty)]
        except ValueError:
            return []

    rec.event('make', d, {
        'vector': (lambda: v().vector, bits),
        'iterated': (lambda: [x for x in v()], bits),
        'items': (lambda: [v()[i] for i in range(len(v()))], bits),
        'length': (lambda: [v().length, len(v())], ints),
        'weight': (lambda: v().weight, integer),
        'changes': (lambda: v().changes, integer),
        'intval': (lambda: v().intval, big),
        'exposet': (lambda: v().exposet, iset),
        'string': (lambda: v().string, chars),
        'pretty': (pretty, list),
        'complement': (lambda: [v().complement, ~v()], listof(bits)),
        'reverse': (lambda: v().reverse, bits),
        'required_length': (lambda: v().required_length, integer),
        'has_index': (lambda: [v().has_index(i) for i in range(len(v()) + 3)], listof(boolean)),
        'blocks': (lambda: v().set_part, blocks),
        'printed': (lambda: str(v()), chars),
    })


def record_admit(rec, d, thunk):
    rec.rejects('admit', d, thunk)


def int_bits(n):
    return [(n >> i) & 1 for i in range(n.bit_length())]


def b01(rec):
    rng = rec.rng
    # every vector of small length in every form
    for n in range(rec.pick(7, 9)):
        for t in product([0, 1], repeat=n):
            if not rec.mine():
                continue
            b = list(t)
            for k, kind in enumerate(['list', 'tuple', 'array', 'binv']):
                record_make(rec, desc(kind, bits=b), variant=sum(b) + k)
            c = []
            for x in b:
                c += [str(x)] + [' '] * rng.randrange(3)
            record_make(rec, desc('str', chars=c))
            record_make(rec, desc('str', chars=[str(x) for x in b]))
            num = int_bits(sum(1 << i for i, x in enumerate(b) if x))
            expo = [i for i, x in enumerate(b) if x]
            rng.shuffle(expo)
            for extra in range(3):
                record_make(rec, desc('intval', n=num, length=[n + extra]))
                record_make(rec, desc('exposet', set=expo, length=[n + extra]), variant=extra)
            for low in (0, 1, n, n + 2):
                record_make(rec, desc('intval', n=num, minimal=[low]))
                record_make(rec, desc('exposet', set=expo, minimal=[low]), variant=low)
            record_make(rec, desc('intval', n=num))
            record_make(rec, desc('exposet', set=expo), variant=n)
            for length in range(n + 2):
                d = desc('intval', n=num, length=[length])
                rec.rejects('admit', d, lambda: build(d))
                d = desc('exposet', set=expo, length=[length])
                rec.rejects('admit', d, lambda: build(d))
            if b:
                for i in range(n + 1):
                    for j in range(i, n + 1):
                        v = Lazy(lambda: Binv(list(b)))
                        rec.event('slice', {'bits': b, 'from': i, 'to': j}, {
                            'piece': (lambda: v()[i:j], bits),
                            'last': (lambda: int(v()[-1]), integer),
                        })
    # numbers around powers of two, far beyond the precision of floats
    for k in rec.share(range(1, rec.pick(140, 400))):
        for n in (2 ** k - 2, 2 ** k - 1, 2 ** k, 2 ** k + 1):
            num = int_bits(n)
            for length in (len(num), len(num) + 1):
                record_make(rec, desc('intval', n=num, length=[length]))
            record_make(rec, desc('intval', n=num, minimal=[k]))
            record_make(rec, desc('intval', n=num))
            d = desc('intval', n=num, length=[len(num) - 1])
            rec.rejects('admit', d, lambda: build(d))
    # random long vectors
    for _ in range(rec.pick(60, 500)):
        n = rng.choice([16, 17, 31, 32, 33, 63, 64, 64, 65, rng.randrange(8, 130), rng.randrange(8, 260), rng.choice([511, 512, 513, 1000, 1024, 1025])])
        p = rng.choice([0.05, 0.5, 0.95])
        b = [int(rng.random() < p) for _ in range(n)]
        kind = rng.choice(['list', 'tuple', 'array', 'binv', 'str', 'intval', 'exposet'])
        if kind == 'str':
            d = desc(kind, chars=[str(x) for x in b])
        elif kind == 'intval':
            d = desc(kind, n=int_bits(sum(1 << i for i, x in enumerate(b) if x)), length=[n])
        elif kind == 'exposet':
            d = desc(kind, set=[i for i, x in enumerate(b) if x], length=[n])
        else:
            d = desc(kind, bits=b)
        record_make(rec, d, rng.randrange(12))
        i = rng.randrange(n)
        j = rng.randrange(i, n + 1)
        rec.event('slice', {'bits': b, 'from': i, 'to': j}, {
            'piece': (lambda: Binv(b)[i:j], bits), 'last': (lambda: int(Binv(b)[-1]), integer)})
    # what denotes no vector
    for _ in range(rec.pick(40, 200)):
        n = rng.randrange(1, 12)
        b = [rng.randrange(2) for _ in range(n)]
        if rng.random() < 0.8:
            b[rng.randrange(n)] = rng.choice([2, 3, -1, 10, 0, 1])
        for kind in ['list', 'tuple', 'array']:
            d = desc(kind, bits=b)
            thunk = {'list': lambda: Binv(list(b)), 'tuple': lambda: Binv(tuple(b)), 'array': lambda: Binv(np.array(b))}
            rec.rejects('admit', d, thunk[kind])
        c = [rng.choice('01') for _ in range(n)]
        if rng.random() < 0.8:
            c[rng.randrange(n)] = rng.choice(['2', 'a', '-', ' ', '0'])
        d = desc('str', chars=c)
        rec.rejects('admit', d, lambda: Binv(''.join(c)))
        s = list({rng.randrange(12) for _ in range(rng.randrange(5))})
        if rng.random() < 0.3:
            s[:1] = [-rng.randrange(1, 4)]
        d = desc('exposet', set=s, length=[rng.randrange(14)])
        rec.rejects('admit', d, lambda: build(d, rng.randrange(3)))
    if rec.mine():
        for thunk in [
            lambda: Binv(), lambda: Binv([1, 0], intval=1), lambda: Binv([1, 0], exposet={0}),
            lambda: Binv(intval=1, exposet={0}), lambda: Binv([1], intval=1, exposet={0}), lambda: Binv(intval=-1),
            lambda: Binv(intval=-5, length=9), lambda: Binv(intval='1'), lambda: Binv(intval=1.5),
            lambda: Binv(exposet={'a'}), lambda: Binv(exposet={0.5}), lambda: Binv(exposet='01'),
            lambda: Binv({0: 1, 1: 0}), lambda: Binv({0, 1}), lambda: Binv(5), lambda: Binv([1, 0], length=4),
            lambda: Binv([[1, 0], [0, 1]]), lambda: Binv([None]), lambda: Binv([0.5, 1]), lambda: Binv([1, 1.7]),
            lambda: Binv(length=3), lambda: Binv(minimal_length=3),
        ]:
            rec.rejects('admit', desc('malformed'), thunk)


def record_pair(rec, x, y):
    v, w = Lazy(lambda: Binv(list(x))), Lazy(lambda: Binv(list(y)))
    rec.event('pair', {'x': x, 'y': y}, {
        'eq': (lambda: v() == w(), boolean),
        'ne': (lambda: v() != w(), boolean),
        'lt': (lambda: v() < w(), boolean),
        'gt': (lambda: v() > w(), boolean),
        'le': (lambda: v() <= w(), boolean),
        'ge': (lambda: v() >= w(), boolean),
        'add': (lambda: v() + w(), bits),
        'after': (lambda: [v(), w()], listof(bits)),
    })


def record_bitwise(rec, x, y):
    v, w = Lazy(lambda: Binv(list(x))), Lazy(lambda: Binv(list(y)))
    rec.event('bitwise', {'x': x, 'y': y}, {
        'conj': (lambda: v() & w(), bits),
        'disj': (lambda: v() | w(), bits),
        'xor': (lambda: v() ^ w(), bits),
        'inv': (lambda: ~v(), bits),
        'smaller': (lambda: v().bitwise_smaller(w()), boolean),
        'flip': (lambda: [v().flip_bit(i) for i in range(len(x))], listof(bits)),
        'after': (lambda: [v(), w()], listof(bits)),
    })


def record_hash(rec, x):
    n = sum(1 << i for i, e in enumerate(x) if e)
    rec.event('hash', {'x': x}, {
        'hash_equal': (lambda: hash(Binv(list(x))) == hash(Binv(intval=n, length=len(x))), boolean),
        'one_key': (lambda: len({Binv(list(x)), ~~Binv(tuple(x)), Binv(list(x)).reverse.reverse}), integer),
    })


def b02(rec):
    rng = rec.rng
    small = [list(t) for n in range(rec.pick(6, 7)) for t in product([0, 1], repeat=n)]
    for x in small:
        if rec.mine():
            record_hash(rec, x)
        for y in small:
            if rec.mine():
                record_pair(rec, x, y)
                if len(x) == len(y):
                    record_bitwise(rec, x, y)
    for _ in range(rec.pick(150, 1200)):
        n = rng.choice([rng.randrange(6, 40), rng.randrange(6, 150)] if rng.random() < 0.97 else [300])
        x = [rng.randrange(2) for _ in range(n)]
        y = list(x) if rng.random() < 0.3 else [rng.randrange(2) for _ in range(n)]
        how = rng.randrange(5)
        if how == 0:
            y[rng.randrange(n)] ^= 1
        elif how == 1:
            y = [a | b for a, b in zip(x, y)]
        elif how == 2:
            y = list(x[:rng.randrange(n)])
        elif how == 3:
            y = list(x) + [rng.randrange(2) for _ in range(rng.randrange(3))]
        record_hash(rec, x)
        record_pair(rec, x, y)
        if len(x) == len(y):
            record_bitwise(rec, x, y)
