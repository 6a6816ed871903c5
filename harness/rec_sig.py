"""recordings of SigPerm"""
from itertools import permutations, product

import numpy as np
from discretehelpers.binv import Binv
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm

import rec_perm
from rec import Lazy, Shape, big, bits, boolean, ints, integer, listof, matrix
from rec_binv import chars, int_bits
from rec_perm import perm, random_seq


def sig(s):
    if not isinstance(s, SigPerm):
        raise Shape(f'signed permutation expected: {s!r}')
    return ints(s.sequence())


def desc(kind, **kw):
    d = {'kind': kind, 'set': [], 'perm': [], 'seq': [], 'matrix': [], 'form': 0}
    d.update(kw)
    return d


def descriptions(s, rng):
    """all descriptions of a signed sequence (which may have trailing fixed points)"""
    a = [x if x >= 0 else ~x for x in s]
    n = len(s)
    val = [~x for x in s if x < 0]
    key = [i for i, x in enumerate(s) if x < 0]
    m = [[0] * n for _ in range(n)]
    for i, x in enumerate(s):
        m[a[i]][i] = -1 if x < 0 else 1
    inv = [0] * n
    for i, x in enumerate(s):
        inv[a[i]] = i if x >= 0 else ~i
    result = [desc('sequence', seq=list(s), form=rng.randrange(2))]
    result += [desc('valneg', set=val, perm=a, form=rng.randrange(12))]
    result += [desc('keyneg', set=key, perm=a, form=rng.randrange(12))]
    if n:
        result.append(desc('matrix', matrix=m, form=rng.randrange(2)))
        if n <= 5:
            vert = []
            for x in range(2 ** n):
                y = 0
                for i, e in enumerate(inv):
                    y |= ((x >> e & 1) if e >= 0 else 1 - (x >> ~e & 1)) << i
                vert.append(y)
            result.append(desc('schoute', perm=vert, form=rng.randrange(3)))
    return result


def build(d):
    kind, form = d['kind'], d['form']
    if kind == 'sequence':
        return SigPerm(sequence=tuple(d['seq']) if form % 2 else list(d['seq']))
    if kind == 'matrix':
        return SigPerm(matrix=np.array(d['matrix']) if form % 2 else d['matrix'])
    if kind == 'schoute':
        return SigPerm(schoute_perm=[list(d['perm']), tuple(d['perm']), Perm(list(d['perm']), len(d['perm']))][form % 3])
    s, p = set(d['set']), d['perm']
    n = max([len(p)] + [x + 1 for x in s])
    vec = [int(i in s) for i in range(n)]
    number = sum(1 << i for i in s)
    which = form % 6
    kw = {}
    name = kind
    if which == 0:
        kw[name] = vec
    elif which == 1:
        kw[name] = tuple(vec)
    elif which == 2:
        kw[name] = s
    elif which == 3:
        kw[name] = Binv(vec)
    elif which == 4:
        kw[name] = Binv(vec + [0] * (form % 4))
    else:
        kw[name + '_index'] = number
    rank = Perm(list(p)).left_rank
    if kind == 'valneg' and which == 5 and form % 4 == 1:
        return SigPerm(pair=(number, rank))
    if form % 3 == 0:
        kw['perm'] = list(p)
    elif form % 3 == 1:
        kw['perm'] = Perm(list(p))
    else:
        kw['perm_index'] = rank
    return SigPerm(**kw)


def record_make(rec, d):
    s = Lazy(lambda: build(d))

    def rebuilt():
        t = s()
        n = t.length
        return [
            t == SigPerm(sequence=t.sequence(n + 1)),
            t == SigPerm(matrix=t.matrix(n + 1)),
            t == SigPerm(pair=t.pair),
            t == SigPerm(valneg=t.binv, perm=t.perm),
            t == SigPerm(keyneg_index=t.keyneg_index, perm_index=t.perm_index),
            hash(t) == hash(SigPerm(pair=t.pair)) and str(t) == str(SigPerm(pair=t.pair)),
        ]

    def too_short():
        t = s()
        if t.length == 0:
            return True
        for call in (t.sequence, t.matrix):
            try:
                call(t.length - 1)
            except Exception:
                continue
            return False
        return True

    rec.event('make', d, {
        'sequence': (s, sig),
        'items': (lambda: [s()[i] for i in range(s().length)], ints),
        'length': (lambda: s().length, integer),
        'flags': (lambda: [s().unsigned, s().unmoved, s().neutral], listof(boolean)),
        'binv': (lambda: s().binv, bits),
        'perm': (lambda: s().perm, perm),
        'longer': (lambda: s().sequence(s().length + 2), ints),
        'matrix': (lambda: s().matrix(), matrix),
        'bigger': (lambda: s().matrix(s().length + 1), matrix),
        'valneg_index': (lambda: s().valneg_index, big),
        'keyneg_index': (lambda: s().keyneg_index, big),
        'perm_index': (lambda: s().perm_index, big),
        'pair': (lambda: s().pair, listof(big)),
        'text': (lambda: [s().sequence_string(), s().sequence_string(s().length + 1, round_parentheses=True)], listof(chars)),
        'printed': (lambda: str(s()), chars),
        'rebuilt': (rebuilt, listof(boolean)),
        'too_short': (too_short, boolean),
    })


def record_schoute(rec, d):
    s = Lazy(lambda: build(d))
    rec.event('schoute', d, {
        'schoute': (lambda: s().schoute_perm, perm),
        'back': (lambda: SigPerm(schoute_perm=s().schoute_perm), sig),
    })


def small_sigs(top):
    for n in range(top + 1):
        for p in permutations(range(n)):
            for signs in product([False, True], repeat=n):
                yield [~x if b else x for x, b in zip(p, signs)]


def random_sig(rng, top):
    n = rng.randrange(0, top + 1)
    p = random_seq(rng, n) if n else []
    q = rng.choice([0, 0.2, 0.5, 0.8])
    return [~x if rng.random() < q else x for x in p]


def s01(rec):
    rng = rec.rng
    for s in small_sigs(rec.pick(3, 4)):
        if rec.mine():
            for d in descriptions(s, rng):
                for _ in range(rec.pick(2, 3) if d['kind'] in ('valneg', 'keyneg') else 1):
                    record_make(rec, {**d, 'form': rng.randrange(12)})
            record_schoute(rec, rng.choice(descriptions(s, rng)))
    for _ in range(rec.pick(60, 600)):
        s = random_sig(rng, rng.choice([5, 7, 12, 24] if rng.random() < 0.96 else [45]))
        for d in descriptions(s, rng):
            record_make(rec, d)
        s = random_sig(rng, rec.pick(5, 6))
        record_schoute(rec, rng.choice(descriptions(s, rng)))
    # equality
    rng2 = rec.shared
    pool = list(small_sigs(2)) + [random_sig(rng2, 3) for _ in range(rec.pick(25, 60))]
    pool = [rng2.choice(descriptions(s, rng2)) for s in pool]
    pool += [desc('valneg', set=[0], perm=[1, 0], form=f) for f in range(12)]
    for x in pool:
        for y in pool:
            if rec.mine():
                s, t = Lazy(lambda: build(x)), Lazy(lambda: build(y))
                rec.event('equal', {'x': x, 'y': y}, {
                    'eq': (lambda: s() == t(), boolean),
                    'ne': (lambda: s() != t(), boolean),
                    'keys': (lambda: len({s(), t()}), integer),
                })
    for x in pool:
        for _ in range(3):
            if rec.mine():
                a = [v if v >= 0 else ~v for v in x['seq']]
                y = rng.choice([rec_perm.random_desc(rng, 4, per_top=4), rec_perm.desc('dict', [[i, v] for i, v in enumerate(a)])])
                if y['kind'] == 'seq' and not y['data']:
                    continue
                s, p = Lazy(lambda: build(x)), Lazy(lambda: rec_perm.build(y))
                rec.event('unsigned', {'x': x, 'y': y}, {
                    'eq': (lambda: [s() == p(), p() == s()], listof(boolean)),
                    'keys': (lambda: len({s(), p()}), integer),
                })
    # what denotes no signed permutation
    for _ in range(rec.pick(120, 1000)):
        s = random_sig(rng, 4)
        for d in descriptions(s, rng):
            d = {**d}
            if d['kind'] == 'sequence' and d['seq']:
                d['seq'] = list(d['seq'])
                d['seq'][rng.randrange(len(d['seq']))] = rng.randrange(-4, 4)
            elif d['kind'] == 'matrix':
                d['matrix'] = [list(r) for r in d['matrix']]
                for _ in range(rng.randrange(1, 3)):
                    d['matrix'][rng.randrange(len(s))][rng.randrange(len(s))] = rng.choice([-1, 0, 1, 2])
            elif d['kind'] == 'schoute':
                i, j = rng.randrange(len(d['perm'])), rng.randrange(len(d['perm']))
                d['perm'] = list(d['perm'])
                d['perm'][i], d['perm'][j] = d['perm'][j], d['perm'][i]
                d['form'] = rng.randrange(2)
            elif d['kind'] in ('valneg', 'keyneg') and d['perm']:
                d['perm'] = list(d['perm'])
                d['perm'][rng.randrange(len(d['perm']))] = rng.randrange(5)
                d['form'] = 3 * rng.randrange(4)
            rec.rejects('admit', d, lambda: build(d))
    if rec.mine():
        for thunk in [
            lambda: SigPerm(), lambda: SigPerm(valneg=[1, 0]), lambda: SigPerm(perm=[1, 0]), lambda: SigPerm(keyneg_index=3),
            lambda: SigPerm(matrix=[[1, 0, 0], [0, 1, 0]]), lambda: SigPerm(pair=(1, 2), perm=[0, 1]),
        ]:
            rec.rejects('admit', desc('malformed'), thunk)


def record_mul(rec, x, y):
    s, t = Lazy(lambda: build(x)), Lazy(lambda: build(y))
    prod = Lazy(lambda: s() * t())
    rec.event('mul', {'x': x, 'y': y}, {
        'product': (prod, sig),
        'matrix': (lambda: prod().matrix(max(s().length, t().length)), matrix),
        'inverse': (lambda: s().inverse, sig),
        'inverse_matrix': (lambda: s().inverse.matrix(s().length), matrix),
        'after': (lambda: [sig(s()), sig(t())], list),
        'twin': (lambda: prod() == SigPerm(sequence=[int(i) for i in prod().sequence()])
                 and hash(prod()) == hash(SigPerm(pair=prod().pair)), boolean),
    })


def s02(rec):
    rng = rec.rng
    rng2 = rec.shared
    pool = [rng2.choice(descriptions(s, rng2)) for s in small_sigs(3)]
    for x in pool:
        for y in pool:
            if rec.mine() and (not rec.quick or rng2.random() < 1):
                record_mul(rec, x, y)
    for _ in range(rec.pick(120, 1200)):
        top = rng.choice([4, 6, 10, 20] if rng.random() < 0.95 else [50])
        x, y = [rng.choice(descriptions(random_sig(rng, top), rng)) for _ in range(2)]
        record_mul(rec, x, y)
        s, t = Lazy(lambda: build(x)), Lazy(lambda: build(y))
        v = [rng.randrange(-9, 10) for _ in range(top + rng.randrange(4))]
        n = rng.randrange(2 ** rng.choice([3, top, top + 5, 40, 90]))
        rec.event('act', {'x': x, 'y': y, 'v': v, 'n': int_bits(n)}, {
            'first': (lambda: t().apply_on_vector(list(v)), ints),
            'both': (lambda: s().apply_on_vector(t().apply_on_vector(list(v))), ints),
            'product': (lambda: (s() * t()).apply_on_vector(list(v)), ints),
            'number': (lambda: t().apply_on_natural_number(n), big),
            'numbers': (lambda: s().apply_on_natural_number(t().apply_on_natural_number(n)), big),
            'number_product': (lambda: (s() * t()).apply_on_natural_number(n), big),
            'vector': (lambda: v, ints),
        })
        if rng.random() < 0.5:
            x, y = [rng.choice(descriptions(random_sig(rng, rec.pick(4, 5)), rng)) for _ in range(2)]
            rec.event('vertices', {'x': x, 'y': y}, {
                'of_product': (lambda: (build(x) * build(y)).schoute_perm, perm),
                'product_of': (lambda: build(x).schoute_perm * build(y).schoute_perm, perm),
                'of_inverse': (lambda: build(x).inverse.schoute_perm, perm),
            })
