"""recordings of WalshPerm"""
from itertools import product

import numpy as np
from discretehelpers.perm import Perm
from discretehelpers.walsh_perm import WalshPerm

import rec_perm
from rec import Lazy, Shape, big, boolean, ints, integer, iset, listof, matrix
from rec_binv import chars
from rec_perm import attempt, perm


def walsh(w):
    if not isinstance(w, WalshPerm):
        raise Shape(f'Walsh permutation expected: {w!r}')
    return ints(w.vector())


def image(vec, x):
    y, i = 0, 0
    while x >> i:
        if x >> i & 1:
            y ^= vec[i]
        i += 1
    return y


def invertible(vec):
    return len({image(vec, x) for x in range(2 ** len(vec))}) == 2 ** len(vec)


def random_vec(rng, n):
    """a random invertible matrix, by columns"""
    vec, span = [], {0}
    while len(vec) < n:
        x = rng.randrange(1, 2 ** n)
        if x not in span:
            vec.append(x)
            span |= {x ^ y for y in span}
    return vec


def desc(kind, **kw):
    d = {'kind': kind, 'vector': [], 'matrix': [], 'seq': [], 'perm': rec_perm.desc('dict', []), 'form': 0}
    d.update(kw)
    return d


def descriptions(vec, rng):
    n = len(vec)
    seq = [image(vec, x) for x in range(2 ** n)]
    rows = [[vec[c] >> r & 1 for c in range(n)] for r in range(n)]
    return [
        desc('vector', vector=list(vec), form=rng.randrange(2)),
        desc('matrix', matrix=rows, form=rng.randrange(3)),
        desc('list', seq=seq),
        desc('perm', perm=rec_perm.desc('seq', seq, len(seq) if len(seq) > 1 else None)),
        desc('perm', perm=rng.choice(rec_perm.forms(seq, rng))),
        desc('perm', perm=rng.choice(rec_perm.forms(seq, rng, max(2, len(seq))))),
    ]


def build(d):
    kind = d['kind']
    if kind == 'vector':
        return WalshPerm(tuple(d['vector']) if d['form'] else list(d['vector']))
    if kind == 'matrix':
        m = np.array(d['matrix'], dtype=[int, bool, float][d['form'] % 3]) if d['matrix'] else np.zeros([0, 0], dtype=int)
        return WalshPerm(matrix=m)
    if kind == 'list':
        return WalshPerm(perm=list(d['seq']))
    return WalshPerm(perm=rec_perm.build(d['perm']))


def record_make(rec, d):
    w = Lazy(lambda: build(d))
    rec.event('make', d, {
        'vector': (w, walsh),
        'rows': (lambda: w().transpose_vector(), ints),
        'matrix': (lambda: w().matrix(), matrix),
        'degree': (lambda: w().degree, integer),
        'neutral': (lambda: w().neutral, boolean),
        'perm': (w, perm),
        'moved': (lambda: w().moved, iset),
        'cycles': (lambda: w().cycles, listof(ints)),
        'order': (lambda: w().order, big),
        'determinant': (lambda: w().determinant, integer),
        'distance': (lambda: w().complement_distance, integer),
        'printed': (lambda: str(w()), chars),
        'rebuilt': (lambda: [
            w() == WalshPerm(w().vector()), w() == WalshPerm(matrix=w().matrix()), w() == WalshPerm(perm=w()),
            w() == WalshPerm(perm=w().sequence(degree=w().degree + 1))], listof(boolean)),
        'parity': (lambda: w().parity, integer),
    })


def record_degree(rec, d, n):
    w = Lazy(lambda: build(d))
    rec.event('degree', {'d': d, 'n': n}, {
        'vector': attempt(lambda: w().vector(n), ints),
        'rows': attempt(lambda: w().transpose_vector(n), ints),
        'matrix': attempt(lambda: w().matrix(n), matrix),
        'sequence': attempt(lambda: w().sequence(degree=n), ints),
        'by_length': attempt(lambda: w().sequence(2 ** n), ints),
        'cycles': attempt(lambda: w().cycles_dynamic(degree=n), listof(ints)),
        'pattern': attempt(lambda: w().complement_pattern(n), integer),
    })


def small_vecs(top):
    for n in range(top + 1):
        for vec in product(range(2 ** n), repeat=n):
            if invertible(list(vec)):
                yield list(vec)


def w01(rec):
    rng = rec.rng
    for vec in small_vecs(3):
        if rec.mine():
            for d in descriptions(vec, rng):
                record_make(rec, d)
            for n in range(len(vec) + 3):
                record_degree(rec, rng.choice(descriptions(vec, rng)), n)
    for _ in range(rec.pick(25, 250)):
        vec = random_vec(rng, rng.choice([4, 4, 5, rec.pick(5, 6)]) if rng.random() < 0.97 else rng.choice([7, 8, 9]))
        if rng.random() < 0.3:    # with trailing identity
            k = rng.randrange(1, 4)
            vec = random_vec(rng, k) + [2 ** i for i in range(k, rng.randrange(k + 1, 7))]
        for d in rng.sample(descriptions(vec, rng), 3):
            record_make(rec, d)
        record_degree(rec, rng.choice(descriptions(vec, rng)), rng.randrange(7))
    rng2 = rec.shared
    pool = list(small_vecs(2)) + [random_vec(rng2, 3) for _ in range(rec.pick(15, 40))] + [[1, 2, 4, 8], [2, 1, 4], [1]]
    pool = [rng2.choice(descriptions(v, rng2)) for v in pool]
    for x in pool:
        for y in pool:
            if rec.mine():
                v, w = Lazy(lambda: build(x)), Lazy(lambda: build(y))
                rec.event('equal', {'x': x, 'y': y}, {
                    'eq': (lambda: v() == w(), boolean),
                    'ne': (lambda: v() != w(), boolean),
                    'keys': (lambda: len({v(), w()}), integer),
                })
                if y['kind'] == 'perm':
                    q = Lazy(lambda: rec_perm.build(y['perm']))
                    rec.event('plain', {'x': x, 'y': y['perm']}, {
                        'eq': (lambda: [v() == q(), q() == v()], listof(boolean)),
                        'keys': (lambda: len({v(), q()}), integer),
                    })
    # singular and non-binary matrices, non-linear permutations
    for n in range(1, 3):
        for vec in product(range(2 ** n + 1), repeat=n):
            if rec.mine():
                d = desc('vector', vector=list(vec))
                rec.rejects('admit', d, lambda: build(d))
        for cells in product([0, 1, 2], repeat=n * n):
            if rec.mine():
                d = desc('matrix', matrix=[list(cells[i * n:i * n + n]) for i in range(n)])
                rec.rejects('admit', d, lambda: build(d))
    for s in rec_perm.small_seqs(4):
        if rec.mine() and s:
            d = desc('list', seq=s)
            rec.rejects('admit', d, lambda: build(d))
            for q in rec_perm.forms(s, rng) + rec_perm.forms(s, rng, max(len(s), 2)):
                e = desc('perm', perm=q)
                rec.rejects('admit', e, lambda: build(e))
    for _ in range(rec.pick(60, 600)):
        n = rng.choice([3, 3, 4] if rng.random() < 0.85 else [5, 6])
        d = desc('vector', vector=[rng.randrange(2 ** n) for _ in range(n)])
        rec.rejects('admit', d, lambda: build(d))
        m = [[rng.randrange(2) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.4:
            m[n - 1] = [0] * (n - 1) + [1]
        if rng.random() < 0.3:
            for r in m:
                r[n - 1] = 0
            m[n - 1][n - 1] = 1
        if rng.random() < 0.2:
            m[rng.randrange(n)][rng.randrange(n)] = rng.choice([-1, 2])
        e = desc('matrix', matrix=m)
        rec.rejects('admit', e, lambda: build(e))
        vec = random_vec(rng, n)
        seq = [image(vec, x) for x in range(2 ** n)]
        i, j = rng.randrange(2 ** n), rng.randrange(2 ** n)
        if rng.random() < 0.3:    # as far from the beginning as possible
            i, j = 2 ** n - 1, rng.choice([2 ** n - 2, 2 ** n - 3])
        seq[i], seq[j] = seq[j], seq[i]
        f = desc('list', seq=seq)
        rec.rejects('admit', f, lambda: build(f))
        g = desc('perm', perm=rng.choice(rec_perm.forms(seq, rng, len(seq)) + rec_perm.forms(seq, rng)))
        rec.rejects('admit', g, lambda: build(g))
    if rec.mine():
        for thunk in [
            lambda: WalshPerm(matrix=np.array([[1, 0, 0], [0, 1, 0]])), lambda: WalshPerm([1, 3], perm=[0, 1]),
            lambda: WalshPerm([1, 3], matrix=np.eye(2, dtype=int)), lambda: WalshPerm(perm=[0, 0]), lambda: WalshPerm(perm=[0, 1, 2]),
            lambda: WalshPerm([0]), lambda: WalshPerm(matrix=np.array([[0]])), lambda: WalshPerm(matrix=np.array([[1, 1]])),
        ]:
            rec.rejects('admit', desc('malformed'), thunk)


def w02(rec):
    rng = rec.rng
    rng2 = rec.shared
    pool = list(small_vecs(2)) + [v for v in small_vecs(3) if len(v) == 3]
    if rec.quick:
        pool = pool[:8] + rng2.sample(pool[8:], 45)
    pool = [rng2.choice(descriptions(v, rng2)) for v in pool]

    def record_mul(x, y):
        v, w = Lazy(lambda: build(x)), Lazy(lambda: build(y))
        prod = Lazy(lambda: v() * w())
        rec.event('mul', {'x': x, 'y': y}, {
            'product': (prod, walsh),
            'perm': (prod, perm),
            'after': (lambda: [walsh(v()), walsh(w())], list),
        })

    def record_power(x, exponents):
        w = Lazy(lambda: build(x))
        rec.event('power', {'x': x, 'exponents': exponents}, {
            'inverse': (lambda: w().inverse, walsh),
            'inverse_perm': (lambda: w().inverse, perm),
            'transpose': (lambda: w().transpose, walsh),
            'powers': (lambda: [w() ** k for k in exponents], listof(walsh)),
            'mirrored': (lambda: w().inverse.transpose, walsh),
        })

    for x in pool:
        for y in pool:
            if rec.mine():
                record_mul(x, y)
    for vec in small_vecs(3):
        if rec.mine():
            record_power(rng.choice(descriptions(vec, rng)), [-3, -2, -1, 0, 1, 2, 3])
    for _ in range(rec.pick(60, 900)):
        n = rng.choice([4, 4, 5, rec.pick(5, 6)]) if rng.random() < 0.97 else rng.choice([7, 8])
        x, y = [rng.choice(descriptions(random_vec(rng, m), rng)[:4]) for m in (n, rng.randrange(1, n + 1))]
        if rng.random() < 0.5:
            x, y = y, x
        record_mul(x, y)
        record_power(desc('vector', vector=random_vec(rng, rng.choice([n, 5, 6, 7]))), [rng.randrange(-4, 5), rng.randrange(-40, 41)])
    for _ in range(rec.pick(60, 600)):
        x = rng.choice(descriptions(random_vec(rng, rng.randrange(1, 4)), rng))
        y = rec_perm.random_desc(rng, 6, rng.choice(['finite', 'periodic', 'periodic', 'periodic']), per_top=6)
        w, p = Lazy(lambda: build(x)), Lazy(lambda: rec_perm.build(y))
        rec.event('mixed', {'x': x, 'y': y}, {
            'left': attempt(lambda: w() * p(), perm),
            'right': attempt(lambda: p() * w(), perm),
        })
