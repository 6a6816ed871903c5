"""recordings of Perm and of the permutation helpers"""
from itertools import permutations
from math import lcm

from discretehelpers.perm import Perm

from rec import Lazy, Shape, big, boolean, ints, integer, iset, listof
from rec_binv import blocks, chars, int_bits


def perm(p):
    if not isinstance(p, Perm):
        raise Shape(f'permutation expected: {p!r}')
    per = 0 if p.perilen is None else integer(p.perilen)
    return {'per': per, 'seq': ints(p[i] for i in range(p.length))}


def desc(kind, data, per=None):
    return {'kind': kind, 'data': data, 'per': [] if per is None else [per]}


def build(d, tuples=False):
    data = d['data']
    if d['kind'] == 'seq':
        arg = tuple(data) if tuples else list(data)
    elif d['kind'] == 'cycles':
        arg = [list(c) for c in data]
        arg = tuple(arg) if tuples else arg
    else:
        arg = {k: v for k, v in data}
    return Perm(arg, d['per'][0]) if d['per'] else Perm(arg)


def to_cycles(seq, rng, ones=False):
    left, result = set(range(len(seq))), []
    while left:
        x = rng.choice(sorted(left))
        c = [x]
        while seq[c[-1]] != x:
            c.append(seq[c[-1]])
        left -= set(c)
        if len(c) > 1 or (ones and rng.random() < 0.3):
            result.append(c)
    rng.shuffle(result)
    return result


def forms(seq, rng, per=None):
    """different descriptions of the same permutation"""
    result = []
    if seq:
        result.append(desc('seq', list(seq), per))
    cycles = to_cycles(seq, rng, ones=True)
    if cycles:
        result.append(desc('cycles', cycles, per))
    pairs = [[i, x] for i, x in enumerate(seq) if i != x or rng.random() < 0.3]
    rng.shuffle(pairs)
    result.append(desc('dict', pairs, per))
    return result


def random_seq(rng, n):
    s = list(range(n))
    how = rng.random()
    if how < 0.5:
        rng.shuffle(s)
    else:
        k = rng.randrange(1, n + 1)
        idx = rng.sample(range(n), k)
        vals = [s[i] for i in idx]
        rng.shuffle(vals)
        for i, v in zip(idx, vals):
            s[i] = v
    return s


def random_desc(rng, top, kind=None, per_top=8):
    """kind: None any, 'finite', 'periodic'"""
    kind = kind or rng.choice(['finite', 'periodic'])
    if kind == 'finite':
        n = rng.randrange(0, top + 1)
        return rng.choice(forms(random_seq(rng, n) if n else [], rng))
    n = rng.randrange(2, per_top + 1)
    s = random_seq(rng, n)
    per = n
    if rng.random() < 0.4:   # repeat the block, so that the period has to be reduced
        k = rng.choice([2, 2, 3, 4, 6])
        s = [x + i * n for i in range(k) for x in s]
        per = n * k
        if rng.random() < 0.3:  # almost a repetition
            i, j = rng.randrange(len(s)), rng.randrange(len(s))
            s[i], s[j] = s[j], s[i]
    if rng.random() < 0.2:
        per += rng.randrange(1, 4)
    return rng.choice(forms(s, rng, per))


def record_make(rec, d, tuples=False):
    p = Lazy(lambda: build(d, tuples))
    rec.event('make', d, {
        'perm': (p, perm),
        'neutral': (lambda: p().neutral, boolean),
        'length': (lambda: p().length, integer),
        'moved': (lambda: p().moved, iset),
        'mapping': (lambda: sorted(p().mapping.items()), listof(ints)),
        'cycles': (lambda: p().cycles, listof(ints)),
        'items': (lambda: [p()[i] for i in range(2 * p().length + 5)], ints),
        'printed': (lambda: str(p()), chars),
        'cycle_blocks': (lambda: p().cycle_partition, blocks),
        'sequence': (lambda: p().sequence(), ints),
    })


def attempt(thunk, encoder):
    """[] if rejected, otherwise a list of one value"""
    def run():
        try:
            x = thunk()
        except Exception:
            return []
        return [encoder(x)]
    return run, list


def record_sequence(rec, d, n):
    p = Lazy(lambda: build(d))
    rec.event('sequence', {'d': d, 'n': n}, {
        'sequence': attempt(lambda: p().sequence(n), ints),
        'cycles': attempt(lambda: p().cycles_dynamic(n), listof(ints)),
    })


def record_slice(rec, d, start, stop, step):
    rec.event('slice', {'d': d, 'start': start, 'stop': stop, 'step': step}, {
        'slice': (lambda: build(d)[start:stop:step], ints),
    })


def record_equal(rec, x, y):
    p, q = Lazy(lambda: build(x)), Lazy(lambda: build(y))
    rec.event('equal', {'x': x, 'y': y}, {
        'eq': (lambda: p() == q(), boolean),
        'ne': (lambda: p() != q(), boolean),
        'keys': (lambda: len({p(), q()}), integer),
    })


def small_seqs(top):
    for n in range(top + 1):
        yield from (list(s) for s in permutations(range(n)))


def p01(rec):
    rng = rec.rng
    for s in small_seqs(rec.pick(5, 6)):
        if rec.mine():
            for d in forms(s, rng):
                record_make(rec, d, tuples=rng.random() < 0.3)
            for per in sorted({len(s), len(s) + 1, len(s) + 2, 2 * len(s)} - {0, 1}):
                d = rng.choice(forms(s, rng, per))
                record_make(rec, d)
                record_sequence(rec, d, rng.choice([per, 2 * per, 3 * per, per + 1, 0]))
            for n in (len(s) - 1, len(s), len(s) + 3):
                if n >= 0:
                    record_sequence(rec, rng.choice(forms(s, rng)), n)
    # periods that can be reduced (exhaustive blocks, repeated)
    for s in small_seqs(rec.pick(3, 4)):
        for k in (1, 2, 3, 4, 6):
            if s and rec.mine():
                t = [x + i * len(s) for i in range(k) for x in s]
                if len(t) > 1:
                    for d in forms(t, rng, len(t)):
                        record_make(rec, d)
    for _ in range(rec.pick(250, 2500)):
        d = random_desc(rng, 24, per_top=12) if rng.random() < 0.95 else random_desc(rng, 130, per_top=40)
        record_make(rec, d)
        d = random_desc(rng, 12)
        record_sequence(rec, d, rng.choice([rng.randrange(40), (d['per'] or [8])[0] * rng.randrange(1, 4)]))
        d = random_desc(rng, 12)
        start = rng.randrange(12)
        record_slice(rec, d, start, start + rng.randrange(-2, 25), rng.choice([1, 1, 2, 3]))
    # equality of everything small with everything small
    rng2 = rec.shared
    pool = [rng2.choice(forms(s, rng2)) for s in small_seqs(4)]
    pool += [rng2.choice(forms(s, rng2, max(2, len(s) + rng2.randrange(2)))) for s in small_seqs(rec.pick(3, 4))]
    pool += [rng2.choice(forms([x + i * len(s) for i in range(2) for x in s], rng2, 2 * len(s))) for s in small_seqs(3) if s]
    for x in pool:
        for y in pool:
            if rec.mine():
                record_equal(rec, x, y)
    # what denotes no permutation, or has an unusable period
    for _ in range(rec.pick(250, 2000)):
        d = random_desc(rng, 6, per_top=5)
        if rng.random() < 0.7 and d['data']:
            d = {**d, 'data': spoil(d['kind'], d['data'], rng)}
        elif rng.random() < 0.8:
            d = {**d, 'per': [rng.randrange(-2, 9)]}
        rec.rejects('admit', d, lambda: build(d))
    if rec.mine():
        for thunk in [
            lambda: Perm('10'), lambda: Perm({1, 0}), lambda: Perm(7), lambda: Perm(['a', 'b']), lambda: Perm([(0, 1)]),
            lambda: Perm([1, 0], 2.5), lambda: Perm([1, 0], 'x'), lambda: Perm({0: 'a', 'a': 0}), lambda: Perm([0.5, 1.5]),
            lambda: Perm([[0, 'a']]), lambda: Perm([None, 0]), lambda: Perm([[0, 1], 2]), lambda: Perm([1, [0]]),
        ]:
            rec.rejects('admit', desc('malformed', []), thunk)


def spoil(kind, data, rng):
    if kind == 'seq':
        data = list(data)
        data[rng.randrange(len(data))] = rng.choice([-1, rng.randrange(8)])
        return data
    if kind == 'cycles':
        data = [list(c) for c in data]
        c = rng.choice(data)
        c[rng.randrange(len(c))] = rng.choice([-1, rng.randrange(8), rng.randrange(8)])
        return data
    data = [list(p) for p in data]
    i = rng.randrange(len(data))
    if rng.random() < 0.3:
        j = rng.choice([-1, -2])
        old = data[i][0]
        return [[j if x == old else x for x in p] for p in data]
    data[i][1] = rng.randrange(8)
    return data


def record_mul(rec, x, y):
    p, q = Lazy(lambda: build(x)), Lazy(lambda: build(y))
    prod = Lazy(lambda: p() * q())

    def twin():   # the product is the same object as one built from its own description
        t = prod()
        fresh = Perm([int(i) for i in t.sequence()], None if t.perilen is None else int(t.perilen))
        again = Perm(t.sequence(), t.perilen)
        return t == fresh and fresh == t and t == again and len({t, fresh, again}) == 1 and str(t) == str(fresh)

    rec.event('mul', {'x': x, 'y': y}, {
        'product': attempt(prod, perm),
        'after': (lambda: [perm(p()), perm(q())], list),
        'twin': attempt(twin, boolean),
    })


def record_power(rec, x, exponents):
    p = Lazy(lambda: build(x))
    rec.event('power', {'x': x, 'exponents': exponents}, {
        'inverse': (lambda: p().inverse, perm),
        'powers': (lambda: [p() ** k for k in exponents], listof(perm)),
        'order': (lambda: p().order, big),
    })


def record_apply(rec, x, y, v, typ):
    p, q = Lazy(lambda: build(x)), Lazy(lambda: build(y))
    vec = typ(v)

    def seq(x):
        if type(x) is not typ:
            raise Shape(f'{typ} expected: {x!r}')
        return ints(x)

    rec.event('apply', {'x': x, 'y': y, 'v': v}, {
        'first': (lambda: q().apply_on_vector(vec), seq),
        'both': (lambda: p().apply_on_vector(q().apply_on_vector(vec)), seq),
        'product': (lambda: (p() * q()).apply_on_vector(vec), seq),
        'back': (lambda: p().inverse.apply_on_vector(p().apply_on_vector(vec)), seq),
        'vector': (lambda: vec, seq),
    })


def p02(rec):
    rng = rec.rng
    rng2 = rec.shared
    finite = [rng2.choice(forms(s, rng2)) for s in small_seqs(4)]
    periodic = [rng2.choice(forms(s, rng2, max(2, len(s)))) for s in small_seqs(rec.pick(4, 4)) if s]
    if rec.quick:
        periodic = periodic[:9] + rng2.sample(periodic[9:], 12)
    for pool in (finite, periodic):
        for x in pool:
            for y in pool:
                if rec.mine():
                    record_mul(rec, x, y)
    for s in small_seqs(rec.pick(5, 6)):
        if rec.mine():
            record_power(rec, rng.choice(forms(s, rng)), [-3, -2, -1, 0, 1, 2, 3, 5])
            if len(s) > 1:
                record_power(rec, rng.choice(forms(s, rng, len(s))), [-2, -1, 0, 1, 2, 4])
    for _ in range(rec.pick(200, 1500)):
        kind = rng.choice(['finite', 'periodic'])
        top = 16 if rng.random() < 0.95 else 90
        x, y = random_desc(rng, top, kind), random_desc(rng, top, kind)
        record_mul(rec, x, y)
        if rng.random() < 0.3:
            record_mul(rec, random_desc(rng, 6), random_desc(rng, 6))
        record_power(rec, x, [rng.randrange(-6, 7), rng.randrange(-40, 41), rng.randrange(-300, 301)])
        if kind == 'finite':
            n = top + rng.randrange(6)
        else:
            n = lcm(x['per'][0], y['per'][0])
        if n <= 400:
            v = [rng.randrange(50) for _ in range(n)]
            record_apply(rec, x, y, v, rng.choice([list, tuple]))
    # orders far beyond machine integers
    primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]
    for k in rec.share(range(3, len(primes) + 1, rec.pick(3, 1))):
        cycles, base = [], 0
        for q in primes[-k:] if k % 2 else primes[:k]:
            cycles.append(list(range(base, base + q)))
            base += q
        record_power(rec, desc('cycles', cycles), [0, 1, -1])
    if rec.mine():
        cycles, base = [], 0
        for q in primes:
            cycles.append(list(range(base, base + q)))
            base += q
        record_power(rec, desc('cycles', cycles), [0, 1, -1])


def p03(rec):
    from discretehelpers.a import int_to_perm
    rng = rec.rng
    mod = 'discretehelpers.perm.a'
    lic, ric, invec, from_lic, from_ric, set_count, from_set = [rec.helper(mod, x) for x in (
        'left_inversion_count', 'right_inversion_count', 'inversion_vector', 'left_inversion_count_to_permutation',
        'right_inversion_count_to_permutation', 'inversion_set_to_count', 'inversion_set_to_permutation')]
    factoradic = rec.helper('discretehelpers.a', 'int_to_factoradic')
    enumeration = rec.helper('discretehelpers.a', 'rev_colex_perms')
    coset = rec.helper('discretehelpers.a', 'schoute_coset_gen')

    def record_rank(s):
        p = Lazy(lambda: Perm(list(s)))
        rec.event('rank', {'seq': s}, {
            'left': (lambda: p().left_rank, big),
            'right': (lambda: p().right_rank, big),
            'from_left': (lambda: int_to_perm(p().left_rank), perm),
            'parity': (lambda: p().parity, integer),
            'inversions': (lambda: sorted(p().inversion_set), listof(ints)),
        })

    def record_counts(s):
        if not all([lic, ric, invec, from_lic, from_ric, set_count, from_set]):
            return
        p = Lazy(lambda: Perm(list(s)))
        pairs = Lazy(lambda: p().inversion_set)
        rec.event('counts', {'seq': s}, {
            'lic': (lambda: lic(list(s)), ints),
            'ric': (lambda: ric(list(s)), ints),
            'invec': (lambda: invec(list(s)), ints),
            'from_lic': (lambda: from_lic(lic(list(s))), ints),
            'from_ric': (lambda: from_ric(ric(list(s))), ints),
            'from_set': (lambda: from_set(pairs()), ints),
            'set_left': (lambda: set_count(pairs()), ints),
            'set_right': (lambda: set_count(pairs(), variant_left=False), ints),
        })

    def record_number(n):
        if factoradic is None:
            return
        rec.event('number', {'n': int_bits(n)}, {
            'digits': (lambda: factoradic(n), ints),
            'perm': (lambda: int_to_perm(n), perm),
            'back': (lambda: int_to_perm(n).left_rank, big),
        })

    for s in small_seqs(rec.pick(6, 7)):
        if rec.mine():
            record_rank(s)
            record_counts(s)
            if len(s) <= rec.pick(4, 5):
                rec.event('schoute', {'seq': s}, {'schoute': (lambda: Perm(list(s)).schoute_perm, perm)})
    def record_coset(n, key, val):
        rec.event('coset', {'n': n, 'key': key, 'val': val}, {
            'ranks': (lambda: list(coset(key, val, n)), listof(big))})

    for n in rec.share(range(rec.pick(800, 6000))):
        record_number(n)
    for _ in range(rec.pick(60, 500)):
        s = random_seq(rng, rng.randrange(7, 26) if rng.random() < 0.95 else rng.randrange(26, 60))
        record_rank(s)
        record_counts(s)
        record_number(rng.randrange(10 ** rng.randrange(3, 40)))
    if enumeration is not None:
        for n in rec.share(range(rec.pick(6, 7))):
            rec.event('enumeration', {'n': n}, {'perms': (lambda: enumeration(n), listof(ints))})
    if coset is not None:
        for n in range(1, rec.pick(5, 6)):
            for key in range(2 ** n):
                for val in range(2 ** n):
                    if bin(key).count('1') == bin(val).count('1') and rec.mine():
                        record_coset(n, key, val)
        for _ in range(rec.pick(3, 30)):
            n = rng.choice([5, 5, 6])
            key = rng.randrange(2 ** n)
            val = sum(2 ** i for i in rng.sample(range(n), bin(key).count('1')))
            record_coset(n, key, val)
