"""recordings of Boolf: construction, tables, algebra, substitution, transforms"""
from itertools import product

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.perm import Perm
from discretehelpers.sig_perm import SigPerm

from rec import Lazy, Shape, big, bit, bits, boolean, fract, ints, integer, iset, listof
from rec_binv import int_bits


def fn(f):
    """a Boolean function by its arguments and its truth table"""
    if not isinstance(f, Boolf):
        raise Shape(f'Boolean function expected: {f!r}')
    return {'at': ints(f.atomvals), 'tt': bits(f.root)}


# ---------------------------------------------------------------- functions to try

def tables(n):
    return (list(t) for t in product([0, 1], repeat=2 ** n))


def random_table(rng, n):
    """truth tables of different character"""
    size = 2 ** n
    kind = rng.randrange(9)
    if kind <= 2 or n == 0:
        return [rng.randrange(2) for _ in range(size)]
    if kind == 3:  # sparse
        t = [0] * size
        for _ in range(rng.randrange(1, 4)):
            t[rng.randrange(size)] = 1
        return t
    if kind == 4:  # dense
        t = [1] * size
        for _ in range(rng.randrange(1, 4)):
            t[rng.randrange(size)] = 0
        return t
    if kind == 5:  # linear
        mask, odd = rng.randrange(size), rng.randrange(2)
        return [(bin(k & mask).count('1') + odd) % 2 for k in range(size)]
    if kind == 6:  # symmetric
        v = [rng.randrange(2) for _ in range(n + 1)]
        return [v[bin(k).count('1')] for k in range(size)]
    if kind == 7:  # some arguments without influence
        mask = rng.randrange(size)
        base = [rng.randrange(2) for _ in range(size)]
        return [base[k & mask] for k in range(size)]
    # some arguments equal, complementary or constant on the true places
    base = [rng.randrange(2) for _ in range(size)]
    t = list(base)
    for _ in range(rng.randrange(1, 3)):
        i, j, e = rng.randrange(n), rng.randrange(n), rng.randrange(2)
        for k in range(size):
            if i == j:
                if k >> i & 1 != e:
                    t[k] = 0
            elif (k >> i & 1) ^ (k >> j & 1) != e:
                t[k] = 0
    return t


def random_atoms(rng, n, top=None):
    top = top or rng.choice([n + 1, n + 2, 2 * n + 2])
    top = max(top, n)
    at = rng.sample(range(top), n)
    if rng.random() < 0.5:
        at.sort()
    return at


def random_fn(rng, most, least=0, top=None):
    n = rng.randrange(least, most + 1)
    return {'at': random_atoms(rng, n, top), 'tt': random_table(rng, n)}


def make(x):
    return Boolf(list(x['tt']), list(x['at']))


def lazy(x):
    return Lazy(lambda: make(x))


def small_fns(rec, most, rng=None):
    """every truth table with up to `most` arguments, with changing arguments"""
    rng = rng or rec.rng
    for n in range(most + 1):
        for t in tables(n):
            if rec.mine():
                yield {'at': list(range(n)), 'tt': t}
                yield {'at': random_atoms(rng, n), 'tt': t}


def by_ranks(k, at):
    """where a table with arguments listed as `at` has place k of the table with ascending arguments"""
    asc = sorted(at)
    return sum((k >> m & 1) << asc.index(a) for m, a in enumerate(at))


def ascending(x):
    """the same function with ascending arguments (only used to choose further inputs)"""
    n = len(x['at'])
    return {'at': sorted(x['at']), 'tt': [x['tt'][by_ranks(k, x['at'])] for k in range(2 ** n)]}


def shuffled(x, rng):
    """the same function with arguments in another order"""
    x = ascending(x)
    n = len(x['at'])
    at = rng.sample(x['at'], n)
    t = [0] * 2 ** n
    for k in range(2 ** n):
        t[by_ranks(k, at)] = x['tt'][k]
    return {'at': at, 'tt': t}


def reduced_atoms(x):
    """arguments with influence (only used to choose further inputs)"""
    x = ascending(x)
    n = len(x['at'])
    return sorted(
        x['at'][i] for i in range(n)
        if any(x['tt'][k] != x['tt'][k ^ (1 << i)] for k in range(2 ** n)))


# ---------------------------------------------------------------- F01

def desc(kind, **kw):
    d = dict(kind=kind, bits=[], at=[], n=[], arity=[], set=[], lit=0, items=[], ws=[], form=0)
    d.update(kw)
    return d


def walsh(t):
    if len(t) == 1:
        return list(t)
    h = len(t) // 2
    a, b = t[:h], t[h:]
    return walsh([x + y for x, y in zip(a, b)]) + walsh([x - y for x, y in zip(a, b)])


def zhegalkin(t):
    if len(t) == 1:
        return list(t)
    h = len(t) // 2
    a, b = zhegalkin(t[:h]), zhegalkin(t[h:])
    return a + [x ^ y for x, y in zip(a, b)]


def number(b):
    return sum(1 << i for i, x in enumerate(b) if x)


def build(d):
    kind, form = d['kind'], d['form']
    kw = {}
    if d['at']:
        kw['atomvals'] = [list, tuple][form % 2](d['at'][0])
    if d['arity']:
        kw['arity'] = d['arity'][0]
    if kind == 'table':
        t = d['bits']
        string = ''.join(str(x) for x in t)
        spaced = ' '.join(string[i:i + 4] for i in range(0, len(string), 4))
        value = [list(t), tuple(t), string, spaced, Binv(list(t)) if set(t) <= {0, 1} else None, [bool(x) for x in t]][form % 6]
        return Boolf(value, **kw)
    if kind == 'number':
        return Boolf(number(d['n']), **kw)
    if kind == 'spots':
        return Boolf(fullspots=[list, set, tuple][form % 3](d['set']), **kw)
    if kind == 'literal':
        return Boolf(atom=d['lit'])
    if kind in ('and', 'or', 'xor', 'xand'):
        items = [x['lit'][0] if x['lit'] else make(x['fn']) for x in d['items']]
        return Boolf(**{'multi_' + kind: [list, tuple][form % 2](items)})
    if kind == 'zhe':
        return Boolf(zhe=number(d['n']))
    if kind == 'walsh':
        return Boolf(walsh_spectrum=[list, tuple][form % 2](d['ws']))
    raise AssertionError(kind)


def descriptions(x, rng):
    """different ways to write the function of a table"""
    y = shuffled(x, rng)
    n, t, at = len(y['at']), y['tt'], y['at']
    result = [desc('table', bits=x['tt'], at=[x['at']], form=rng.randrange(6)),
              desc('table', bits=t, at=[at], form=rng.randrange(6))]
    result.append(desc('number', n=int_bits(number(t)), at=[at], arity=[n], form=rng.randrange(2)))
    spots = [k for k in range(2 ** n) if t[k]]
    rng.shuffle(spots)
    result.append(desc('spots', set=spots, at=[at], form=rng.randrange(6)))
    x = ascending(x)
    t, at = x['tt'], x['at']
    spots = [k for k in range(2 ** n) if t[k]]
    if 1 <= len(spots) <= 4:
        terms = []
        for k in spots:
            term = Boolf(multi_and=[at[i] if k >> i & 1 else ~at[i] for i in range(n)])
            terms.append({'lit': [], 'fn': fn(term)})
        result.append(desc(rng.choice(['or', 'xor']), items=terms, form=rng.randrange(2)))
    if at == list(range(n)):
        result.append(desc('table', bits=t, form=rng.randrange(6)))
        result.append(desc('number', n=int_bits(number(t)), arity=[n]))
        more = n + rng.randrange(2)
        result.append(desc('table', bits=t * 2 ** (more - n), form=rng.randrange(6)))
        result.append(desc('spots', set=spots, arity=[n], form=rng.randrange(3)))
        result.append(desc('zhe', n=int_bits(number(zhegalkin(t)))))
        result.append(desc('walsh', ws=walsh(t * 2 ** (more - n)), form=rng.randrange(2)))
    return result


def record_make(rec, d):
    f = Lazy(lambda: build(d))
    rec.event('make', d, {
        'fn': (f, fn),
        'valency': (lambda: f().valency, integer),
        'adicity': (lambda: f().adicity, integer),
        'constant': (lambda: f().is_constant, boolean),
        'is_root': (lambda: f().is_root, boolean),
        'root': (lambda: f().root_boolf, fn),
        'spread': (lambda: f().spread_vector, ints),
        'inflated': (lambda: f().is_inflated, boolean),
        'printed': (lambda: eval([str, repr][f().valency % 2](f()), {'Boolf': Boolf}), fn),
    })


def record_same(rec, d, e):
    f, g = Lazy(lambda: build(d)), Lazy(lambda: build(e))
    rec.event('same', {'x': d, 'y': e}, {
        'eq': (lambda: [f() == g(), g() == f()], listof(boolean)),
        'ne': (lambda: f() != g(), boolean),
        'hash_equal': (lambda: hash(f()) == hash(g()), boolean),
        'keys': (lambda: len({f(), g(), build(e)}), integer),
        'order': (lambda: [f() < g(), f() > g()], bits),
        'weak': (lambda: [f() <= g(), f() >= g()], bits),
        'after': (lambda: [f(), g()], listof(fn)),
    })


def f01(rec):
    rng = rec.rng
    for x in small_fns(rec, 3):
        ways = descriptions(x, rng)
        for d in ways:
            record_make(rec, d)
        for _ in range(2):
            record_same(rec, rng.choice(ways), rng.choice(ways))
    # pairs of functions, all of them for two arguments
    for t in tables(2):
        for u in tables(2):
            if rec.mine():
                at, bt = random_atoms(rng, 2, 3), random_atoms(rng, 2, 3)
                record_same(rec, desc('table', bits=t, at=[at]), desc('table', bits=u, at=[bt], form=rng.randrange(6)))
                record_same(rec, desc('table', bits=t), desc('table', bits=u))
    for _ in range(rec.pick(250, 1500)):
        x = random_fn(rng, rng.choice([4, 5, 6, 7] if rng.random() < 0.985 else [8, 9]), 3)
        ways = descriptions(x, rng)
        for d in rng.sample(ways, 3):
            record_make(rec, d)
        record_same(rec, rng.choice(ways), rng.choice(ways))
        y = dict(x, tt=list(x['tt']))
        k = rng.randrange(len(y['tt']))
        y['tt'][k] ^= 1
        record_same(rec, rng.choice(ways), rng.choice(descriptions(y, rng)))
        z = dict(x, at=random_atoms(rng, len(x['at'])))
        record_same(rec, rng.choice(ways), rng.choice(descriptions(z, rng)))
    if not rec.quick:  # every function of four arguments
        for t in tables(4):
            if rec.mine():
                record_make(rec, desc('table', bits=t, at=[random_atoms(rng, 4)], form=rng.randrange(6)))
    for k in list(range(-40, 40)) + [100, -1000, 2 ** 20]:
        if rec.mine():
            record_make(rec, desc('literal', lit=k))
    for _ in range(rec.pick(60, 400)):
        items = []
        for _ in range(rng.randrange(6)):
            if rng.random() < 0.5:
                items.append({'lit': [rng.randrange(-6, 6)], 'fn': {'at': [], 'tt': [0]}})
            else:
                f = make(random_fn(rng, 3, 0, 6))
                items.append({'lit': [], 'fn': fn(f)})
        for kind in ('and', 'or', 'xor', 'xand'):
            record_make(rec, desc(kind, items=items, form=rng.randrange(2)))
    for n in list(range(2 ** 10)) + [rng.randrange(2 ** rng.randrange(1, 65)) for _ in range(rec.pick(300, 3000))]:
        if rec.mine():
            record_make(rec, desc('zhe', n=int_bits(n)))
    for e in range(65):
        for delta in (-1, 0, 1):
            if 2 ** e + delta >= 0 and rec.mine():
                record_make(rec, desc('zhe', n=int_bits(2 ** e + delta)))
    f01_rejections(rec)


def f01_rejections(rec):
    rng = rec.rng

    def admit(d):
        rec.rejects('admit', d, lambda: build(d))
    for length in range(0, 20):
        for t in ([0] * length, [1] * length, [rng.randrange(2) for _ in range(length)]):
            if not rec.mine():
                continue
            for form in range(4):
                admit(desc('table', bits=t, form=form))
            for m in range(5):
                admit(desc('table', bits=t, at=[random_atoms(rng, m)]))
    for _ in range(rec.pick(60, 500)):
        n = rng.randrange(0, 4)
        t = random_table(rng, n)
        at = [rng.randrange(-1, 5) for _ in range(n)]
        spots = [k for k in range(2 ** n) if t[k]]
        admit(desc('table', bits=t, at=[at], form=rng.randrange(6)))
        admit(desc('number', n=int_bits(number(t)), at=[at], arity=[n]))
        admit(desc('spots', set=spots, at=[at], form=rng.randrange(6)))
        admit(desc('spots', set=spots + [rng.randrange(-2, 2 ** n + 2)], at=[at]))
        arity = rng.randrange(4)
        admit(desc('spots', set=spots, arity=[arity], form=rng.randrange(3)))
        admit(desc('number', n=int_bits(number(t)), arity=[arity]))
        admit(desc('number', n=int_bits(2 ** 2 ** n), arity=[n]))
        admit(desc('number', n=int_bits(2 ** 2 ** n - 1), arity=[n]))
        if t:
            bad = list(t)
            bad[rng.randrange(len(bad))] = rng.choice([2, -1, 7])
            admit(desc('table', bits=bad, form=rng.choice([0, 1])))
        ws = walsh(t)
        admit(desc('walsh', ws=ws))
        ws[rng.randrange(len(ws))] += rng.choice([-2, -1, 1, 2])
        admit(desc('walsh', ws=ws))
        admit(desc('walsh', ws=ws[:rng.randrange(len(ws))]))
    admit(desc('spots', set=[1, 2]))
    admit(desc('spots', set=[1, 2], at=[[0, 1]], arity=[2]))
    if rec.mine():
        for thunk in MALFORMED:
            rec.rejects('admit', desc('malformed'), thunk)


MALFORMED = [
    lambda: Boolf(),
    lambda: Boolf(5),
    lambda: Boolf(3.5, arity=2),
    lambda: Boolf(-1, arity=2),
    lambda: Boolf({0, 1}),
    lambda: Boolf('01x0'),
    lambda: Boolf(True, [0]),
    lambda: Boolf(False, arity=1),
    lambda: Boolf(atom='1'),
    lambda: Boolf(atom=1.5),
    lambda: Boolf('01', atom=3),
    lambda: Boolf('01', zhe=3),
    lambda: Boolf(zhe=3, atom=1),
    lambda: Boolf(zhe=-1),
    lambda: Boolf(zhe=1.5),
    lambda: Boolf(walsh_spectrum=[1, -1], zhe=2),
    lambda: Boolf(multi_and=[1], multi_or=[2]),
    lambda: Boolf(multi_and=['x']),
    lambda: Boolf(multi_xor=[1.5]),
    lambda: Boolf(atomvals=[1, 2]),
    lambda: Boolf(arity=2),
]


# ---------------------------------------------------------------- F02

def pairs_of(d):
    return [[integer(k), ints(v)] for k, v in sorted(d.items())]


def record_table(rec, x, n, at, keys):
    rng = rec.rng
    f = lazy(x)
    form = rng.choice([list, tuple, set])

    def value():
        return fract(f().value_fract()) if f().adicity <= 5 else []

    def wfract():
        w = f().weight_fract
        return [w.numerator, w.denominator]

    rec.event('table', {'f': x, 'n': n, 'at': at, 'keys': keys}, {
        'tt': (lambda: f().tt(n), bits),
        'own': (lambda: f().tt(), bits),
        'over': (lambda: f().tt(form(at)), bits),
        'digits': (lambda: [f()[sum(1 << k for k in ks)] for ks in keys], bits),
        'inflated': (lambda: f().inflated_fullspots(form(at)), iset),
        'spots': (lambda: f().fullspots, iset),
        'spot_atoms': (lambda: f().fullspot_atoms, pairs_of),
        'by_weight': (lambda: f().fullspots_by_weight, lambda d: [[integer(w), pairs_of(v)] for w, v in sorted(d.items())]),
        'layered_spots': (lambda: f().layered_fullspots, listof(ints)),
        'weights': (lambda: f().fullspot_weights, ints),
        'layered_tt': (lambda: f().layered_tt, listof(bits)),
        'layered_weight': (lambda: f().layered_weight, ints),
        'weight_fract': (wfract, ints),
        'value_fract': (value, list),
        'complement': (lambda: f().complement, fn),
        'reverse': (lambda: f().reverse, fn),
        'root': (lambda: f().root_boolf, fn),
        'spread': (lambda: f().spread_vector, ints),
        'atoms_int': (lambda: f().atomvals_integer, big),
        'sierpinski': (lambda: f().atomvals_sierpinski, listof(big)),
        'rebuilt': (lambda: [Boolf(f().tt(n)), Boolf(f().tt(form(at)), sorted(set(at))), Boolf(f().tt())], listof(fn)),
    })


def superset(rng, own, more):
    others = [a for a in range((max(own) if own else 0) + 3) if a not in own]
    at = list(own) + rng.sample(others, min(more, len(others)))
    rng.shuffle(at)
    return at


def f02(rec):
    rng = rec.rng

    def one(x):
        own = reduced_atoms(x)
        adicity = max(own) + 1 if own else 0
        n = adicity + rng.randrange(3)
        at = superset(rng, own, rng.randrange(3))
        keys = [[a for a in range(adicity + 3) if rng.random() < 0.5] for _ in range(4)]
        record_table(rec, x, n, at, keys)
    for x in small_fns(rec, 3):
        one(x)
    for _ in range(rec.pick(160, 1200)):
        one(random_fn(rng, rng.choice([4, 4, 5, 6]), 3, rng.choice([7, 8])) if rng.random() < 0.985 else random_fn(rng, 8, 7, 9))
    if not rec.quick:
        for t in tables(4):
            if rec.mine() and rng.random() < 0.15:
                one({'at': [0, 1, 2, 3], 'tt': t})
    # digits far beyond any table
    for _ in range(rec.pick(40, 300)):
        k = rng.randrange(1, 4)
        top = rng.choice([12, 40, 70, 200])
        x = {'at': rng.sample(range(top), k), 'tt': random_table(rng, k)}
        own = reduced_atoms(x)
        at = superset(rng, own, rng.choice([0, 1, 2, 7]))
        f = lazy(x)
        keys = [[a for a in range(top + 3) if rng.random() < 0.5] for _ in range(6)]
        rec.event('far', {'f': x, 'at': at, 'keys': keys}, {
            'over': (lambda: f().tt(at), bits),
            'digits': (lambda: [f()[sum(1 << k for k in ks)] for ks in keys], bits),
            'atoms_int': (lambda: f().atomvals_integer, big),
            'sierpinski': (lambda: f().atomvals_sierpinski, listof(big)),
        })
    for _ in range(rec.pick(60, 400)):
        x = random_fn(rng, 4, 1, 6)
        f = lazy(x)
        n = rng.randrange(7)
        rec.rejects('too small', {'f': x, 'n': n, 'at': []}, lambda: f().tt(n))
        at = [a for a in range(6) if rng.random() < 0.7]
        rec.rejects('too small', {'f': x, 'n': 0, 'at': [at]}, lambda: f().tt(at))


# ---------------------------------------------------------------- F03

def record_pair(rec, x, y):
    f, g = lazy(x), lazy(y)
    rec.event('pair', {'x': x, 'y': y}, {
        'conj': (lambda: [f() & g(), g() & f()], listof(fn)),
        'disj': (lambda: [f() | g(), g() | f()], listof(fn)),
        'xor': (lambda: [f() ^ g(), g() ^ f()], listof(fn)),
        'inv': (lambda: ~f(), fn),
        'le': (lambda: f().bitwise_le(g()), boolean),
        'ge': (lambda: f().bitwise_ge(g()), boolean),
        'lt': (lambda: f().bitwise_lt(g()), boolean),
        'gt': (lambda: f().bitwise_gt(g()), boolean),
        'after': (lambda: [f(), g()], listof(fn)),
    })


def f03(rec):
    rng = rec.rng
    # all pairs of functions of two arguments, over equal, overlapping and disjoint arguments
    for t in tables(2):
        for u in tables(2):
            for at, bt in (([0, 1], [0, 1]), ([0, 1], [1, 2]), ([0, 2], [1, 3]), ([1, 4], [2, 0])):
                if rec.mine():
                    record_pair(rec, {'at': at, 'tt': t}, {'at': bt, 'tt': u})
    # all pairs of functions of three arguments in the thorough run
    for t in tables(3):
        for u in tables(3):
            if rec.mine() and rng.random() < rec.pick(0.03, 0.4):
                record_pair(rec, {'at': [0, 1, 2], 'tt': t}, {'at': random_atoms(rng, 3, 4), 'tt': u})
    for _ in range(rec.pick(200, 2000)):
        x, y = random_fn(rng, 5, 0, 8), random_fn(rng, 4, 0, 8)
        record_pair(rec, x, y)
        # comparable pairs
        y = dict(x, tt=[a & rng.randrange(2) if rng.random() < 0.3 else a for a in x['tt']])
        record_pair(rec, x, y)
        record_pair(rec, y, x)
    for _ in range(rec.pick(20, 150)):
        record_pair(rec, random_fn(rng, 4, 3, 7), random_fn(rng, 7, 6, 8))
    for _ in range(rec.pick(1, 10)):
        record_pair(rec, random_fn(rng, 8, 6, 10), random_fn(rng, 9, 7, 10))


# ---------------------------------------------------------------- F04

def random_signed(rng, n):
    s = rng.sample(range(n), n)
    return [x if rng.random() < 0.5 else ~x for x in s]


def record_apply(rec, x, lits):
    f = lazy(x)
    keys = sorted({l if l >= 0 else ~l for l in lits})
    places = [keys.index(l) if l >= 0 else ~keys.index(~l) for l in lits]
    rec.event('apply', {'f': x, 'lits': lits}, {
        'fn': (lambda: f().apply(*lits), fn),
        'tt': (lambda: f().vals(*places), bits),
        'after': (f, fn),
    })


def record_act(rec, x, s, t):
    f = lazy(x)
    n = max([len(s)] + [a + 1 for a in reduced_atoms(x)])
    S, T = Lazy(lambda: SigPerm(sequence=s)), Lazy(lambda: SigPerm(sequence=t))
    unsigned = all(a >= 0 for a in s)
    full = s + list(range(len(s), n))
    mask = rec.rng.randrange(2 ** n)
    neg = [~i if mask >> i & 1 else i for i in range(n)]
    perm_tt = rec.helper('discretehelpers.boolf.a', 'mod_tt_perm')
    neg_tt = rec.helper('discretehelpers.boolf.a', 'mod_tt_neg')
    colors = rec.helper('discretehelpers.boolf.a', 'apply_sigperm_to_colors')

    def forms():
        result = [f().apply_sigperm(list(s)), f().apply_sigperm(tuple(s))]
        if unsigned:
            result.append(f().apply_sigperm(Perm(s)))
        return result

    def coloring():
        table = f().tt(n)
        given = {'a': sorted(table.exposet), 'b': sorted((~table).exposet)}
        result = colors({k: v for k, v in given.items() if v}, n, full if rec.rng.random() < 0.5 else S())
        return [sorted(result.get('a', [])), sorted(result.get('b', []))]
    rec.event('act', {'f': x, 's': full, 't': t}, {
        'fn': (lambda: f().apply_sigperm(S()), fn),
        'forms': (forms, listof(fn)),
        'then': (lambda: f().apply_sigperm(S()).apply_sigperm(T()), fn),
        'product': (lambda: f().apply_sigperm(T() * S()), fn),
        'undone': (lambda: f().apply_sigperm(S()).apply_sigperm(S().inverse), fn),
    })
    if perm_tt and unsigned:
        rec.event('permute table', {'f': x, 's': full, 'n': n}, {'tt': (lambda: perm_tt(f().tt(n), full), bits)})
    if neg_tt:
        ways = mask, [mask >> i & 1 for i in range(n)], Binv(intval=mask, length=n)
        rec.event('negate in table', {'f': x, 's': neg, 'n': n}, {
            'tt': (lambda: [neg_tt(f().tt(n), m) for m in ways], listof(bits))})
    if colors:
        rec.event('colors', {'f': x, 's': full, 'n': n}, {'places': (coloring, listof(ints))})


def record_val(rec, x, number_of_columns):
    rng = rec.rng
    f = lazy(x)
    k = len(reduced_atoms(x))
    cols = [[rng.randrange(2) for _ in range(k)] for _ in range(number_of_columns)]
    rows = [[c[i] for c in cols] for i in range(k)]
    rec.event('val', {'f': x, 'cols': cols}, {
        'single': (lambda: [f().val(*[rng.choice([v, bool(v)]) for v in c]) for c in cols], bits),
        'list': (lambda: f().val(*rows) if rows else [f().val() for c in cols], bits),
        'vectors': (lambda: f().val(*[Binv(r) for r in rows]) if rows else [f().val() for c in cols], bits),
    })


def f04(rec):
    rng = rec.rng
    for x in small_fns(rec, 3):
        k = len(reduced_atoms(x))
        for _ in range(rec.pick(2, 6)):
            at = random_atoms(rng, k, k + rng.randrange(4))
            record_apply(rec, x, [a if rng.random() < 0.5 else ~a for a in at])
            n = (max(reduced_atoms(x)) + 1 if k else 0)
            if n <= 5:
                s = random_signed(rng, rng.randrange(1, max(2, n + 2)))
                if rng.random() < 0.3:
                    s = [a if a >= 0 else ~a for a in s]
                record_act(rec, x, s, random_signed(rng, rng.randrange(1, max(2, n + 2))))
        record_val(rec, x, 8)
        lits = [rng.randrange(-4, 4) for _ in range(max(0, k + rng.randrange(-1, 2)))]
        f = lazy(x)
        rec.rejects('apply?', {'f': x, 'lits': lits}, lambda: f().apply(*lits))
        n = len(reduced_atoms(x))
        places = [rng.randrange(-n, n) for _ in range(n)]
        rec.rejects('apply?', {'f': x, 'lits': places}, lambda: f().vals(*places))
    # all signed permutations of the functions of two arguments
    for t in tables(2):
        for s in product(range(-2, 2), repeat=2):
            if len({a if a >= 0 else ~a for a in s}) == 2 and rec.mine():
                record_act(rec, {'at': [0, 1], 'tt': t}, list(s), random_signed(rng, 2))
                record_act(rec, {'at': [0, 1], 'tt': t}, list(s), random_signed(rng, 3))
    for _ in range(rec.pick(80, 600)):
        x = random_fn(rng, 5, 3, 6) if rng.random() < 0.97 else random_fn(rng, 7, 6, 7)
        k = len(reduced_atoms(x))
        at = rng.sample(range(rng.choice([k, k + 2, 40])), k)
        record_apply(rec, x, [a if rng.random() < 0.5 else ~a for a in at])
        record_act(rec, x, random_signed(rng, rng.randrange(1, 7)), random_signed(rng, rng.randrange(1, 7)))
        record_val(rec, x, 20)
    spread = rec.helper('discretehelpers.boolf.a', 'spread_sigperm_to_sigvar')
    if spread:
        for _ in range(rec.pick(40, 200)):
            n = rng.randrange(1, 7)
            s = random_signed(rng, n)
            v = sorted(rng.randrange(8) for _ in range(n))
            rec.event('spread', {'s': s, 'spread': v}, {'lits': (lambda: spread(s, v), ints)})


# ---------------------------------------------------------------- F05

def record_zhe(rec, x, n):
    f = lazy(x)
    twin_int = rec.helper('discretehelpers.boolf.a', 'twin_int')
    vector = rec.helper('discretehelpers.boolf.a', 'vector_to_twin_gen')
    exposet = rec.helper('discretehelpers.boolf.a', 'exposet_to_twin_gen')
    rec.event('zhe', {'f': x, 'n': n}, {
        'zhe': (lambda: f().zhe, big),
        'twin': (lambda: f().twin(n), fn),
        'own_twin': (lambda: f().twin(), fn),
        'again': (lambda: f().twin(n).twin(n), fn),
        'of_zhe': (lambda: Boolf(zhe=f().zhe), fn),
    })
    t = random_table(rec.rng, n)
    if twin_int:
        rec.event('zhe of table', {'tt': t, 'form': 'int'}, {'twin': (lambda: twin_int(number(t), n), big)})
    if vector:
        way = rec.rng.choice([t, Binv(t), ''.join(str(b) for b in t)])
        rec.event('zhe of table', {'tt': t, 'form': 'vector'}, {'twin': (lambda: vector(way, n), bits)})
    if exposet:
        rec.event('zhe of table', {'tt': t, 'form': 'set'}, {
            'twin': (lambda: exposet({k for k, b in enumerate(t) if b}, n), iset)})


def f05(rec):
    rng = rec.rng
    for x in small_fns(rec, 3):
        own = reduced_atoms(x)
        adicity = max(own) + 1 if own else 0
        record_zhe(rec, x, adicity + rng.randrange(3))
    for _ in range(rec.pick(120, 1000)):
        x = random_fn(rng, rng.choice([4, 5, 6]), 3, rng.choice([6, 7])) if rng.random() < 0.985 else random_fn(rng, 8, 7, 9)
        own = reduced_atoms(x)
        record_zhe(rec, x, (max(own) + 1 if own else 0) + rng.randrange(2))
    if not rec.quick:
        for t in tables(4):
            if rec.mine() and rng.random() < 0.3:
                record_zhe(rec, {'at': [0, 1, 2, 3], 'tt': t}, 4)
    sierpinski = rec.helper('discretehelpers.boolf.a', 'sierpinski_twin')
    partition = rec.helper('discretehelpers.boolf.a', 'sierpinski_partition')
    atom_partition = rec.helper('discretehelpers.boolf.a', 'atom_partition')
    for n in range(1, rec.pick(5, 7)):
        for index in range(2 ** n):
            if not rec.mine():
                continue
            m = n - bin(index).count('1')
            if sierpinski:
                for _ in range(3):
                    small = random_table(rng, m)
                    form = rng.choice([small, ''.join(str(b) for b in small)])
                    rec.event('sierpinski', {'small': small, 'index': index, 'n': n}, {
                        'twin': (lambda: sierpinski(form, index, n), bits)})
            if partition:
                rec.event('partition', {'index': index, 'n': n}, {
                    'blocks': (lambda: partition(index, n).blocks, listof(iset))})
        for i in range(n):
            if atom_partition and rec.mine():
                rec.event('partition', {'index': 1 << i, 'n': n}, {
                    'blocks': (lambda: atom_partition(i, n).blocks, listof(iset))})
    arity = rec.helper('discretehelpers.boolf.a', 'intval_to_arity')
    length = rec.helper('discretehelpers.boolf.a', 'intval_to_tt_length')
    numbers = list(range(300)) + [2 ** e + d for e in range(300) for d in (-1, 0, 1) if 2 ** e + d >= 0]
    numbers += [2 ** e + d for e in (511, 512, 513, 1023, 1024) for d in (-1, 0, 1)]
    if arity and length:
        for z in rec.share(numbers):
            rec.event('arity', {'z': int_bits(z)}, {
                'arity': (lambda: arity(z), integer), 'length': (lambda: length(z), integer)})
