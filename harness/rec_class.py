"""recordings of Boolf: families, factions and clans, their representatives, symmetries"""
from rec import Lazy, Shape, big, boolean, ints, integer, listof
from rec_boolf import ascending, fn, lazy, random_atoms, random_fn, random_signed, random_table, reduced_atoms, tables


def element(e):
    """number or tuple of numbers"""
    return [integer(x) for x in e] if isinstance(e, (tuple, list)) else [integer(e)]


def elements(xs):
    return sorted(element(x) for x in xs)


def adicity(x):
    own = reduced_atoms(x)
    return max(own) + 1 if own else 0


def small_fns(rec, most, top):
    """every truth table with up to `most` arguments, over the first arguments and over others below `top`"""
    for n in range(most + 1):
        for t in tables(n):
            if rec.mine():
                yield {'at': list(range(n)), 'tt': t}
                yield {'at': random_atoms(rec.rng, n, top), 'tt': t}


def partition(part):
    """views of a partition with functions as labels"""
    return {
        'labels': (lambda: [[elements(block), fn(label)] for block, label in dict(part().block_labels).items()], list),
        'blocks': (lambda: part().blocks_with_singletons(), listof(elements)),
        'domain': (lambda: part().domain, elements),
    }


def bigs(xs):
    return [big(x) for x in xs]


def keyed(encode):
    return lambda d: [[big(k), encode(v)] for k, v in d.items()]


def paired(encode):
    return lambda d: [[big(k[0]), big(k[1]), encode(v)] for k, v in d.items()]


def big_set(xs):
    """in ascending order"""
    if len(set(xs)) != len(xs):
        raise Shape(f'duplicates: {xs!r}')
    return bigs(sorted(xs))


# ---------------------------------------------------------------- F08

def record_family(rec, x):
    f = lazy(x)
    rec.event('family', {'f': x}, partition(Lazy(lambda: f().ec_family())))
    rec.event('splinters', {'f': x}, {'splinters': (lambda: f().ec_family_splinters(), keyed(bigs))})


def record_faction(rec, x, n, full):
    f = lazy(x)
    args = [] if n is None else [n]
    kwargs = {'suppress_abbreviation': True} if full else {}
    rec.event('faction', {'f': x, 'n': args, 'full': full}, partition(Lazy(lambda: f().ec_faction(*args, **kwargs))))


def record_clan(rec, x, n, full):
    f = lazy(x)
    args = [] if n is None else [n]
    kwargs = {'suppress_abbreviation': True} if full else {}
    rec.event('clan', {'f': x, 'n': args, 'full': full}, partition(Lazy(lambda: f().ec_clan(*args, **kwargs))))


def record_parts(rec, x):
    f = lazy(x)
    parts = Lazy(lambda: f().ec_clan_partitioned())
    rec.event('parted', {'f': x}, {
        'faction_reps': (lambda: parts()[0], bigs),
        'family_reps': (lambda: parts()[1], bigs),
        'factions': (lambda: parts()[2], keyed(bigs)),
        'families': (lambda: parts()[3], keyed(bigs)),
        'splinters': (lambda: parts()[4], paired(bigs)),
    })


def record_matrix(rec, x):
    f = lazy(x)
    m = Lazy(lambda: f().ec_clan_matrix())
    rec.event('matrix', {'f': x}, {
        'splinters': (lambda: m()[4], paired(big_set)),
        'sizes': (lambda: m()[5], keyed(integer)),
        'lcm': (lambda: m()[6], integer),
        'weights': (lambda: m()[7], keyed(integer)),
        'row_keys': (lambda: m()[8], keyed(ints)),
        'col_perms': (lambda: m()[9], keyed(ints)),
        'keys': (lambda: m()[10], keyed(ints)),
        'vals': (lambda: m()[11], keyed(ints)),
        'triples': (lambda: m()[12], keyed(elements)),
    })


def reduced_root(x):
    """table of the function with its arguments renamed to the first ones"""
    x = ascending(x)
    own = reduced_atoms(x)
    places = [x['at'].index(a) for a in own]
    return {'at': list(range(len(own))),
            'tt': [x['tt'][sum(((k >> j) & 1) << p for j, p in enumerate(places))] for k in range(2 ** len(own))]}


def f08(rec):
    rng = rec.rng

    def classes(x, top, clan):
        n = adicity(x)
        record_family(rec, x)
        sizes = [None] + list(range(n, top + 1))
        record_faction(rec, x, rng.choice(sizes), False)
        record_faction(rec, x, rng.choice(sizes), True)
        if clan:
            record_clan(rec, x, rng.choice(sizes), False)
            record_clan(rec, x, rng.choice([s for s in sizes if s is None or s < 4]), True)
            m = rng.randrange(n, top + 1)
            rec.event('clan factions', {'f': x, 'n': m}, {
                'factions': (lambda: lazy(x)().ec_clan_factions(m), keyed(bigs))})
            record_parts(rec, x)
            record_matrix(rec, reduced_root(x))

    for x in small_fns(rec, 2, 3):
        classes(x, max(3, adicity(x)), adicity(x) <= 3)
    for t in tables(3):
        if rec.mine():
            x = {'at': [0, 1, 2], 'tt': t}
            if rec.quick and rng.random() < 0.5:
                record_matrix(rec, reduced_root(x))
            else:
                classes(x, 3 if rng.random() < 0.8 else 4, True)
    for _ in range(rec.pick(2, 30)):
        x = random_fn(rng, 3, 2, 4)
        classes(x, 4, True)
    for _ in range(rec.pick(2, 20)):
        x = random_fn(rng, 4, 4, 4)
        record_family(rec, x)
        record_faction(rec, x, None, False)
        record_clan(rec, x, None, False)
        if not rec.quick:
            record_parts(rec, x)
            record_matrix(rec, reduced_root(x))
    for _ in range(rec.pick(1, 8)):
        x = random_fn(rng, 5, 5, 5)
        record_family(rec, x)
        record_faction(rec, x, 5, False)
    for _ in range(rec.pick(10, 60)):
        x = random_fn(rng, 3, 1, 4)
        n = adicity(x)
        m = rng.randrange(max(0, n - 2), n + 2)
        f = lazy(x)
        query = rng.choice([lambda: f().ec_faction(m), lambda: f().ec_clan(m), lambda: f().ec_clan_factions(m)])
        if n:
            rec.rejects('too small', {'f': x, 'n': m}, query)


# ---------------------------------------------------------------- F09

def member_of(rng, x, negate, permute):
    """another function of the same class"""
    own = reduced_atoms(x)
    n = adicity(x)

    def make():
        f = lazy(x)()
        args = rng.sample(range(n), len(own)) if permute else list(own)
        if negate:
            args = [~a if rng.random() < 0.5 else a for a in args]
        return f.apply(*args) if own else f
    return Lazy(make)


def record_reps(rec, x, which):
    rng = rec.rng
    f = lazy(x)
    if 'family' in which:
        g = member_of(rng, x, True, False)
        rec.event('family rep', {'f': x}, {
            'rep': (lambda: f().family_minrep, fn),
            'member': (lambda: g().family_minrep, fn),
            'self_complementary': (lambda: f().family_is_self_complementary, boolean),
            'male': (lambda: [f().family_malerep, g().family_malerep] if f().is_male else [], listof(fn)),
        })
        rec.rejects('female', {'f': x}, lambda: g().family_malerep)
    if 'faction' in which:
        h = member_of(rng, x, False, True)
        # a member with fewer arguments below it has the same representative
        rec.event('faction rep', {'f': x}, {
            'rep': (lambda: f().faction_minrep, fn), 'member': (lambda: h().faction_minrep, fn)})
    if 'clan' in which:
        k = member_of(rng, x, True, True)
        rec.event('clan rep', {'f': x}, {
            'rep': (lambda: f().clan_minrep, fn), 'member': (lambda: k().clan_minrep, fn)})


def record_related(rec, x):
    """functions too large for enumerating the class: members have one representative, not greater than they are"""
    rng = rec.rng
    f = lazy(x)
    args = random_signed(rng, 5)[:len(reduced_atoms(x))]
    g = Lazy(lambda: f().apply(*args))
    rec.event('related', {'f': x, 'args': args}, {
        'reps': (lambda: [f().clan_minrep, g().clan_minrep], listof(fn)),
        'again': (lambda: f().clan_minrep.clan_minrep, fn),
    })


def f09(rec):
    rng = rec.rng
    everything = ('family', 'faction', 'clan')
    for x in small_fns(rec, 3, 4):
        record_reps(rec, x, everything if adicity(x) <= 3 or rng.random() < 0.2 else ('family', 'faction'))
    for _ in range(rec.pick(30, 400)):
        record_reps(rec, random_fn(rng, 4, 3, 4), ('family', 'faction'))
    for _ in range(rec.pick(6, 80)):
        record_reps(rec, random_fn(rng, 4, 3, 4), ('clan',))
    for _ in range(rec.pick(3, 30)):
        record_reps(rec, random_fn(rng, 5, 4, 5), ('family', 'faction'))
    for _ in range(rec.pick(1, 8)):
        record_reps(rec, random_fn(rng, 6, 5, 6), ('family',))
    for _ in range(rec.pick(1, 4)):
        record_reps(rec, random_fn(rng, 5, 4, 5), ('clan',))
    for _ in range(rec.pick(3, 40)):
        record_related(rec, {'at': list(range(5)), 'tt': random_table(rng, 5)})


# ---------------------------------------------------------------- F15

def record_symmetry(rec, x):
    f = lazy(x)
    rec.event('symmetry', {'f': x}, {
        'symmetric': (lambda: f().is_symmetric, boolean),
        'spots': (lambda: f().symmetric_spots.blocks_with_singletons(), listof(lambda b: [integer(i) for i in b])),
    })


def record_symmetric(rec, x):
    f = lazy(x)
    rec.event('symmetric', {'f': x}, {'symmetric': (lambda: f().is_symmetric, boolean)})


def nearly_symmetric(rng, n):
    """depends only on the number of true arguments, except perhaps at one place"""
    w = rng.randrange(2 ** (n + 1))
    t = [(w >> bin(k).count('1')) & 1 for k in range(2 ** n)]
    if rng.random() < 0.8:
        t[rng.randrange(2 ** n)] ^= 1
    return t


def record_places(rec, x):
    """x depends on the first arguments"""
    f = lazy(x)
    rec.event('places', {'f': x}, {
        'places': (lambda: f().perm_symmetry_partition.blocks_with_singletons(), listof(lambda b: [integer(i) for i in b]))})


def symmetric_under(rng, n):
    """a function with a chance of symmetries: constant on orbits of some places"""
    s = random_signed(rng, n)
    t = [None] * 2 ** n
    for k in range(2 ** n):
        if t[k] is None:
            value, j = rng.randrange(2), k
            while t[j] is None:
                t[j] = value
                j = sum((((j >> (a if a >= 0 else ~a)) & 1) ^ (a < 0)) << i for i, a in enumerate(s))
    return t


def f15(rec):
    rng = rec.rng
    for x in small_fns(rec, 3, 5):
        record_symmetry(rec, x)
        record_places(rec, reduced_root(x))
    for _ in range(rec.pick(15, 150)):
        x = {'at': list(range(4)), 'tt': symmetric_under(rng, 4) if rng.random() < 0.8 else random_fn(rng, 4, 4, 4)['tt']}
        record_symmetry(rec, x)
        record_places(rec, reduced_root(x))
        moved = {'at': sorted(rng.sample(range(5), 4)), 'tt': x['tt']}
        if rng.random() < 0.3:
            record_symmetry(rec, moved)
    # functions of the number of true arguments
    for n in range(5):
        for w in range(2 ** (n + 1)):
            if rec.mine():
                x = {'at': list(range(n)), 'tt': [(w >> bin(k).count('1')) & 1 for k in range(2 ** n)]}
                record_symmetry(rec, x)
                record_places(rec, reduced_root(x))
    for _ in range(rec.pick(25, 250)):
        n = rng.choice([4, 5, 5, 6])
        record_symmetric(rec, {'at': sorted(rng.sample(range(8), n)), 'tt': nearly_symmetric(rng, n)})
    for _ in range(rec.pick(3, 30)):
        n = rng.choice([7, 8])
        record_symmetric(rec, {'at': sorted(rng.sample(range(9), n)), 'tt': nearly_symmetric(rng, n)})
    for _ in range(rec.pick(1, 5)):
        t = nearly_symmetric(rng, 4)
        record_symmetry(rec, {'at': list(range(4)), 'tt': t})
        record_places(rec, reduced_root({'at': list(range(4)), 'tt': t}))
    for _ in range(rec.pick(2, 12)):
        w = rng.randrange(1, 63)
        for x in [symmetric_under(rng, 5), [(w >> bin(k).count('1')) & 1 for k in range(32)]]:
            x = reduced_root({'at': list(range(5)), 'tt': x})
            record_places(rec, x)
            if not rec.quick:
                record_symmetry(rec, x)
