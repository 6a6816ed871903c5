"""recordings of Boolf: Walsh spectra and linear functions, nobles and foibles"""
from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf

from rec import Lazy, big, bit, bits, boolean, ints, integer, listof, opt
from rec_binv import int_bits
from rec_boolf import fn, lazy, number, random_fn, random_table, reduced_atoms, small_fns, superset, tables

A = 'discretehelpers.a'
BA = 'discretehelpers.boolf.a'


def pair(x):
    a, b = x
    return [integer(a), integer(b)]


def big_pair(x):
    a, b = x
    return [big(a), big(b)]


# ---------------------------------------------------------------- F06

def record_walsh(rec, x, n, at):
    f = lazy(x)
    form = rec.rng.choice([list, tuple, set])
    rec.event('walsh', {'f': x, 'n': n, 'at': at}, {
        'spectrum': (lambda: f().walsh_spectrum(n), ints),
        'own': (lambda: f().walsh_spectrum(), ints),
        'over': (lambda: f().walsh_spectrum(form(at)), ints),
        'abs': (lambda: f().walsh_spectrum_abs(n), ints),
        'layered': (lambda: f().walsh_spectrum_layered(n), listof(ints)),
        'abs_layered': (lambda: f().walsh_spectrum_abs_layered(n), listof(ints)),
        'again': (lambda: Boolf(walsh_spectrum=f().walsh_spectrum(n)), fn),
        'distances': (lambda: f().walsh_distances(n), ints),
        'consul': (lambda: f().consul(n), integer),
        'own_consul': (lambda: f().consul(), integer),
        'consul_weight': (lambda: f().consul_weight(n), integer),
        'consul_slow': (lambda: [f().consul_slow(n)] if n <= 5 else [], ints),
        'linear': (lambda: f().is_linear, boolean),
        'prefect_tt': (lambda: f().prefect_tt, bits),
        'prefect': (lambda: f().prefect_boolf, fn),
        'prefect_walsh': (lambda: f().prefect_walsh_and_oddness, pair),
        'prefect_leader': (lambda: f().prefect_leader_and_quadrant, pair),
    })


def vector_forms(v, rng):
    s = ''.join(str(b) for b in v)
    return rng.choice([list(v), tuple(v), s, Binv(list(v)), [bool(b) for b in v]])


def record_linear(rec, w, odd, n):
    binv = rec.helper(A, 'make_linear_binv')
    boolf = rec.helper(A, 'make_linear_boolf')
    to_walsh = rec.helper(A, 'linear_to_walsh_and_oddness')
    to_leader = rec.helper(A, 'linear_to_leader_and_quadrant')
    to_index = rec.helper(A, 'walsh_function_to_index')
    if None in (binv, boolf, to_walsh, to_leader, to_index):
        return
    rng = rec.rng
    weight = bin(w).count('1')
    v = [(bin(w & k).count('1') + odd) % 2 for k in range(2 ** n)]
    leader, quadrant = w >> 1, odd + 2 * ((weight + odd) % 2)
    parity = rng.choice([odd, bool(odd)])
    even = [b ^ odd for b in v]
    rec.event('linear', {'w': w, 'odd': odd, 'n': n}, {
        'vector': (lambda: [binv(w, n, parity), binv(arity=n, leader=leader, quadrant=quadrant)], listof(bits)),
        'fn': (lambda: [boolf(w, parity) if odd or rng.random() < 0.5 else boolf(w), boolf(leader=leader, quadrant=quadrant)], listof(fn)),
        'walsh': (lambda: [to_walsh(vector_forms(v, rng)), to_walsh(Boolf(v)), to_walsh(vector_forms(v, rng), trust=True)], listof(pair)),
        'leader': (lambda: [to_leader(vector_forms(v, rng)), to_leader(Boolf(v)), to_leader(Boolf(v), trust=True)], listof(pair)),
        'index': (lambda: [to_index(vector_forms(even, rng)), to_index(vector_forms(even, rng), trust=True)], ints),
    })


def f06(rec):
    rng = rec.rng

    def one(x, more=3):
        own = reduced_atoms(x)
        adicity = max(own) + 1 if own else 0
        record_walsh(rec, x, adicity + rng.randrange(more), superset(rng, own, rng.randrange(more)))
    for x in small_fns(rec, 3):
        one(x)
    for _ in range(rec.pick(60, 500)):
        one(random_fn(rng, rng.choice([4, 5]), 3, rng.choice([5, 6])), 2)
    for _ in range(rec.pick(1, 12)):
        one(random_fn(rng, 7, 6, 7), 1)
    if not rec.quick:
        for t in tables(4):
            if rec.mine() and rng.random() < 0.2:
                one({'at': [0, 1, 2, 3], 'tt': t}, 1)
    for n in range(1, rec.pick(6, 8)):
        for w in range(2 ** n):
            for odd in (0, 1):
                if rec.mine():
                    record_linear(rec, w, odd, n)
    for _ in range(rec.pick(10, 80)):
        n = rng.randrange(6, 11)
        record_linear(rec, rng.randrange(2 ** n), rng.randrange(2), n)
    to_index = rec.helper(A, 'walsh_function_to_index')
    to_walsh = rec.helper(A, 'linear_to_walsh_and_oddness')
    to_leader = rec.helper(A, 'linear_to_leader_and_quadrant')
    candidates = [t for n in range(4) for t in tables(n)]
    for _ in range(200):
        n = rec.shared.randrange(3, 7)
        w = rec.shared.randrange(2 ** n)
        v = [bin(w & k).count('1') % 2 for k in range(2 ** n)]
        for k in rec.shared.sample(range(2 ** n), rec.shared.randrange(3)):
            v[k] ^= 1
        candidates.append(v)
    candidates += [[rec.shared.randrange(2) for _ in range(m)] for m in (3, 5, 6, 7, 9, 12, 15)]
    for v in rec.share(candidates):
        if to_index:
            rec.rejects('linear?', {'tt': v, 'signed': False}, lambda: to_index(vector_forms(v, rng)))
        for f in (to_walsh, to_leader):
            if f:
                rec.rejects('linear?', {'tt': v, 'signed': True}, lambda: f(vector_forms(v, rng)))
    matrix = rec.helper(A, 'arity_to_walsh_matrix')
    if matrix:
        for n in range(rec.pick(6, 8)):
            for odd in (0, 1):
                if rec.mine():
                    rec.event('walsh matrix', {'n': n, 'odd': odd}, {
                        'rows': (lambda: matrix(n, bool(odd)) if odd else matrix(n), listof(ints))})
    prefect = rec.helper(BA, 'zhe_to_prefect')
    if prefect:
        for n in range(1, 7):
            for _ in range(rec.pick(10, 60)):
                z = random_table(rng, n)
                rec.event('prefect', {'z': z}, {'prefect': (lambda: prefect(number(z), n), pair)})


# ---------------------------------------------------------------- F07

def noble_helpers(rec):
    names = ('index_to_noble', 'noble_to_index', 'noble_to_quadrant', 'noble_to_royal', 'noble_to_royal_and_quadrant',
             'noble_to_king_and_quadrant', 'noble_to_king_index_and_quadrant')
    found = [rec.helper(BA, name) for name in names]
    return None if None in found else found


def record_noble(rec, helpers, i, n):
    """i: table of the index, with n - 1 arguments"""
    to_noble, to_index, to_quadrant, to_royal, to_royal_quadrant, _, _ = helpers
    noble = Lazy(lambda: to_noble(number(i), n))
    rec.event('noble', {'i': i, 'n': n}, {
        'noble': (noble, big),
        'index': (lambda: to_index(noble(), n), big),
        'trusted': (lambda: to_index(noble(), n, trust=True), big),
        'quadrant': (lambda: to_quadrant(noble(), n), integer),
        'royal': (lambda: to_royal(noble(), n), big),
        'royal_quadrant': (lambda: to_royal_quadrant(noble(), n), big_pair),
    })


def record_foibles(rec, x, n):
    f = lazy(x)

    def noble_quadrant():
        return [f().noble_quadrant(n)] if n and f().is_noble(n) else []

    rec.event('foibles', {'f': x, 'n': n}, {
        'basic': (lambda: [f().is_odd, f().is_odious, f().is_ugly, f().is_male], bits),
        'at_arity': (lambda: [f().is_sharp(n), f().is_acute(n), f().is_rude(n), f().is_rough(n)], bits),
        'quadrants': (lambda: [f().quadrant, f().weight_quadrant(n), f().acute_quadrant(n), f().octant(n)], ints),
        'leader': (lambda: f().leader(n), fn),
        'noble': (lambda: f().is_noble(n), boolean),
        'noble_quadrant': (noble_quadrant, ints),
        'patron_int': (lambda: f().patron_int(n), big),
        'patron': (lambda: f().patron_boolf(n), fn),
        'patron_index': (lambda: f().patron_index(n), big),
        'patron_royal': (lambda: f().patron_royal(n), big),
        'patron_quadrant': (lambda: f().patron_quadrant(n), integer),
        'coordinates': (lambda: [big(c) for c in f().hasse_matrix_coordinates(n)] if n else [], list),
        'solid': (lambda: [f().is_solid(n)] if n >= 2 else [], bits),
    })
    rec.event('own', {'f': x}, {
        'quadrants': (lambda: [f().weight_quadrant(), f().acute_quadrant(), f().octant()], ints),
        'leader': (lambda: f().leader(), fn),
        'noble': (lambda: f().is_noble(), boolean),
    })


def record_king(rec, helpers, t, n):
    patron = Lazy(lambda: Boolf(t).patron_int(n))
    rec.event('king', {'tt': t}, {
        'king': (lambda: helpers[5](patron(), n), big_pair),
        'king_index': (lambda: helpers[6](patron(), n), big_pair),
        'patron_king': (lambda: Boolf(t).patron_king_index_and_quadrant(n), big_pair),
    })


def f07(rec):
    rng = rec.rng
    helpers = noble_helpers(rec)
    for x in small_fns(rec, 3):
        own = reduced_atoms(x)
        adicity = max(own) + 1 if own else 0
        record_foibles(rec, x, adicity + rng.randrange(3))
    for _ in range(rec.pick(100, 800)):
        x = random_fn(rng, rng.choice([4, 5]), 3, rng.choice([5, 6])) if rng.random() < 0.97 else random_fn(rng, 7, 6, 7)
        own = reduced_atoms(x)
        record_foibles(rec, x, (max(own) + 1 if own else 0) + rng.randrange(2))
    if not rec.quick:
        for t in tables(4):
            if rec.mine() and rng.random() < 0.3:
                record_foibles(rec, {'at': [0, 1, 2, 3], 'tt': t}, 4)
    if helpers:
        to_noble, to_index = helpers[:2]
        for n in range(1, 5):
            for i in tables(n - 1):
                if rec.mine():
                    record_noble(rec, helpers, i, n)
                    # the nobles themselves and their neighbours as functions
                    t = int_bits(to_noble(number(i), n))
                    t += [0] * (2 ** n - len(t))
                    record_foibles(rec, {'at': list(range(n)), 'tt': t}, n)
        for _ in range(rec.pick(20, 200)):
            n = rng.randrange(5, 8)
            record_noble(rec, helpers, random_table(rng, n - 1), n)
        for n in range(4):
            for t in tables(n):
                if rec.mine():
                    if n:
                        rec.rejects('noble?', {'tt': t, 'n': n}, lambda: to_index(number(t), n))
                    record_king(rec, helpers, t, n)
        for _ in range(rec.pick(12, 100)):
            record_king(rec, helpers, random_table(rng, 4), 4)
            t = random_table(rng, 4)
            rec.rejects('noble?', {'tt': t, 'n': 4}, lambda: to_index(number(t), 4))
        for n in range(5):
            for m in (0, 1, 2, 3, 4, 7, 15, 16, 255, 256, 65535, 65536):
                if rec.mine():
                    rec.rejects('index?', {'i': int_bits(m), 'n': n}, lambda: to_noble(m, n))
    praetor = rec.helper(BA, 'praetor_int')
    coordinates = rec.helper(BA, 'hasse_matrix_coordinates_to_tt')
    for n in range(1, 7):
        for _ in range(rec.pick(8, 60)):
            t = random_table(rng, n)
            if praetor:
                rec.event('praetor', {'tt': t}, {'praetor': (lambda: praetor(number(t), n), big)})
            if coordinates:
                i, j = t[:2 ** (n - 1)], t[2 ** (n - 1):]
                rec.event('coordinates', {'i': i, 'j': j}, {'tt': (lambda: coordinates(number(i), number(j), n), bits)})
