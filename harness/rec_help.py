"""recordings of the helper functions: numbers, tables and enumerations, sorting and rearranging"""
import re
from collections import defaultdict
from copy import deepcopy
from fractions import Fraction
from math import factorial
from types import SimpleNamespace

import numpy as np

from rec import Shape, big, bits, boolean, integer, ints, iset, listof, matrix

A = 'discretehelpers.a'
B = 'discretehelpers.boolf.a'


def tools(rec, module, *names):
    """the helper functions that are there"""
    return SimpleNamespace(**{name: rec.helper(module, name) for name in names})


def views_of(*triples):
    """views of functions that are there: (name, function, thunk, encoder)"""
    return {name: (thunk, encoder) for name, function, thunk, encoder in triples if function}


def tried(thunk, encoder):
    """[] if it is rejected, otherwise [value]"""
    try:
        value = thunk()
    except Exception:
        return []
    return [encoder(value)]


# ---------------------------------------------------------------- H01

NUMBER = ('binary', 'decimal', 'floor', 'ceil', 'power', 'exact', 'weight', 'exposet', 'of_exposet', 'of_vector',
          'evil', 'odious', 'evil_index', 'odious_index', 'arity', 'length', 'factoradic', 'natural')


def number_views(h, n, x, rng):
    """n is the number, x the object that represents it"""
    v = [n >> i & 1 for i in range(n.bit_length())]
    es = [i for i, b in enumerate(v) if b]
    shuffled = rng.sample(es, len(es))
    is_int = type(x) is int
    return views_of(
        ('binary', h.binary_length, lambda: h.binary_length(x), integer),
        ('decimal', h.decimal_length, lambda: h.decimal_length(x), integer),
        ('floor', h.log_floor, lambda: tried(lambda: h.log_floor(x), integer), list),
        ('ceil', h.log_ceil, lambda: tried(lambda: h.log_ceil(x), integer), list),
        ('exact', h.log_int, lambda: tried(lambda: h.log_int(x), integer), list),
        ('power', h.is_power_of_two, lambda: h.is_power_of_two(x), boolean),
        ('natural', h.is_natural, lambda: h.is_natural(x), boolean),
        ('arity', h.intval_to_arity, lambda: h.intval_to_arity(x), integer),
        ('length', h.intval_to_tt_length, lambda: h.intval_to_tt_length(x), integer),
        ('weight', is_int and h.int_to_weight, lambda: h.int_to_weight(n), integer),
        ('exposet', is_int and h.int_to_exposet, lambda: h.int_to_exposet(n), ints),
        ('of_exposet', is_int and h.exposet_to_int, lambda: h.exposet_to_int(rng.choice([list, tuple, set])(shuffled)), big),
        ('of_vector', is_int and h.vector_to_int, lambda: h.vector_to_int(v + [0] * rng.randrange(4)), big),
        ('evil', is_int and h.index_to_evil, lambda: h.index_to_evil(n), big),
        ('odious', is_int and h.index_to_odious, lambda: h.index_to_odious(n), big),
        ('evil_index', is_int and h.evil_to_index, lambda: tried(lambda: h.evil_to_index(n), big), list),
        ('odious_index', is_int and h.odious_to_index, lambda: tried(lambda: h.odious_to_index(n), big), list),
        ('factoradic', is_int and h.int_to_factoradic, lambda: h.int_to_factoradic(n), ints),
    )


def logic(x):
    """integer as logical sign and absolute value"""
    if isinstance(x, bool) or not isinstance(x, int):
        raise Shape(f'integer expected: {x!r}')
    return {'neg': x < 0, 'abs': big(~x if x < 0 else x)}


def logic_text(s):
    """text of such an integer"""
    neg = s.startswith('~')
    n = int(s[neg:])
    if s != '~' * neg + str(n):
        raise Shape(f'not the usual text: {s!r}')
    return {'neg': neg, 'abs': big(n)}


def logic_texts(s):
    if s[0] != '[' or s[-1] != ']':
        raise Shape(f'not the text of a list: {s!r}')
    return [logic_text(t) for t in s[1:-1].split(', ')] if len(s) > 2 else []


def any_number(rng, most):
    """numbers of all sizes, often next to powers of two or ten"""
    kind = rng.randrange(5)
    if kind == 0:
        return rng.getrandbits(rng.randrange(1, most))
    if kind == 1:
        return max(0, 2 ** rng.randrange(most) + rng.choice([-1, 0, 0, 1]))
    if kind == 2:
        return max(0, 10 ** rng.randrange(most * 3 // 10) + rng.choice([-1, 0, 1]))
    if kind == 3:
        return 2 ** rng.randrange(most) + 2 ** rng.randrange(most)
    return rng.randrange(2000)


def h01_numbers(rec):
    rng = rec.rng
    h = tools(rec, A, 'decimal_length', 'log_floor', 'log_ceil', 'log_int', 'is_power_of_two', 'is_natural', 'int_to_weight',
              'int_to_exposet', 'exposet_to_int', 'vector_to_int', 'index_to_evil', 'index_to_odious', 'evil_to_index',
              'odious_to_index', 'int_to_factoradic', 'type_like_int', 'type_clean_int')
    h.binary_length = rec.helper('discretehelpers.binv.a', 'binary_length')
    h.intval_to_arity = rec.helper(B, 'intval_to_arity')
    h.intval_to_tt_length = rec.helper(B, 'intval_to_tt_length')

    def number(n, x=None):
        views = number_views(h, n, n if x is None else x, rng)
        rec.event('number', {'n': big(n), 'views': list(views)}, views)
    for n in rec.share(range(rec.pick(300, 3000))):
        number(n)
    for n in rec.share(sorted({2 ** k + d for k in range(rec.pick(70, 130)) for d in (-1, 0, 1)})):
        number(n)
    for _ in range(rec.pick(40, 400)):
        number(any_number(rng, 200))
    for _ in range(rec.pick(3, 30)):
        n = rng.getrandbits(600)
        views = {k: v for k, v in number_views(h, n, n, rng).items() if k not in ('decimal', 'factoradic')}
        rec.event('number', {'n': big(n), 'views': list(views)}, views)
        if h.int_to_factoradic:
            digits = [rng.randrange(i + 1) for i in range(rng.randrange(30, 120))] + [1]
            value = sum(d * factorial(i) for i, d in enumerate(digits))
            rec.event('factoradic', {'digits': digits}, {'digits': (lambda: h.int_to_factoradic(value), ints)})
    for _ in range(rec.pick(20, 150)):
        n = rng.choice([rng.randrange(40), 2 ** rng.randrange(52), rng.getrandbits(50)])
        number(n, rng.choice([float, np.int64, Fraction, np.float64])(n))
    for _ in range(rec.pick(20, 150)):
        x, kind = rng.choice([(-any_number(rng, 90) - 1, 'negative'), (rng.randrange(50) + 0.5, 'part'), (Fraction(rng.randrange(1, 50), 53), 'part'),
                              (None, 'nothing'), ('7', 'text'), ([3], 'list'), (float('inf'), 'infinite'), (float('nan'), 'none')])
        views = views_of(*[(name, f, lambda f=f: not tried(lambda: f(x), lambda y: True), boolean) for name, f in
                           [('binary', h.binary_length), ('decimal', h.decimal_length), ('floor', h.log_floor), ('ceil', h.log_ceil),
                            ('exact', h.log_int), ('arity', h.intval_to_arity)]
                           + ([('evil', h.index_to_evil), ('odious', h.index_to_odious), ('evil_index', h.evil_to_index),
                               ('odious_index', h.odious_to_index)] if kind == 'negative' else [])],
                         ('natural', h.is_natural, lambda: not h.is_natural(x), boolean),
                         ('power', h.is_power_of_two, lambda: not h.is_power_of_two(x), boolean))
        rec.event('not natural', {'kind': kind, 'views': list(views)}, views)
    if h.type_like_int and h.type_clean_int:
        for _ in range(rec.pick(10, 60)):
            n = rng.randrange(-2 ** 30, 2 ** 30)
            x, like = rng.choice([(n, True), (float(n), True), (np.int64(n), True), (Fraction(n), True), (n + 0.25, False),
                                  (str(n), False), (None, False), ([n], False), ((), False)])
            rec.event('like integer', {'n': n, 'like': like}, {
                'like': (lambda: h.type_like_int(x), boolean),
                'clean': (lambda: tried(lambda: h.type_clean_int(x), exact_integer), list)})


def exact_integer(x):
    if type(x) is not int:
        raise Shape(f'int expected: {x!r}')
    return integer(x)


PRIMES = (32749, 32719, 32713, 32707)


SOME_PRIMES = (2, 3, 5, 7, 11, 13, 101, 997)


def product_of(parts):
    n = 1
    for p, e in parts:
        n *= p ** e
    return n


def residues(x):
    if not isinstance(x, int):
        raise Shape(f'integer expected: {x!r}')
    return [x % p for p in PRIMES]


def kept(arg, call):
    """is the argument unchanged by the call"""
    copy = deepcopy(arg)
    call(arg)
    return boolean(np.array_equal(copy, arg) if isinstance(arg, np.ndarray) else copy == arg and repr(copy) == repr(arg))


def h01_arithmetic(rec):
    rng = rec.rng
    h = tools(rec, A, 'multigrade_bitwise', 'multi_lcm', 'prime_factors', 'binom', 'integer_determinant', 'is_integer_matrix')
    if h.multigrade_bitwise:
        for _ in range(rec.pick(30, 300)):
            op = rng.choice(['and', 'or', 'xor'])
            top = rng.choice([6, 30, 64, 150])
            ns = [rng.getrandbits(top) | (rng.getrandbits(top) if op == 'and' else 0) for _ in range(rng.randrange(2, 6))]
            form = rng.choice([list, tuple, iter])
            rec.event('fold', {'ns': [big(n) for n in ns], 'op': op}, {'value': (lambda: h.multigrade_bitwise(form(ns), op), big)})
        rec.rejects('fold refused', {}, lambda: h.multigrade_bitwise([3, 5], 'nor'))
    if h.multi_lcm:
        for _ in range(rec.pick(30, 300)):
            ns = [rng.randrange(1, rng.choice([12, 60, 300])) for _ in range(rng.randrange(1, 8))]
            rec.event('lcm', {'ns': ns}, {'value': (lambda: h.multi_lcm(list(ns)), big)})
            products = [[[p, rng.randrange(1, 9)] for p in sorted(rng.sample(SOME_PRIMES, rng.randrange(4)))] for _ in range(rng.randrange(1, 6))]
            rec.event('lcm of products', {'products': products}, {'value': (lambda: h.multi_lcm([product_of(parts) for parts in products]), big)})
    if h.prime_factors:
        for n in rec.share(range(1, rec.pick(150, 1500))):
            rec.event('factors', {'n': n}, {'factors': (lambda: list(h.prime_factors(n).items()), listof(ints))})
        for _ in range(rec.pick(20, 200)):
            parts = [[p, rng.randrange(1, 12)] for p in sorted(rng.sample(SOME_PRIMES, rng.randrange(1, 5)))]
            n = product_of(parts)
            rec.event('factors of product', {'parts': parts}, {'factors': (lambda: list(h.prime_factors(n).items()), listof(ints))})
            expected = [p for p, e in parts] + rng.sample([2, 3, 5, 7, 11, 13, 17, 19], rng.randrange(3))
            rng.shuffle(expected)
            if rng.random() < 0.3:
                expected.remove(parts[0][0])
            form = rng.choice([list, tuple, set])
            rec.event('expected factors', {'parts': parts, 'expected': expected}, {
                'exponents': (lambda: tried(lambda: h.prime_factors(n, form(expected)), ints), list)})
        for _ in range(rec.pick(5, 40)):
            n = rng.randrange(10 ** 6, 2 * 10 ** 7)
            rec.event('factors', {'n': n}, {'factors': (lambda: list(h.prime_factors(n).items()), listof(ints))})
    if h.binom:
        for _ in range(rec.pick(20, 150)):
            n = rng.randrange(rec.pick(50, 90))
            k = rng.randrange(n + 1)
            rec.event('binomial', {'n': n, 'k': k}, {'value': (lambda: h.binom(n, k), big)})
    if h.integer_determinant:
        for _ in range(rec.pick(60, 600)):
            size = rng.randrange(6)
            top = rng.choice([1, 1, 3, 50, 2 ** 30])
            m = [[rng.randrange(-top, top + 1) * (rng.random() < 0.75) for _ in range(size)] for _ in range(size)]
            if size > 1 and rng.random() < 0.2:
                m[0] = list(m[-1])
            form = rng.choice([lambda m: m, lambda m: [tuple(r) for r in m], lambda m: tuple(m)])
            rec.event('determinant', {'m': m}, {
                'residues': (lambda: h.integer_determinant(form(m)), residues),
                'kept': (lambda: kept(m, h.integer_determinant), boolean)})
        for _ in range(rec.pick(3, 20)):
            m = [[rng.randrange(9), rng.randrange(9) + 0.5], [1, 2]]
            rng.shuffle(m)
            rec.rejects('determinant refused', {}, lambda: h.integer_determinant(m))
    if h.is_integer_matrix:
        for _ in range(rec.pick(10, 60)):
            m = [[Fraction(rng.randrange(-9, 9), rng.choice([1, 1, 1, 1, 2])) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(3))]
            number = rng.choice([float, Fraction])
            rec.event('integer matrix', {'m': [[[x.numerator, x.denominator] for x in r] for r in m]}, {
                'value': (lambda: h.is_integer_matrix([[number(x) for x in r] for r in m]), boolean)})


def h01_logic(rec):
    rng = rec.rng
    h = tools(rec, A, 'logic_abs', 'logic_abs_vector', 'logic_negate', 'logic_negate_vector', 'logic_str', 'logic_str_vector',
              'logic_abs_increase', 'logic_abs_increase_vector')

    def some():
        n = rng.choice([rng.randrange(4), rng.randrange(100), any_number(rng, 100)])
        return ~n if rng.randrange(2) else n
    for _ in range(rec.pick(40, 400)):
        n = some()
        do = rng.randrange(2)
        form = rng.choice([int, bool])
        views = views_of(
            ('abs', h.logic_abs, lambda: h.logic_abs(n), big),
            ('not', h.logic_negate, lambda: h.logic_negate(n), logic),
            ('maybe', h.logic_negate, lambda: h.logic_negate(n, form(do)), logic),
            ('maybe_text', h.logic_negate, lambda: h.logic_negate(n, form(do), want_string=True), logic_text),
            ('text', h.logic_str, lambda: h.logic_str(n), logic_text))
        rec.event('logic', {'n': logic(n), 'do': do, 'views': list(views)}, views)
        ns = [some() for _ in range(rng.randrange(6))]
        where = [rng.randrange(2) for _ in ns]
        absolute = sorted({~x if x < 0 else x for x in ns})
        which = rng.sample(absolute, rng.randrange(len(absolute) + 1))
        views = views_of(
            ('abs', h.logic_abs_vector, lambda: h.logic_abs_vector(ns), listof(big)),
            ('text', h.logic_str_vector, lambda: h.logic_str_vector(ns), logic_texts),
            ('where', h.logic_negate_vector, lambda: h.logic_negate_vector(ns, where=where), listof(logic)),
            ('where_text', h.logic_negate_vector, lambda: h.logic_negate_vector(ns, where=where, want_string=True), logic_texts),
            ('which', h.logic_negate_vector, lambda: h.logic_negate_vector(ns, which=which), listof(logic)),
            ('which_text', h.logic_negate_vector, lambda: h.logic_negate_vector(ns, which=which, want_string=True), logic_texts))
        rec.event('logic list', {'ns': [logic(n) for n in ns], 'where': where, 'which': [big(n) for n in which], 'views': list(views)}, views)
        if h.logic_abs_increase:
            a, b = rng.randrange(-60, 60), rng.randrange(-60, 60)
            rec.event('increase', {'a': a, 'b': b}, {
                'value': (lambda: tried(lambda: h.logic_abs_increase(a, b), integer), list),
                'text': (lambda: tried(lambda: h.logic_abs_increase(a, b, want_string=True), logic_text), list)})
            b = any_number(rng, 100)
            rec.event('increase far', {'n': logic(n), 'b': big(b)}, {'value': (lambda: h.logic_abs_increase(n, b), logic)})
        if h.logic_abs_increase_vector:
            a = [rng.randrange(-60, 60) for _ in range(rng.randrange(5))]
            b = [rng.randrange(0 - (~x if x < 0 else x), 60) for x in a]
            rec.event('increase list', {'a': a, 'b': b}, {
                'value': (lambda: h.logic_abs_increase_vector(a, b), ints),
                'text': (lambda: h.logic_abs_increase_vector(a, b, want_string=True), logic_texts)})
            rec.rejects('increase refused', {}, lambda: h.logic_abs_increase_vector(a, b + [1]))
        if h.logic_negate_vector:
            bad = rng.choice([lambda: h.logic_negate_vector(ns), lambda: h.logic_negate_vector(ns, where + [1]), lambda: h.logic_negate_vector(ns, where, which),
                              lambda: h.logic_negate_vector(ns, which=[-1]), lambda: h.logic_negate_vector(ns, which=[max(absolute, default=0) + 1])])
            rec.rejects('logic refused', {}, bad)


def h01(rec):
    h01_numbers(rec)
    h01_arithmetic(rec)
    h01_logic(rec)


# ---------------------------------------------------------------- H02

def pair(p):
    a, b = p
    return [integer(a), integer(b)]


GENERATORS = ('and', 'xand', 'or', 'xor', 'eq', 'sand', 'gand', 'esand', 'osand')


def h02_tables(rec):
    rng = rec.rng
    h = tools(rec, A, 'make_atompattern', 'make_atompattern_gen', 'make_atompatterns', 'atompattern_to_signed_index', 'arity_to_walsh_matrix',
              'balanced_ternary_walsh_matrix', 'int_to_sierpinski_row', 'sierpinski', 'balanced_ternary_vector_to_string')
    for n in range(1, rec.pick(5, 8)):
        for i in range(-n, n):
            if not rec.mine():
                continue
            for negate in (False, True):
                def call(f):
                    return f(i, n, negate=True) if negate else f(i, n)
                pattern = [(k >> (i if i >= 0 else ~i) & 1) ^ (i < 0) ^ negate for k in range(2 ** n)]
                views = views_of(
                    ('pattern', h.make_atompattern, lambda: call(h.make_atompattern), bits),
                    ('generated', h.make_atompattern_gen, lambda: call(h.make_atompattern_gen), bits),
                    ('signed', h.atompattern_to_signed_index, lambda: h.atompattern_to_signed_index(pattern), pair))
                rec.event('atom pattern', {'i': i, 'n': n, 'negate': negate, 'views': list(views)}, views)
        if h.make_atompattern:
            rec.rejects('atom pattern refused', {}, lambda: h.make_atompattern(rng.choice([n, n + 1, ~n]), n))
        if h.make_atompatterns and rec.mine():
            rec.event('atom patterns', {'atoms': list(range(n))}, {'patterns': (lambda: h.make_atompatterns(n), listof(bits))})
            atoms = [rng.choice([i, ~i]) for i in rng.sample(range(n), n)]
            rec.event('atom patterns', {'atoms': atoms}, {'patterns': (lambda: h.make_atompatterns(rng.choice([list, tuple])(atoms)), listof(bits))})
    if h.arity_to_walsh_matrix:
        for n in range(rec.pick(5, 7)):
            for negate in (False, True):
                if rec.mine():
                    rec.event('walsh matrix', {'n': n, 'negate': negate}, {'matrix': (lambda: h.arity_to_walsh_matrix(n, negate), matrix)})
    if h.balanced_ternary_walsh_matrix:
        for n in range(1, rec.pick(4, 5)):
            if rec.mine():
                rec.event('ternary matrix', {'n': n}, {
                    'matrix': (lambda: h.balanced_ternary_walsh_matrix(n), matrix),
                    'again': (lambda: h.balanced_ternary_walsh_matrix(n, with_vectors_matrix=True)[0], matrix),
                    'vectors': (lambda: h.balanced_ternary_walsh_matrix(n, with_vectors_matrix=True)[1], matrix)})
    if h.balanced_ternary_vector_to_string:
        for _ in range(rec.pick(5, 30)):
            v = [rng.randrange(-1, 2) for _ in range(rng.randrange(7))]
            rec.event('ternary text', {'v': v}, {
                'v': (lambda: [{'−': -1, '0': 0, '+': 1}[c] for c in h.balanced_ternary_vector_to_string(rng.choice([list, tuple])(v))], ints)})
    if h.int_to_sierpinski_row:
        def row(es, call):
            rec.event('sierpinski row', {'es': es}, {'row': (call, listof(big))})
        for n in rec.share(range(rec.pick(64, 256))):
            row([i for i in range(9) if n >> i & 1], lambda: h.int_to_sierpinski_row(n))
        for _ in range(rec.pick(8, 60)):
            es = sorted(rng.sample(range(rng.choice([8, 40, 90])), rng.randrange(6)))
            row(es, lambda: h.int_to_sierpinski_row(sum(1 << e for e in es)))
            row(es, lambda: h.int_to_sierpinski_row(exposet=rng.choice([list, tuple, set])(es)))
        rec.rejects('row refused', {}, lambda: h.int_to_sierpinski_row(-rng.randrange(1, 99)))
        rec.rejects('row refused', {}, lambda: h.int_to_sierpinski_row(0.5))
        rec.rejects('row refused', {}, lambda: h.int_to_sierpinski_row(5, [0, 2]))
        rec.rejects('row refused', {}, lambda: h.int_to_sierpinski_row())
    if h.sierpinski:
        for o in ('tl', 'tr', 'bl', 'br'):
            for n in range(1, rec.pick(5, 7)):
                if rec.mine():
                    rec.event('sierpinski', {'o': o, 'n': n}, {
                        'by_degree': (lambda: h.sierpinski(o, degree=n), matrix), 'by_size': (lambda: h.sierpinski(o, size=2 ** n), matrix)})
        for bad in (lambda: h.sierpinski('lt', degree=2), lambda: h.sierpinski('tl'), lambda: h.sierpinski('tl', degree=2, size=4),
                    lambda: h.sierpinski('tr', degree=0), lambda: h.sierpinski('tr', size=1), lambda: h.sierpinski('br', size=6)):
            rec.rejects('sierpinski refused', {}, bad)


def order_of(kind):
    return {'divides': lambda a, b: b % a == 0, 'within': lambda a, b: a & b == a, 'below': lambda a, b: a < b,
            'far below': lambda a, b: a + 2 < b}[kind]


def h02_enumerations(rec):
    rng = rec.rng
    h = tools(rec, A, 'hypercube_edges', 'create_hasse_matrix', 'powerset', 'find_integer_partitions')
    b = tools(rec, B, 'flat_to_layered', 'atom_indices_to_sequence', 'int_to_rcv', 'segment_to_adjacent_spots', 'spotints_to_splits',
              'count_split_regions', 'symmetric_to_index', *[f'atoms_to_{name}_gen' for name in GENERATORS])
    if h.hypercube_edges:
        for n in range(rec.pick(6, 8)):
            if rec.mine():
                rec.event('cube', {'n': n}, {'edges': (lambda: h.hypercube_edges(n), listof(pair))})
        rec.rejects('cube refused', {}, lambda: h.hypercube_edges(rng.choice([-1, 1.5, '2'])))
    if h.create_hasse_matrix:
        for _ in range(rec.pick(20, 200)):
            kind = rng.choice(['divides', 'within', 'below', 'far below'])
            nodes = rng.sample(range(1, rng.choice([12, 32, 64])), rng.randrange(9))
            under = order_of(kind)
            rec.event('hasse', {'kind': kind, 'nodes': nodes}, {
                'direct': (lambda: h.create_hasse_matrix(nodes, under), matrix),
                'all': (lambda: h.create_hasse_matrix(nodes, under, with_indirect_edges=True), matrix)})
    if h.powerset:
        for _ in range(rec.pick(6, 30)):
            items = rng.sample(range(100), rng.randrange(7))
            form = rng.choice([list, tuple, iter])
            rec.event('power set', {'items': items}, {'sets': (lambda: h.powerset(form(items)), listof(ints))})
    if h.find_integer_partitions:
        for n in range(1, rec.pick(14, 17)):
            if rec.mine():
                rec.event('partitions', {'n': n}, {'partitions': (lambda: h.find_integer_partitions(n), listof(ints))})
    for name in GENERATORS:
        gen = getattr(b, f'atoms_to_{name}_gen')
        if not gen:
            continue
        masks = [(n, mask) for n in range(1, rec.pick(6, 7)) for mask in range(2 ** n)]
        masks = list(rec.share(masks)) + [(n, rng.choice([2 ** n - 1, rng.getrandbits(n)])) for n in (6, 7, 8)]
        for n, mask in masks:
            atoms = [i for i in range(n) if mask >> i & 1]
            rng.shuffle(atoms)
            if rng.random() < 0.5:
                atoms = [rng.choice([i, ~i]) for i in atoms]
            rec.event('generator', {'name': name, 'atoms': atoms, 'n': n}, {'tt': (lambda: gen(atoms, n), bits)})
    if b.flat_to_layered:
        for _ in range(rec.pick(10, 80)):
            v = [rng.randrange(-9, 10) for _ in range(2 ** rng.randrange(6))]
            rec.event('layered', {'v': v}, {'layers': (lambda: b.flat_to_layered(rng.choice([list, tuple])(v)), listof(ints))})
            t = [rng.randrange(2) for _ in range(2 ** rng.randrange(6))]
            rec.event('layered places', {'t': t}, {
                'places': (lambda: [[w, f, t_] for w, (f, t_) in b.flat_to_layered(t, false_and_true_places=True).items()],
                           listof(lambda x: [integer(x[0]), ints(x[1]), ints(x[2])]))})
        rec.rejects('layered refused', {}, lambda: b.flat_to_layered([1] * rng.choice([3, 5, 6, 7, 9, 12])))
    if b.atom_indices_to_sequence:
        for _ in range(rec.pick(15, 120)):
            es = rng.sample(range(6), rng.randrange(1, 5))
            length = 2 ** (max(es) + 1)
            times = rng.choice([1, 1, 2, 4])
            rec.event('atom sequence', {'es': es, 'length': length * times}, {
                'sequence': (lambda: b.atom_indices_to_sequence(rng.choice([list, tuple])(es), *([length * times] if times > 1 or rng.randrange(2) else [])), ints)})
    if b.int_to_rcv:
        for n in rec.share(range(rec.pick(200, 1500))):
            rec.event('rings', {'n': big(n), 'length': -1}, {'counts': (lambda: tried(lambda: b.int_to_rcv(n), ints), list)})
        for _ in range(rec.pick(15, 120)):
            n = any_number(rng, 200)
            length = rng.randrange(7)
            rec.event('rings', {'n': big(n), 'length': length}, {'counts': (lambda: tried(lambda: b.int_to_rcv(n, length), ints), list)})
    if b.segment_to_adjacent_spots:
        for _ in range(rec.pick(15, 120)):
            v = [rng.randrange(-1, 2) for _ in range(rng.randrange(1, 6))]
            rec.event('subcube', {'v': v}, {'spots': (lambda: b.segment_to_adjacent_spots(rng.choice([list, tuple])(v)), ints)})
    if b.spotints_to_splits and b.count_split_regions:
        for _ in range(rec.pick(15, 120)):
            n = rng.randrange(1, 6)
            spots = rng.sample(range(2 ** n), rng.randrange(2 ** n + 1))
            i, j = rng.randrange(n), rng.randrange(n)
            rec.event('sides', {'n': n, 'spots': spots, 'i': i, 'j': j}, {
                'splits': (lambda: b.spotints_to_splits(spots, n), listof(lambda s: [iset(s[0]), iset(s[1])])),
                'regions': (lambda: b.count_split_regions(*[b.spotints_to_splits(spots, n)[k] for k in (i, j)]), integer)})
    if b.symmetric_to_index:
        for _ in range(rec.pick(15, 120)):
            n = rng.randrange(8)
            t = [rng.randrange(2) for _ in range(2 ** n)]
            if rng.random() < 0.7:
                t = t[:2 ** n // 2] + t[:2 ** n // 2][::-1] if n else t
            rec.event('palindrome', {'t': t}, {
                'index': (lambda: tried(lambda: b.symmetric_to_index(sum(v << i for i, v in enumerate(t)), n), big), list)})
            rec.rejects('palindrome refused', {}, lambda: b.symmetric_to_index(1 << 2 ** n | 1, n))


def cosets(p):
    return sorted(sorted(integer(x) for x in block) for block in p.blocks)


def h02_partitions(rec):
    partition = rec.helper(B, 'sierpinski_partition')
    atom_partition = rec.helper(B, 'atom_partition')
    for n in range(1, rec.pick(6, 8)):
        for index in range(2 ** n):
            if rec.mine() and partition:
                rec.event('cosets', {'index': index, 'n': n}, {'blocks': (lambda: partition(index, n), cosets)})
        for i in range(n):
            if rec.mine() and atom_partition:
                rec.event('cosets', {'index': 2 ** i, 'n': n}, {'blocks': (lambda: atom_partition(i, n), cosets)})


def h02(rec):
    h02_partitions(rec)
    h02_tables(rec)
    h02_enumerations(rec)


# ---------------------------------------------------------------- H04

def drawing(text):
    """subpaths of an SVG path with horizontal and vertical lines: [x, y, [[is vertical, distance]...]]"""
    if not re.fullmatch(r'(M\d+,\d+([hv]-?\d+)*[zZ]?)*', text):
        raise Shape(f'not such a path: {text[:99]!r}')
    return [[int(x), int(y), [[c == 'v', int(d)] for c, d in re.findall(r'([hv])(-?\d+)', moves)]]
            for x, y, moves in re.findall(r'M(\d+),(\d+)([^M]*)', text)]


def pictures(rec):
    rng = rec.rng
    sizes = [(1, 1), (1, 2), (2, 2), (2, 3), (3, 2), (3, 3)] + ([] if rec.quick else [(1, 9), (4, 3), (3, 4)])
    for height, width in sizes:
        for k in rec.share(range(2 ** (height * width))):
            yield [[k >> (i * width + j) & 1 for j in range(width)] for i in range(height)]
    for _ in range(rec.pick(50, 500)):
        height, width = rng.randrange(1, 11), rng.randrange(1, 11)
        dense = rng.choice([0.2, 0.5, 0.5, 0.8])
        yield [[int(rng.random() < dense) for _ in range(width)] for _ in range(height)]
    for _ in range(rec.pick(20, 200)):
        # rings within rings, some of them broken
        height, width = rng.randrange(3, 13), rng.randrange(3, 13)
        m = [[(min(i, j, height - 1 - i, width - 1 - j) + 1) % 2 for j in range(width)] for i in range(height)]
        for _ in range(rng.randrange(4)):
            i, j = rng.randrange(height), rng.randrange(width)
            m[i][j] = 1 - m[i][j]
        yield m
    for _ in range(rec.pick(10, 100)):
        # chessboards and stairs, where cells touch in corners
        height, width, step = rng.randrange(1, 10), rng.randrange(1, 10), rng.randrange(2, 5)
        m = [[int((i + j * rng.choice([1, 1, step - 1])) % step == 0) for j in range(width)] for i in range(height)]
        yield m


def h04(rec):
    rng = rec.rng
    outline = rec.helper(A, 'bin2svg')
    if not outline:
        return
    for m in pictures(rec):
        form = rng.choice([np.array, lambda m: np.array(m, bool), lambda m: np.array(m, np.int8), lambda m: m])
        rec.event('outline', {'m': m}, {
            'path': (lambda: outline(form(m)), drawing),
            'kept': (lambda: kept(np.array(m), outline) and kept(m, outline), boolean)})


# ---------------------------------------------------------------- H03

def np_matrices(ms):
    return [np.array(m) for m in ms]


def h03_sorting(rec):
    rng = rec.rng
    h = tools(rec, A, 'sort_together', 'sort_rows_together', 'sort_cols_together', 'sorted_colex', 'swap_matrix_rows')
    b = tools(rec, B, 'sort_each_layer', 'layered_is_greater')
    for _ in range(rec.pick(40, 400)):
        length = rng.randrange(7)
        top = rng.choice([3, 10, 1000])
        lists = [[rng.randrange(top) for _ in range(length)] for _ in range(rng.randrange(1, 4))]
        if h.sort_together:
            rec.event('sort together', {'lists': lists}, {
                'lists': (lambda: h.sort_together(*[rng.choice([list, tuple])(l) for l in lists]), listof(ints)),
                'kept': (lambda: kept(lists, lambda ls: h.sort_together(*ls)), boolean)})
            if len(lists) > 1:
                rec.rejects('sort refused', {}, lambda: h.sort_together(*lists[:-1], lists[-1] + [1]))
        height, widths = rng.randrange(1, 6), [rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))]
        ms = [[[rng.randrange(-top, top) for _ in range(w)] for _ in range(height)] for w in widths]
        turned = [[list(c) for c in zip(*m)] for m in ms]
        top_small = rng.randrange(2) == 1
        if h.sort_rows_together:
            rec.event('sort rows', {'matrices': ms}, {
                'matrices': (lambda: h.sort_rows_together(*np_matrices(ms)), listof(matrix)),
                'kept': (lambda: all(kept(m, lambda x: h.sort_rows_together(x)) for m in np_matrices(ms)), boolean)})
        if h.sort_cols_together:
            rec.event('sort columns', {'matrices': turned, 'top': top_small}, {
                'matrices': (lambda: h.sort_cols_together(*np_matrices(turned), **({'small_on_top': True} if top_small else {})), listof(matrix)),
                'kept': (lambda: all(kept(m, lambda x: h.sort_cols_together(x, small_on_top=top_small)) for m in np_matrices(turned)), boolean)})
        if h.swap_matrix_rows:
            i, j = rng.randrange(height), rng.randrange(height)
            m = ms[0]
            rec.event('swap rows', {'m': m, 'i': i, 'j': j}, {
                'm': (lambda: h.swap_matrix_rows(np.array(m), i, j), matrix),
                'kept': (lambda: kept(np.array(m), lambda x: h.swap_matrix_rows(x, i, j)), boolean)})
            rec.rejects('swap refused', {}, lambda: h.swap_matrix_rows(np.array(m), *rng.sample([i, height], 2)))
        if h.sorted_colex:
            width = rng.randrange(1, 5)
            rows = [[rng.randrange(3) for _ in range(width if rng.random() < 0.8 else rng.randrange(1, 5))] for _ in range(rng.randrange(8))]
            form, outer = rng.choice([list, tuple]), rng.choice([list, tuple])
            rec.event('colex', {'rows': rows}, {
                'rows': (lambda: h.sorted_colex(outer(form(r) for r in rows)), listof(ints)),
                'kept': (lambda: kept(rows, h.sorted_colex), boolean)})
        layers = [[rng.randrange(4) for _ in range(w)] for w in (1, 3, 3, 1)]
        other = rng.choice([[[rng.randrange(4) for _ in l] for l in layers], [rng.sample(l, len(l)) for l in layers], [list(l) for l in layers]])
        if b.sort_each_layer:
            rec.event('sort layers', {'layers': layers}, {
                'layers': (lambda: b.sort_each_layer(layers), listof(ints)), 'kept': (lambda: kept(layers, b.sort_each_layer), boolean)})
        if b.layered_is_greater:
            rec.event('compare layers', {'x': layers, 'y': other}, {'greater': (lambda: b.layered_is_greater(layers, other), boolean)})


def plain(x):
    """a tree of lists, dictionaries and tuples with integers, as nested pairs"""
    if isinstance(x, list):
        return [1, [plain(y) for y in x]]
    if isinstance(x, dict):
        return [2, [[k, plain(y)] for k, y in x.items()]]
    if isinstance(x, tuple):
        return [3, [plain(y) for y in x]]
    return [0, integer(x)]


def random_tree(rng, depth, forms):
    if depth == 0 or rng.random() < 0.25:
        return rng.randrange(10)
    children = [random_tree(rng, depth - 1, forms) for _ in range(rng.randrange(4))]
    form = rng.choice(forms)
    if form is dict:
        return dict(zip(rng.sample(range(10, 99), len(children)), children))
    return form(children)


def items(d):
    return sorted([integer(k), integer(v)] for k, v in d.items())


def h03_rearranging(rec):
    rng = rec.rng
    from discretehelpers.binv import Binv
    h = tools(rec, A, 'vector_zip_apart', 'vector_zip_together', 'inventory_dict', 'inventory_partition', 'inverse_cartesian_product',
              'is_multisubset', 'multiset_to_distri', 'repeat_sequence', 'flatten', 'key_tuples', 'subdict', 'slice_to_range',
              'other_entry_in_pair', 'default_to_regular_dict', 'make_transposition', 'alphabet_subset', 'pretty_signs')
    b = tools(rec, B, 'sequence_to_entry_counts')
    counts_too = rec.helper(A + '.sequence_element_counts', 'sequence_to_entry_counts')
    for _ in range(rec.pick(40, 400)):
        length = rng.randrange(1, 12)
        parts = rng.randrange(1, 5)
        pattern = [rng.randrange(parts) for _ in range(length)]
        v = [rng.randrange(100) for _ in range(length)]
        form, pform = rng.choice([list, tuple]), rng.choice([list, tuple])
        if h.vector_zip_apart:
            rec.event('apart', {'v': v, 'pattern': pattern}, {
                'parts': (lambda: h.vector_zip_apart(form(v), pform(pattern)), listof(ints)),
                'kept': (lambda: kept([v, pattern], lambda x: h.vector_zip_apart(*x)), boolean)})
            if parts == 2:
                t = [x % 2 for x in v]
                rec.event('apart', {'v': t, 'pattern': pattern}, {
                    'parts': (lambda: [check_type(p, Binv) for p in h.vector_zip_apart(Binv(t), Binv(pattern))], listof(bits)),
                    'kept': (lambda: True, boolean)})
            rec.rejects('apart refused', {}, lambda: h.vector_zip_apart(v, rng.choice([pattern + [0], pattern[1:], [x - 7 for x in pattern], [x + 0.5 for x in pattern]])))
        if h.vector_zip_together:
            short = [[x for x, p in zip(v, pattern) if p == k] for k in range(max(pattern) + 1)]
            rec.event('together', {'parts': short, 'pattern': pattern}, {
                'v': (lambda: check_type(h.vector_zip_together([form(s) for s in short], pform(pattern)), form), ints),
                'kept': (lambda: kept([short, pattern], lambda x: h.vector_zip_together(*x)), boolean)})
            rec.rejects('together refused', {}, lambda: h.vector_zip_together(short, rng.choice([pattern + [0], pattern[1:]])))
        values = [rng.randrange(-3, 4) for _ in range(rng.randrange(9))]
        for counts in (b.sequence_to_entry_counts, counts_too):
            if counts:
                rec.event('entry counts', {'s': values}, {'counts': (lambda: counts(form(values)), ints)})
        keys = rng.sample(range(50), len(values))
        d = dict(zip(keys, values))
        shape = rng.choice([dict, lambda x: defaultdict(int, x)])
        if h.inventory_dict:
            rec.event('inventory', {'values': values}, {
                'list': (lambda: list(h.inventory_dict(list(values)).items()), listof(pair)),
                'dict': (lambda: list(h.inventory_dict(shape(d)).items()), listof(pair)),
                'kept': (lambda: kept(list(values), h.inventory_dict) and kept(dict(d), h.inventory_dict), boolean)})
            rec.rejects('inventory refused', {}, lambda: h.inventory_dict(rng.choice([5, 'abc', {1, 2}])))
        if h.inventory_partition:
            def labelled(p):
                return [[iset(k), integer(label)] for k, label in p.block_labels.items()]
            rec.event('inventory partition', {'keys': list(range(len(values))), 'values': values}, {
                'labels': (lambda: labelled(h.inventory_partition(form(values))), list)})
            rec.event('inventory partition', {'keys': keys, 'values': values}, {'labels': (lambda: labelled(h.inventory_partition(shape(d))), list)})
        if h.inverse_cartesian_product:
            left, right = rng.sample(range(20), rng.randrange(1, 4)), rng.sample(range(20), rng.randrange(1, 4))
            pairs = [(x, y) for x in left for y in right]
            rng.shuffle(pairs)
            if rng.random() < 0.3:
                pairs = pairs[1:]
            if rng.random() < 0.2 and pairs:
                pairs.append(rng.choice(pairs))
            rec.event('factors of product set', {'pairs': [list(p) for p in pairs]}, {
                'sides': (lambda: tried(lambda: h.inverse_cartesian_product(list(pairs)), lambda s: [ints(s[0]), ints(s[1])]), list)})
        x = {k: rng.randrange(4) for k in rng.sample(range(6), rng.randrange(5))}
        y = {k: rng.randrange(5) for k in rng.sample(range(6), rng.randrange(3, 7))}
        if h.is_multisubset:
            rec.event('multisubset', {'x': items(x), 'y': items(y)}, {'value': (lambda: h.is_multisubset(x, y), boolean)})
        if h.multiset_to_distri:
            vs = rng.sample(range(6), rng.randrange(3, 7))
            rec.event('distribution', {'x': items(x), 'values': vs}, {'counts': (lambda: tried(lambda: h.multiset_to_distri(x, vs), ints), list)})
        if h.repeat_sequence:
            s = [rng.randrange(9) for _ in range(rng.randrange(1, 5))]
            n = rng.randrange(13)
            rec.event('repeat', {'s': s, 'n': n}, {'s': (lambda: tried(lambda: check_type(h.repeat_sequence(form(s), n), form), ints), list)})
        if h.flatten:
            tree = form([random_tree(rng, 3, [list, tuple]) for _ in range(rng.randrange(4))])
            rec.event('flatten', {'tree': plain(tree)}, {'flat': (lambda: h.flatten(tree), ints), 'kept': (lambda: kept(tree, h.flatten), boolean)})
        if h.key_tuples:
            tree = random_tree(rng, 3, [list, dict, list, dict, tuple])
            if isinstance(tree, (list, dict)):
                rec.event('key tuples', {'tree': plain(tree)}, {
                    'paths': (lambda: h.key_tuples(tree), listof(ints)), 'kept': (lambda: kept(tree, h.key_tuples), boolean)})
            else:
                rec.rejects('key tuples refused', {}, lambda: h.key_tuples(tree))
        if h.subdict:
            drop = rng.sample(range(50), rng.randrange(20))
            fresh = {k: rng.randrange(9) for k in rng.sample(keys + list(range(50, 60)), rng.randrange(4))}
            args = {}
            if rng.randrange(4):
                args['drop'] = rng.choice([list, set, tuple])(drop)
            if rng.randrange(4):
                args['fresh'] = fresh
            rec.event('subdict', {'d': items(d), 'drop': drop if 'drop' in args else [], 'fresh': items(fresh) if 'fresh' in args else []}, {
                'd': (lambda: h.subdict(d, **args), items), 'kept': (lambda: kept([d, fresh], lambda x: h.subdict(x[0], drop, x[1])), boolean)})
        if h.slice_to_range:
            start, stop, step, given = (rng.choice([None, rng.randrange(12)]), rng.choice([None, rng.randrange(12)]),
                                        rng.choice([None, rng.randrange(1, 5)]), rng.choice([None, rng.randrange(12)]))
            a = {'start': start or 0, 'stop': -1 if stop is None else stop, 'step': step or 1, 'given': -1 if given is None else given}
            rec.event('slice', a, {'range': (lambda: tried(lambda: h.slice_to_range(slice(start, stop, step), given), ints), list)})
        if h.other_entry_in_pair:
            p = rng.sample(range(9), 2)
            k = rng.randrange(2)
            rec.event('other entry', {'p': p, 'k': k}, {'entry': (lambda: h.other_entry_in_pair(rng.choice([list, tuple, set])(p), p[k]), integer)})
            rec.rejects('other entry refused', {}, lambda: h.other_entry_in_pair(rng.choice([[1, 2, 3], [1], 'ab', {1: 2, 3: 4}]), 1))
        if h.default_to_regular_dict:
            inner = {k: {j: rng.randrange(9) for j in rng.sample(range(9), rng.randrange(3))} for k in rng.sample(range(9), rng.randrange(4))}

            def regular():
                result = h.default_to_regular_dict(defaultdict(dict, {k: defaultdict(int, v) for k, v in inner.items()}))
                for x in [result, *result.values()]:
                    if type(x) is not dict:
                        raise Shape(f'dict expected: {x!r}')
                return sorted([integer(k), items(v)] for k, v in result.items())
            rec.event('regular', {'d': sorted([k, items(v)] for k, v in inner.items())}, {'d': (regular, list)})
        if h.make_transposition:
            n = rng.randrange(2, 8)
            i, j = rng.randrange(n + 1), rng.randrange(n + 1)
            rec.event('transposition', {'i': i, 'j': j, 'n': n}, {'s': (lambda: tried(lambda: h.make_transposition(i, j, n), ints), list)})


def check_type(x, form):
    if type(x) is not form:
        raise Shape(f'{form.__name__} expected: {x!r}')
    return x


def h03(rec):
    h03_sorting(rec)
    h03_rearranging(rec)
