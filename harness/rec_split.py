"""recordings of Boolf: filtrates, splits, links and bundles, bloat and blot, hypersplits, gaps, segments, fissions"""
import ast
import io
from contextlib import redirect_stdout
from itertools import combinations, permutations

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf

from rec import Lazy, Shape, bits, boolean, ints, integer, iset, listof
from rec_boolf import fn, lazy, random_atoms, random_fn, random_table, reduced_atoms, small_fns


def num(x):
    """also numbers of other libraries"""
    if int(x) != x:
        raise Shape(f'integer expected: {x!r}')
    return integer(int(x))


def nums(xs):
    return [num(x) for x in xs]


def keypair(p):
    a, b = p
    return [integer(a), integer(b)]


def dictionary(key, value):
    return lambda d: [[key(k), value(v)] for k, v in d.items()]


def letter(name):
    """argument with this letter"""
    if not isinstance(name, str) or len(name) != 1 or not 'A' <= name <= 'Z':
        raise Shape(f'letter expected: {name!r}')
    return ord(name) - ord('A')


def name_choice(rec, x):
    """[] for the usual letters, or another letter for each argument"""
    v = len(reduced_atoms(x))
    if v == 0 or max(reduced_atoms(x)) < 26 and rec.rng.random() < 0.6:
        return []
    return rec.rng.sample(range(26), v)


def spelled(names):
    """the letters as an argument for the pretty methods"""
    return [chr(65 + i) for i in names] if names else None


def printed_or_returned(rec, query, names, one_line):
    """the answer itself, or what is read from the printed one: a line with the key, then its entry or the entries of its list"""
    if rec.rng.random() < 0.5:
        return lambda: query()(spelled(names))

    def read():
        out = io.StringIO()
        with redirect_stdout(out):
            if query()(spelled(names), print_only=True) is not None:
                raise Shape('printed and returned')
        answer = {}
        for line in out.getvalue().splitlines():
            if line.startswith('#'):
                key = line.split()[-1]
                key = int(key) if key.isdigit() else key
                if key in answer:
                    raise Shape(f'printed twice: {key!r}')
                answer[key] = []
            else:
                answer[key].append(ast.literal_eval(line))
        return {k: v[0] for k, v in answer.items()} if one_line else answer
    return read


def record_refused_names(rec, x):
    """too few or too many letters, or the same twice"""
    v = len(reduced_atoms(x))
    names = [rec.rng.randrange(26) for _ in range(max(1, v + rec.rng.choice([-1, 0, 1])))]
    if len(set(names)) == v:
        return
    method = rec.rng.choice(['filtrated_pairs_pretty', 'fullspotlinks_by_atom_pretty', 'fullspot_atoms_pretty'])
    rec.rejects('names refused', {'f': x, 'names': names, 'method': method}, lambda: getattr(lazy(x)(), method)(spelled(names)))


def attempts(thunk):
    try:
        thunk()
    except Exception:
        return True
    return False


def euler_table(rng, n):
    """true places that fit random relations between pairs of arguments, some of them missing"""
    t = [1] * 2 ** n
    for _ in range(rng.randrange(0, n + 1) if n > 1 else 0):
        i, j = rng.sample(range(n), 2)
        pattern = rng.choice([(0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 0, 1), (1, 1, 1, 0)] * 4 + [(1, 0, 0, 1), (0, 1, 1, 0)])
        for k in range(2 ** n):
            t[k] &= pattern[(k >> i & 1) + 2 * (k >> j & 1)]
    if rng.random() < 0.15:
        i, e = rng.randrange(n), rng.randrange(2)
        t = [b & (k >> i & 1 == e) for k, b in enumerate(t)]
    if rng.random() < 0.6:
        for _ in range(rng.randrange(1, 4)):
            t[rng.randrange(2 ** n)] = 0
    return t


def grown_table(rng, n):
    """some arguments cross in all combinations, each further one divides or leaves only few of the regions"""
    base = rng.randrange(1, n)
    places = set(range(2 ** base))
    for i in range(base, n):
        usual = rng.randrange(2)
        few = set(rng.sample(sorted(places), min(len(places), rng.choice([1, 1, 2, 3]))))
        divide = rng.random() < 0.6
        places = {k | (1 - usual) << i for k in few} | {k | usual << i for k in places if divide or k not in few}
    flips = rng.randrange(2 ** n)
    order = rng.sample(range(n), n)
    return [int(sum(((k ^ flips) >> i & 1) << order[i] for i in range(n)) in places) for k in range(2 ** n)]


def diagram(rng, n, top=None):
    kind = rng.random()
    t = euler_table(rng, n) if n and kind < 0.55 else grown_table(rng, n) if n > 1 and kind < 0.8 else random_table(rng, n)
    return {'at': random_atoms(rng, n, top), 'tt': t}


def choice_of(rec, quick, thorough, sizes):
    """the small functions, then larger ones"""
    yield from small_fns(rec, 3)
    for _ in range(rec.pick(quick, thorough)):
        yield diagram(rec.rng, rec.rng.choice(sizes))


# ---------------------------------------------------------------- F10

def record_filtrate(rec, x, at):
    rec.event('filtrate', {'f': x, 'at': at}, {'fn': (lambda: lazy(x)().filtrated_boolf(list(at)), fn)})


def relations(d):
    """names or patterns of relations with the pairs of arguments that have them"""
    result = []
    for key, pairs in d.items():
        name = key if len(set(key) - set('01')) else '<<' + ', '.join(key) + '>>'
        result += [[name, [letter(a), letter(b)]] for a, b in pairs]
    return result


def record_pairs(rec, x):
    f = lazy(x)
    v = len(reduced_atoms(x))
    both = list(permutations(range(v), 2))
    pattern = lambda s: bits(int(c) for c in s)
    names = name_choice(rec, x)

    def where(test):
        return lambda: [p for p in both if test(*p)]
    views = {
        'pairs': (lambda: f().filtrated_pairs, dictionary(keypair, pattern)),
        'ordered': (lambda: {p: f().filtrated_pair(*p) for p in both}, dictionary(keypair, pattern)),
        'crossing': (where(lambda a, b: boolean(f().atom_pair_crossing(a, b))), listof(keypair)),
        'subset': (where(lambda a, b: boolean(f().atom_pair_subset(a, b))), listof(keypair)),
        'intersect': (where(lambda a, b: boolean(f().atom_pair_intersect(a, b))), listof(keypair)),
        'border': (where(lambda a, b: not f().atom_pair_crossing(a, b) and boolean(f().atom_border_in_atom_side(a, b))), listof(keypair)),
        'no_border': (where(lambda a, b: attempts(lambda: f().atom_border_in_atom_side(a, b))), listof(keypair)),
        'crossed': (lambda: [f().atom_to_crossing_atoms[i] for i in range(v)], listof(ints)),
        'pretty': (lambda: f().filtrated_pairs_pretty(spelled(names)), relations),
    }
    rec.event('pairs', {'f': x, 'names': names}, views)


def f10(rec):
    rng = rec.rng
    for x in choice_of(rec, 150, 900, [3, 4, 4, 5]):
        record_pairs(rec, x)
        if rng.random() < 0.1:
            record_refused_names(rec, x)
        own = reduced_atoms(x)
        for _ in range(rec.pick(2, 4)):
            record_filtrate(rec, x, rng.sample(own, rng.randrange(len(own) + 1)))
        if rng.random() < 0.3:
            other = rng.choice([a for a in range(max(own, default=0) + 3) if a not in own])
            rec.rejects('filtrate refused', {'f': x, 'at': [other]}, lambda: lazy(x)().filtrated_boolf([other]))
            v = len(own)
            a, b = rng.choice([(0, 0), (v, 0), (0, v), (v, v + 1)])
            query = rng.choice(['atom_pair_crossing', 'atom_pair_subset', 'atom_pair_intersect', 'atom_border_in_atom_side'])
            rec.rejects('not a pair', {'f': x, 'pair': [a, b], 'query': query}, lambda: getattr(lazy(x)(), query)(a, b))
    for _ in range(rec.pick(8, 80)):
        x = diagram(rng, rng.choice([6, 6, 7]))
        own = reduced_atoms(x)
        record_pairs(rec, x)
        record_filtrate(rec, x, rng.sample(own, rng.randrange(len(own) + 1)))


# ---------------------------------------------------------------- F11

def record_splits(rec, x):
    f = lazy(x)
    rec.event('splits', {'f': x}, {
        'splits': (lambda: f().splits, listof(lambda s: [iset(s[0]), iset(s[1])])),
        'counts': (lambda: f().splits_overlap_counts, dictionary(keypair, integer)),
        'equal': (lambda: f().splits_equal, dictionary(keypair, boolean)),
        'onesided': (lambda: f().splits_onesided, listof(boolean)),
        'onesided_keys': (lambda: f().onesided_atomkeys, ints),
        'universe': (lambda: f().onesided_is_universe, dictionary(integer, boolean)),
        'blocks': (lambda: f().splits_equality_blocks, listof(iset)),
        'preferred': (lambda: f().splits_preferred_side, listof(lambda s: [] if s is None else [integer(s)])),
        'distinct': (lambda: f().number_of_distinct_splits, integer),
        'three': (lambda: f().split_pairs_with_3_overlaps, listof(keypair)),
    })


def record_combined(rec, x, keys):
    rec.event('combined', {'f': x, 'keys': keys}, {'parts': (lambda: lazy(x)().splits_combined(list(keys)), listof(iset))})


def record_links(rec, x):
    f = lazy(x)
    v = len(reduced_atoms(x))
    minus = [rec.rng.randrange(2) for _ in range(v)]
    names = name_choice(rec, x)
    by_atom = printed_or_returned(rec, lambda: f().fullspotlinks_by_atom_pretty, names, True)
    rec.event('links', {'f': x, 'minus': minus, 'names': names}, {
        'by_weight': (lambda: f().fullspotlinks_by_weight, lambda d: [[integer(w), keypair(p)] for w, ps in d.items() for p in ps]),
        'number': (lambda: f().number_of_fullspotlinks, integer),
        'by_atom': (by_atom, dictionary(letter, listof(keypair))),
        'spot_names': (lambda: f().fullspot_atoms_pretty(spelled(names)), dictionary(integer, listof(letter))),
        'matrix': (lambda: f().diagonal_adjacency_matrix(minus), listof(ints)),
    })


def record_bundles(rec, x):
    f = lazy(x)
    no = Lazy(lambda: attempts(lambda: f().bundles))
    no_grid = Lazy(lambda: attempts(lambda: f().bundle_grid_partitions))
    names = name_choice(rec, x)
    rec.event('bundles', {'f': x, 'names': names}, {
        'rejected': (no, boolean),
        'bundles': (lambda: [] if no() else f().bundles, listof(iset)),
        'counts': (lambda: {} if no() else f().bundle_overlap_counts,
                   lambda d: [[iset(b), listof(keypair)(c[3]), listof(keypair)(c[4])] for b, c in d.items()]),
        'single': (lambda: False if no() else f().is_bundle, boolean),
        'pretty': (lambda: [] if no() else f().bundles_pretty(spelled(names)), listof(lambda b: sorted(letter(c) for c in b))),
        'grid_rejected': (no_grid, boolean),
        'grid': (lambda: {} if no_grid() else f().bundle_grid_partitions, dictionary(iset, lambda p: [iset(b) for b in p.blocks])),
    })


def f11(rec):
    rng = rec.rng
    for x in choice_of(rec, 150, 900, [3, 4, 4, 5]):
        record_splits(rec, x)
        record_bundles(rec, x)
        record_links(rec, x)
        v = len(reduced_atoms(x))
        for _ in range(rec.pick(1, 3)):
            record_combined(rec, x, rng.sample(range(v), rng.randrange(v + 1)))
    for _ in range(rec.pick(5, 60)):
        x = diagram(rng, 6)
        record_splits(rec, x)
        record_links(rec, x)
        record_bundles(rec, x)


# ---------------------------------------------------------------- F12

def record_blight(rec, x):
    f = lazy(x)
    v = len(reduced_atoms(x))
    pairs = list(combinations(range(v), 2))

    def related(part, test):
        return lambda: [p for p in pairs if boolean(getattr(getattr(f(), part), test)(*p))]

    def universe(part, test):
        return lambda: [i for i in range(v) if boolean(getattr(getattr(f(), part), test)(i, -1))]
    rec.event('blight', {'f': x}, {
        'equal': (related('bloat', 'are_equal'), listof(keypair)),
        'comp': (related('bloat', 'are_comp'), listof(keypair)),
        'blot_true': (universe('blot', 'are_equal'), ints),
        'blot_false': (universe('blot', 'are_comp'), ints),
        'blight_equal': (related('blight', 'are_equal'), listof(keypair)),
        'blight_comp': (related('blight', 'are_comp'), listof(keypair)),
        'blight_true': (universe('blight', 'are_equal'), ints),
        'blight_false': (universe('blight', 'are_comp'), ints),
        'flags': (lambda: [f().is_bloatless, f().is_blotless, f().is_blightless], listof(boolean)),
        'bloat': (lambda: f().bloat_boolf, fn),
        'blot': (lambda: f().blot_boolf, fn),
        'blight': (lambda: f().blight_boolf, fn),
        'bloatless': (lambda: f().bloatless_boolf, fn),
        'blightless': (lambda: f().blightless_boolf, fn),
        'undeflated': (lambda: f().bloatless_atomkeys_undeflated, ints),
        'deflated': (lambda: f().bloatless_atomkeys_deflated, ints),
        'blightless_keys': (lambda: f().blightless_atomkeys, ints),
    })


def record_spots(rec, x):
    f = lazy(x)
    places = range(2 ** len(reduced_atoms(x)))

    def mapped(name):
        def one(k):
            try:
                return [integer(getattr(f(), name)(k))]
            except Shape:
                raise
            except Exception:
                return []
        return lambda: [one(k) for k in places]
    rec.event('spots', {'f': x}, {
        'bloatless': (mapped('bloatless_spotint'), list),
        'blightless': (mapped('blightless_spotint'), list),
        'beyond': (lambda: attempts(lambda: f().bloatless_spotint(len(places))), boolean),
    })


def f12(rec):
    rng = rec.rng
    for x in choice_of(rec, 80, 1200, [3, 4, 4, 5]):
        record_blight(rec, x)
        if reduced_atoms(x):
            record_spots(rec, x)
    for _ in range(rec.pick(5, 60)):
        x = diagram(rng, 6)
        record_blight(rec, x)
        if reduced_atoms(x):
            record_spots(rec, x)


# ---------------------------------------------------------------- F13

def hypersplit_list(f):
    spots = set(f.fullspots)
    return [[integer(n), ints(d['atomkeys']), [iset(b) for b in d['setpart'].blocks_with_singletons(elements=spots)]]
            for n, ds in f.hypersplits.items() for d in ds]


def detailed_list(f):
    return [[integer(n), ints(d['atomkeys']), [[bits(int(c) for c in label), iset(b)] for label, b in d['setpart'].items()]]
            for n, ds in f.hypersplits_detailed.items() for d in ds]


def cores_list(f):
    return [[integer(n), ints(d['fixed']), ints(d['free']), [[integer(k), integer(e)] for k, e in d['determined'].items()],
             [ints(v) for v in d['vectors']]]
            for n, ds in f.hypersplits_potential_cores.items() for d in ds]


def signed_letter(s):
    """argument and sign"""
    if s[:1] not in ('+', '−'):
        raise Shape(f'sign expected: {s!r}')
    return [letter(s[1:]), int(s[0] == '+')]


def pretty_list(answer):
    return [[integer(n), [[[signed_letter(s) for s in label.split(' ')], iset(b)] for label, b in d.items()]]
            for n, ds in answer.items() for d in ds]


def pretty_cores(answer):
    """fixed, free and determined arguments and the vectors in letters and signs"""
    sign = {'−': -1, '0': 0, '+': 1}

    def determined(text):
        return [[letter(s[:-1]), sign[s[-1]]] for s in text.split(' ')] if text else []
    return [[integer(n), [letter(c) for c in d['fixed']], [letter(c) for c in d['free']], determined(d['determined']),
             [[sign[c] for c in v] for v in d['vectors']]]
            for n, ds in answer.items() for d in ds]


def record_hyper(rec, x):
    f = lazy(x)
    names = name_choice(rec, x)
    no = Lazy(lambda: [attempts(lambda: f().hypersplits), attempts(lambda: f().hypersplits_detailed),
                       attempts(lambda: f().hypersplits_potential_cores), attempts(lambda: f().gapless_boolf)])
    pretty = printed_or_returned(rec, lambda: f().hypersplits_pretty, names, False)
    cores = printed_or_returned(rec, lambda: f().hypersplits_potential_cores_pretty, names, False)
    rec.event('hyper', {'f': x, 'names': names}, {
        'rejected': (no, listof(boolean)),
        'splits': (lambda: [] if no()[0] else hypersplit_list(f()), list),
        'detailed': (lambda: [] if no()[1] else detailed_list(f()), list),
        'cores': (lambda: [] if no()[2] else cores_list(f()), list),
        'pretty': (lambda: [] if no()[1] else pretty_list(pretty()), list),
        'pretty_cores': (lambda: [] if no()[2] else pretty_cores(cores()), list),
        'gapless': (lambda: [] if no()[3] else [f().gapless_boolf], listof(fn)),
    })


def record_segments(rec, x):
    f = lazy(x)
    found = Lazy(lambda: f().find_segments())
    pairs = dictionary(integer, listof(keypair))
    rec.event('segments', {'f': x}, {
        'connected': (lambda: found()[0], boolean),
        'segments': (lambda: [[integer(d), ints(v)] for d, vs in found()[1].segments.items() for v in vs], list),
        'numbers': (lambda: found()[1].number_by_dimension, ints),
        'spots': (lambda: found()[1].get_spots(), iset),
        'links': (lambda: found()[1].get_links(), pairs),
        'squares': (lambda: found()[1].get_neighboring_links(), dictionary(integer, listof(lambda s: [keypair(s[0]), keypair(s[1])]))),
    })


def f13(rec):
    rng = rec.rng
    for x in choice_of(rec, 100, 800, [3, 4, 4, 5, 5]):
        record_hyper(rec, x)
        if len(x['at']) <= 4 or rng.random() < 0.3:
            record_segments(rec, x)
    for _ in range(rec.pick(2, 30)):
        record_hyper(rec, diagram(rng, 6))


# ---------------------------------------------------------------- F14

def record_fission(rec, x):
    f = lazy(x)
    no = Lazy(lambda: attempts(lambda: f().fissions))
    pairs = lambda encoder: listof(lambda p: [encoder(p[0]), encoder(p[1])])

    def zipped():
        """every fission put together again by hand"""
        result = []
        for i, (a, b) in enumerate(f().fissions):
            parts = [list(a), list(b)]
            result.append([parts[k >> i & 1].pop(0) for k in range(len(a) + len(b))])
        return result

    def unless(thunk):
        return lambda: [] if no() else thunk()
    rec.event('fission', {'f': x}, {
        'rejected': (no, boolean),
        'parts': (unless(lambda: f().fissions), pairs(bits)),
        'layered': (unless(lambda: f().fissions_layered), pairs(listof(nums))),
        'weight': (unless(lambda: f().fissions_weight), pairs(num)),
        'layer_weight': (unless(lambda: f().fissions_weight_layered), pairs(nums)),
        'walsh': (unless(lambda: f().fission_walsh_spectra), pairs(nums)),
        'walsh_abs': (unless(lambda: f().fission_walsh_spectra_abs), pairs(nums)),
        'walsh_layered': (unless(lambda: f().fission_walsh_spectra_layered), pairs(listof(nums))),
        'walsh_layered_abs': (unless(lambda: f().fission_walsh_spectra_layered_abs), pairs(listof(nums))),
        'zipped': (unless(lambda: f().fission_walsh_spectra_zipped), listof(nums)),
        'abs_zipped': (unless(lambda: f().fission_walsh_spectra_abs_zipped), listof(nums)),
        'again': (unless(zipped), listof(bits)),
    })


def record_hyperfission(rec, x, dims):
    f = lazy(x)
    form = rec.rng.choice([list, tuple])

    def labelled():
        result = f().hyperfission_walsh_spectra_labeled(form(dims))
        if not dims:
            return [[list(range(len(result))), result]]
        return list(result.items())
    rec.event('hyperfission', {'f': x, 'dims': dims}, {
        'parts': (lambda: f().hyperfission(form(dims)), listof(bits)),
        'walsh': (lambda: f().hyperfission_walsh_spectra(form(dims)), listof(nums)),
        'walsh_abs': (lambda: f().hyperfission_walsh_spectra_abs(form(dims)), listof(nums)),
        'layered_abs': (lambda: f().hyperfission_walsh_spectra_layered_abs(form(dims)), listof(listof(nums))),
        'zipped': (lambda: f().hyperfission_walsh_spectra_zipped(form(dims)), nums),
        'labelled': (labelled, listof(lambda p: [nums(p[0]), nums(p[1])])),
    })


def f14(rec):
    rng = rec.rng

    def small():
        yield from small_fns(rec, 3)
        for _ in range(rec.pick(25, 400)):
            n = rng.randrange(2, 5)
            yield {'at': random_atoms(rng, n, 5), 'tt': random_table(rng, n)}
    for x in small():
        own = reduced_atoms(x)
        n = max(own) + 1 if own else 0
        if n > 5:
            x = {'at': sorted(rng.sample(range(4), len(x['at']))), 'tt': x['tt']}
            own = reduced_atoms(x)
            n = max(own) + 1 if own else 0
        record_fission(rec, x)
        for _ in range(rec.pick(1, 3)):
            record_hyperfission(rec, x, rng.sample(range(n), rng.randrange(n + 1)))
    for _ in range(rec.pick(3, 30)):
        x = {'at': list(range(6)), 'tt': random_table(rng, 6)}
        own = reduced_atoms(x)
        n = max(own) + 1 if own else 0
        record_fission(rec, x)
        record_hyperfission(rec, x, rng.sample(range(n), rng.randrange(n + 1)))
