"""recordings of histories of questions: answers do not depend on what was asked before, and nothing is changed by asking"""
import contextlib
import copy
import hashlib
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
from collections import Counter
from fractions import Fraction
from types import GeneratorType

import numpy as np
import sympy

from discretehelpers.binv import Binv
from discretehelpers.boolf import Boolf
from discretehelpers.perm import Perm
from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp
from discretehelpers.sig_perm import SigPerm
from discretehelpers.walsh_perm import WalshPerm

from rec import CALL_LIMIT, Hang, boolean, limited, listof, text
from rec_boolf import random_table, random_atoms


# ---------------------------------------------------------------- values as text

def plain(x):
    """a value as something that can be written as JSON; equal values give equal results"""
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return int(x) if x == int(x) else repr(float(x))
    if isinstance(x, Fraction):
        return ['fraction', x.numerator, x.denominator]
    if isinstance(x, sympy.Basic):
        return ['symbolic', str(x)]
    if isinstance(x, Binv):
        return ['Binv', [int(b) for b in x]]
    if isinstance(x, SigPerm):
        return ['SigPerm', plain(list(x.sequence()))]
    if isinstance(x, WalshPerm):
        return ['WalshPerm', plain(list(x.vector()))]
    if isinstance(x, Perm):
        return ['Perm', plain(list(x.sequence())), int(x.perilen or 0)]
    if isinstance(x, SetPart):
        return ['SetPart', plain(sorted(sorted(b) for b in x.blocks)), plain(x.domain),
                sorted([str(k), plain(v)] for k, v in x.block_labels.items())]
    if isinstance(x, SetPartComp):
        return ['SetPartComp', plain(x.equal_part), plain(set(tuple(sorted(p)) for p in x.comp_pairs))]
    if isinstance(x, Boolf):
        return ['Boolf', [int(b) for b in x.root], plain(list(x.atomvals))]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((plain(e) for e in x), key=lambda e: json.dumps(e, sort_keys=True))
    if hasattr(x, 'items') and hasattr(x, 'keys'):
        return ['dict'] + sorted(([plain(k), plain(v)] for k, v in x.items()), key=lambda e: json.dumps(e, sort_keys=True))
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple, range)) or isinstance(x, GeneratorType) or hasattr(x, '__next__'):
        return [plain(e) for e in x]
    if hasattr(x, 'keys') or hasattr(x, '__iter__'):
        return [plain(e) for e in x]
    return type(x).__name__


def token(x):
    s = json.dumps(plain(x), sort_keys=True)
    return s if len(s) <= 20 else s[:12] + ' ' + hashlib.sha1(s.encode()).hexdigest()[:16]


LIBRARY = (Binv, Perm, SetPart, SetPartComp, Boolf)


# ---------------------------------------------------------------- questions

class Env:
    """the arguments of one history: kept to see that nobody changes them"""

    def __init__(self, subject):
        self.cls, args, kwargs, extra = subject
        self.args, self.kwargs, self.extra = copy.deepcopy(args), copy.deepcopy(kwargs), copy.deepcopy(extra)
        self.before = json.dumps(plain([args, kwargs, extra]), sort_keys=True)
        self.others = None

    def fresh(self):
        return self.cls(*self.args, **self.kwargs)

    def other(self):
        """a second object of the class, the same in the whole history"""
        if self.others is None:
            self.others = self.cls(*self.extra['other'][0], **self.extra['other'][1])
        return self.others

    def kept(self):
        return json.dumps(plain([self.args, self.kwargs, self.extra]), sort_keys=True) == self.before and (
            self.others is None or same(self.others, self.cls(*self.extra['other'][0], **self.extra['other'][1])))


def same(x, y):
    return bool(x == y) and bool(y == x) and plain(x) == plain(y) and repr(x) == repr(y)


def attribute(name):
    return lambda o, v: getattr(o, name)


def printed(thunk):
    """the answer and what is printed on the way"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        x = thunk()
    return [x, out.getvalue()] if out.getvalue() else x


GENERAL = {
    'str': lambda o, v: str(o),
    'repr': lambda o, v: repr(o),
    '== fresh': lambda o, v: o == v.fresh(),
    '== itself': lambda o, v: o == o,
}

HASHED = {'hash': lambda o, v: hash(o)}

COMPARED = {
    '== other': lambda o, v: o == v.other(),
    'other ==': lambda o, v: v.other() == o,
}

ORDERED = {
    '< other': lambda o, v: o < v.other(),
    '> other': lambda o, v: o > v.other(),
    '<= other': lambda o, v: o <= v.other(),
    '>= other': lambda o, v: o >= v.other(),
    'other <': lambda o, v: v.other() < o,
}

BITWISE = {
    '& other': lambda o, v: o & v.other(),
    '| other': lambda o, v: o | v.other(),
    '^ other': lambda o, v: o ^ v.other(),
    'other & it': lambda o, v: v.other() & o,
    'other ^ it': lambda o, v: v.other() ^ o,
    '~': lambda o, v: ~o,
}


def attributes(names):
    return {name: attribute(name) for name in names.split()}


def methods(table):
    """name -> list of argument lists; arguments are functions of the arguments kept by the history"""
    result = {}
    for name, choices in table.items():
        for i, args in enumerate(choices):
            def ask(o, v, name=name, args=args):
                return printed(lambda: getattr(o, name)(*[a(v) if callable(a) else a for a in args]))
            result[name + (' ' + str(i) if len(choices) > 1 else '')] = ask
    return result


def x(key):
    """an argument that belongs to the object"""
    return lambda v: v.extra[key]


BINV = {
    **GENERAL, **HASHED, **COMPARED, **ORDERED, **BITWISE,
    **attributes('vector required_length changes complement exposet intval length pretty reverse set_part string weight'),
    **methods({'bitwise_smaller': [[Env.other]], 'has_index': [[0], [3], [40]], 'flip_bit': [[0], [2], [5]]}),
    '+ other': lambda o, v: o + v.other(),
    'len': lambda o, v: len(o),
    'sum': lambda o, v: sum(o),
    'list': lambda o, v: list(o),
    '[0]': lambda o, v: o[0],
    '[1:3]': lambda o, v: o[1:3],
    'Binv(it)': lambda o, v: Binv(o),
}

PERM = {
    **GENERAL, **HASHED, **COMPARED,
    **attributes('neutral mapping moved length cycle_partition cycles inverse inversion_set left_rank order parity right_rank '
                 'schoute_perm'),
    **methods({
        'apply_on_vector': [[x('vector')]],
        'cycles_dynamic': [[], [8]],
        'sequence': [[], [8], [16]],
    }),
    '* other': lambda o, v: o * v.other(),
    'other *': lambda o, v: v.other() * o,
    '** 2': lambda o, v: o ** 2,
    '** 5': lambda o, v: o ** 5,
    '** -1': lambda o, v: o ** -1,
    '[0]': lambda o, v: o[0],
    '[3]': lambda o, v: o[3],
    '[0:8]': lambda o, v: list(o[0:8]),
}

SIGPERM = {
    **GENERAL, **HASHED, **COMPARED,
    **attributes('neutral length perm binv unsigned unmoved inverse keyneg_index order pair perm_index sequence_minimal '
                 'valneg_index schoute_perm'),
    **methods({
        'apply_on_vector': [[x('vector')]],
        'apply_on_natural_number': [[5], [11]],
        'matrix': [[], [6]],
        'sequence': [[], [6]],
        'sequence_string': [[], [6], [6, True]],
    }),
    '* other': lambda o, v: o * v.other(),
    'other *': lambda o, v: v.other() * o,
    '[0]': lambda o, v: o[0],
    '[-2]': lambda o, v: o[-2],
    '[0:6]': lambda o, v: list(o[0:6]),
}

WALSHPERM = {
    **GENERAL, **HASHED, **COMPARED,
    **attributes('neutral degree length matrix_minimal complement_distance cycle_partition cycles determinant inverse inversion_set '
                 'left_rank mapping moved order parity right_rank transpose'),
    **methods({
        'apply_on_vector': [[x('vector')]],
        'complement_pattern': [[3], [4]],
        'cycles_dynamic': [[], [16]],
        'matrix': [[], [4], [5]],
        'sequence': [[], [16]],
        'transpose_vector': [[], [4]],
        'vector': [[], [4], [5]],
    }),
    '* other': lambda o, v: o * v.other(),
    'other *': lambda o, v: v.other() * o,
    '** 3': lambda o, v: o ** 3,
    '[1]': lambda o, v: o[1],
    '[6]': lambda o, v: o[6],
}

SETPART = {
    **GENERAL, **COMPARED,
    **attributes('blocks domain block_labels non_singletons length trivial canonical_blocks_with_singletons intval pairs singletons'),
    **methods({
        'blocks_with_singletons': [[], [9], [None, [-2, 8]], [None, None, x('elements')]],
        'element_in_domain': [[0], [-1], [99]],
        'element_to_block': [[0], [1], [4]],
        'get_block_from_element': [[0], [2]],
        'get_block_from_label': [['x'], ['y'], ['nothing']],
        'get_label_from_block': [[x('block')]],
        'get_label_from_element': [[0], [3]],
        'join': [[Env.other]],
        'meet': [[Env.other]],
        'pair_in_same_block': [[0, 1], [1, 2]],
        'non_singleton_to_block_index_or_none': [[0], [5]],
    }),
    '<= other': lambda o, v: o <= v.other(),
    '< other': lambda o, v: o < v.other(),
    'other <=': lambda o, v: v.other() <= o,
    'other join': lambda o, v: v.other().join(o),
    'other meet': lambda o, v: v.other().meet(o),
}

SETPARTCOMP = {
    **GENERAL, **COMPARED,
    **attributes('equal_part comp_pairs'),
    **methods({
        'affected_elements': [[]], 'all_complement_pairs': [[]],
        'are_comp': [[0, 1], [2, 3], [0, 4]], 'are_equal': [[0, 1], [2, 3]],
        'boolf': [[]], 'get_block': [[0], [3]], 'get_comp': [[0], [2], [5]], 'get_repr': [[1], [4]],
        'int_matches': [[5], [10], [22]], 'length': [[]], 'number_of_affected_elements': [[]],
        'number_of_related_blocks': [[]], 'related_part': [[]],
    }),
}

BOOLF_ATTRIBUTES = '''
is_constant root atomvals valency adicity
atom_to_crossing_atoms atomvals_integer atomvals_sierpinski blight blight_boolf blightless_atomkeys blightless_boolf bloat
bloat_boolf bloatless_atomkeys_deflated bloatless_atomkeys_undeflated bloatless_boolf blot blot_boolf bundle_grid_partitions
bundle_overlap_counts bundles complement family_is_self_complementary family_malerep family_minrep
filtrated_pairs fission_walsh_spectra fission_walsh_spectra_abs fission_walsh_spectra_abs_zipped fission_walsh_spectra_layered
fission_walsh_spectra_layered_abs fission_walsh_spectra_zipped fissions fissions_layered fissions_weight fissions_weight_layered
fullspot_atoms fullspot_weights fullspotlinks_by_weight fullspots fullspots_by_weight gapless_boolf hypersplits
hypersplits_detailed hypersplits_potential_cores is_blightless is_bloatless is_blotless is_bundle is_linear is_male is_odd is_odious
is_root is_symmetric is_ugly layered_fullspots layered_tt layered_weight number_of_distinct_splits number_of_fullspotlinks
onesided_atomkeys onesided_is_universe prefect_boolf prefect_leader_and_quadrant prefect_tt
prefect_walsh_and_oddness quadrant reverse root_boolf split_pairs_with_3_overlaps splits splits_equal splits_equality_blocks
splits_onesided splits_overlap_counts splits_preferred_side spread_vector symmetric_spots weight_fract zhe
'''

BOOLF_CHEAP = {
    **GENERAL, **HASHED, **COMPARED, **ORDERED, **BITWISE,
    **attributes(BOOLF_ATTRIBUTES),
    **methods({
        **{name: [[], [x('arity')]] for name in (
            'acute_quadrant', 'consul', 'hasse_matrix_coordinates', 'is_noble', 'leader', 'noble_quadrant', 'octant', 'tt', 'twin',
            'walsh_distances', 'walsh_spectrum', 'walsh_spectrum_abs', 'walsh_spectrum_abs_layered', 'walsh_spectrum_layered',
            'weight_quadrant')},
        **{name: [[x('arity')]] for name in (
            'consul_weight', 'is_acute', 'is_rough', 'is_rude', 'is_sharp', 'is_solid', 'patron_boolf', 'patron_index', 'patron_int',
            'patron_king_index_and_quadrant', 'patron_quadrant', 'patron_royal')},
        **{name: [[x('dimensions')]] for name in (
            'hyperfission', 'hyperfission_walsh_spectra', 'hyperfission_walsh_spectra_abs', 'hyperfission_walsh_spectra_labeled',
            'hyperfission_walsh_spectra_layered_abs', 'hyperfission_walsh_spectra_zipped')},
        **{name: [[x('a'), x('b')], [x('b'), x('a')]] for name in (
            'atom_border_in_atom_side', 'atom_pair_crossing', 'atom_pair_intersect', 'atom_pair_subset', 'filtrated_pair')},
        **{name: [[Env.other]] for name in ('bitwise_ge', 'bitwise_gt', 'bitwise_le', 'bitwise_lt')},
        **{name: [[], [x('names')]] for name in (
            'bundles_pretty', 'filtrated_pairs_pretty', 'fullspot_atoms_pretty', 'fullspotlinks_by_atom_pretty',
            'hypersplits_potential_cores_pretty', 'hypersplits_pretty')},
        **{name: [[0], [x('spot')]] for name in ('blightless_spotint', 'bloatless_spotint')},
        'apply_sigperm': [[lambda v: SigPerm(sequence=v.extra['signed'])]],
        'filtrated_boolf': [[x('atoms')]],
        'find_segments': [[]],
        'inflated_fullspots': [[x('more atoms')]],
        'splits_combined': [[x('keys')]],
        'value_fract': [[]],
    }),
    'apply': lambda o, v: o.apply(*v.extra['literals']),
    'val': lambda o, v: o.val(*v.extra['values']),
    'vals': lambda o, v: o.vals(*v.extra['places']),
    'tt atoms': lambda o, v: o.tt(v.extra['more atoms']),
    '[0]': lambda o, v: o[0],
    '[21]': lambda o, v: o[21],
}

# what takes its time for four arguments
BOOLF_CLASSES = {
    **attributes('faction_minrep clan_minrep'),
    **methods({
        'ec_family': [[]], 'ec_family_splinters': [[]], 'ec_faction': [[], [x('arity')]], 'ec_clan': [[]],
        'ec_clan_partitioned': [[]], 'ec_clan_matrix': [[]], 'ec_clan_matrix_wiki': [[]], 'ec_clan_factions': [[x('arity')]],
    }),
}

BOOLF_SMALL = {**BOOLF_CHEAP, **BOOLF_CLASSES}


class Helpers:
    """the helper functions as if they were questions to one object"""

    def __init__(self):
        pass

    def __eq__(self, other):
        return True

    def __repr__(self):
        return 'helpers'


def functions(module, table):
    """name -> list of lists of arguments: numbers as they are, names of arguments as text"""
    result = {}
    for name, choices in table.items():
        for i, args in enumerate(choices):
            def ask(o, v, name=name, args=args):
                f = getattr(importlib.import_module(module), name)
                return printed(lambda: f(*[v.extra[a] if a in v.extra else a for a in args]))
            result[name + (' ' + str(i) if len(choices) > 1 else '')] = ask
    return result


HELPERS = {
    **functions('discretehelpers.a', {
        'vector_zip_apart': [['word', 'pattern']], 'vector_zip_together': [['parts', 'pattern']],
        'sort_together': [['numbers', 'word8']], 'make_atompatterns': [[3], [2]], 'make_atompattern': [[1, 3], [1, 2], [-2, 3]],
        'logic_negate_vector': [['signed', 'bits8']], 'logic_abs_vector': [['signed']], 'logic_str_vector': [['signed']],
        'logic_abs_increase_vector': [['signed', 'signed2']], 'key_tuples': [['nested']], 'sorted_colex': [['sets']],
        'subdict': [['dict', 'few']], 'other_entry_in_pair': [['pair', 3]], 'hypercube_edges': [[2], [3]],
        'multigrade_bitwise': [['numbers', 'and']], 'is_integer_matrix': [['square']], 'integer_determinant': [['square']],
        'inventory_dict': [['word8']], 'inventory_partition': [['word8']], 'prime_factors': [[360], [97]], 'rev_colex_perms': [[3], [4]],
        'int_to_factoradic': [[100]], 'int_to_perm': [[100], [7]], 'bin2svg': [['binary square']],
        'sort_rows_together': [['array']], 'sort_cols_together': [['array']], 'alphabet_subset': [['few']],
        'balanced_ternary_vector_to_string': [['ternary']], 'inverse_cartesian_product': [['product']], 'multi_lcm': [['positive']],
        'walsh_function_to_index': [['walsh']], 'arity_to_walsh_matrix': [[3], [3, True], [2], [2, True]], 'linear_to_walsh_and_oddness': [['walsh']],
        'linear_to_leader_and_quadrant': [['walsh']], 'find_integer_partitions': [[6], [4]], 'is_multisubset': [['few bag', 'bag']],
        'balanced_ternary_walsh_matrix': [[2], [1], [2, True]], 'make_transposition': [[1, 3, 5]], 'powerset': [['few']],
        'repeat_sequence': [['few', 9]], 'pretty_signs': [['signed']], 'flatten': [['nested']], 'int_to_exposet': [[37]],
        'exposet_to_int': [['few']], 'vector_to_int': [['bits8']], 'sierpinski': [['tl', 3], ['br', 3], ['tl', 2]], 'int_to_sierpinski_row': [[11], [6]],
    }),
    **functions('discretehelpers.boolf.a', {
        'reorder_if_atomvals_not_asc': [['binv8', 'atoms3']], 'deflate': [['binv8', 'ascending3']],
        'int_to_rcv': [[13]], 'spotints_to_splits': [['few', 5]],
        'segment_to_adjacent_spots': [['segment']], 'flat_to_layered': [['bits8'], ['bits8', True]],
        'atom_indices_to_sequence': [['small', 8]], 'sequence_to_entry_counts': [['word8']],
        'mod_tt_perm': [['binv8', 'sequence3']], 'mod_tt_neg': [['binv8', 5]], 'sort_each_layer': [['layered']],
        'apply_sigperm_to_colors': [['colors', 3, 'sigperm3']],
        'index_to_noble': [[5, 3], [5, 4]], 'noble_to_index': [[0, 3], [0, 2]], 'atoms_to_and_gen': [['few3', 3]], 'atoms_to_or_gen': [['few3', 3]],
        'atoms_to_xor_gen': [['few3', 3]], 'atoms_to_eq_gen': [['few3', 3]], 'atoms_to_osand_gen': [['few3', 3]],
        'vector_to_twin_gen': [['bits8', 3]], 'exposet_to_twin_gen': [['few3', 3]], 'twin_int': [[100, 3], [100, 4]],
        'zhe_vector_to_prefect_gen': [['bits8', 3]], 'zhe_exposet_to_prefect_gen': [['few3', 3]],
        'sierpinski_partition': [[5, 3], [5, 4]], 'atom_partition': [[1, 3], [1, 2]], 'sierpinski_twin': [['bits4', 2, 3]],
    }),
    **functions('discretehelpers.perm.a', {
        'left_inversion_count': [['perm5']], 'right_inversion_count': [['perm5']], 'inversion_vector': [['perm5']],
        'right_inversion_count_to_permutation': [['factorial']], 'left_inversion_count_to_permutation': [['factorial left']],
        'reduce_period': [['dict2', 8]],
    }),
    **functions('discretehelpers.sig_perm.a', {'sequence_to_matrix': [['signed perm']], 'matrix_to_sequence': [['signed matrix']]}),
    **functions('discretehelpers.walsh_perm.a', {
        'matrix_to_vector': [['invertible'], ['invertible', True]], 'vector_to_matrix': [['rows']], 'shrink_matrix': [['invertible']]}),
    **functions('discretehelpers.binv.a', {'to_string': [['bits8']], 'to_pretty_string': [['bits8']]}),
}

TABLES = {'Helpers': HELPERS, 'Binv': BINV, 'Perm': PERM, 'SigPerm': SIGPERM, 'WalshPerm': WALSHPERM, 'SetPart': SETPART, 'SetPartComp': SETPARTCOMP}


def table_of(obj):
    if isinstance(obj, Boolf):
        return BOOLF_SMALL if obj.adicity <= 3 else BOOLF_CHEAP
    return TABLES[type(obj).__name__]


def inner_table_of(obj):
    table = BOOLF_CHEAP if isinstance(obj, Boolf) else table_of(obj)
    return {name: ask for name, ask in table.items() if name != 'schoute_perm'}  # grows doubly exponentially


# ---------------------------------------------------------------- objects

def bits(rng, n):
    return [rng.randrange(2) for _ in range(n)]


def shuffled(rng, n):
    s = list(range(n))
    rng.shuffle(s)
    return s


def a_binv(rng):
    def one():
        n = rng.randrange(0, 12)
        kind = rng.randrange(4)
        if kind == 0:
            return [[], {'exposet': [i for i in range(n) if rng.random() < 0.5], 'length': n}]
        if kind == 1:
            return [[], {'intval': rng.randrange(2 ** n), 'length': n}]
        if kind == 2:
            return [[Binv(bits(rng, n))], {}]
        return [[bits(rng, n)], {}]
    args, kwargs = one()
    n = len(Binv(*args, **kwargs))
    return Binv, args, kwargs, {'other': rng.choice([one(), [[bits(rng, n)], {}]])}


def a_perm(rng):
    def one():
        n = rng.randrange(2, 7)
        kind = rng.randrange(3)
        s = shuffled(rng, n)
        if kind == 0:
            return [[s], {}]
        if kind == 1:
            return [[s, rng.choice([n, 2 * n, 8])], {}] if rng.random() < 0.5 else [[dict(enumerate(s))], {}]
        k = rng.randrange(1, n)
        return [[[c for c in (s[:k], s[k:]) if len(c) > 1]], {}]
    args, kwargs = one()
    return Perm, args, kwargs, {'other': one(), 'vector': [rng.randrange(9) for _ in range(rng.choice([6, 8]))]}


def a_sigperm(rng):
    def one():
        n = rng.randrange(1, 6)
        signed = [i if rng.random() < 0.5 else ~i for i in shuffled(rng, n)]
        kind = rng.randrange(4)
        if kind == 0:
            return [[], {'valneg': bits(rng, n), 'perm': shuffled(rng, n)}]
        if kind == 1:
            return [[], {'pair': [rng.randrange(2 ** n), rng.randrange(24)]}]
        if kind == 2:
            return [[], {rng.choice(['valneg', 'keyneg']): Binv(bits(rng, n)), 'perm': Perm(shuffled(rng, n))}]
        return [[], {'sequence': signed}]
    args, kwargs = one()
    return SigPerm, args, kwargs, {'other': one(), 'vector': [rng.randrange(9) for _ in range(6)]}


def a_walshperm(rng):
    def one():
        n = rng.randrange(2, 5)
        rows = [1 << i for i in range(n)]
        for _ in range(12):
            i, j = rng.sample(range(n), 2)
            rows[i] ^= rows[j]
        kind = rng.randrange(4)
        if kind == 0:
            return [[], {'matrix': WalshPerm(rows).matrix(n)}]
        if kind == 1:
            return [[], {'perm': Perm(list(WalshPerm(rows).sequence(2 ** n)))}]
        return [[rows], {}]
    args, kwargs = one()
    return WalshPerm, args, kwargs, {'other': one(), 'vector': [rng.randrange(9) for _ in range(16)]}


def a_setpart(rng):
    domain = rng.choice(['N', 'N', 'Z', [0, 1, 2, 3, 4, 5, 7], {0, 1, 2, 3, 4, 5, 7}])
    pool = [0, 1, 2, 3, 4, 5, 7] if domain != 'Z' else [0, 1, 2, 3, 4, -1, -2]

    def one():
        blocks = {}
        for e in rng.sample(pool, len(pool)):
            blocks.setdefault(rng.randrange(5), []).append(e)
        return [[list(blocks.values()), copy.copy(domain)], {}]
    args, kwargs = one()
    blocks = sorted(sorted(b) for b in args[0] if len(b) > 1)
    if blocks and rng.random() < 0.6:
        kwargs = {'block_labels': {tuple(b): name for b, name in zip(rng.sample(blocks, len(blocks)), 'xyz')}}
    return SetPart, args, kwargs, {'other': one(), 'elements': rng.sample(pool, 4), 'block': blocks[0] if blocks else [0, 1]}


def a_setpartcomp(rng):
    def one():
        pool = rng.sample([0, 1, 2, 3, 4, 5, 6], 7)
        blocks, pairs = [], []
        while len(pool) >= 4 and rng.random() < 0.8:
            b = [pool.pop() for _ in range(rng.randrange(1, 3))]
            c = [pool.pop() for _ in range(rng.randrange(1, 3))]
            blocks += [b, c]
            if rng.random() < 0.7:
                pairs.append([rng.choice(b), rng.choice(c)])
        if rng.random() < 0.4:
            return [[SetPart(blocks, 'Z'), pairs], {}]
        return [[blocks, pairs], {}]
    args, kwargs = one()
    return SetPartComp, args, kwargs, {'other': one()}


def a_boolf(rng, n):
    def one():
        if rng.random() < 0.3:
            return [[Binv(random_table(rng, n)), random_atoms(rng, n, max(n, 4))], {}]
        return [[random_table(rng, n), random_atoms(rng, n, max(n, rng.choice([3, 3, 4, 5])))], {}]
    kind = rng.randrange(10)
    if kind == 0:
        args, kwargs = [], {rng.choice(['multi_and', 'multi_or', 'multi_xor']): [rng.choice([a, ~a]) for a in random_atoms(rng, max(n, 1), max(n, 4))]}
    elif kind == 1:
        args, kwargs = [], {'fullspots': sorted(rng.sample(range(2 ** max(n, 1)), 2 ** max(n, 1) // 2)), 'atomvals': list(range(max(n, 1)))}
    else:
        args, kwargs = one()
    f = Boolf(*copy.deepcopy(args), **copy.deepcopy(kwargs))
    at = list(f.atomvals)
    m = f.valency
    arity = f.adicity + (rng.randrange(2) if f.adicity < 4 else 0)
    a, b = rng.sample(range(max(m, 2)), 2)
    keys = shuffled(rng, m)[:rng.randrange(1, m + 1)] if m else []
    other = one()
    if rng.random() < 0.5 and at:
        other = [[random_table(rng, len(at)), rng.sample(at, len(at))], {}]
    return Boolf, args, kwargs, {
        'other': other, 'arity': max(arity, 2), 'dimensions': shuffled(rng, f.adicity)[:rng.randrange(3)],
        'a': a, 'b': b, 'names': [chr(97 + i) * 2 for i in range(m)], 'spot': rng.randrange(2 ** max(m, 1)),
        'signed': [i if rng.random() < 0.5 else ~i for i in shuffled(rng, max(f.adicity, 2))],
        'atoms': rng.sample(at, rng.randrange(len(at) + 1)), 'more atoms': sorted(set(at) | {max(at, default=0) + 1}),
        'keys': keys, 'literals': [i if rng.random() < 0.5 else ~i for i in rng.sample(range(9), m)],
        'values': bits(rng, m), 'places': [i if rng.random() < 0.5 else ~i for i in shuffled(rng, m)],
    }


def a_helper(rng):
    def word(n, top):
        return [rng.randrange(top) for _ in range(n)]
    n = rng.randrange(3, 6)
    square = [[rng.randrange(-3, 4) for _ in range(n)] for _ in range(n)]
    rows = [rng.choice([1, 3, 5, 7]), rng.choice([2, 6]), 4]
    degree = len(rows)
    signed = [i if rng.random() < 0.5 else ~i for i in shuffled(rng, 4)]
    pattern = rng.choice([[0, 1], [1, 0, 0, 1], [0, 1, 2, 2]]) * 3
    number = len(pattern)
    mask = rng.randrange(16)
    walsh = [bin(i & mask).count('1') % 2 for i in range(16)]
    spots = sorted(rng.sample(range(8), 3))
    return Helpers, [], {}, {
        'word': word(number, 5), 'pattern': pattern,
        'parts': [word(pattern.count(k), 9) for k in sorted(set(pattern))],
        'numbers': rng.sample(range(40), 8), 'word8': word(8, 4), 'signed': [rng.choice([a, ~a]) for a in word(8, 6)], 'bits8': bits(rng, 8),
        'nested': [[1, 2], [3, [4, 5]], 6], 'sets': [sorted(rng.sample(range(6), 3)) for _ in range(5)],
        'dict': {i: rng.randrange(9) for i in range(7)}, 'few': sorted(rng.sample(range(7), 3)), 'pair': [3, rng.randrange(3)],
        'square': square, 'binary square': [bits(rng, n) for _ in range(n)], 'ternary': [rng.randrange(-1, 2) for _ in range(6)],
        'product': [(i, j) for i in spots[:2] for j in spots], 'positive': [1 + e for e in word(6, 30)], 'walsh': walsh,
        'binv8': Binv(bits(rng, 8)), 'atoms3': rng.sample(range(6), 3), 'ascending3': sorted(rng.sample(range(6), 3)),
        'segment': bits(rng, 8), 'small': sorted(rng.sample(range(3), 2)),
        'sequence3': shuffled(rng, 3), 'array': np.array(square), 'signed2': [rng.randrange(4) for _ in range(8)],
        'bag': Counter([0, 1, 1, 2, 2, 2]), 'few bag': Counter(word(3, 3)), 'bits4': bits(rng, 4), 'sigperm3': SigPerm(sequence=[i if rng.random() < 0.5 else ~i for i in shuffled(rng, 3)]),
        'colors': {'red': spots, 'blue': sorted(set(range(8)) - set(spots))[:2]}, 'few3': sorted(rng.sample(range(3), 2)),
        'layered': [[3, 1], [2, 0, 5], word(4, 9)], 'perm5': shuffled(rng, 5), 'factorial': [3, 2, rng.randrange(3), rng.randrange(2), 0],
        'factorial left': [0, rng.randrange(2), rng.randrange(3), 2, 3], 'dict2': {0: 1, 1: 0, 2: 3, 3: 2, 4: 5, 5: 4, 6: 7, 7: 6},
        'signed perm': signed, 'signed matrix': SigPerm(sequence=signed).matrix(4), 'rows': rows,
        'invertible': WalshPerm(rows).matrix(degree), 'other': [[], {}],
    }


MAKERS = {'Helpers': a_helper, 'Binv': a_binv, 'Perm': a_perm, 'SigPerm': a_sigperm, 'WalshPerm': a_walshperm, 'SetPart': a_setpart, 'SetPartComp': a_setpartcomp}


# ---------------------------------------------------------------- asking

def attempt(ask, obj, env, limit):
    """the answer, or the kind of exception"""
    try:
        return True, limited(lambda: ask(obj, env), limit)
    except Exception as e:
        return False, 'raises ' + type(e).__name__


def asked(ask, obj, env, limit=CALL_LIMIT):
    good, answer = attempt(ask, obj, env, limit)
    if not good:
        return None, answer
    if isinstance(answer, GeneratorType) or hasattr(answer, '__next__'):
        answer = list(answer)
    return answer, token(answer)


def in_child(thunk):
    """the result of a computation in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(thunk(), f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def in_time(thunk):
    """questions that take too long are left out"""
    start = time.time()
    try:
        result = thunk()
    except Hang:
        return None, None
    return result if time.time() - start < 3 else (None, None)


def reference(subject, deep):
    """answers of fresh objects: to every question, and to questions to the objects that some answers are"""
    env = Env(subject)
    known, inner = {}, {}
    table = table_of(env.fresh())
    for name, ask in table.items():
        env = Env(subject)
        answer, t = in_time(lambda: asked(ask, env.fresh(), env, 6))
        if t is None:
            continue
        known[name] = t
        if isinstance(answer, LIBRARY) and type(answer).__name__ == env.cls.__name__:
            inner[name] = list(inner_table_of(answer))
    rng = random.Random(json.dumps(known))
    chosen = rng.sample(sorted(inner), min(len(inner), deep))
    for name in chosen:
        for second in rng.sample(inner[name], min(len(inner[name]), 2 * deep)):
            env = Env(subject)
            answer = table[name](env.fresh(), env)
            t = in_time(lambda: asked(inner_table_of(answer)[second], answer, env, 6))[1]
            if t is not None:
                known[name + ' / ' + second] = t
    inner = {k: [s for s in inner[k] if k + ' / ' + s in known] for k in chosen}
    return {'known': known, 'inner': {k: seconds for k, seconds in inner.items() if seconds}}


class History:
    """one or two objects with the same arguments, and the answers of the first that are objects"""

    def __init__(self, subject):
        self.env = Env(subject)
        self.objects = {}
        self.derived = {}
        self.asked, self.answers, self.held = [], [], []

    def object(self, who):
        if who not in self.objects:
            self.objects[who] = self.env.fresh()
        return self.objects[who]

    def ask(self, who, name):
        o = self.object(who)
        answer, t = asked(table_of(o)[name], o, self.env)
        self.note(name, answer, t)
        if isinstance(answer, LIBRARY):
            self.derived.setdefault(name, answer)

    def ask_derived(self, name, second):
        if name not in self.derived:
            self.ask(1, name)
        if name in self.derived:
            o = self.derived[name]
            answer, t = asked(inner_table_of(o)[second], o, self.env)
            self.note(name + ' / ' + second, answer, t)

    def note(self, name, answer, t):
        self.asked.append(name)
        self.answers.append(t)
        self.held.append((answer, t))

    def still(self):
        other = Env((self.env.cls, self.env.args, self.env.kwargs, self.env.extra)).fresh()
        return all(same(o, other) for o in self.objects.values())

    def later(self):
        return all(t.startswith('raises ') or token(answer) == t for answer, t in self.held)


def record(rec, subject, play):
    h = History(subject)
    a = {'cls': subject[0].__name__, 'args': repr(subject[1:3])[:400], 'extra': repr(subject[3])[:600], 'asked': h.asked}

    def answers():
        play(h)
        return h.answers
    rec.event('history', a, {
        'answers': (answers, listof(text)), 'still': (h.still, boolean), 'kept': (h.env.kept, boolean), 'later': (h.later, boolean),
    })


def histories(rec, subject, ref, words):
    rng = rec.rng
    known, inner = ref['known'], ref['inner']
    names = [n for n in known if ' / ' not in n]
    rec.event('object', {'cls': subject[0].__name__, 'args': repr(subject[1:3])[:400], 'known': known}, {})

    # everything in some order, and in the reverse order on another object, and everything again
    order = rng.sample(names, len(names))
    for sequence in (order, order[::-1], names, order[::2] + order):
        record(rec, subject, lambda h, s=sequence: [h.ask(1, n) for n in s])
    # two objects that were made from the same arguments, in turns
    mixed = [(rng.choice([1, 2]), n) for n in rng.sample(names, len(names)) for _ in range(2)]
    record(rec, subject, lambda h: [h.ask(w, n) for w, n in mixed])
    # answers that are objects, asked themselves, between questions to the object
    if inner:
        parts = []
        for n in inner:
            for s in rng.sample(inner[n], min(len(inner[n]), 12)):
                parts.append((n, s))
                parts.append((None, rng.choice(names)))
        rng.shuffle(parts)
        record(rec, subject, lambda h: [h.ask_derived(n, s) if n else h.ask(1, s) for n, s in parts])
    # the words of the specification, with these questions in their places
    rng.shuffle(words)
    for word in words:
        places = [rng.choice(names) for _ in range(3)]
        if inner and any(o == 3 for o, _ in word):
            places[0] = rng.choice(sorted(inner))
        seconds = [rng.choice(inner[places[0]]) for _ in range(3)] if places[0] in inner else places

        def play(h, word=word, places=places, seconds=seconds):
            for o, p in word:
                if o == 3 and places[0] in inner:
                    h.ask_derived(places[0], seconds[p - 1])
                else:
                    h.ask(min(o, 2), places[p - 1])
        record(rec, subject, play)


def x01(rec):
    rng = rec.rng
    with open(os.path.join(os.environ['VERIF_STEPS'], 'steps-Gen_Pure.ndjson')) as f:
        words = [json.loads(line) for line in f]
    kinds = (sorted(MAKERS) + ['Boolf'] * 2) * rec.pick(8, 30)
    rng.shuffle(kinds)
    # which objects there are is decided in a process of its own, for nothing may be asked in this one before the answers of fresh objects

    def subject(i):
        rng.seed(f'{rec.seed}/{rec.shard}/{i}')
        kind = kinds[i]
        if kind == 'Boolf':
            return a_boolf(rng, rng.choice([0, 1, 2, 2, 3, 3, 3, 3, 3, 4, 4]))
        return MAKERS[kind](rng)

    start = time.time()
    refs = []
    for i in range(len(kinds)):
        if time.time() - start < 250:  # enough for all of them unless the machine is busy
            refs.append(in_child(lambda: reference(subject(i), rec.pick(12, 20))))
    each = rec.pick(60, 200)
    for i, ref in enumerate(refs):
        if time.time() - start < 600:
            histories(rec, subject(i), ref, rng.sample(words, each))
