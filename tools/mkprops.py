#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit titles, statements, anchors)."""
import json
import os

D = 'discretehelpers/'
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': [D + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


# ---------------------------------------------------------------- binary vectors
prop('B01', 'A binary vector is the same however it is built and however it is viewed',
     'A binary vector given as list, tuple, string (spaces ignored), array, natural number or set of positions '
     '(padded to a requested or minimal length) denotes one finite little-endian bit sequence. '
     'Length, weight, number of changes, integer value, position set, strings, complement, reversal, membership, '
     'indexing, slicing and the induced two-block partition are exactly those of that sequence, at any length. '
     'Arguments that denote no such sequence (non-binary entries, too small length, no or several sources) are rejected.',
     ['inputs'], 'every bit sequence of every length, and every admissible way of writing it down',
     'The tests pin a handful of short vectors; nothing quantifies over lengths beyond 64 bits, over pairs of '
     'construction routes, or over the values where floating-point logarithms round the wrong way.',
     ['binv/__init__.py', 'binv/a', 'binv/metributes', 'binv/methods'],
     [('constructor cases vector/intval/exposet', D + 'binv/__init__.py'),
      ('lazily computed views of the stored list', D + 'binv/metributes')],
     [('vector', 'the little-endian bit sequence', D + 'binv/__init__.py')],
     ['public attributes and methods of Binv'])

prop('B02', 'Binary vector operators are pointwise, ordered lexicographically and pure',
     'For binary vectors of equal length and, or, xor and not act place by place and strict bitwise inclusion is the '
     'corresponding partial order; concatenation appends; flipping changes exactly the given place. '
     'Comparison is the lexicographic total order on bit sequences, equality holds exactly for identical sequences, '
     'and equal vectors hash alike. No operator changes its operands.',
     ['inputs'], 'every pair of bit sequences of every length',
     'Tests show single examples per operator; they do not range over pairs, lengths, or repeated use of the same operands.',
     ['binv/methods/bitwise.py', 'binv/methods/comparisons.py', 'binv/methods/str.py', 'binv/__init__.py'],
     [('list-wise operator application', D + 'binv/methods/bitwise.py'),
      ('list comparison', D + 'binv/methods/comparisons.py')])

# ---------------------------------------------------------------- permutations
prop('P01', 'A permutation is the same however it is written, with minimal period',
     'A permutation of the naturals written as a sequence, as cycles or as a mapping, finite or repeated with a period, '
     'denotes one bijection; indexing, slices, sequences of any admissible length and the cycle decomposition agree with '
     'that bijection. Two permutations of the same kind are equal (and hash alike) exactly when they denote the same '
     'bijection, because the stored period is the smallest one. Sequences, cycles or mappings that are not bijective, '
     'and unusable periods or lengths, are rejected.',
     ['inputs'], 'every finitely supported or periodic permutation and every way of writing it',
     'Tests check a few hand-picked permutations; the period reduction in particular is exercised on a few examples only.',
     ['perm/__init__.py', 'perm/a/reduce_period', 'perm/metributes/cycles.py', 'perm/metributes/cycle_partition'],
     [('normalisation of arguments into a mapping of moved points', D + 'perm/__init__.py'),
      ('period reduction', D + 'perm/a/reduce_period/__init__.py')],
     [('mapping', 'moved points', D + 'perm/__init__.py'), ('perilen', 'period', D + 'perm/__init__.py')])

prop('P02', 'Permutations compose, invert and power as bijections and act on vectors',
     'A product is the left factor after the right one at every natural number, also for periodic factors of different '
     'periods; the inverse undoes the permutation, any integer power is the repeated product, and the order is the least '
     'positive power that is neutral. Applying a permutation to a vector moves each entry to the image of its place, so '
     'applying a product equals applying the right factor and then the left one. Mixing finite with periodic factors is rejected.',
     ['inputs'], 'every pair of finite or periodic permutations, every exponent, every vector',
     'The tests multiply a few fixed permutations; associativity, action and mixed periods are universally quantified.',
     ['perm/__init__.py', 'perm/a/broaden_moved', 'perm/metributes/inverse.py', 'perm/metributes/order.py'],
     [('product over the common period', D + 'perm/__init__.py'),
      ('widening of moved sets', D + 'perm/a/broaden_moved/__init__.py')])

prop('P03', 'Permutation ranks, inversions, parity and cycles are mutually consistent',
     'The left rank numbers finite permutations in reverse colexicographic order and the right rank in lexicographic '
     'order; rank to permutation and back is the identity, and the enumeration of all permutations of n elements is '
     'exactly the one by left rank. Inversion sets, left and right inversion counts and inversion vectors determine the permutation and '
     'convert into each other without loss, and the parity is that of the number of inversions. The enumerated permutations that '
     'send one given subset of places to another are exactly those with that property.',
     ['inputs'], 'every finite permutation, every rank, every pair of subsets',
     'Only small tables are compared in tests; bijectivity of ranks is a statement about all of them.',
     ['perm/metributes/ranks', 'perm/metributes/inversion_set', 'perm/metributes/parity', 'perm/a/inversion_related_vectors',
      'a/int_to_perm', 'a/int_to_factoradic', 'a/rev_colex_perms', 'a/schoute_coset_gen', 'a/make_transposition'],
     [('factoradic of inversion counts', D + 'perm/metributes/ranks'),
      ('coset generation', D + 'a/schoute_coset_gen/__init__.py')])

# ---------------------------------------------------------------- signed permutations
prop('S01', 'All descriptions of a signed permutation denote the same one',
     'A signed permutation given by negated values or negated places with a permutation, by an index pair, by a signed '
     'sequence, by a signed permutation matrix or by its action on hypercube vertices is one and the same object, and each of '
     'these descriptions can be read back from it, at any admissible size. Equality (also with unsigned permutations), hashing and printing depend '
     'on nothing but the signed permutation denoted. Descriptions that denote no signed permutation are rejected.',
     ['inputs'], 'every signed permutation and every description of it, including padded ones',
     'The tests convert single examples between representations; round trips are not checked for whole groups or with padding.',
     ['sig_perm/__init__.py', 'sig_perm/a', 'sig_perm/metributes', 'perm/metributes/schoute_perm'],
     [('argument normalisation to negator vector and permutation', D + 'sig_perm/__init__.py'),
      ('matrix and sequence conversion', D + 'sig_perm/a')],
     [('binv', 'negated values', D + 'sig_perm/__init__.py'), ('perm', 'unsigned part', D + 'sig_perm/__init__.py')])

prop('S02', 'Signed permutations form a group acting on vectors and hypercube vertices',
     'Products of signed permutations correspond to products of their matrices and inverses to transposes, for any '
     'combination of sizes. Acting on vectors, natural numbers and hypercube vertices is a group action: acting with a product equals acting '
     'with the right factor and then with the left one, and the vertex permutation of a product is the product of the vertex permutations.',
     ['inputs'], 'every pair of signed permutations, every vector and natural number',
     'Homomorphism laws quantify over pairs; the tests contain single instances.',
     ['sig_perm/__init__.py', 'sig_perm/metributes/inverse.py', 'perm/metributes/schoute_perm', 'sig_perm/a'],
     [('matrix product', D + 'sig_perm/__init__.py'), ('transpose', D + 'sig_perm/metributes/inverse.py')])

# ---------------------------------------------------------------- Walsh permutations
prop('W01', 'A Walsh permutation is exactly an invertible binary matrix',
     'A Walsh permutation given by compression vector, by binary matrix or by permutation denotes the linear bijection '
     'of bit vectors with that matrix; vector, transposed vector, matrix, mapping, sequence, cycles, complement pattern and determinant '
     'all describe this map at every requested degree, and equality ignores trailing identity dimensions. '
     'Singular matrices, non-square matrices and non-linear permutations are rejected.',
     ['inputs'], 'every binary matrix and every permutation of a power-of-two length',
     'The tests contain a few matrices of degree 3 and 4; invertibility is decided implicitly and never checked for all matrices.',
     ['walsh_perm/__init__.py', 'walsh_perm/a', 'walsh_perm/methods', 'walsh_perm/metributes', 'a/walsh_function_to_index',
      'a/integer_determinant'],
     [('matrix shrinking and long-matrix expansion', D + 'walsh_perm'),
      ('verification inside the mapping', D + 'walsh_perm/metributes/mapping/__init__.py')],
     [('matrix_minimal', 'binary matrix without trailing identity', D + 'walsh_perm/__init__.py')])

prop('W02', 'Walsh permutations multiply, invert and transpose like their matrices',
     'Products, inverses, transposes and integer powers of Walsh permutations are those of their matrices over the two-element field '
     'and, at the same time, those of the underlying permutations, for all degrees and combinations of degrees. '
     'A product with a periodic permutation is the composition of the two bijections.',
     ['inputs'], 'every pair of invertible binary matrices, of equal or different size',
     'Inversion goes through floating-point matrices with a fallback; tests cannot enumerate the matrices for which rounding matters.',
     ['walsh_perm/__init__.py', 'walsh_perm/metributes/inverse', 'walsh_perm/metributes/transpose', 'a/is_integer_matrix'],
     [('floating-point inverse with fallback to cycles', D + 'walsh_perm/metributes/inverse/__init__.py'),
      ('matrix product modulo 2', D + 'walsh_perm/__init__.py')])

# ---------------------------------------------------------------- set partitions
prop('T01', 'After any history a set partition is exactly what merges and refinements say',
     'After any sequence of merges and refinements, interleaved with any queries, two elements are in the same block exactly when '
     'the executed operations put them there, and every view (blocks, blocks with singletons, singletons, pairs, integer value, length, '
     'membership queries, equality, printing) describes this current partition, for natural, integer and finite domains. '
     'An operation that is rejected (element outside the domain, blocks that do not split an existing block) changes nothing, and overlapping blocks are rejected.',
     ['histories', 'inputs', 'configurations'], 'every sequence of operations and queries over every kind of domain',
     'Tests run a few short scripts and never query before and after a change; stale cached views need exactly such histories.',
     ['set_part/__init__.py', 'set_part/methods/merge_pair', 'set_part/methods/merge_many', 'set_part/methods/refine_block',
      'set_part/methods/blocks_with_singletons', 'set_part/metributes'],
     [('re-initialisation after each change', D + 'set_part/methods/merge_pair/__init__.py'),
      ('cached views', D + 'set_part/metributes')],
     [('blocks', 'non-trivial blocks', D + 'set_part/__init__.py'),
      ('non_singleton_to_block_index', 'element to block', D + 'set_part/__init__.py')])

prop('T02', 'Block labels follow their blocks through merges and refinements',
     'At any time blocks and labels are in one-to-one correspondence: giving a label to an element labels its block, giving the same label '
     'to elements of different blocks merges these blocks, a merged block inherits the label of its parts, and a refined block passes on '
     'exactly the new labels. Looking up label by element or block and block by label are inverse to each other. '
     'Two different labels for one block are rejected, and a rejected operation changes nothing.',
     ['histories', 'inputs'], 'every sequence of labelling, merging and refining operations',
     'Labelled histories in tests are short scripts; the interaction of labels with merges and refinements is a property of all histories.',
     ['set_part/methods/block_labels', 'set_part/methods/merge_pair', 'set_part/methods/refine_block', 'a/inventory_partition'],
     [('bidirectional dictionary of block tuples and labels', D + 'set_part/methods/block_labels/__init__.py')],
     [('block_labels', 'block to label', D + 'set_part/__init__.py')])

prop('T03', 'Meet, join and order make set partitions a lattice over one domain',
     'The meet of two partitions relates exactly the elements related by both, the join is the finest partition coarser than both, '
     'and one partition is below another exactly when each of its blocks lies in a block of the other. '
     'This holds for natural, integer and finite domains; the result has the domain of its operands, operands are not changed, and operands with different '
     'domains are rejected. ',
     ['inputs', 'configurations'], 'every pair of partitions over every kind of domain',
     'Tests compare a fast variant with a slow one on natural numbers only; other domains and the order are hardly touched.',
     ['set_part/methods/meet_and_join', 'set_part/__init__.py'],
     [('block expansion', D + 'set_part/methods/meet_and_join/join/_1_fast.py'),
      ('pairwise block intersection', D + 'set_part/methods/meet_and_join/meet.py')])

prop('C01', 'Equalities and complements: exactly the consequences of what was stated',
     'After any sequence of accepted statements "a equals b" and "a complements b", two elements are reported equal (or '
     'complementary) exactly when this follows from the statements (equality is an equivalence, complements of complements are equal), '
     'and the stored form is the canonical one. A statement contradicting what already follows is rejected and changes nothing.',
     ['histories', 'inputs'], 'every sequence of equality and complement statements',
     'Tests replay one illustrated example; which pairs are entailed depends on the whole history.',
     ['set_part_comp/__init__.py', 'set_part_comp/methods/set_equal', 'set_part_comp/methods/set_comp', 'set_part_comp/helpers.py'],
     [('case distinction by known complements', D + 'set_part_comp/methods/set_comp/__init__.py'),
      ('representatives', D + 'set_part_comp/helpers.py')],
     [('equal_part', 'equality classes', D + 'set_part_comp/__init__.py'),
      ('comp_pairs', 'complementary representatives', D + 'set_part_comp/__init__.py')])

prop('C02', 'All views of an equality-complement structure describe one constraint',
     'The related partition, the complement pairs, representatives, blocks, affected elements and counts are those of the '
     'entailed relation; the Boolean function made from it is true exactly for the assignments that respect all equalities and complements, and a natural number '
     'matches exactly when its binary digits do. Building the structure from blocks and complement pairs is the same as stating them one by one.',
     ['inputs', 'histories'], 'every consistent system of equalities and complements',
     'Tests compare single examples of each view, never the views with each other for all structures.',
     ['set_part_comp/__init__.py', 'set_part_comp/methods'],
     [('conversion to a Boolean function', D + 'set_part_comp/methods/boolf/__init__.py'),
      ('number matching', D + 'set_part_comp/methods/int_matches/__init__.py')])

# ---------------------------------------------------------------- Boolean functions
prop('F01', 'Boolean functions are stored canonically: equal exactly if the same function',
     'A Boolean function given by truth table (with or without argument names in any order), by integer and arity, by true places, by signed atom, '
     'by a conjunction, disjunction or parity of atoms or functions, by Zhegalkin index or by Walsh spectrum is reduced to the arguments it depends on, in ascending order. '
     'Hence two functions compare equal (and hash alike) exactly when they have the same value for every assignment, and '
     'valency, adicity, root, argument list and printed expression are those of the function. Arguments that denote no function are rejected.',
     ['inputs'], 'every Boolean function of every arity and every way of writing it',
     'The tests list README-sized examples; canonicity quantifies over all functions, argument orders and construction routes.',
     ['boolf/__init__.py', 'boolf/subinit_methods', 'boolf/a/deflate', 'boolf/a/reorder_if_atomvals_not_asc',
      'boolf/metributes/root_boolf', 'boolf/metributes/is_root', 'boolf/methods/str'],
     [('removal of irrelevant arguments', D + 'boolf/a/deflate'),
      ('sorting of arguments', D + 'boolf/a/reorder_if_atomvals_not_asc')],
     [('root', 'shortest truth table', D + 'boolf/__init__.py'), ('atomvals', 'arguments', D + 'boolf/__init__.py')])

prop('F02', 'Truth tables, digits, weights and fractions of a function agree at every arity',
     'The truth table at any sufficient arity or over any sufficient list of arguments, single digits, '
     'inflated true places, fullspots by weight, layered tables, weight and value fractions, complement, reverse, root and '
     'spread vector all describe the same function. Building a function from any of its truth tables gives the function back.',
     ['inputs'], 'every Boolean function, every arity and every superset of its arguments',
     'Tests inspect named example functions; inflation to other arities and argument lists is a statement about all of them.',
     ['boolf/methods/tt', 'boolf/methods/inflated_fullspots', 'boolf/methods/value_fract', 'boolf/metributes/_basics',
      'boolf/metributes/_layered', 'boolf/metributes/weight_fract', 'boolf/metributes/reverse', 'boolf/metributes/complement',
      'boolf/metributes/spread_vector', 'boolf/metributes/atomvals_sierpinski'],
     [('Sierpinski-row inflation', D + 'boolf/methods/tt')])

prop('F03', 'Boolean function operators and order are those of Boolean algebra',
     'Conjunction, disjunction, exclusive or and negation of functions with arbitrary, also disjoint or interleaved, arguments have at every '
     'assignment the value computed from the operands. The bitwise order relations (less, less or equal, greater, greater or equal) '
     'hold exactly when the true assignments are included accordingly, strictly for the strict ones.',
     ['inputs'], 'every pair of Boolean functions over arbitrary arguments',
     'Laws over all pairs; the tests instantiate a few.',
     ['boolf/methods/bitwise', 'boolf/__init__.py'],
     [('inflation of both operands to the union of arguments', D + 'boolf/methods/bitwise')])

prop('F04', 'Renaming, negating and evaluating arguments is substitution',
     'Applying a function to new signed arguments or under a signed permutation gives the function with these '
     'literals substituted, and evaluating it for truth values or vectors of them gives its values; a wrong number of arguments or a repeated one is rejected. '
     'Applying one signed permutation after another equals applying their product in the order the action prescribes.',
     ['inputs'], 'every Boolean function, every substitution and every signed permutation',
     'Tests use a few named functions; substitution laws quantify over functions and substitutions at once.',
     ['boolf/methods/vals_apply', 'boolf/a/_mod_tt', 'boolf/a/spread_sigperm_to_sigvar', 'boolf/a/apply_sigperm_to_colors'],
     [('per-place evaluation of substituted literals', D + 'boolf/methods/vals_apply')])

prop('F05', 'The Zhegalkin transform is an exact involution between functions and ANFs',
     'The Zhegalkin index of a function is the integer of its algebraic normal form; the twin at any sufficient arity is the function whose '
     'truth table is that form, taking twins twice gives the function back, and function to index to function is the identity. '
     'The integer, vector and partial variants of the transform compute the same bits.',
     ['inputs'], 'every Boolean function and arity',
     'Triangles of small arity are compared with stored tables; correctness is claimed for every function.',
     ['boolf/methods/twin', 'boolf/metributes/zhe', 'boolf/a/twin_misc', 'boolf/a/sierpinski_twin', 'boolf/a/sierpinski_partition',
      'boolf/subinit_methods/zhe', 'boolf/a/intval_to_arity'],
     [('XOR over sub-places', D + 'boolf/a/twin_misc')])

prop('F06', 'Walsh spectrum, Walsh distances, consul and prefect fit the truth table',
     'The Walsh spectrum is the sum of signed truth-table entries and determines the function, the Walsh distances are Hamming distances to the linear functions, '
     'the consul is the index of the modulo-2 spectrum (fast and slow computation agree) and the prefect is the linear function '
     'assigned to the algebraic normal form. Linear functions, their Walsh index, sign, leader and quadrant convert into each other, '
     'and exactly these are recognised as linear.',
     ['inputs'], 'every Boolean function and arity',
     'Tests compare with tables for few functions; transforms are universally quantified and the fast variants take facts for granted.',
     ['boolf/methods/walsh_spectrum', 'boolf/methods/walsh_distances', 'boolf/methods/consul', 'boolf/metributes/_prefect',
      'boolf/metributes/is_linear', 'a/_linear_to_index_pair', 'a/make_linear_binv', 'a/make_linear_boolf',
      'a/walsh_function_to_index', 'a/arity_to_walsh_matrix', 'boolf/subinit_methods/ws'],
     [('fast Walsh-Hadamard transform', D + 'boolf/methods/walsh_spectrum'),
      ('trusting index reader', D + 'a/walsh_function_to_index/__init__.py')])

prop('F07', 'Nobles, patrons, quadrants, leaders and foibles are mutually consistent',
     'Nobles are exactly the fixed points of the Zhegalkin transform; index to noble and back are inverse, order-preserving bijections, '
     'and royal plus quadrant identify a noble. The patron is the sum of a function and its twin and is noble. '
     'Oddness, odiousness, sharpness, ugliness, rudeness, roughness, acuteness, quadrants, octants and leaders have the values their definitions give, at every arity.',
     ['inputs'], 'every Boolean function, every arity, every noble index',
     'Small number triangles are tested; the bijection and the definitions quantify over all arities.',
     ['boolf/a/_noble', 'boolf/a/praetor_int', 'boolf/methods/_patron', 'boolf/methods/_foibles', 'boolf/metributes/_foibles',
      'boolf/methods/_quadrant_extensions', 'boolf/methods/noble_quadrant', 'boolf/methods/is_noble', 'boolf/methods/leader',
      'boolf/metributes/quadrant', 'a/evil_odious'],
     [('recursive index-to-noble mapping', D + 'boolf/a/_noble')])

prop('F08', 'Families, factions and clans contain exactly the reachable functions',
     'The family, faction and clan of a function at any sufficient arity list exactly the functions reachable by negating, permuting, or '
     'negating and permuting arguments, each labelled with exactly the transformations that produce it, in pair and in abbreviated triple form. '
     'Derived tables of families, factions and splinters partition the clan accordingly.',
     ['inputs', 'configurations'], 'every Boolean function and arity, both forms of the result',
     'Tests store the classes of a few functions; completeness and exactness are claims about all.',
     ['boolf/methods/_ec'],
     [('enumeration of transformations with block labels', D + 'boolf/methods/_ec')])

prop('F09', 'Class representatives are minimal and constant on their class',
     'The minimal representative of the family, faction or clan of a function is the class member with the smallest Zhegalkin index, '
     'so all members of a class have the same representative and members of different classes have different ones. '
     'The fast representative of families of male functions lies in the family, is the same for all its members, and has consul zero.',
     ['inputs'], 'every Boolean function of every arity',
     'The search prunes candidates column by column; tests compare a few functions with brute force.',
     ['boolf/metributes/_ec_reps', 'a/schoute_coset_gen', 'boolf/a/sierpinski_twin', 'boolf/metributes/family_is_self_complementary'],
     [('column-wise candidate pruning', D + 'boolf/metributes/_ec_reps/minimal')])

prop('F10', 'Filtrates and atom-pair relations are projections of the function',
     'The filtrate of a function to some of its arguments is true exactly where some assignment of the dropped arguments makes the function true. '
     'For every pair of arguments the reported relation (crossing, universal, subset, superset, disjoint, complementary, equal, one-sided) and '
     'the subset, intersection, crossing, border queries are those of the projection to that pair, in either order of the pair.',
     ['inputs'], 'every Boolean function and every subset or pair of its arguments',
     'Tests use one or two diagrams; the pair order in particular is hardly varied.',
     ['boolf/methods/filtrated_boolf', 'boolf/methods/filtrated_pair', 'boolf/metributes/_basics/filtrated_pairs',
      'boolf/methods/atom_pair_subset', 'boolf/methods/atom_pair_intersect', 'boolf/methods/atom_pair_crossing',
      'boolf/methods/atom_border_in_atom_side', 'boolf/metributes/atom_to_crossing_atoms'],
     [('merging of true places over dropped arguments', D + 'boolf/methods/filtrated_boolf')])

prop('F11', 'Splits, overlap counts, spot links and bundles describe the true places',
     'The split of an argument divides the true places into inside and outside; overlap counts, equality, one-sidedness, equality blocks, '
     'combined splits and the number of distinct splits follow from these sides for every function. Spot links connect exactly the pairs of true places that differ in one argument, '
     'and bundles are the components of crossing splits.',
     ['inputs'], 'every Boolean function',
     'Tests show the seven BEC pictures and a few named functions.',
     ['boolf/metributes/_splits', 'boolf/a/spotints_to_splits', 'boolf/a/count_split_regions', 'boolf/methods/splits_combined',
      'boolf/metributes/onesided_atomkeys', 'boolf/metributes/onesided_is_universe', 'boolf/metributes/_bundle', 'boolf/metributes/_basics'],
     [('side sets per argument', D + 'boolf/a/spotints_to_splits')])

prop('F12', 'Bloat, blot and blightless part always recompose to the function',
     'Two arguments are reported equal or complementary in the bloat exactly when they are on all true places, and the blot marks exactly the arguments that are constant on them. '
     'The function is the conjunction of its bloat and its bloatless part, and of blot, bloat and blightless part; removing blight leaves a function without it, and the spot maps '
     'between a function and its reduced form are exactly the removal of redundant digits.',
     ['inputs'], 'every Boolean function',
     'Tests decompose about a dozen named functions; recomposition is a law for all functions.',
     ['boolf/metributes/_blight', 'boolf/methods/bloatless_spotint', 'boolf/methods/blightless_spotint',
      'boolf/metributes/_splits/splits_eq_blocks_and_pref_side'],
     [('preferred sides and representatives', D + 'boolf/metributes/_splits/splits_eq_blocks_and_pref_side')])

prop('F13', 'Hypersplits, potential cores, gap filling and segments fit the geometry',
     'For a function without blight the hypersplits are exactly the sets of arguments whose sides meet in all combinations, with the partition of true '
     'places they induce; potential cores are the sign patterns of the other arguments not excluded by a pair of one of these and one of the others; the gapless function is the conjunction of all pairwise constraints, contains the function and is idempotent. '
     'The segments found are exactly the subcubes all of whose places are true, by dimension, with their spots, links and squares. Asking a function with blight for hypersplits, cores or the gapless form is rejected.',
     ['inputs'], 'every blightless Boolean function',
     'Tests examine named diagrams; closure and exactness quantify over all functions.',
     ['boolf/metributes/hypersplits', 'boolf/metributes/hypersplits_detailed', 'boolf/metributes/hypersplits_potential_cores',
      'boolf/metributes/gapless_boolf', 'boolf/methods/find_segments', 'boolf/a/segment_to_adjacent_spots'],
     [('iterated meets of splits', D + 'boolf/metributes/hypersplits/__init__.py'),
      ('segment worklist', D + 'boolf/methods/find_segments')])

prop('F14', 'Fissions and hyperfissions cut the truth table exactly and lose nothing',
     'Each fission is the pair of restrictions of the function to both values of one argument, each hyperfission the family of restrictions for a set of arguments; '
     'their weights, layers, Walsh spectra, absolute, zipped and labelled forms are those of these restrictions. Zipping a fission together again gives the truth table back.',
     ['inputs'], 'every non-constant Boolean function and every set of arguments',
     'Tests show a few graphs; the cut has to be exact for every function and argument set.',
     ['boolf/metributes/_fissions', 'boolf/methods/_hyperfission', 'a/vector_zip_apart', 'a/vector_zip_together', 'a/_atompatterns'],
     [('zip apart by atom pattern', D + 'a/vector_zip_apart/__init__.py')])

prop('F15', 'Symmetries reported for a function are exactly its symmetries',
     'A function is reported symmetric exactly when every permutation of its arguments leaves it unchanged; the partition of places by permutation symmetry and the partition of true places by '
     'signed symmetry are the orbits under exactly those transformations that leave the function unchanged.',
     ['inputs'], 'every Boolean function',
     'Tests show three symmetric diagrams; exactness of orbits is a claim about all functions.',
     ['boolf/metributes/is_symmetric', 'boolf/metributes/perm_symmetry_partition', 'boolf/metributes/symmetric_spots',
      'boolf/a/symmetric_to_index'],
     [('stabiliser from the labelled class', D + 'boolf/metributes/symmetric_spots/__init__.py')])

# ---------------------------------------------------------------- cross-cutting
prop('X01', 'Queries are pure: no order of queries changes an answer, object or argument',
     'For every object and every sequence of read-only queries, operators, conversions and helper calls, repeated and in any order, each gives the answer that a fresh equal object '
     '(in a fresh process) gives to it first. Afterwards the object still equals its original, operands and arguments passed in are unchanged, and answers given earlier have kept their value.',
     ['histories', 'inputs'], 'every object of every class and every sequence of queries',
     'Answers are cached in objects by several hand-written schemes and objects share data; only histories of queries can expose interference, and each test asks once.',
     ['binv', 'perm', 'sig_perm', 'walsh_perm', 'set_part', 'set_part_comp', 'boolf'],
     [('cached properties and dummy attributes', D + 'boolf/__init__.py')],
     [('instance dictionaries', 'cached answers', D + 'boolf/__init__.py')])

prop('X02', 'Objects own their data: changing one thing never changes another',
     'An object keeps its value and all its answers when the lists, sets, dictionaries, matrices or partitions it was made from are changed afterwards. '
     'Changing a mutable object (merging, refining or labelling blocks of a set partition, adding equalities or complements) changes no argument it was made from, '
     'no other object made from the same arguments, no operand and no result of join, meet or copying, and none of these changes reach it.',
     ['histories', 'inputs'], 'every object of every class and every sequence of changes to arguments, objects, operands and results',
     'Tests build an object and ask it; none changes a container afterwards or compares two objects that could share parts.',
     ['binv', 'perm', 'sig_perm', 'walsh_perm', 'set_part', 'set_part_comp', 'boolf'],
     [('copying in constructors', D + 'set_part/__init__.py'), ('copying in constructors', D + 'set_part_comp/__init__.py')],
     [('blocks, labels, domains, vectors, tables', 'owned by one object', D + 'set_part/__init__.py')])

# ---------------------------------------------------------------- helpers
prop('H01', 'Integer and bit helpers are exact for integers of any size',
     'Bit lengths, decimal lengths, logarithms, power-of-two tests, weights, conversions between integers, exponent sets and bit vectors, evil and odious numbers, bitwise folds, '
     'least common multiples, prime factors, binomials, determinants and logical negation helpers return the mathematically exact value for every number in their domain, however large. '
     'Those that check their domain (lengths, logarithms, evil and odious numbers, determinants of integer matrices, logical increments) reject everything outside it.',
     ['inputs'], 'every natural number, in particular far beyond floating-point precision',
     'Tests use small numbers; the failures of floating-point arithmetic start where tests stop.',
     ['a/_log', 'a/is_power_of_two', 'a/decimal_length', 'a/_binary', 'binv/a/binary_length', 'a/evil_odious', 'a/multigrade_bitwise',
      'a/multi_lcm', 'a/prime_factors', 'a/binom', 'a/integer_determinant', 'a/logic_negate', 'a/logic_abs', 'a/logic_abs_increase',
      'a/logic_str', 'a/is_natural', 'a/int_to_factoradic', 'boolf/a/intval_to_arity'],
     [('floating-point logarithms', D + 'a/_log')])

prop('H02', 'Combinatorial tables and enumerations are complete and correct',
     'Atom patterns, Walsh matrices (binary and balanced ternary), Sierpinski rows, triangles and partitions, hypercube edges, Hasse diagrams, power sets, integer partitions, layers of truth tables, ring counts, subcubes and '
     'the variadic truth-table generators contain exactly the entries their definitions prescribe, for every size.',
     ['inputs'], 'every size and every admissible argument',
     'Tests compare one or two small tables each.',
     ['a/_atompatterns', 'a/arity_to_walsh_matrix', 'a/balanced_ternary_walsh_matrix', 'a/int_to_sierpinski_row', 'a/sierpinski', 'a/hypercube_edges',
      'a/create_hasse_matrix', 'a/powerset', 'a/find_integer_partitions', 'boolf/a/simple_gens', 'boolf/a/sierpinski_partition',
      'boolf/a/flat_to_layered', 'boolf/a/atom_indices_to_sequence'],
     [('generators', D + 'a')])

prop('H03', 'Sorting, zipping, counting and reshaping helpers lose and invent nothing',
     'Sorting lists, rows or columns together applies one permutation to all of them; zipping vectors apart by a pattern and together again is the identity; '
     'inventories count every value, inverse Cartesian products and multisets, colexicographic sorting, repetition, flattening, key paths, sub-dictionaries and row swaps return exactly the rearranged contents, for every input, and leave the input unchanged.',
     ['inputs'], 'every list, matrix, dictionary or pattern accepted',
     'Tests show one example per helper.',
     ['a/sort_together', 'a/sort_rows_together', 'a/sort_cols_together', 'a/vector_zip_apart', 'a/vector_zip_together', 'a/inventory_dict',
      'a/inventory_partition', 'a/inverse_cartesian_product', 'a/is_multisubset', 'a/sorted_colex', 'a/repeat_sequence', 'a/flatten',
      'a/key_tuples', 'a/subdict', 'a/swap_matrix_rows', 'a/slice_to_range', 'a/other_entry_in_pair'],
     [('zip and sort', D + 'a')])

prop('H04', 'The SVG outline of a binary matrix encloses exactly its true cells',
     'For every binary matrix the generated path consists of closed axis-parallel loops that wind around every true cell and around no false cell, including holes, nested areas and '
     'areas that touch only in a corner. It runs along every border between a true and a false cell exactly once and along nothing else, and the matrix is left unchanged.',
     ['inputs'], 'every binary matrix, in particular with holes, nested rings and cells that touch in corners',
     'There is no test of the path generator; a wrong turn needs a specific local pattern in a specific order of loops.',
     ['a/bin2svg'],
     [('corner tracing', D + 'a/bin2svg/__init__.py')])

# ---------------------------------------------------------------- reports
prop('R01', 'Printed reports about a function state exactly the facts computed for it',
     'The catalogue row of a function without blight shows its Zhegalkin index, its value and weight as fractions in lowest terms with their decimal digits and their side of one half, its arity and number of bundles; other functions are rejected. '
     'The printed table of a clan shows every function of the clan exactly once, in the row of its faction and the column of its family, with its table and every signed permutation that leads to it. '
     'The representative chosen by layers is the extreme one in the stated order, and lining up numbers changes nothing but blanks before unsigned ones.',
     ['inputs'], 'every Boolean function, every collection of functions of one arity, every list of numbers',
     'There is no test of any printed report; their numbers pass through floating-point arithmetic and several renumberings.',
     ['boolf/methods/wiki_table_row', 'boolf/methods/_ec/ec_clan_matrix_wiki', 'boolf/methods/_ec/ec_clan_matrix', 'boolf/a/boolfs_to_swan', 'a/pretty_signs'],
     [('formatting of fractions', D + 'boolf/methods/wiki_table_row/__init__.py'), ('arrangement of the clan table', D + 'boolf/methods/_ec/ec_clan_matrix_wiki/__init__.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
