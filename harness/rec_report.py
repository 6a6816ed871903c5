"""recordings of Boolf: rows of catalogues, tables of clans, representatives by layers, numbers lined up"""
import ast
import io
import re
from contextlib import redirect_stdout
from itertools import product

from rec import Lazy, Shape, big, boolean, integer, listof
from rec_boolf import fn, lazy, random_atoms, random_fn, random_table, reduced_atoms, tables
from rec_class import reduced_root, symmetric_under
from rec_split import diagram


def printed(thunk):
    out = io.StringIO()
    with redirect_stdout(out):
        answer = thunk()
    return answer, out.getvalue()


def found(pattern, s):
    m = re.fullmatch(pattern, s, re.S)
    if m is None:
        raise Shape(f'{pattern} expected: {s[:200]!r}')
    return m.groups()


def digits(s):
    """the places of a table or of a number, possibly in groups"""
    return [int(c) for c in re.sub(r'\s', '', s)]


# ---------------------------------------------------------------- row

SIZES = {frozenset(): 0, frozenset(['small']): 1, frozenset(['smaller']): 2}
HALVES = {'below-half': -1, 'exactly-half': 0, 'above-half': 1}


def read_row(row):
    """the cells: what their classes say besides the name of the column, and their content"""
    lines = row.strip('\n').split('\n')
    if lines[0] != '|-':
        raise Shape(f'new row expected: {lines[0]!r}')
    cells = {}
    for line in lines[1:]:
        classes, content = found(r'\|class="([^"]*)"\| (.*)', line)
        words = classes.split()
        for name in (['fraction', 'num'], ['fraction', 'den'], ['fraction', 'dec'], ['weight', 'num', 'reduced'], ['weight', 'den', 'reduced'],
                     ['weight', 'num', 'unreduced'], ['weight', 'den', 'unreduced'], ['weight', 'dec'], ['zhegalkin'], ['arity'], ['bundles'],
                     ['names']):
            if words[:len(name)] == name:
                break
        else:
            raise Shape(f'unknown column: {line!r}')
        if ' '.join(name) in cells:
            raise Shape(f'column twice: {line!r}')
        cells[' '.join(name)] = (frozenset(words[len(name):]), content)
    return cells


def only(words, choice):
    """the one of the words that is a choice"""
    hits = [w for w in words if w in choice]
    if len(hits) != 1 or len(words) != 1:
        raise Shape(f'one of {list(choice)} expected: {sorted(words)}')
    return choice[hits[0]]


def record_row(rec, x, names):
    cells = Lazy(lambda: read_row(lazy(x)().wiki_table_row(names)))

    def content(column, pattern=r'\d+'):
        return found(f'({pattern})', cells()[column][1])[0]

    def parity():
        return only(cells()['zhegalkin'][0] & {'odd', 'even'}, {'odd': True, 'even': False})

    def value_size():
        if cells()['fraction num'][0] != cells()['fraction den'][0]:
            raise Shape('different sizes')
        return SIZES[cells()['fraction num'][0]]

    def after_point(column):
        places = content(column, r'\.\d*')[1:]
        return [big(int(places or '0')), len(places)]

    def twenty():
        value, places = after_point('fraction dec')
        if places != 20:
            raise Shape(f'{places} places')
        return value
    rec.event('row', {'f': x, 'names': list(names)}, {
        'number': (lambda: int(content('zhegalkin')), big),
        'odd': (parity, boolean),
        'number_size': (lambda: SIZES[cells()['zhegalkin'][0] - {'odd', 'even'}], integer),
        'vnum': (lambda: int(content('fraction num')), big),
        'vden': (lambda: int(content('fraction den')), big),
        'value_size': (value_size, integer),
        'vdec': (twenty, list),
        'value_half': (lambda: only(cells()['fraction dec'][0], HALVES), integer),
        'weight': (lambda: [int(content('weight num reduced')), int(content('weight den reduced'))], list),
        'wdec': (lambda: after_point('weight dec'), list),
        'weight_half': (lambda: only(cells()['weight dec'][0], HALVES), integer),
        'full_weight': (lambda: [int(content('weight num unreduced')), int(content('weight den unreduced'))], list),
        'arity': (lambda: int(content('arity')), integer),
        'bundles': (lambda: int(content('bundles')), integer),
        'single': (lambda: cells()['bundles'][0] == {'uni'}, boolean),
        'names': (lambda: list(cells()['names'][1]), list),
    })


# ---------------------------------------------------------------- table of a clan

VERTEX = r'Cube vertex number (\d+)\.svg\|20px\|link='
SQUARE = r'Cube vertex number (\d+) in square\.svg\|\d+px(?:\|link=)?'
PERM = r'Finite permutation number (\d+)\.svg\|\d+px(?:\|link=)?'


def numbers(pattern, s):
    """of pictures that follow each other"""
    if re.fullmatch(rf'(?:\[\[File:{pattern}\]\])*', s) is None:
        raise Shape(f'pictures expected: {s[:200]!r}')
    return [int(n) for n in re.findall(pattern, s)]


def read_entries(s):
    """permutations with their signed sequences"""
    entries = []
    for part in s.split('<br>') if s else []:
        p, entry = found(rf'<span class="icon-and-sequence">\[\[File:{PERM}\]\]<span class="sequence">\((.*)\)</span></span>', part)
        signed = []
        for e in entry.split(', '):
            negated, n = found(r'<span class="entry( negated)?">(\d+)</span>', e)
            signed.append(~int(n) if negated else int(n))
        entries.append([int(p), signed])
    return entries


def read_cell(line):
    span, classes, venn, marks, bits, table, number, icons, header, body = found(
        r'\|colspan="(\d+)" (?:class="([a-z ]*)")?\|(.*?) <abbr class="([a-z -]*)" title="([01 ]*)&#10;([01 ]*)">(\d+)</abbr>'
        r'<div class="valneg-wrapper"><span class="number-icons">(.*?)</span><table class="valneg-hover">'
        r'<tr class="top-labels"><th class="left-label"></th>(.*?)</tr>(.*)</table></div>', line)
    classes = set((classes or '').split())
    marks = set(marks.split())
    if not classes <= {'border', 'base'} or not {'zhegalkin'} <= marks <= {'zhegalkin', 'neg-ec-min', 'perm-ec-min'}:
        raise Shape(f'classes {classes} {marks}')
    columns = re.findall(rf'<th( class="border-left")?>\[\[File:{VERTEX}\]\]</th>', header)
    pictures = re.findall(rf'(\[\[File:1x1\.png\|2px\|link=\]\])?\[\[File:{VERTEX}\]\]', icons)
    lines = re.findall(rf'<tr( class="border-top")?><th class="left-label">\[\[File:{SQUARE}\]\]</th>(.*?)</tr>', body)
    entries, borders = [], []
    for _, _, cells in lines:
        parts = re.findall(r'<td( class="border-left")?>(.*?)</td>', cells)
        entries.append([read_entries(content) for _, content in parts])
        borders.append([bool(border) for border, _ in parts])
    if any(b != [bool(border) for border, _ in columns] for b in borders):
        raise Shape('borders differ')
    return {
        'number': big(int(number)), 'span': int(span), 'border': 'border' in classes, 'base': 'base' in classes,
        'lowest_of_row': 'perm-ec-min' in marks, 'lowest_of_col': 'neg-ec-min' in marks,
        'bits': digits(bits), 'table': digits(table),
        'venn': digits(found(r'\[\[File:Venn *([01 ]+)\.svg\|25px\]\]<br>', venn)[0]) if venn else [],
        'icons': [int(v) for _, v in pictures], 'icon_borders': [bool(b) for b, _ in pictures],
        'columns': [int(v) for _, v in columns], 'column_borders': [bool(b) for b, _ in columns],
        'lines': [int(k) for _, k, _ in lines], 'line_borders': [bool(b) for b, _, _ in lines],
        'entries': entries,
    }


def read_masks(line):
    total, order, weights, masks = found(
        r'! <span class="invisible-sortkey">&(\d+)_(\d+)</span><table class="keyneg-indices"><tr class="weights">(.*?)</tr>'
        r'<tr class="indices">(.*?)</tr></table>', line)
    return {
        'sort_sum': int(total), 'sort_digits': digits(order), 'mask_weights': [int(w) for w in re.findall(r'<td>(\d+)</td>', weights)],
        'masks': [numbers(SQUARE, m) for m in re.findall(r'<td><span class="number-icons">(.*?)</span></td>', masks)],
    }


def read_table(page):
    lines = page.rstrip('\n').split('\n')
    if not lines[-1].startswith('|}'):
        raise Shape(f'end of table expected: {lines[-1]!r}')
    starts = [i for i, line in enumerate(lines) if line == '|-'] + [len(lines) - 1]
    columns = []
    for line in lines[starts[0] + 1:starts[1]]:
        if line.startswith('!colspan='):
            span, perms, rep = found(r'!colspan="(\d+)" class="unsortable border"\| <span class="number-icons">(.*?)</span><br>'
                                     r'<span class="neg-ec-min ec-min-side">(\d+)</span>', line)
            columns.append({'span': int(span), 'perms': numbers(PERM, perms), 'rep': big(int(rep))})
    rows = []
    for a, b in zip(starts[1:], starts[2:]):
        weight, number, rep, masks, *cells = lines[a + 1:b]
        rows.append({
            'weight': int(found(r'\|class="zhegalkin-weight"\| (\d+)', weight)[0]),
            'number': int(found(r'\|class="cardinality"\| (\d+)', number)[0]),
            'rep': big(int(found(r'\|class="perm-ec-min ec-min-side"\| (\d+)', rep)[0])),
            **read_masks(masks),
            'cells': [read_cell(c) for c in cells],
        })
    return {'columns': columns, 'rows': rows, 'four': '4-ary' in lines[-1]}


def record_table(rec, x):
    f = lazy(x)
    table = Lazy(lambda: read_table(printed(lambda: f().ec_clan_matrix_wiki())[1]))
    rec.event('clan table', {'f': x}, {
        'columns': (lambda: table()['columns'], list),
        'rows': (lambda: table()['rows'], list),
        'four': (lambda: table()['four'], boolean),
    })


# ---------------------------------------------------------------- others

def record_swan(rec, xs, vero, shown):
    swan = rec.helper('discretehelpers.boolf.a', 'boolfs_to_swan')
    if swan is None:
        return
    answer = Lazy(lambda: printed(lambda: swan([lazy(x)() for x in xs], vero, shown)))

    def lines(k):
        out = []
        for line in answer()[1].splitlines():
            out.append(re.split(r' {3,}', line)[k])
        return out
    rec.event('swan', {'fs': xs, 'vero': vero, 'shown': shown}, {
        'swan': (lambda: answer()[0], fn),
        'weights': (lambda: [list(ast.literal_eval(w)) for w in lines(0)], list),
        'layers': (lambda: [[list(layer) for layer in ast.literal_eval(w)] for w in lines(1)], list),
        'tables': (lambda: lines(2), listof(digits)),
    })


def record_signs(rec):
    signs = rec.helper('discretehelpers.a', 'pretty_signs')
    if signs is None:
        return
    rng = rec.rng
    kind = rng.randrange(5)
    top = 10 ** rng.randrange(1, 5)

    def line():
        return [rng.choice([0, rng.randrange(top), -rng.randrange(1, top), rng.random() < 0.5]) for _ in range(rng.randrange(6))]
    arg = [line(), tuple(line()), [line() for _ in range(rng.randrange(4))], rng.randrange(-top, top), {i: line() for i in range(rng.randrange(3))}][kind]
    rec.event('signs', {'text': list(str(arg))}, {
        'text': (lambda: [{'●': 'TRUE', '○': 'FALSE'}.get(c, c) for c in signs(arg)], list)})


# ---------------------------------------------------------------- R01

def r01(rec):
    rng = rec.rng
    words = ['', 'berusa', "''tinora''", '[[a|b]]', '7', 'A, B', '$x', '| y']

    def row(x):
        if not reduced_atoms(x):
            return
        try:
            f = lazy(x)()
            good = f.is_blightless and f.is_root
        except Exception:
            good = True
        if good:
            record_row(rec, x, rng.choice(words))
        else:
            rec.rejects('row refused', {'f': x}, lambda: lazy(x)().wiki_table_row('names'))

    for n in (1, 2, 3):
        for t in tables(n):
            if rec.mine():
                row({'at': list(range(n)), 'tt': t})
                if rng.random() < 0.2:
                    row({'at': random_atoms(rng, n, 5), 'tt': t})
    for _ in range(rec.pick(30, 400)):
        row({'at': list(range(4)), 'tt': random_table(rng, 4)})
        row(diagram(rng, 6))
    for _ in range(rec.pick(4, 40)):
        n = rng.choice([5, 6, 7])
        row({'at': list(range(n)), 'tt': random_table(rng, n)})
    for n in (4, 5, 6, 7):    # values next to zero, a half and one
        for a, b in product((0, 1), repeat=2):
            for k in (0, 2 ** n - 1, rng.randrange(2 ** n)):
                if rec.mine():
                    t = [a] * (2 ** n - 1) + [b]
                    t[k] ^= 1
                    row({'at': list(range(n)), 'tt': t})

    for n in (1, 2, 3):
        for t in tables(n):
            if rec.mine():
                x = reduced_root({'at': list(range(n)), 'tt': t})
                if x['at'] and (n < 3 or not rec.quick or rng.random() < 0.6):
                    record_table(rec, x)
    for _ in range(rec.pick(1, 3)):
        x = reduced_root({'at': list(range(4)), 'tt': symmetric_under(rng, 4)} if rng.random() < 0.7 else random_fn(rng, 4, 4, 4))
        if x['at']:
            record_table(rec, x)

    for _ in range(rec.pick(60, 600)):
        n = rng.choice([1, 2, 3, 3, 3, 4])
        ts = sorted({tuple(random_table(rng, n)) for _ in range(rng.randrange(1, 9))})
        xs = [x for x in ({'at': list(range(n)), 'tt': list(t)} for t in ts) if len(reduced_atoms(x)) == n]
        rng.shuffle(xs)
        if xs:
            record_swan(rec, xs, rng.random() < 0.5, rng.random() < 0.5)
    for _ in range(rec.pick(40, 400)):
        record_signs(rec)
