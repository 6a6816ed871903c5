"""recordings of SetPartComp: histories of equalities and complements"""
import json
import os

from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp

from rec import bits, boolean, integer, ints, iset, listof, opt
from rec_binv import int_bits
from rec_setpart import blocks, pairset, paths_to, random_blocks


class History:

    def __init__(self, rec, universe, given=(), pairs=(), form=0):
        self.rec, self.universe, self.comp = rec, list(universe), None
        given, pairs = [list(b) for b in given], [list(q) for q in pairs]

        def new():
            if not given and not pairs and form % 2:
                self.comp = SetPartComp()
                return
            eq = [list(b) for b in given]
            if form % 3 == 1:
                eq = SetPart(eq, 'Z')
            ps = [tuple(q) for q in pairs]
            if form % 3 == 2:
                ps = {tuple(q) for q in pairs}
            if pairs or form % 5 == 0:
                self.comp = SetPartComp(eq, ps)
            else:
                self.comp = SetPartComp(eq)
        rec.rejects('new', {'blocks': given, 'pairs': pairs}, new)

    def do(self, x, y, sign):
        c = self.comp
        if sign:
            self.rec.rejects('complement', {'x': x, 'y': y}, lambda: c.set_comp(x, y))
        else:
            self.rec.rejects('equal', {'x': x, 'y': y}, lambda: c.set_equal(x, y))

    def view(self, constraint=False):
        rec, rng, c = self.rec, self.rec.rng, self.comp
        probe = self.universe + [max(self.universe) + 3]
        if len(probe) > 8:
            probe = sorted(rng.sample(probe, 8))
        views = {
            'equal': (lambda: [[c.are_equal(x, y) for y in probe] for x in probe], listof(listof(boolean))),
            'comp': (lambda: [[c.are_comp(x, y) for y in probe] for x in probe], listof(listof(boolean))),
            'blocks': (lambda: c.equal_part.blocks, blocks),
            'pairs': (lambda: c.comp_pairs, pairset),
            'all_pairs': (lambda: c.all_complement_pairs(), pairset),
            'get_comp': (lambda: [c.get_comp(x) for x in probe], listof(opt(integer))),
            'get_block': (lambda: [c.get_block(x) for x in probe], listof(ints)),
            'get_repr': (lambda: [c.get_repr(x) for x in probe], ints),
            'related': (lambda: c.related_part().blocks, blocks),
            'counts': (lambda: [c.number_of_related_blocks(), c.length(), c.number_of_affected_elements()], ints),
            'affected': (lambda: c.affected_elements(), ints),
            'rebuilt': (lambda: c == SetPartComp([list(b) for b in c.equal_part.blocks], set(c.comp_pairs)), boolean),
            'printed': (lambda: eval(rng.choice([str, repr])(c), {'SetPartComp': SetPartComp, 'set': set}) == c, boolean),
        }
        order = list(views)
        rng.shuffle(order)
        rec.event('view', {'probe': probe}, {v: views[v] for v in order})
        if constraint and min(self.universe) >= 0:
            top = max(self.universe) + 1
            n = max(top, 0)
            if n <= 7:
                numbers = list(range(2 ** n)) if n <= 4 else [rng.randrange(2 ** (n + 2)) for _ in range(20)]
            else:
                numbers = [rng.randrange(2 ** (n + 2)) for _ in range(20)]
            numbers += [rng.randrange(2 ** (n + 40)) for _ in range(3)]
            for k in range(10):      # numbers that do match
                m = numbers[-1 - k % len(numbers)]
                for block in c.related_part().blocks:
                    v = rng.random() < 0.5
                    for x in block:
                        m = m & ~(1 << x) | (int(v == c.are_equal(block[0], x)) << x)
                numbers.append(m)
            if n <= 12:
                views = {'table': (lambda: c.boolf().tt(n), bits)}
            else:
                n = 0
            a = {'n': n, 'numbers': [int_bits(m) for m in numbers]}
            r = {'matches': (lambda: [c.int_matches(m) for m in numbers], listof(boolean))}
            if n:
                r['table'] = views['table']
                rec.event('constraint', a, r)
            else:
                rec.event('matches', a, r)

    def compare(self, given, pairs):
        c = self.comp
        d = SetPartComp([list(b) for b in given], [tuple(q) for q in pairs])
        self.rec.event('same', {'blocks': given, 'pairs': pairs}, {
            'eq': (lambda: c == d, boolean),
            'ne': (lambda: c != d, boolean),
        })


def load_steps(config):
    steps = {}
    with open(os.path.join(os.environ['VERIF_STEPS'], f'steps-{config}.ndjson')) as f:
        for line in f:
            s = json.loads(line)
            for end in ('from', 'to'):
                s[end] = json.dumps(sorted(sorted(b) for b in s[end]))
            steps.setdefault(s['from'], []).append(s)
    return steps


def replay_graph(rec, config, universe, share, constraint):
    rng, rng2 = rec.rng, rec.shared
    steps = load_steps(config)
    ways = paths_to(steps, '[]')
    for state in sorted(steps):
        edges = [s for s in steps[state] if rng2.random() < share]

        def fresh():
            h = History(rec, universe, form=rng.randrange(30))
            for s in ways[state]:
                h.do(s['x'], s['y'], s['sign'])
                if rng.random() < 0.3:
                    h.view()
            return h
        still = [s for s in edges if s['to'] == state]
        if still and rec.mine():
            h = fresh()
            rng.shuffle(still)
            for s in still:
                h.do(s['x'], s['y'], s['sign'])
                if rng.random() < 0.1:
                    h.view(constraint)
            h.view(constraint)
        for s in edges:
            if s['to'] != state and rec.mine():
                h = fresh()
                h.do(s['x'], s['y'], s['sign'])
                h.view(constraint)


def random_history(rec, length, constraint):
    rng = rec.rng
    n = rng.choice([3, 5, 7, 7, 12, 20] if constraint or rng.random() < 0.97 else [35])
    universe = range(n) if constraint or rng.random() < 0.5 else sorted(rng.sample(range(-n, 2 * n), n))
    given, pairs = [], []
    if rng.random() < 0.5:
        given = random_blocks(rng, universe)
        pairs = [rng.sample(list(universe), 2) for _ in range(rng.randrange(4))]
    h = History(rec, universe, given, pairs, rng.randrange(30))
    if h.comp is None:
        return
    for _ in range(rng.randrange(length)):
        h.do(rng.choice(universe), rng.choice(universe), rng.randrange(2))
        if rng.random() < 0.4:
            h.view(constraint and rng.random() < 0.5)
    h.view(constraint)
    if n < 8:
        for _ in range(2):
            for _ in range(20):
                b, q = random_blocks(rng, universe), [rng.sample(list(universe), 2) for _ in range(rng.randrange(3))]
                try:
                    SetPartComp(b, q)
                except Exception:
                    continue
                h.compare(b, q)
                break


def c01(rec):
    replay_graph(rec, 'Gen_CompN', range(5), rec.pick(0.25, 1), False)
    replay_graph(rec, 'Gen_CompZ', [-7, -1, 0, 4], 1, False)
    for _ in range(rec.pick(60, 900)):
        random_history(rec, rec.rng.choice([6, 15, 40]), False)


def c02(rec):
    replay_graph(rec, 'Gen_CompN', range(5), rec.pick(0.06, 0.5), True)
    for _ in range(rec.pick(60, 900)):
        random_history(rec, rec.rng.choice([6, 15, 40]), True)
