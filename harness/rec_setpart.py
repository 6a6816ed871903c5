"""recordings of SetPart: histories of one object after the other, and pairs of partitions"""
import json
import os
from collections import deque

from discretehelpers.set_part import SetPart

from rec import Shape, big, boolean, integer, iset, ints, listof, opt
from rec_binv import chars


def blocks(bs):
    return [ints(b) for b in bs]


def attempt(thunk, encoder):
    def call():
        try:
            value = thunk()
        except Exception:
            return None
        return value
    return call, opt(encoder)


def pairset(ps):
    ps = list(ps)
    result = sorted([integer(a), integer(b)] for a, b in ps)
    if len({tuple(x) for x in result}) != len(ps):
        raise Shape(f'duplicate pairs: {ps!r}')
    return result


# what stands for the label names of the specification
NAMINGS = [
    {'x': 'x', 'y': 'y', 'z': 'z', 'u': 'u', 'v': 'v'},
    {'x': 0, 'y': 1, 'z': 2, 'u': 3, 'v': 4},
    {'x': '', 'y': (0, 1), 'z': 0, 'u': 'u', 'v': -1},
    {'x': (), 'y': '', 'z': (3,), 'u': 7, 'v': frozenset()},
]


# what stands for the elements of a finite domain, in the same order
THINGS = [lambda i: i, lambda i: f'{i + 500:03d}', lambda i: (i,), lambda i: (i // 3, i % 3)]


def domain_arg(d):
    return set(d['set']) if d['kind'] == 'F' else d['kind']


class History:
    """one partition, the operations on it, and looks at it"""

    def __init__(self, rec, kind, universe, outside, names, blocks=(), labels=(), finite=None):
        self.rec, self.universe, self.outside, self.names = rec, list(universe), list(outside), list(names)
        self.domain = {'kind': kind, 'set': sorted(finite if finite is not None else universe) if kind == 'F' else []}
        self.part = None
        self.naming = rec.rng.choice(NAMINGS)
        actual = self.naming
        # numbers in domains that have an integer value
        self.plain = kind != 'F' or min(self.domain['set'], default=0) >= 0 or rec.rng.random() < 0.4
        self.thing = THINGS[0] if self.plain else rec.rng.choice(THINGS)
        thing = self.thing
        a = {'domain': self.domain, 'blocks': [list(b) for b in blocks], 'labels': [[list(b), x] for b, x in labels]}

        def new():
            dom = domain_arg(self.domain)
            if kind == 'F':
                dom = rec.rng.choice([set, list, tuple])(thing(x) for x in dom)
            if labels:
                self.part = SetPart(self.things(blocks), dom, {tuple(thing(x) for x in b): actual[x] for b, x in labels})
            elif not blocks and rec.rng.random() < 0.5:
                self.part = SetPart(domain=dom)
            else:
                self.part = SetPart(self.things(blocks), dom)
        rec.rejects('new', a, new)

    def things(self, bs):
        return [[self.thing(x) for x in b] for b in bs]

    def numbers(self, bs):
        """blocks of the partition in terms of the numbers that the things stand for"""
        known = {self.thing(x): x for x in self.universe + self.outside + self.domain['set']}
        return [[known[x] if not self.plain else x for x in b] for b in bs]

    def do(self, op, xs=(), parts=(), label='', labels=()):
        p, rng, actual, thing = self.part, self.rec.rng, self.naming, self.thing
        xs, parts, labels = list(xs), [list(b) for b in parts], list(labels)
        if op == 'merge':
            x, y = xs if len(xs) == 2 else xs * 2
            self.rec.rejects('merge', {'x': x, 'y': y}, lambda: p.merge_pair(thing(x), thing(y)))
        elif op == 'many':
            form = rng.choice([list, tuple, set])
            self.rec.rejects('many', {'xs': xs}, lambda: p.merge_many(form(thing(x) for x in xs)))
        elif op == 'label':
            self.rec.rejects('label', {'x': xs[0], 'label': label}, lambda: p.add_label_to_element(thing(xs[0]), actual[label]))
        elif op == 'label block':
            form = rng.choice([list, tuple])
            self.rec.rejects('label block', {'block': xs, 'label': label}, lambda: p.add_label_to_block(form(thing(x) for x in xs), actual[label]))
        elif op == 'refine':
            for b in parts:
                rng.shuffle(b)
            flat = sum(parts, [])
            a = {'parts': parts, 'labels': labels, 'doubled': len(set(flat)) < len(flat)}
            form = rng.choice([list, tuple])
            if labels:
                self.rec.rejects('refine', a, lambda: p.refine_block(form(self.things(parts)), form(actual[x] for x in labels)))
            else:
                self.rec.rejects('refine', a, lambda: p.refine_block(form(self.things(parts))))

    def view(self):
        p, rng, thing = self.part, self.rec.rng, self.thing
        probe = sorted(set(self.universe) | set(self.outside))
        if len(probe) > 8:
            probe = sorted(rng.sample(probe, 8))
        touched = self.numbers([p.non_singletons])[0]
        elements = sorted(set(touched) | set(rng.sample(self.universe, min(2, len(self.universe)))))
        a = {'probe': probe, 'elements': elements, 'names': self.names}
        form = rng.choice([set, list])

        def block(b):
            return ints(self.numbers([b])[0])

        def blocks(bs):
            return [block(b) for b in bs]

        def pairs(ps):
            return pairset([self.numbers([x])[0] for x in ps])

        def things(b):
            return iset(self.numbers([b])[0])

        def text(t):
            if not self.plain:
                for x in self.domain['set']:
                    t = t.replace(repr(thing(x)), str(x)).replace(str(thing(x)), str(x))
            return chars(t)

        def name(label):
            for x, y in self.naming.items():
                if y == label and type(y) is type(label):
                    return x
            raise Shape(f'label expected: {label!r}')
        views = {
            'blocks': (lambda: p.blocks, blocks),
            'canonical': (lambda: p.canonical_blocks_with_singletons, blocks),
            'pairs': (lambda: p.pairs, pairs),
            'touched': (lambda: p.non_singletons, things),
            'trivial': (lambda: p.trivial, boolean),
            'printed': (lambda: rng.choice([str, repr])(p), text),
            'of': (lambda: [p.element_to_block(thing(x)) for x in probe], listof(block)),
            'index': (lambda: [None if i is None else i + 1
                               for i in (p.non_singleton_to_block_index_or_none(thing(x)) for x in probe)], listof(opt(integer))),
            'inside': (lambda: [p.element_in_domain(thing(x)) for x in probe], listof(boolean)),
            'same': (lambda: [[p.pair_in_same_block(thing(x), thing(y)) for y in probe] for x in probe], listof(listof(boolean))),
            'with': (lambda: p.blocks_with_singletons(elements=form(thing(x) for x in elements)), blocks),
            'twin': (lambda: p == SetPart([list(b) for b in reversed(p.blocks)], p.domain)
                     and not p != SetPart(p.blocks, p.domain), boolean),
            'length': attempt(lambda: p.length, integer) if self.domain['kind'] == 'N' else (lambda: None, opt(integer)),
            'intval': attempt(lambda: p.intval, big)
            if self.domain['kind'] == 'N' or self.domain['kind'] == 'F' and min(self.domain['set'], default=0) >= 0
            else (lambda: None, opt(big)),
            'singletons': attempt(lambda: p.singletons, things),
            'label_of': (lambda: [p.get_label_from_element(thing(x)) for x in probe], listof(opt(name))),
            'label_of_block': (lambda: [p.get_label_from_block(b) for b in p.blocks_with_singletons()], listof(opt(name))),
            'block_with': (lambda: [p.get_block_from_label(self.naming[x]) for x in self.names], listof(opt(block))),
            'labelled_block_of': (lambda: [p.get_block_from_element(thing(x)) for x in probe], listof(opt(block))),
            'labels': (lambda: list(p.block_labels.items()), lambda ls: sorted([block(b), name(x)] for b, x in ls)),
        }
        order = list(views)
        rng.shuffle(order)
        self.rec.event('view', a, {v: views[v] for v in order})
        if self.plain and rng.random() < 0.3:
            self.sized()

    def sized(self):
        p, rng = self.part, self.rec.rng
        by = rng.choice(['length', 'range', 'elements'])
        ends = sorted(rng.choices(range(min(self.universe) - 1, max(self.universe) + 3), k=2))
        lo, hi = (0, max(0, ends[1])) if by == 'length' else ends
        thunk = {
            'length': lambda: p.blocks_with_singletons(hi),
            'range': lambda: p.blocks_with_singletons(range_pair=(lo, hi)),
            'elements': lambda: p.blocks_with_singletons(elements=range(lo, hi)),
        }[by]
        self.rec.event('sized', {'by': by, 'lo': lo, 'hi': hi}, {'blocks': attempt(thunk, blocks)})


# ---------------------------------------------------------------- the state graph made by TLC

def load_steps(config):
    steps = {}
    with open(os.path.join(os.environ['VERIF_STEPS'], f'steps-{config}.ndjson')) as f:
        for line in f:
            s = json.loads(line)
            for end in ('from', 'to'):
                s[end] = json.dumps([s[end]['b'], sorted(s[end]['n'])])
            steps.setdefault(s['from'], []).append(s)
    return steps


def paths_to(steps, start):
    """shortest ways from the start to all states"""
    ways, todo = {start: []}, deque([start])
    while todo:
        state = todo.popleft()
        for s in steps.get(state, []):
            if s['to'] not in ways:
                ways[s['to']] = ways[state] + [s]
                todo.append(s['to'])
    return ways


def perform(h, s):
    h.do(s['op'], s['xs'], s['parts'], s['label'], s['labels'])


def replay_graph(rec, config, kind, universe, outside, labels, share):
    """every step of the graph (or a share of them) from every state, with and without looks in between"""
    rng = rec.rng
    steps = load_steps(config)
    start = json.dumps([[], []])
    ways = paths_to(steps, start)
    relevant = [s for s in steps if labels or s == json.dumps([json.loads(s)[0], []])]
    for state in sorted(relevant):
        edges = [s for s in steps[state] if labels or s['op'] in ('merge', 'many') or s['op'] == 'refine' and not s['labels']]
        rng2 = rec.shared
        edges = [s for s in edges if rng2.random() < share]

        def fresh():
            h = History(rec, kind, universe, outside, ['x', 'y', 'z'])
            for s in ways[state]:
                perform(h, s)
                if rng.random() < 0.4:
                    h.view()
            return h
        still = [s for s in edges if s['to'] == state]
        moving = [s for s in edges if s['to'] != state]
        if still and rec.mine():
            h = fresh()
            rng.shuffle(still)
            for s in still:
                perform(h, s)
                if rng.random() < 0.25:
                    h.view()
            h.view()
        for s in moving:
            if rec.mine():
                h = fresh()
                if rng.random() < 0.6:
                    h.view()
                perform(h, s)
                h.view()


# ---------------------------------------------------------------- random histories on larger domains

def random_blocks(rng, universe, chance=None):
    chance = chance or rng.choice([0.3, 0.6, 1])
    xs = [x for x in universe if rng.random() < chance]
    rng.shuffle(xs)
    result = []
    top = rng.choice([2, 3, 5])
    while len(xs) > 1:
        k = rng.randrange(2, min(top, len(xs)) + 1)
        result.append(xs[:k])
        xs = xs[k:]
    return result


def random_history(rec, steps, labels):
    rng = rec.rng
    kind = rng.choice('NZF')
    n = rng.choice([3, 5, 8, 12, 18] if rng.random() < 0.95 else [70])
    universe = {'N': range(n), 'Z': range(-(n // 2), n - n // 2), 'F': sorted(rng.sample(range(-5 if rng.random() < .5 else 0, 3 * n), n))}[kind]
    outside = {'N': [-1, -7], 'Z': [], 'F': [400, 3 * n]}[kind]
    names = ['x', 'y', 'z', 'u', 'v'][:rng.randrange(2, 6)] if labels else []
    start = random_blocks(rng, universe) if rng.random() < 0.5 else []
    if rng.random() < 0.15 and start:     # not disjoint
        bad = [list(b) for b in start] + [[start[0][0], rng.choice([x for x in universe if x != start[0][0]])]]
        rec.rejects('new', {'domain': {'kind': kind, 'set': list(universe) if kind == 'F' else []}, 'blocks': bad, 'labels': []},
                    lambda: SetPart(bad, set(universe) if kind == 'F' else kind))
    given = []
    if labels and start and rng.random() < 0.3:
        given = [[sorted(b), x] for b, x in zip(start, names) if rng.random() < 0.7]
    h = History(rec, kind, universe, outside, names, start, given)

    def element():
        return rng.choice(outside) if outside and rng.random() < 0.06 else rng.choice(list(universe))

    for _ in range(steps):
        blocks_now = h.numbers(h.part.blocks)
        r = rng.random()
        if labels and r < 0.3:
            if rng.random() < 0.75:
                h.do('label', [element()], label=rng.choice(names))
            else:
                block = h.numbers([h.part.element_to_block(h.thing(rng.choice(list(universe))))])[0]
                block = list(block) if rng.random() < 0.9 else sorted({element(), element()})
                h.do('label block', block, label=rng.choice(names))
        elif blocks_now and r < 0.62:
            block = list(rng.choice(blocks_now))
            rng.shuffle(block)
            if rng.random() < 0.1:
                block = block + [element()] if rng.random() < 0.5 else block[1:]
            parts = [[]]
            for x in block:
                parts[-1].append(x)
                if rng.random() < 0.4:
                    parts.append([])
            parts = [b for b in parts if b]
            ls = []
            if labels and rng.random() < 0.6:
                ls = [rng.choice(names) for _ in parts] if rng.random() < 0.4 else rng.sample(names, min(len(names), len(parts)))
                # another number of labels than of parts
                if rng.random() < 0.15:
                    ls = rng.sample(names, min(len(names), len(parts) + 1)) if rng.random() < 0.6 else ls[1:]
            h.do('refine', parts=parts, labels=ls)
        elif r < 0.85 or not rng.random() < 0.5:
            x, y = element(), element()
            if x == y and x in outside:
                continue
            h.do('merge', [x, y])
        else:
            xs = list({element() for _ in range(rng.randrange(2, 5))})
            if len(xs) > 1:
                h.do('many', xs)
        if rng.random() < 0.5:
            h.view()
    h.view()


KINDS = [('N', range(0, 4), [-1]), ('Z', range(-2, 2), []), ('F', [-1, 0, 2, 5], [9])]


def t01(rec):
    for kind, universe, outside in KINDS:
        replay_graph(rec, 'Gen_SetPart' + kind, kind, universe, outside, False, 1)
    for _ in range(rec.pick(60, 800)):
        random_history(rec, rec.rng.choice([5, 12, 30]), rec.rng.random() < 0.15)


def t02(rec):
    for kind, universe, outside in KINDS:
        replay_graph(rec, 'Gen_SetPart' + kind, kind, universe, outside, True, rec.pick(0.1, 1))
    for _ in range(rec.pick(60, 800)):
        random_history(rec, rec.rng.choice([5, 12, 30]), True)


# ---------------------------------------------------------------- pairs

def all_partitions(xs):
    if not xs:
        yield []
        return
    for p in all_partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]


def described(p):
    dom = p.domain
    if isinstance(dom, str):
        kind, elements = dom, []
    else:
        kind, elements = 'F', iset(dom)
    return {'kind': kind, 'set': elements, 'blocks': blocks(p.blocks)}


def record_pair(rec, dx, x, dy, y):
    p, q = SetPart([list(b) for b in x], domain_arg(dx)), SetPart([list(b) for b in y], domain_arg(dy))
    if rec.rng.random() < 0.5:
        p.pairs, q.canonical_blocks_with_singletons
    rec.event('pair', {'dx': dx, 'x': x, 'dy': dy, 'y': y}, {
        'meet': attempt(lambda: p.meet(q), described),
        'join': attempt(lambda: p.join(q), described),
        'eq': attempt(lambda: p == q, boolean),
        'ne': attempt(lambda: p != q, boolean),
        'le': attempt(lambda: p <= q, boolean),
        'lt': attempt(lambda: p < q, boolean),
        'ge': attempt(lambda: p >= q, boolean),
        'gt': attempt(lambda: p > q, boolean),
        'after': (lambda: [p, q], listof(described)),
    })


def t03(rec):
    rng = rec.rng
    doms = [{'kind': 'N', 'set': []}, {'kind': 'Z', 'set': []}, {'kind': 'F', 'set': [-1, 0, 2, 5]}, {'kind': 'F', 'set': [-1, 0, 1, 2, 3, 5]}]
    universes = [[0, 1, 2, 3], [-2, -1, 0, 1], [-1, 0, 2, 5], [-1, 0, 2, 5]]
    for d, u in zip(doms, universes):
        parts = list(all_partitions(u))
        for x in parts:
            for y in parts:
                if rec.mine():
                    record_pair(rec, d, x, d, y)
    five = list(all_partitions([0, 1, 2, 3, 4]))
    if not rec.quick:
        for x in five:
            for y in five:
                if rec.mine():
                    record_pair(rec, doms[0], x, doms[0], y)
    for _ in range(rec.pick(150, 2500)):
        kind = rng.choice('NZF')
        n = rng.choice([5, 8, 14, 25] if rng.random() < 0.95 else [70, 120])
        u = {'N': range(n), 'Z': range(-n // 2, n // 2), 'F': sorted(rng.sample(range(-5, 3 * n), n))}[kind]
        d = {'kind': kind, 'set': list(u) if kind == 'F' else []}
        x, y = random_blocks(rng, u, rng.choice([0.3, 0.7, 1])), random_blocks(rng, u, rng.choice([0.3, 0.7, 1]))
        if rng.random() < 0.2:     # y coarser than x
            y = [sum(x[i:i + 2], []) for i in range(0, len(x), 2)]
        record_pair(rec, d, x, d, y)
    for _ in range(rec.pick(20, 100)):
        i, j = rng.sample(range(4), 2)
        record_pair(rec, doms[i], random_blocks(rng, universes[i]), doms[j], random_blocks(rng, universes[j]))
