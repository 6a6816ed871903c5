"""recordings of changes: containers given to constructors, objects, operands and results do not share what they are made of"""
import copy
import json
import os

import numpy as np

from discretehelpers.set_part import SetPart
from discretehelpers.set_part_comp import SetPartComp

from rec import Shape, listof, text
from rec_pure import MAKERS, SETPART, SETPARTCOMP, Env, a_boolf, asked, inner_table_of, plain, table_of, token

# questions about a mutable object alone
ALONE = {
    SetPart: [n for n in SETPART if 'other' not in n and n not in ('join', 'meet', '== fresh', '== itself')],
    SetPartComp: [n for n in SETPARTCOMP if 'other' not in n and n not in ('== fresh', '== itself')],
}

RESULTS = {
    'Binv': [lambda f, o: f & o, lambda f, o: f + o, lambda f, o: ~f],
    'Perm': [lambda f, o: f * o, lambda f, o: f.inverse],
    'SigPerm': [lambda f, o: f * o, lambda f, o: f.inverse],
    'WalshPerm': [lambda f, o: f * o, lambda f, o: f.inverse, lambda f, o: f.transpose],
    'SetPart': [lambda f, o: f.join(o), lambda f, o: f.meet(o), lambda f, o: o.join(f), lambda f, o: o.meet(f), lambda f, o: f.join(f),
                lambda f, o: f.meet(f), lambda f, o: SetPart(f.blocks, f.domain, f.block_labels)],
    'SetPartComp': [lambda f, o: f.related_part(), lambda f, o: SetPartComp(f.equal_part, f.comp_pairs)],
    'Boolf': [lambda f, o: f & o, lambda f, o: f ^ o, lambda f, o: ~f],
}


def containers(x):
    """everything in the arguments that the caller can change"""
    if isinstance(x, (list, tuple)):
        if isinstance(x, list):
            yield x
        for e in x:
            yield from containers(e)
    elif isinstance(x, dict):
        yield x
        for e in x.values():
            yield from containers(e)
    elif isinstance(x, (set, np.ndarray, SetPart)):
        yield x


def change(x, kind, rng):
    """change a container or a mutable object; a refused change is none"""
    try:
        if isinstance(x, SetPart):
            elements = [e for e in range(-2, 8) if x.element_in_domain(e)]
            a, b = rng.sample(elements, 2)
            if kind == 1:
                x.merge_pair(a, b)
            elif kind == 2:
                x.merge_many(rng.sample(elements, 3))
            elif rng.random() < 0.5:
                x.add_label_to_element(a, rng.choice(['x', 'y', 'z', 'w']))
            else:
                block = rng.choice(x.blocks)
                k = rng.randrange(1, len(block))
                x.refine_block([block[:k], block[k:]])
        elif isinstance(x, SetPartComp):
            a, b = rng.sample(range(8), 2)
            x.set_equal(a, b) if kind == 1 else x.set_comp(a, b)
        elif isinstance(x, list):
            if kind == 1:
                x.append(copy.deepcopy(rng.choice(x)) if x else 0)
            elif kind == 2:
                x.reverse()
            else:
                x.clear()
        elif isinstance(x, set):
            x.add(77) if kind == 1 else x.clear() if kind == 2 else x.pop()
        elif isinstance(x, dict):
            x.clear() if kind == 1 else x.popitem()
        elif isinstance(x, np.ndarray):
            x[rng.randrange(len(x))] = 0 if kind == 1 else 1
    except Exception:
        pass


class World:

    def __init__(self, subject, result, rng):
        self.env = Env(subject)
        self.things = {'argument': [self.env.args, self.env.kwargs]}
        self.things['first'] = self.env.fresh()
        self.things['second'] = self.env.fresh()
        self.things['operand'] = self.env.other()
        try:
            self.things['result'] = result(self.things['first'], self.things['operand'])
        except Exception:  # of other lengths or domains
            pass
        # questions may be asked beforehand
        if rng.random() < 0.5:
            table = inner_table_of(self.things['first'])
            for name in rng.sample(sorted(table), 5):
                asked(table[name], self.things['first'], self.env)
        self.containers = list(containers(self.things['argument']))

    def can(self, target):
        if target == 'argument':
            return bool(self.containers)
        return isinstance(self.things.get(target), (SetPart, SetPartComp))

    def change(self, target, kind, rng):
        change(rng.choice(self.containers) if target == 'argument' else self.things[target], kind, rng)

    def value(self, name):
        x = self.things[name]
        if name == 'argument':
            return token(x)
        parts = [plain(x), repr(x)]
        if type(x) in ALONE:
            parts += [asked(table_of(x)[n], x, self.env)[1] for n in ALONE[type(x)]]
        return token(parts)

    def values(self):
        return {name: self.value(name) for name in self.things}


def texts(x):
    if not isinstance(x, dict) or not all(isinstance(v, str) for v in x.values()):
        raise Shape('texts expected')
    return x


def record(rec, subject, word):
    rng = rec.rng
    cls = subject[0].__name__
    w = World(subject, rng.choice(RESULTS[cls]), rng)
    steps = [(target, kind) for target, kind in word if w.can(target)]
    if not steps:
        return
    about = {'cls': cls, 'args': repr(subject[1:3])[:300], 'operand': repr(subject[3]['other'])[:300]}
    rec.event('things', {**about, 'values': w.values()}, {})
    done = []
    for target, kind in steps:
        w.change(target, kind, rng)
        done.append([target, kind])
        rec.event('change', {**about, 'steps': list(done), 'target': target, 'now': w.value(target)}, {'values': (w.values, texts)})
    # the objects that were not changed, asked for everything
    targets = {t for t, _ in steps}
    for name in ('first', 'second'):
        if name not in targets:
            fresh = Env(subject)
            table = inner_table_of(fresh.fresh())
            names = [n for n in rng.sample(sorted(table), min(len(table), rec.pick(12, 25))) if 'fresh' not in n and 'other' not in n
                     and n not in ('join', 'meet')]
            known = [asked(table[n], fresh.fresh(), fresh)[1] for n in names]
            o = w.things[name]
            rec.event('answers', {**about, 'steps': done, 'asked': names, 'known': known}, {
                'answers': (lambda: [asked(table[n], o, fresh)[1] for n in names], listof(text))})


def x02(rec):
    rng = rec.rng
    with open(os.path.join(os.environ['VERIF_STEPS'], 'steps-Gen_Own.ndjson')) as f:
        words = [json.loads(line) for line in f]
    mutable = ['SetPart', 'SetPartComp']
    for word in rec.share(words):
        for kind in mutable:
            for _ in range(rec.pick(1, 5)):
                record(rec, MAKERS[kind](rng), word)
    for _ in range(rec.pick(120, 700)):
        for kind in sorted(MAKERS):
            if kind not in mutable + ['Helpers']:
                record(rec, MAKERS[kind](rng), [['argument', rng.randrange(1, 4)] for _ in range(2)])
        record(rec, a_boolf(rng, rng.choice([0, 1, 2, 2, 3])), [['argument', rng.randrange(1, 4)] for _ in range(2)])
