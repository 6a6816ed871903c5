#!/usr/bin/env python3
"""Decide one property:  python3 run.py PROPERTY [quick|thorough]

1. Recording processes drive the code in /repo and log what it does (harness/rec_*.py).
2. TLC checks every logged event against the TLA+ specification (spec/Trace*.tla).
3. TLC model-checks the specification itself (spec/MC*.tla) and, for the stateful classes,
   generates behaviours that are replayed into the real code.
Exit 0: held.  Exit 1: VIOLATION line(s).  Exit 2: the machinery failed.
"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
from suites import SUITES, TRACE, CONFIG, MODELS, GENERATE, NO_CANARY  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(ROOT, 'spec')
NSHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
BUDGET = {'quick': 840, 'thorough': 870}


class Machinery(Exception):
    pass


def environment(work):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(
        PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(work, 'pyc'),
        OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_REPO=REPO,
    )
    return env


def tlc(module, config, work, tag, extra_env=None, args=(), heap='2500m', workers='1'):
    """run TLC on spec/<module>.tla; returns its output"""
    meta = os.path.join(work, 'meta-' + tag)
    env = dict(os.environ, **(extra_env or {}))
    cmd = [
        'java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
        '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-workers', workers, '-noGenerateSpecTE', '-metadir', meta,
        '-config', config, *args, os.path.join(SPEC, module + '.tla'),
    ]
    p = subprocess.run(cmd, cwd=work, env=env, capture_output=True, text=True, timeout=BUDGET[TIER])
    out = p.stdout + p.stderr
    with open(os.path.join(work, 'tlc-' + tag + '.out'), 'w') as f:
        f.write(out)
    return p.returncode, out


STATES = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)
REJECT = re.compile(r'^"REJECT (\d+) (.*)"$', re.M)


def counts(out):
    m = STATES.findall(out)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


# ---------------------------------------------------------------- corrupted copies of events

def corrupt(value, rng):
    """the same shape with one leaf changed; None if there is nothing to change"""
    if isinstance(value, bool):
        return not value
    if isinstance(value, int):
        return 1 - value if value in (0, 1) else value + 1
    if isinstance(value, str):
        return value + '?'
    if isinstance(value, list):
        if not value:
            return None
        order = list(range(len(value)))
        rng.shuffle(order)
        for i in order:
            c = corrupt(value[i], rng)
            if c is not None:
                return value[:i] + [c] + value[i + 1:]
        return None
    if isinstance(value, dict):
        keys = sorted(value)
        rng.shuffle(keys)
        for k in keys:
            c = corrupt(value[k], rng)
            if c is not None:
                return dict(value, **{k: c})
        return None
    return None


def add_canaries(path, rng):
    """insert corrupted copies behind some events of each (operation, view); TLC has to reject every one of them"""
    with open(path) as f:
        lines = f.read().splitlines()
    pool = {}
    for i, line in enumerate(lines):
        e = json.loads(line)
        if e['err']:
            continue
        for view in e['r']:
            slot = pool.setdefault((e['op'], view), [])
            if len(slot) < 12:
                slot.append((i, e))
            elif rng.random() < 0.02:
                slot[rng.randrange(12)] = (i, e)
    behind = {}
    for (op, view), events in sorted(pool.items()):
        if (op, view) in NO_CANARY:
            continue
        rng.shuffle(events)
        made = 0
        for i, e in events:
            c = corrupt(e['r'][view], rng)
            if c is None:
                continue
            behind.setdefault(i, []).append((op, view, dict(e, r=dict(e['r'], **{view: c}))))
            made += 1
            if made >= 3:
                break
    canaries, position = {}, 0
    with open(path, 'w') as f:
        for i, line in enumerate(lines):
            f.write(line + '\n')
            position += 1
            for op, view, bad in behind.get(i, []):
                f.write(json.dumps(bad) + '\n')
                position += 1
                canaries[position] = (op, view)
    return len(lines), canaries


# ---------------------------------------------------------------- one shard: record, then check

def shard(pid, k, work, rng):
    path = os.path.join(work, f'trace-{k}.ndjson')
    env = dict(environment(work), VERIF_STEPS=work)
    log = open(os.path.join(work, f'rec-{k}.out'), 'w')
    t0 = time.time()
    p = subprocess.run(
        [PYTHON, os.path.join(ROOT, 'harness', 'rec.py'), pid, path, str(SEED), TIER, str(k), str(NSHARDS)],
        env=env, stdout=log, stderr=subprocess.STDOUT, timeout=BUDGET[TIER], cwd=work)
    if p.returncode != 0:
        raise Machinery(f'recording of shard {k} failed:\n' + open(os.path.join(work, f'rec-{k}.out')).read()[-3000:])
    stats = json.load(open(path + '.stats'))
    t1 = time.time()
    canaries = {}
    real = stats['events']
    if k == 0:
        real, canaries = add_canaries(path, rng)
    total = real + len(canaries)
    module = TRACE[pid]
    code, out = tlc(module, os.path.join(SPEC, CONFIG.get(module, 'Trace.cfg')), work, f'trace-{k}', {'TRACE_FILE': path})
    t2 = time.time()
    states, generated = counts(out)
    rejected = {int(i): c.replace('\\"', '"') for i, c in REJECT.findall(out)}
    if 'Model checking completed. No error has been found.' not in out or states != total + 1:
        raise Machinery(f'TLC did not finish shard {k} ({states} states, {total} events):\n' + tail(out))
    # a corruption can be legal by chance; it tells something if all those of an operation and view pass
    made = [canaries[i] for i in canaries]
    passed = [canaries[i] for i in canaries if i not in rejected]
    sleeping = sorted({c for c in passed if made.count(c) >= 3 and made.count(c) == passed.count(c)})
    bad = {i: c for i, c in rejected.items() if i not in canaries}
    events = {}
    sample = []
    if bad or k == 0:
        with open(path) as f:
            for i, line in enumerate(f, 1):
                if i in bad and len(events) < 400:
                    events[i] = json.loads(line)
                if k == 0 and i in (1, max(1, real // 2), real):
                    sample.append(json.loads(line))
    if os.environ.get('VERIF_TIMES'):
        print(f'shard {k}: {stats["events"]} events, recorded {t1 - t0:.1f} s, checked {t2 - t1:.1f} s', file=sys.stderr)
    return {
        'events': stats['events'], 'ops': stats['ops'], 'missing': stats['missing'], 'states': states,
        'generated': generated, 'bad': [(c, events.get(i)) for i, c in sorted(bad.items())], 'sleeping': sleeping,
        'canaries': len(canaries), 'passed': len(passed), 'sample': sample,
    }


def tail(out):
    lines = [x for x in out.splitlines() if not x.startswith('<<"REJECT"')]
    return '\n'.join(lines[-60:])


def model(name, config, work):
    code, out = tlc(name, os.path.join(SPEC, config), work, 'mc-' + config, workers='2', heap='4g')
    if 'Model checking completed. No error has been found.' not in out:
        raise Machinery(f'model {name} {config}:\n' + tail(out))
    states, generated = counts(out)
    return {'model': config[:-4], 'states': states, 'generated': generated}


def generate(name, config, work):
    """TLC writes every step of the specified state graph to a file, to be replayed into the real code by the recordings"""
    code, out = tlc(name, os.path.join(SPEC, config), work, 'gen-' + config, workers='1', heap='4g')
    if 'Model checking completed. No error has been found.' not in out:
        raise Machinery(f'generation {name} {config}:\n' + tail(out))
    states, generated = counts(out)
    steps = 0
    with open(os.path.join(work, 'steps-' + config[:-4] + '.ndjson'), 'w') as f:
        for line in out.splitlines():
            if line.startswith('"STEP '):
                f.write(json.loads(line)[5:] + '\n')
                steps += 1
    if not steps:
        raise Machinery(f'{config} generated no steps')
    return {'model': config[:-4], 'states': states, 'generated': generated, 'steps_to_replay': steps}


# ---------------------------------------------------------------- findings

def known_findings(pid):
    """lines 'known: property=<id> match=<json> <what fails>' of KNOWN_FINDINGS.txt"""
    result = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) match=(\{.*?\}) (.*)', line.strip())
            if m and m.group(1) == pid:
                result.append((json.loads(m.group(2)), m.group(3)))
    return result


def is_known(event, clause, findings):
    for match, what in findings:
        ok = event is not None and match.get('op') == event['op']
        if ok and 'a' in match:
            ok = all(event['a'].get(k) == v for k, v in match['a'].items())
        if ok and 'clause' in match:
            ok = re.fullmatch(r'\{"' + match['clause'] + r'"\}', clause) is not None
        if ok:
            return what
    return None


def main():
    global TIER, SEED
    pid = sys.argv[1]
    TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    SEED = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    rng = random.Random(SEED)
    try:
        with concurrent.futures.ThreadPoolExecutor(NSHARDS + 4) as pool:
            models = [pool.submit(generate, m, c, work) for m, c, tiers in GENERATE.get(pid, []) if TIER in tiers]
            models = [f.result() for f in models]
            shards = [pool.submit(shard, pid, k, work, rng) for k in range(NSHARDS)]
            laws = [pool.submit(model, m, c, work) for m, c, tiers in MODELS.get(pid, []) if TIER in tiers]
            shards = [f.result() for f in shards]
            models += [f.result() for f in laws]
    except Machinery as e:
        print('MACHINERY', pid, e, file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print('MACHINERY', pid, 'timeout', e.cmd[:3], file=sys.stderr)
        return 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work directory', work, file=sys.stderr)

    bad = [b for s in shards for b in s['bad']]
    findings = known_findings(pid)
    fresh, quiet = [], {}
    for clause, event in bad:
        what = is_known(event, clause, findings)
        if what:
            quiet.setdefault(what, 0)
            quiet[what] += 1
        else:
            fresh.append((clause, event))

    ops = {}
    for s in shards:
        for k, v in s['ops'].items():
            ops[k] = ops.get(k, 0) + v
    missing = sorted({k for s in shards for k in s['missing']})
    sleeping = sorted({x for s in shards for x in s['sleeping']})
    evidence = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': sum(x['states'] for x in shards + models),
            'transitions': sum(x['generated'] for x in shards + models),
            'traces_validated_against_impl': sum(s['events'] for s in shards),
            'events_by_operation': ops,
            'corrupted_events_rejected': sum(s['canaries'] - s['passed'] for s in shards),
            'models': models,
            'samples': [e for s in shards for e in s['sample']][:6],
        },
        'assumptions': [
            'TLC evaluates the specification correctly', 'CPython, numpy, sympy and the JSON encoding are trusted',
        ] + (['helpers not found and not judged: ' + ', '.join(missing)] if missing else []),
        'violations': len(fresh),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    for what, n in sorted(quiet.items()):
        print(f'KNOWN-FINDING: property={pid} {what} ({n} events)')
    if fresh:
        path = os.path.join(ROOT, 'evidence', 'replay', pid + '.json')
        with open(path, 'w') as f:
            json.dump({
                'property': pid, 'seed': SEED, 'tier': TIER,
                'violations': [{'failing_clauses': c, 'event': e} for c, e in fresh[:400]],
            }, f, indent=1)
        seen = set()
        for clause, event in fresh:
            op = event['op'] if event else '?'
            if (op, clause) not in seen and len(seen) < 25:
                seen.add((op, clause))
                print('rejected:', op, clause, json.dumps(event)[:600] if event else '')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if sleeping:
        print('MACHINERY', pid, 'corrupted events were accepted:', sleeping, file=sys.stderr)
        return 2
    print(f'held: {pid} {TIER} seed {SEED}: {evidence["coverage"]["traces_validated_against_impl"]} events, '
          f'{evidence["coverage"]["states"]} states, {evidence["wall_s"]} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
