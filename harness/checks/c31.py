"""Activities share nothing: whatever happens to one of them happens to no other"""
import collections
import copy
import random
from .. import e2e, gen
from . import c28
ID = 'C31'
RULE = ('distinct = (function of the system model, features of the database) after which all activities were searched for shared objects, and (model, kinds of changes) of results in which '
        'some activities were changed and all others compared with what they were before')
REQUIRED = ['steps watched', 'objects watched', 'activities split by allocation', 'activities changed', 'activities compared', 'results of two runs', 'single exchanges changed',
            'cutoff', 'cutoff_ecoinvent_row', 'consequential']


def make(rng):
    model = rng.choice(['cutoff', 'cutoff', 'cutoff_ecoinvent_row', 'consequential'])
    if model == 'consequential':
        return model, c28.Case(rng, rng.choice(['mixed', 'small', 'recycling', 'combined', 'alloc']))
    return model, e2e.Case(rng, rng.choice(['mixed', 'alloc', 'combined', 'recycling', 'groups', 'links', 'row', 'zero']))


def gen_steps(rng, index):
    return make(rng)


def gen_result(rng, index):
    return make(rng) + make(rng) + (rng.getrandbits(32),)


def flat(config):
    if isinstance(config, (list, tuple)):
        for f in config:
            yield from flat(f)
    elif hasattr(config, '__iter__') and not isinstance(config, (str, dict)):
        for f in config:
            yield from flat(f)
    else:
        yield config


def mutable(o):
    return isinstance(o, (dict, list, set, bytearray))


def shared(data):
    """First pair of places which are the same changeable object, and how many objects there are"""
    seen = {}

    def walk(o, path):
        if mutable(o):
            if id(o) in seen:
                return seen[id(o)], path
            seen[id(o)] = path
        elif not isinstance(o, tuple):
            return None
        for k, v in o.items() if isinstance(o, dict) else enumerate(o) if isinstance(o, (list, tuple)) else ():
            found = walk(v, path + (k,))
            if found:
                return found
    for i, ds in enumerate(data):
        found = walk(ds, (i,))
        if found:
            return found, len(seen)
    return None, len(seen)


def show(data, path):
    ds = data[path[0]]
    rest = list(path[1:])
    if len(rest) > 1 and rest[0] == 'exchanges':
        rest[1] = ds['exchanges'][rest[1]].get('name')
    return ds.get('name'), ds.get('location'), ds.get('reference product'), rest


def watch(data, mon, name):
    found, n = shared(data)
    if found:
        a, b = found
        mon.fail('{}: {} and {} are the same object', name, show(data, a), show(data, b))
    mon.count('objects watched', n)


def run_steps(case, mon):
    from ocelot.model import mapping
    model, c = case
    mon.sample = c
    data = c.data()
    for f in flat(mapping[model]):
        before = len(data)
        data = f(data)
        name = getattr(f, '__name__', None) or getattr(getattr(f, 'func', None), '__name__', None) or 'function'
        watch(data, mon, '{} after {}'.format(model, name))
        mon.count('steps watched')
        if 'alloc' in name or 'split' in name:
            mon.count('activities split by allocation', max(0, len(data) - before))
        mon.seen(name, sorted(c.world.features)[:4], model)
    mon.count(model)


def spoil(o, rng):
    """Change everything inside of an object, in place"""
    if isinstance(o, dict):
        for k in list(o):
            if mutable(o[k]):
                spoil(o[k], rng)
            elif isinstance(o[k], (int, float)):
                o[k] = -77.
            elif rng.random() < .5:
                o[k] = 'spoiled'
        o['spoiled'] = True
        if rng.random() < .2:
            o.clear()
    elif isinstance(o, list):
        for x in o:
            spoil(x, rng)
        o.append('spoiled')
        if rng.random() < .2:
            o.clear()
    elif isinstance(o, set):
        o.add('spoiled')


def run_result(case, mon):
    from ocelot.model import mapping
    m1, c1, m2, c2, seed = case
    rng = random.Random(seed)
    mon.sample = c1
    first = mapping[m1](c1.data())
    same = rng.random() < .5
    second = mapping[m1](c1.data()) if same else mapping[m2](c2.data())
    both = first + second
    watch(both, mon, 'results of two runs ({}, {})'.format(m1, m1 if same else m2))
    mon.count('results of two runs')
    keep = copy.deepcopy(both)
    gone = set(rng.sample(range(len(both)), rng.randint(1, len(both)))) if rng.random() < .7 else set(range(len(second) if rng.random() < .5 else len(first)))
    for i in gone:
        if rng.random() < .7:
            spoil(both[i], rng)
            mon.count('activities changed')
        else:
            # One of its exchanges only
            j = rng.randrange(len(both[i]['exchanges']))
            spoil(both[i]['exchanges'][j], rng)
            mon.count('single exchanges changed')
            others = [e for k, e in enumerate(both[i]['exchanges']) if k != j], [e for k, e in enumerate(keep[i]['exchanges']) if k != j]
            mon.check(others[0] == others[1], 'changing one exchange of {} changed another one', keep[i]['name'])
    for i, (a, b) in enumerate(zip(both, keep)):
        if i not in gone:
            mon.check(a == b, 'changing other activities changed {}', e2e.key(b))
            mon.count('activities compared')
    mon.seen('result', m1, same, len(gone) > len(both) / 2, sorted(c1.world.features)[:3])


KINDS = {'steps': (gen_steps, run_steps), 'result': (gen_result, run_result)}
PLAN = {'quick': dict(steps=200, result=120), 'thorough': dict(steps=9000, result=4000)}
