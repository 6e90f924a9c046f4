"""Workloads and oracles for single linking steps: far more spatial situations per second than whole databases."""
import copy
import math

from . import gen, ref
from .core import HarnessError
from .gen import num, size, uid, exchange
from .topo import topo


def act(rng, kind, name, product, location, pv, amount=1., unit='kg', **kw):
    """A single-output activity the way the linking steps expect it"""
    ds = gen.dataset(rng, name, location, kind, [exchange(rng, product, amount, 'reference product', unit, p_unc=.2,
                                                          **{'production volume': {'amount': pv}})])
    ds['reference product'] = product
    ds['code'] = uid(rng).replace('-', '')
    ds.update(kw)
    ds['key'] = (name, location, product)
    ds['rp'] = product
    return ds


def volume(rng, p_zero=.2):
    return 0. if rng.random() < p_zero else num(rng, -1, 4)


def chooser():
    c = ref.Cutoff.__new__(ref.Cutoff)
    c.t = topo()
    return c


def market_places(rng, t, n):
    """Non-overlapping market areas, with or without a rest of the world or a single global market"""
    x = rng.random()
    if x < .12:
        return ['GLO']
    if x < .3:
        locs = t.cover(rng)
    else:
        locs = t.disjoint(rng, n)
    if rng.random() < .6:
        locs.append('RoW')
    return locs or ['GLO']


def one_name_each(t, locs):
    """Two names for the very same area would make two market groups suppliers of each other"""
    return sorted({t.mask[l]: l for l in sorted(locs)}.values())


def group_places(rng, t, near, n):
    out = set()
    for _ in range(n):
        x = rng.random()
        base = [l for l in near if l not in ('GLO', 'RoW')] or ['RER']
        out.add('GLO' if x < .3 else t.related(rng, rng.choice(base)) if x < .8 else rng.choice(t.big))
    return one_name_each(t, out)


def linking_case(rng, index):
    t = topo()
    names = gen.Names(rng)
    data = []
    prods = []
    for _ in range(rng.randint(1, 3)):
        p = names.new()
        prods.append(p)
        mlocs = market_places(rng, t, size(rng, 1, 7))
        pz = rng.choice([.05, .2, .9])
        for l in mlocs:
            data.append(act(rng, 'market activity', 'market for ' + p, p, l, volume(rng, pz)))
        if rng.random() < .5:
            for l in group_places(rng, t, mlocs, size(rng, 1, 5)):
                data.append(act(rng, 'market group', 'market group for ' + p, p, l, volume(rng, pz)))
    markets = list(data)
    for _ in range(rng.randint(1, 3)):
        name = names.new('{} production')
        kind = 'transforming activity'
        mine = 'product of ' + name
        if rng.random() < .12:
            # an activity called like the markets of some product
            name = 'market for ' + rng.choice(prods)
        near = [d['location'] for d in markets if d['location'] not in ('GLO', 'RoW')]
        locs = set()
        for _ in range(size(rng, 1, 5)):
            locs.add(rng.choice([t.related(rng, rng.choice(near)) if near else t.pick(rng), t.pick(rng), rng.choice(near or ['FR'])]))
        locs = sorted(locs)
        x = rng.random()
        if x < .2:
            locs = ['GLO']
        elif x < .7:
            locs.append('RoW')
        for l in locs:
            ds = act(rng, kind, name, mine, l, volume(rng))
            for p in rng.sample(prods, rng.randint(1, len(prods))):
                for _ in range(2 if rng.random() < .1 else 1):
                    ds['exchanges'].append(exchange(rng, p, num(rng) * rng.choice([1, 1, 1, 1, -1]), 'from technosphere'))
            if rng.random() < .3:
                # already linked: has to be left alone
                e = exchange(rng, rng.choice(prods), num(rng), 'from technosphere')
                e['code'] = rng.choice(markets)['code']
                ds['exchanges'].append(e)
            data.append(ds)
    if rng.random() < .3:
        for ds in markets:
            others = [p for p in prods if p != ds['rp']]
            if ds['type'] == 'market activity' and others and rng.random() < .5:
                ds['exchanges'].append(exchange(rng, rng.choice(others), num(rng), 'from technosphere'))
    rng.shuffle(data)
    return data


class Linked:
    """Expected and actual outcome of linking every consumer in ``data``"""

    def __init__(self, data):
        from ocelot.transformations.locations.linking import link_consumers_to_markets
        t = topo()
        c = chooser()
        before = copy.deepcopy(data)
        work = copy.deepcopy(data)
        for ds in work:
            del ds['key'], ds['rp']
        after = link_consumers_to_markets(work)
        self.after = {d['code']: d for d in after}
        self.before = before
        self.n_after = len(after)
        self.records = []
        by_code = {d['code']: d for d in before}
        self.by_code = by_code
        for ds in before:
            if ds['type'] == 'market group':
                continue
            own = t.row([x['location'] for x in before if x['name'] == ds['name'] and x['type'] == ds['type']]) \
                if ds['location'] == 'RoW' else t.m(ds['location'])
            for e in ds['exchanges']:
                if e['type'] != 'from technosphere':
                    continue
                if 'code' in e:
                    expected = [by_code[e['code']]]
                else:
                    cands = [x for x in before if x['type'] in ('market activity', 'market group') and x['rp'] == e['name']]
                    expected = c.choose(own, cands)
                    self.fall = not expected
                    if not expected:
                        expected = c.fallback(own, cands)
                got = [x for x in self.after[ds['code']]['exchanges'] if x.get('id') == e['id']]
                self.records.append((ds, e, expected, got, 'code' in e))


# -- suppliers of markets

def supply_case(rng, index):
    """Producers of one or two products, and the markets for them"""
    t = topo()
    names = gen.Names(rng)
    data = []
    for _ in range(rng.randint(1, 2)):
        p = names.new()
        mlocs = market_places(rng, t, size(rng, 1, 7))
        base = [l for l in mlocs if l not in ('GLO', 'RoW')]
        for l in mlocs:
            data.append(act(rng, 'market activity', 'market for ' + p, p, l, volume(rng), amount=rng.choice([1., 1., num(rng, -1, 1)])))
        for _ in range(size(rng, 1, 4)):
            name = names.new('{} production')
            x = rng.random()
            locs = ['GLO'] if x < .15 else t.cover(rng) if x < .2 else t.disjoint(rng, size(rng, 1, 6), base or None)
            if locs != ['GLO'] and rng.random() < .6:
                locs = locs + ['RoW']
            for l in locs or ['GLO']:
                data.append(act(rng, 'transforming activity', name, p, l, volume(rng)))
    rng.shuffle(data)
    return data


def area(t, ds, data, same):
    if ds['location'] != 'RoW':
        return t.m(ds['location'])
    return t.row([x['location'] for x in data if x['type'] == ds['type'] and all(x[k] == ds[k] for k in same)])


def expected_suppliers(data):
    """{market code: set of codes of the producers inside its area}"""
    t = topo()
    out = {}
    areas = {d['code']: area(t, d, data, ('rp', 'name')) for d in data if d['type'] == 'transforming activity'}
    for m in data:
        if m['type'] == 'market activity':
            a = area(t, m, data, ('rp',))
            out[m['code']] = {d['code'] for d in data if d['type'] == 'transforming activity' and d['rp'] == m['rp']
                              and t.inside(areas[d['code']], a)}
    return out


def strip(data):
    out = copy.deepcopy(data)
    for ds in out:
        ds.pop('key', None)
        ds.pop('rp', None)
    return out


def group_case(rng, index):
    t = topo()
    names = gen.Names(rng)
    data = []
    for _ in range(rng.randint(1, 2)):
        p = names.new()
        mlocs = market_places(rng, t, size(rng, 1, 8))
        for l in mlocs:
            data.append(act(rng, 'market activity', 'market for ' + p, p, l, volume(rng, rng.choice([.1, .1, .9]))))
        for l in group_places(rng, t, mlocs, size(rng, 1, 7)):
            data.append(act(rng, 'market group', 'market group for ' + p, p, l, volume(rng), amount=rng.choice([1., 1., num(rng, -1, 1)])))
        if rng.random() < .5:
            data.append(act(rng, 'transforming activity', names.new(), p, t.pick(rng), volume(rng)))
    rng.shuffle(data)
    return data
