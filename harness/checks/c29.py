"""Conversion to Brightway2 keeps the linked database as it is"""
import collections
import copy
from .. import e2e, gen
ID = 'C29'
RULE = ('distinct = (kinds and numbers of exchanges, signs, missing or zero ones) of converted activities; every activity and exchange is compared, and the matrices of both databases')
REQUIRED = ['activities converted', 'exchanges converted', 'production', 'technosphere', 'biosphere', 'byproducts', 'zero amounts left out', 'refinery gas left out', 'refinery gas kept', 'linked databases']
META = ('code', 'economic scenario', 'end date', 'filepath', 'location', 'name', 'start date', 'technology level')


def gen_model(rng, index):
    return e2e.Case(rng, rng.choice(sorted(gen.PROFILES))), rng.choice(['db', 'ecoinvent 3.5, cutoff', 'ä'])


def gen_some(rng, index):
    names = gen.Names(rng)
    codes = ['%032x' % rng.getrandbits(128) for _ in range(rng.randint(1, 6))]
    data = []
    for c in codes:
        excs = [gen.exchange(rng, names.new(), rng.choice([1., -1., 1.]), 'reference product', rng.choice(gen.UNITS), code=c)]
        for i in range(rng.randint(0, 8)):
            kind = rng.choice(['from technosphere', 'byproduct', 'to environment', 'from environment', 'dropped product', 'refinery gas', 'from technosphere'])
            amount = rng.choice([0., 1, -1]) * gen.num(rng) if rng.random() < .5 else gen.num(rng)
            if kind == 'dropped product':
                excs.append(gen.exchange(rng, names.new(), 0., kind))
            elif kind == 'refinery gas':
                e = gen.exchange(rng, kind, amount, 'from technosphere')
                if rng.random() < .5:
                    e['code'] = rng.choice(codes)
                excs.append(e)
            elif 'environment' in kind:
                excs.append(gen.exchange(rng, rng.choice(['CO2', 'refinery gas x', names.new()]), amount, kind))
                if rng.random() < .1:
                    excs[-1]['subcompartment'] = excs[-1]['compartment']
            else:
                excs.append(gen.exchange(rng, names.new(), amount, kind, code=rng.choice(codes)))
        rng.shuffle(excs)
        ds = gen.dataset(rng, names.new(), rng.choice(['GLO', 'RoW', 'CH']), rng.choice(['transforming activity', 'market activity']), excs, code=c)
        ds['reference product'] = [e for e in excs if e['type'] == 'reference product'][0]['name']
        data.append(ds)
    return data, names.new()


def compare(mon, data, name):
    from ocelot.io.brightway2 import Brightway2Converter
    before = copy.deepcopy(data)
    got = list(Brightway2Converter.convert_to_brightway2(data, name))
    mon.check(data == before, 'the conversion changed its input')
    mon.check(len(got) == len(data), '{} activities became {}', len(data), len(got))
    A, B = collections.Counter(), collections.Counter()
    for ds, new in zip(data, got):
        rp, = [e for e in ds['exchanges'] if e['type'] == 'reference product']
        for f in META:
            mon.check(new.get(f) == ds[f], '{} is {!r}, expected {!r}', f, new.get(f), ds[f])
        mon.check(new['database'] == name, 'database is {!r}', new['database'])
        mon.check(new['unit'] == rp['unit'] and new['reference product'] == rp['name'] and new['production amount'] == rp['amount'], 'product of {} differs', ds['name'])
        want = []
        for e in ds['exchanges']:
            if not e['amount']:
                mon.count('zero amounts left out')
                continue
            if e['name'] == 'refinery gas' and not e.get('code'):
                mon.count('refinery gas left out')
                continue
            mon.count('refinery gas kept', e['name'] == 'refinery gas')
            if 'environment' in e['type']:
                want.append({'type': 'biosphere', 'amount': e['amount'], 'name': e['name'], 'unit': e['unit'], 'categories': (e['compartment'], e['subcompartment'])})
                mon.count('biosphere')
                continue
            kind = 'production' if e['type'] == 'reference product' else 'technosphere'
            sign = -1 if e['type'] == 'byproduct' else 1
            mon.count(kind)
            mon.count('byproducts', e['type'] == 'byproduct')
            want.append({'type': kind, 'amount': sign * e['amount'], 'input': (name, e['code'])})
            A[e['code'], ds['code']] += e['amount'] if e['type'] != 'from technosphere' else -e['amount']
        mon.check(len(want) == len(new['exchanges']), '{}: {} exchanges became {}', ds['name'], len(want), len(new['exchanges']))
        for w, g in zip(want, new['exchanges']):
            mon.check({k: g.get(k) for k in w} == w, '{}: exchange is {}, expected {}', ds['name'], g, w)
            mon.count('exchanges converted')
            if g['type'] in ('production', 'technosphere'):
                B[g['input'][1], new['code']] += g['amount'] if g['type'] == 'production' else -g['amount']
        mon.count('activities converted')
        mon.seen(ds['type'], sorted(collections.Counter((e['type'], e['amount'] > 0) for e in ds['exchanges']).items()))
    for k in set(A) | set(B):
        mon.check(e2e.close(A[k], B[k]), 'matrix entry {} is {}, expected {}', k, B[k], A[k])


def run_model(case, mon):
    case, name = case
    out = e2e.run(case, mon)
    compare(mon, out.data, name)
    mon.count('linked databases')


def run_some(case, mon):
    compare(mon, *case)


KINDS = {'model': (gen_model, run_model), 'some': (gen_some, run_some)}
PLAN = {'quick': dict(model=150, some=4000), 'thorough': dict(model=4000, some=100000)}
