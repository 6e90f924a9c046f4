"""Economic and true value allocation"""
import copy
import math
from .. import alloc, e2e, gen, ref
ID = 'C11'
RULE = ('distinct = (products, products with true value, free products, burdens) of allocated activities; every burden of every activity is compared and '
        'summed up over the products')
REQUIRED = ['burdens compared', 'burdens conserved', 'with true value', 'with free products', 'products with zero amount', 'undefined shares rejected', 'bad products rejected', 'distributions compared']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_direct(case, mon):
    from ocelot.transformations.cutoff.economic import economic_allocation
    got = economic_allocation(copy.deepcopy(case))
    alloc.conserved(mon, case, got, 'economic')
    alloc.same(mon, got, ref.economic(case), 'economic')
    prods = [e for e in case['exchanges'] if ref.is_product(e)]
    ntv = sum(1 for e in prods if ref.prop(e, 'true value relation') is not None)
    free = sum(1 for e in prods if not ref.prop(e, 'price'))
    mon.count('with true value', bool(ntv))
    mon.count('products with zero amount', sum(not e['amount'] for e in prods))
    mon.count('with free products', bool(free))
    mon.seen(len(prods), ntv, free, len(case['exchanges']))


def gen_bad(rng, index):
    ds = alloc.economic(rng, index)
    prods = [e for e in ds['exchanges'] if ref.is_product(e)]
    how = rng.choice(['no price', 'negative price', 'negative amount', 'worthless', 'true value zero'])
    # Prices are needed even for products which aren't made
    e = rng.choice([e for e in prods if e['amount'] or how in ('no price', 'negative price')])
    if how == 'no price':
        e['properties'] = [p for p in e['properties'] if p['name'] != 'price']
    elif how == 'negative price':
        [p for p in e['properties'] if p['name'] == 'price'][0]['amount'] = -gen.num(rng)
    elif how == 'negative amount':
        e['amount'] = -e['amount']
        e.pop('uncertainty', None)
    elif how == 'worthless':
        for e in prods:
            [p for p in e['properties'] if p['name'] == 'price'][0]['amount'] = 0.
    else:
        for x in prods:
            x['properties'] = [p for p in x['properties'] if p['name'] != 'true value relation']
        e['properties'].append(gen.prop(rng, 'true value relation', 0.))
    return how, ds


def run_bad(case, mon):
    from ocelot.transformations.cutoff.economic import economic_allocation
    from ocelot.errors import InvalidExchange
    how, ds = case
    try:
        got = economic_allocation(copy.deepcopy(ds))
    except InvalidExchange:
        mon.count('undefined shares rejected' if how in ('worthless', 'true value zero') else 'bad products rejected')
        mon.seen('bad', how)
    else:
        mon.fail('{}: allocated anyway, e.g. {}', how, [(e['name'], e['amount']) for e in got[0]['exchanges']][:4])


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    sel = lambda k, ds: case.ref.by_key[k].get('_method') in ('economic', 'recycling')
    e2e.environment(case, mon, out, select=sel)
    e2e.inputs(case, mon, out, select=sel)
    e2e.uncertainties(case, mon, out, select=sel)


KINDS = {'direct': (alloc.economic, run_direct), 'bad': (gen_bad, run_bad), 'alloc': (make('alloc', emissions=(1, 3)), run_world)}
PLAN = {'quick': dict(direct=1500, bad=300, alloc=80), 'thorough': dict(direct=40000, bad=3000, alloc=2500)}
