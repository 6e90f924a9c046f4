"""Waste treatment and recycling"""
import copy
from .. import alloc, e2e, gen, ref
ID = 'C13'
RULE = ('distinct = (classification, useful products, burdens) of treatment activities; every resulting activity is compared with the reference allocation')
REQUIRED = ['burdens compared', 'waste treatments', 'recyclings', 'useful products for free', 'products with zero amount', 'wrong activities rejected', 'distributions compared', 'treatments found by the model']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_direct(case, mon):
    from ocelot.transformations.cutoff import wastes, cutoff_allocation
    waste_treatment_allocation, recycling_allocation = wastes.waste_treatment_allocation, wastes.recycling_allocation
    rp = ref.refs(case)[0]
    if ref.method(case) in ('waste treatment', 'recycling') and mon.rng.random() < .5:
        # The way it is done in a system model
        waste_treatment_allocation = recycling_allocation = lambda ds: cutoff_allocation([ds])
        mon.count('treatments found by the model')
    n = sum(1 for e in case['exchanges'] if ref.is_product(e)) - 1
    if rp['byproduct classification'] == 'waste':
        got = waste_treatment_allocation(copy.deepcopy(case))
        alloc.same(mon, got, ref.waste_treatment(case), 'waste treatment')
        mon.count('waste treatments')
        mon.count('useful products for free', n)
        for ds in got:
            r = ref.refs(ds)[0]
            if r['id'] != rp['id']:
                mon.check(not [e for e in ds['exchanges'] if e is not r and e['amount']], 'useful product {} is not free', r['name'])
            else:
                mon.check(e2e.close(r['amount'], -1, tol=1e-12), 'treatment of {} instead of -1', r['amount'])
    else:
        got = recycling_allocation(copy.deepcopy(case))
        alloc.same(mon, got, ref.recycling(case), 'recycling')
        turned = copy.deepcopy(case)
        r = ref.refs(turned)[0]
        r['type'] = 'from technosphere'
        ref.scale(r, -1)
        alloc.conserved(mon, turned, got, 'recycling')
        mon.count('recyclings')
    mon.count('products with zero amount', sum(ref.is_product(e) and not e['amount'] for e in case['exchanges']))
    mon.seen(rp['byproduct classification'], n, len(case['exchanges']), 'uncertainty' in rp)


def gen_bad(rng, index):
    kind = rng.choice(['waste', 'recyclable'])
    ds = alloc.treatment(rng, index, kind)
    rp = ref.refs(ds)[0]
    how = rng.choice(['positive', 'class', 'nothing']) if kind == 'waste' else rng.choice(['positive', 'nothing'])
    if how == 'positive' or (kind == 'waste' and how == 'nothing'):
        how = 'positive'
        rp['amount'] = -rp['amount']
        rp.pop('uncertainty', None)
    elif how == 'class':
        rp['byproduct classification'] = rng.choice(['recyclable', 'allocatable product'])
    else:
        ds['exchanges'] = [e for e in ds['exchanges'] if not ref.is_product(e) or e is rp]
    return kind, how, ds


def run_bad(case, mon):
    from ocelot.transformations.cutoff.wastes import waste_treatment_allocation, recycling_allocation
    from ocelot.errors import InvalidExchange
    kind, how, ds = case
    try:
        (waste_treatment_allocation if kind == 'waste' else recycling_allocation)(copy.deepcopy(ds))
    except InvalidExchange:
        mon.count('wrong activities rejected')
        mon.seen('bad', kind, how)
    else:
        mon.fail('{} ({}): accepted', kind, how)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.products(case, mon, out)
    sel = lambda k, ds: case.ref.by_key[k].get('_method') in ('waste treatment', 'recycling')
    e2e.environment(case, mon, out, select=sel)
    e2e.inputs(case, mon, out, select=sel)
    e2e.uncertainties(case, mon, out, select=sel)


KINDS = {'direct': (alloc.treatment, run_direct), 'bad': (gen_bad, run_bad), 'recycling': (make('recycling', emissions=(1, 3), p_unc=.5), run_world)}
PLAN = {'quick': dict(direct=1500, bad=300, recycling=80), 'thorough': dict(direct=40000, bad=3000, recycling=2500)}
