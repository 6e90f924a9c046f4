"""Joint production is taken apart by evaluating the formulas"""
import copy
from .. import alloc, e2e, gen, ref
ID = 'C14'
RULE = ('distinct = (mode, reference products, byproducts, parameters) of joint productions; every resulting activity is compared with the reference '
        'evaluation of the (linear) formulas')
REQUIRED = ['burdens compared', 'mode plain', 'mode by', 'mode without', 'products with zero amount']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_direct(case, mon):
    from ocelot.transformations.cutoff import combined as c
    mode = case['_combined']
    f, want = {
        'plain': (c.combined_production, ref.split),
        'by': (c.combined_production_with_byproducts, lambda d: ref.merge([y for x in ref.split(d) for y in ref.economic(x)])),
        'without': (c.combined_production_without_products, ref.without_products),
    }[mode]
    got = f(alloc.clean(case))
    mon.count('mode ' + mode)
    mon.count('products with zero amount', sum(1 for e in ref.refs(case) if not e['amount']))
    alloc.same(mon, got, want(copy.deepcopy(case)), mode)
    mon.seen(mode, len(ref.refs(case)), len(case['exchanges']), len(case['parameters']))
    if mode == 'plain' and not any(not e.get('_terms') and e['amount'] and e['type'] != 'reference product' for e in case['exchanges']):
        # Taken together, the parts need what the whole needed
        for e in case['exchanges']:
            if e.get('_terms'):
                parts = sum(x['amount'] for ds in got for x in ds['exchanges'] if x['id'] == e['id'])
                mon.check(e2e.close(parts, e['amount'], sum(abs(v) for v in e['_terms'].values()) * max(abs(r['amount']) for r in ref.refs(case))),
                          '{} of {} before, {} after', e['amount'], e['name'], parts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.products(case, mon, out)
    sel = lambda k, ds: 'combined' in case.ref.by_key[k].get('_method', '')
    e2e.environment(case, mon, out, select=sel)
    e2e.inputs(case, mon, out, select=sel)
    e2e.volumes(case, mon, out, select=sel)


KINDS = {'direct': (alloc.combined, run_direct), 'combined': (make('combined', emissions=(1, 3)), run_world)}
PLAN = {'quick': dict(direct=700, combined=80), 'thorough': dict(direct=20000, combined=2500)}
