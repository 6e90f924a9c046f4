"""Recyclables leave and enter the system without burdens"""
import copy
from .. import e2e, gen, ref
ID = 'C15'
RULE = ('distinct = (classification, distribution type, sign, market sign) of recyclable and waste outputs, and the shape of the activities around them; '
        'recycled content activities, their markets and consumers are compared in every database')
REQUIRED = ['burden-free activities', 'recyclable outputs followed', 'waste outputs followed', 'markets of recyclables', 'inputs compared', 'outputs turned into inputs', 'burden-free activities made directly']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    made = {}
    for ds in case.world.data:
        for e in ds['exchanges']:
            if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable' and ref.prop(e, 'consequential') != 1:
                made.setdefault(e['name'], []).append(e)
    free = {k: ds for k, ds in out.by_key.items() if ref.RC in k[0]}
    mon.check({(n + ref.RC, 'GLO', n) for n in made} == set(free), 'burden-free activities {}, expected for {}', sorted(free), sorted(made))
    for k, ds in free.items():
        mon.check(len([e for e in ds['exchanges'] if e['amount']]) == 1, '{} is not free of burdens', k)
        mon.check(out.product(mon, ds)['amount'] == 1, '{}: amount {}', k, out.product(mon, ds)['amount'])
        mon.count('burden-free activities')
    # Outputs of recyclables go (with a negative sign) to the burden-free activity, outputs of wastes to their treatment
    for k, ds in out.by_key.items():
        for name, unit, sup, e in out.inputs(mon, ds):
            if sup in free and ds['type'] == 'transforming activity':
                mon.check(name == sup[2], '{}: {!r} goes to {}', k, name, sup)
                mon.count('recyclable outputs followed')
        for e in ds['exchanges']:
            mon.check(ref.RC not in e['name'] and ref.RC not in ds['reference product'], '{}: flow is still called {}', k, e['name'])
    kinds = {x.name: x.kind for x in case.world.products}
    special = {n for n, v in kinds.items() if v != 'allocatable product'}
    mon.count('waste outputs followed', sum(1 for k, ds in out.by_key.items() for e in ds['exchanges']
                                            if e['type'] == 'from technosphere' and kinds.get(e['name']) == 'waste' and e['amount'] < 0))
    mon.count('markets of recyclables', sum(1 for k, ds in out.by_key.items() if ds['type'] == 'market activity' and kinds.get(k[2]) == 'recyclable'))
    if set(out.by_key) == set(case.ref.by_key):
        e2e.inputs(case, mon, out, names=lambda k, ds, name: name in special)
        e2e.uncertainties(case, mon, out)
        for k, ds in out.by_key.items():
            if k[2] in special:
                got, want = out.product(mon, ds)['amount'], ref.product(case.ref.by_key[k])['amount']
                mon.check(e2e.close(got, want, tol=1e-12), '{}: product amount {}, expected {}', k, got, want)


def gen_flip(rng, index):
    ex = [gen.exchange(rng, 'main', gen.num(rng) * rng.choice([1, -1]), 'reference product', **{'byproduct classification': rng.choice(['allocatable product', 'waste'])})]
    for i in range(rng.randint(1, 6)):
        c = rng.choice(['allocatable product', 'waste', 'recyclable', 'waste', 'recyclable'])
        e = gen.exchange(rng, 'by {}'.format(i), rng.choice([gen.num(rng), gen.num(rng), -gen.num(rng)]), 'byproduct', p_unc=.8, **{'byproduct classification': c})
        if rng.random() < .4:
            e['formula'] = rng.choice(['a + b', 'a - 2', '3', 'foo * (1 + bar)'])
        ex.append(e)
    ex += [gen.emission(rng, i) for i in range(2)]
    rng.shuffle(ex)
    return gen.dataset(rng, 'thing', 'GLO', 'transforming activity', ex)


def run_flip(ds, mon):
    from ocelot.transformations.cutoff.wastes import flip_non_allocatable_byproducts
    env = {'a': 2.5, 'b': -1.25, 'foo': 3., 'bar': .5}
    out, = flip_non_allocatable_byproducts([copy.deepcopy(ds)])
    mon.check(len(out['exchanges']) == len(ds['exchanges']), 'exchanges appeared or disappeared')
    for a, b in zip(ds['exchanges'], out['exchanges']):
        if a['type'] == 'byproduct' and a['byproduct classification'] != 'allocatable product':
            mon.check(b['type'] == 'from technosphere', '{} {} stays an output', a['byproduct classification'], a['name'])
            mon.check(b['amount'] == -a['amount'], 'amount {} becomes {}', a['amount'], b['amount'])
            e2e.same_uncertainty(mon, b.get('uncertainty'), ref.scale_unc(a.get('uncertainty'), a['amount'], -1), a['name'], abs(a['amount']))
            if 'formula' in a:
                x, y = eval(a['formula'], {}, env), eval(b['formula'], {}, env)
                mon.check(abs(x + y) < 1e-9, 'formula {!r} becomes {!r}', a['formula'], b['formula'])
            mon.count('outputs turned into inputs')
            mon.seen(a['byproduct classification'], a.get('uncertainty', {}).get('type'), a['amount'] < 0, 'formula' in a)
        else:
            mon.check(a == b, '{} was changed', a['name'])


def gen_free(rng, index):
    pool = ['scrap {}'.format(i) for i in range(rng.randint(1, 6))]
    data = []
    for i in range(gen.size(rng, 1, 7)):
        ex = [gen.exchange(rng, 'main {}'.format(i), gen.num(rng), 'reference product', **{'byproduct classification': rng.choice(['allocatable product', 'waste', 'recyclable'])})]
        for n in rng.sample(pool, rng.randint(0, min(len(pool), 4))):
            ex.append(gen.exchange(rng, n, rng.choice([gen.num(rng), gen.num(rng), -gen.num(rng), 0.]), 'byproduct', p_unc=.4,
                                   **{'byproduct classification': rng.choice(['recyclable', 'recyclable', 'recyclable', 'waste', 'allocatable product'])}))
        if rng.random() < .4:
            ex.append(gen.exchange(rng, rng.choice(pool), gen.num(rng), 'from technosphere'))
        ex += [gen.emission(rng, j) for j in range(rng.randint(0, 1))]
        rng.shuffle(ex)
        data.append(gen.dataset(rng, 'thing {}'.format(i), rng.choice(['GLO', 'FR', 'RoW']), rng.choice(['transforming activity'] * 3 + ['market activity']), ex))
    return data


def run_free(data, mon):
    """One burden-free activity per recyclable byproduct, whichever activities they come from"""
    from ocelot.transformations.cutoff.wastes import create_recycled_content_datasets, rename_recyclable_content_exchanges
    renamed = rename_recyclable_content_exchanges(copy.deepcopy(data))
    want = []
    for a, b in zip(data, renamed):
        rec = [e['name'] for e in a['exchanges'] if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable']
        want += [n + ref.RC for n in rec]
        mon.seen(len(rec), len(data))
        for x, y in zip(a['exchanges'], b['exchanges']):
            suffix = ref.RC if x['type'] == 'byproduct' and x['byproduct classification'] == 'recyclable' else ''
            mon.check(dict(x, name=x['name'] + suffix) == y, '{} becomes {}', x, y)
    out = create_recycled_content_datasets(copy.deepcopy(renamed))
    mon.check(out[:len(data)] == renamed, 'activities were changed')
    new = out[len(data):]
    mon.check(sorted(ds['name'] for ds in new) == sorted(set(want)), 'burden-free activities {}, expected for {}', sorted(ds['name'] for ds in new), sorted(set(want)))
    units = {e['name']: e['unit'] for ds in renamed for e in ds['exchanges'] if e['type'] == 'byproduct'}
    for ds in new:
        mon.check(ds['location'] == 'GLO' and ds['type'] == 'transforming activity' and ds['reference product'] == ds['name'], '{} is {} in {} making {}',
                  ds['name'], ds['type'], ds['location'], ds['reference product'])
        mon.check([(e['type'], e['name'], e['amount'], e['unit']) for e in ds['exchanges']] == [('reference product', ds['name'], 1, units[ds['name']])],
                  '{} has exchanges {}', ds['name'], ds['exchanges'])
        mon.count('burden-free activities made directly')


KINDS = {'recycling': (make('recycling', p_unc=.5), run_world), 'mixed': (make('mixed', p_recyclable=1.), run_world),
         'small': (make('small', p_recyclable=1., p_waste=.5), run_world), 'flip': (gen_flip, run_flip), 'free': (gen_free, run_free)}
PLAN = {'quick': dict(recycling=130, mixed=50, small=150, flip=1000, free=400), 'thorough': dict(recycling=3000, mixed=1500, small=4000, flip=30000, free=10000)}
