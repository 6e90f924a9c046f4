"""Which allocation an activity gets, and that it gets exactly that one"""
import copy
from .. import alloc, direct, e2e, gen, ref
ID = 'C12'
RULE = ('distinct = (activity type, reference products with sign and class, byproducts with class, conditional) of classified activities; all are compared '
        'with an independent decision tree, and every allocated database with the reference allocation of each activity')
REQUIRED = ['economic', 'recycling', 'waste treatment', 'combined production', 'combined production with byproducts', 'combined production without products',
            'single product', 'market group', 'constrained market', 'unconstrained market', 'allocated datasets compared', 'constrained markets kept']

CLASSES = ['allocatable product', 'waste', 'recyclable']


def gen_choice(rng, index):
    kind = rng.choice(['transforming activity'] * 5 + ['market activity', 'market activity', 'market group'])
    ex = []
    same = rng.choice(CLASSES) if rng.random() < .6 else None
    for i in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        a = 0. if rng.random() < .12 else gen.num(rng) * rng.choice([1, 1, -1])
        ex.append(gen.exchange(rng, 'p{}'.format(i), a, 'reference product', **{'byproduct classification': same or rng.choice(CLASSES)}))
        if rng.random() < .05:
            del ex[-1]['byproduct classification']
    for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
        a = 0. if rng.random() < .2 else gen.num(rng) * rng.choice([1, 1, -1])
        ex.append(gen.exchange(rng, 'b{}'.format(i), a, 'byproduct', **{'byproduct classification': rng.choice(CLASSES), 'conditional exchange': rng.random() < .2}))
    ex += alloc.burdens(rng, rng.randint(0, 2))
    if rng.random() < .1:
        ex.append(gen.exchange(rng, 'in', 1., 'from technosphere', **{'conditional exchange': True}))
    for e in ex:
        # things which have no say in it
        if rng.random() < .25:
            e['formula'] = rng.choice(['0 * x', '2 * x', '1', 'x + y'])
        if rng.random() < .2:
            e['variable'] = gen.uid(rng)
        if rng.random() < .2:
            e['properties'].append(gen.prop(rng, rng.choice(['price', 'true value relation', 'dry mass', 'consequential', 'water in wet mass']), gen.num(rng)))
        if rng.random() < .1:
            e['activity link'] = gen.uid(rng)
        if rng.random() < .1:
            e['production volume'] = {'amount': rng.choice([0., gen.num(rng)])}
    rng.shuffle(ex)
    kw = {'economic scenario': rng.choice(['Business-as-Usual', 'x'])}
    name = 'rare earth oxides production from bastnäsite concentrate' if rng.random() < .04 else gen.Names(rng).new()
    return gen.dataset(rng, name, rng.choice(['GLO', 'FR', 'RoW']), kind, ex, **kw)


def run_choice(ds, mon):
    from ocelot.transformations.cutoff.allocation import choose_allocation_method
    want = ref.method(ds)
    before = copy.deepcopy(ds)
    got = choose_allocation_method(ds)
    mon.check(got == want, '{} instead of {}', got, want)
    mon.check(ds == before, 'looking at the activity changed it')
    mon.count(want)
    mon.seen(ds['type'], [(e.get('byproduct classification'), (e['amount'] > 0) - (e['amount'] < 0)) for e in ref.refs(ds)],
             sorted({(e['byproduct classification'], bool(e['amount'])) for e in ds['exchanges'] if e['type'] == 'byproduct'}),
             any(e.get('conditional exchange') for e in ds['exchanges']))


def constrained(rng):
    ds = direct.act(rng, 'market activity', 'm', 'x', 'GLO', gen.num(rng), amount=rng.choice([1., gen.num(rng)]))
    for i in range(rng.randint(1, 3)):
        ds['exchanges'].append(gen.exchange(rng, 'cond {}'.format(i), -gen.num(rng), 'byproduct', **{'conditional exchange': True, 'activity link': gen.uid(rng)}))
    ds['exchanges'] += [e for e in alloc.burdens(rng, rng.randint(0, 3)) if e['type'] != 'byproduct']
    if rng.random() < .5:
        rng.shuffle(ds['exchanges'])
    del ds['key'], ds['rp'], ds['reference product'], ds['code']
    return ds


def gen_database(rng, index):
    out = []
    for i in range(gen.size(rng, 3, 10)):
        x = rng.choice(['economic', 'treatment', 'treatment', 'combined', 'single', 'market', 'group', 'constrained'])
        if x == 'economic':
            ds = alloc.economic(rng, i)
        elif x == 'treatment':
            ds = alloc.treatment(rng, i)
        elif x == 'combined':
            ds = alloc.combined(rng, i)
        elif x == 'constrained':
            ds = constrained(rng)
        else:
            ds = alloc.economic(rng, i)
            ds['exchanges'] = [e for e in ds['exchanges'] if not (e['type'] == 'byproduct' and ref.is_product(e))]
            ds['type'] = {'single': 'transforming activity', 'market': 'market activity', 'group': 'market group'}[x]
        # recyclable byproducts would need a different name here
        for e in ds['exchanges']:
            if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable':
                e['byproduct classification'] = 'waste'
        ds['name'] = 'activity {} {}'.format(i, ds['name'])
        out.append(ds)
    rng.shuffle(out)
    return out


def run_database(data, mon):
    from ocelot.transformations.cutoff.allocation import cutoff_allocation
    want = []
    for ds in data:
        mon.count(ref.method(ds))
        new = ref.allocate(copy.deepcopy(ds))
        mon.count('constrained markets kept', ref.method(ds) == 'constrained market')
        for x in new:
            x['exchanges'] = [e for e in x['exchanges'] if e['amount'] or not ref.is_product(e)]
        want += new
    got = cutoff_allocation([alloc.clean(d) for d in data])
    for ds in got:
        mon.check('allocation method' not in ds, 'a temporary mark is left in {}', ds['name'])
        mon.check(not [e for e in ds['exchanges'] if e['type'] == 'byproduct' and e['amount'] and ref.is_product(e)], '{} is still multi-output', ds['name'])
        for e in ref.refs(ds):
            e.pop('uncertainty', None)
    for ds in want:
        for e in ref.refs(ds):
            e.pop('uncertainty', None)
    alloc.same(mon, got, want, 'allocation')


KINDS = {'choice': (gen_choice, run_choice), 'database': (gen_database, run_database)}
PLAN = {'quick': dict(choice=20000, database=400), 'thorough': dict(choice=400000, database=12000)}
CHUNK = {'choice': 500}
