"""Invalid databases are refused with the documented error, valid ones are not"""
import copy
import random
from .. import e2e, gen, ref
from ..gen import num
from ..topo import topo
ID = 'C30'
FLAWS = {}
RULE = ('distinct = (kind of flaw, variant, features of the database, model) of valid databases into which one flaw was put, and (function, flaw or none, boundary) of validated datasets; '
        'each has to be refused with the error which is documented for it, and the same database without the flaw has to be accepted')
CHUNK = {'model': 40}


def flaw(*errors):
    def wrap(f):
        FLAWS[f.__name__] = f, errors
        return f
    return wrap


def pick(rng, things):
    things = list(things)
    return rng.choice(things) if things else None


def rp(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def normal(ds):
    """Activities which are used as they are: one product, cannot be deleted on the way"""
    return ds['_mode'] in ('single', 'market') and ds['location'] != 'GLO' and ds['name'] not in ref.DELETED_MARKETS and len(rp(ds)) == 1


def constrained(data):
    """What constrained markets are linked to makes something else in the end"""
    return {e['activity link'] for d in data for e in d['exchanges'] if e.get('conditional exchange')}


def clone(rng, ds, **kw):
    new = copy.deepcopy(ds)
    new['id'] = gen.uid(rng)
    for e in new['exchanges']:
        e['id'] = gen.uid(rng)
        if e.get('activity link') == ds['id']:
            e['activity link'] = new['id']
    new.update(kw)
    return new


@flaw('IdenticalDatasets')
def same_id(w, data, rng):
    if len(data) < 2:
        return
    a, b = rng.sample(data, 2)
    a['id'] = b['id']
    return 'any'


@flaw('ParameterizationError')
def same_variable(w, data, rng):
    ds = rng.choice(data)
    name = 'double'
    places = rng.sample(['exchange', 'exchange', 'property', 'volume', 'parameter', 'parameter', 'same exchange'], 2)
    excs = list(ds['exchanges'])
    rng.shuffle(excs)
    # Not things which formulas refer to already
    excs = [e for e in excs if not e.get('variable')]
    for p in places:
        if p == 'parameter':
            ds['parameters'].append({'id': gen.uid(rng), 'name': gen.uid(rng), 'unit': 'kg', 'amount': num(rng), 'variable': name})
            continue
        if not excs:
            return
        e = excs.pop()
        if p in ('property', 'same exchange'):
            e['properties'].append(gen.prop(rng, gen.uid(rng), num(rng), variable=name))
            if p == 'same exchange':
                e['variable'] = name
                break
        elif p == 'volume':
            if 'production volume' not in e:
                return
            e['production volume']['variable'] = name
        else:
            e['variable'] = name
    return tuple(sorted(places))


@flaw('InvalidMarket')
def products_of_market(w, data, rng):
    ds = pick(rng, (d for d in data if d['type'] == 'market activity'))
    if not ds:
        return
    if rng.random() < .5:
        e, = rp(ds)
        if rng.random() < .5:
            ds['exchanges'].remove(e)
            return 'none'
        e['type'] = 'byproduct'
        return 'only a byproduct'
    e = gen.exchange(rng, w.names.new(), num(rng), 'reference product')
    ds['exchanges'].insert(rng.randint(0, len(ds['exchanges'])), e)
    return 'two'


@flaw('InvalidMarketExchange')
def market_of_itself(w, data, rng):
    ds = pick(rng, (d for d in data if d['type'] == 'market activity'))
    if not ds:
        return
    e, = rp(ds)
    new = gen.exchange(rng, e['name'], num(rng) * rng.choice([1, 1, -1, 0]), rng.choice(['from technosphere', 'from technosphere', 'byproduct']), e['unit'])
    if rng.random() < .2:
        new['activity link'] = rng.choice(['', None])
    ds['exchanges'].insert(rng.randint(0, len(ds['exchanges'])), new)
    return new['type']


def consumer(data, rng, name=None):
    return pick(rng, (d for d in data if normal(d) and (name is None or name not in {e['name'] for e in d['exchanges']})))


@flaw('UnresolvableActivityLink')
def link_to_nowhere(w, data, rng):
    ds = consumer(data, rng)
    if not ds:
        return
    x = rng.choice(w.products)
    ds['exchanges'].append(gen.exchange(rng, x.name, num(rng), 'from technosphere', x.unit, **{'activity link': rng.choice([gen.uid(rng), ds['filepath'], 'x'])}))
    return x.kind


@flaw('UnresolvableActivityLink')
def link_to_stranger(w, data, rng):
    ds = consumer(data, rng)
    if not ds:
        return
    x = rng.choice(w.products)
    makes = lambda d: x.name in {e['name'] for e in d['exchanges'] if e['type'] in ('reference product', 'byproduct')}
    target = pick(rng, (d for d in data if d is not ds and not makes(d)))
    if not target:
        return
    if rng.random() < .5:
        # It only uses the product
        if target['_mode'] != 'single' or not normal(target):
            return
        target['exchanges'].append(gen.exchange(rng, x.name, num(rng), 'from technosphere', x.unit))
    ds['exchanges'].append(gen.exchange(rng, x.name, num(rng), 'from technosphere', x.unit, **{'activity link': target['id']}))
    return target['type']


@flaw('UnresolvableActivityLink')
def link_to_two(w, data, rng):
    """The linked activity has two exchanges which could be meant"""
    ds = consumer(data, rng)
    target = pick(rng, (d for d in data if d['_mode'] == 'economic' and d is not ds))
    if not ds or not target:
        return
    e, = rp(target)
    target['exchanges'].append(gen.exchange(rng, e['name'], num(rng), 'byproduct', e['unit']))
    w_price(rng, target['exchanges'][-1])
    ds['exchanges'].append(gen.exchange(rng, e['name'], num(rng), 'from technosphere', e['unit'], **{'activity link': target['id']}))
    return 'two'


def w_price(rng, e, price=None):
    e['properties'].append(gen.prop(rng, 'price', num(rng) if price is None else price))


def economic(data, rng):
    ds = pick(rng, (d for d in data if d['_mode'] == 'economic' and any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product' and e['amount'] for e in d['exchanges'])))
    if not ds:
        return None, None
    return ds, rng.choice([e for e in ds['exchanges'] if e['type'] in ('byproduct', 'reference product') and e['byproduct classification'] == 'allocatable product'])


@flaw('InvalidExchange')
def no_price(w, data, rng):
    ds, e = economic(data, rng)
    if not ds:
        return
    e['properties'] = [p for p in e['properties'] if p['name'] != 'price']
    if rng.random() < .2:
        del e['properties']
    return e['type']


@flaw('InvalidExchange')
def negative_price(w, data, rng):
    ds, e = economic(data, rng)
    if not ds:
        return
    for p in e['properties']:
        if p['name'] == 'price':
            p['amount'] = -num(rng)
    return e['type']


@flaw('InvalidExchange')
def negative_coproduct(w, data, rng):
    ds, e = economic(data, rng)
    if not ds or e['type'] != 'byproduct' or not e['amount']:
        return
    e['amount'] *= -1
    e.pop('uncertainty', None)
    return 'byproduct'


@flaw('InvalidExchange')
def no_revenue(w, data, rng):
    ds, e = economic(data, rng)
    if not ds:
        return
    for e in ds['exchanges']:
        for p in e['properties']:
            if p['name'] == 'price':
                p['amount'] = rng.choice([0, 0., -0.])
    return 'zero'


@flaw('MarketGroupError')
def group_in_rest_of_world(w, data, rng):
    ds = pick(rng, (d for d in data if d['type'] == 'market group'))
    if not ds:
        return
    ds['location'] = 'RoW'
    return 'RoW'


@flaw('MarketGroupError')
def names_of_groups(w, data, rng):
    x = pick(rng, (x for x in w.products if len(x.groups) > 1))
    if not x:
        return
    names = [d for d in data if d['type'] == 'market group' and rp(d)[0]['name'] == x.name]
    ds = rng.choice(names)
    ds['name'] = rng.choice([w.names.new(), ds['name'] + 's', ds['name'] + ' '])
    return len(names)


@flaw('OverlappingActivities')
def overlapping_markets(w, data, rng):
    t = topo()
    x = rng.choice(w.products)
    markets = [d for d in data if d['type'] == 'market activity' and rp(d)[0]['name'] == x.name]
    local = [d for d in markets if d['location'] != 'GLO']
    how = rng.choice(['overlap', 'overlap', 'other name'])
    if how == 'overlap':
        if not local:
            return
        old = rng.choice(local)
        near = [k for k in t.regions if t.mask[k] & t.mask[old['location']] and k not in {d['location'] for d in markets}]
        if not near:
            return
        if rng.random() < .25:
            # the same place, at another time
            data.append(clone(rng, old, **{'start date': '1998-01-01'}))
            return 'same place', len(markets)
        data.append(clone(rng, old, location=rng.choice(near)))
    else:
        # A global market isn't the rest of the world of markets with another name
        if any(d['location'] == 'GLO' for d in markets) and len(markets) > 1:
            return
        old = rng.choice(markets)
        if old['location'] == 'GLO':
            data.append(clone(rng, old, location=t.pick(rng), name=w.names.new()))
        else:
            data.append(clone(rng, old, location='GLO', name=w.names.new()))
    return how, len(markets)


@flaw('OverlappingActivities')
def overlapping_suppliers(w, data, rng):
    t = topo()
    other = constrained(data)
    old = pick(rng, (d for d in data if d['_mode'] == 'single' and normal(d) and d['id'] not in other and rp(d)[0]['name'] in {x.name for x in w.products if x.kind == 'allocatable product'}))
    if not old:
        return
    taken = {d['location'] for d in data if d['name'] == old['name']}
    near = [k for k in t.regions if t.mask[k] & t.mask[old['location']] and k not in taken]
    if not near:
        return
    if rng.random() < .25:
        data.append(clone(rng, old, **{'start date': '1998-01-01'}))
        return 'same place', len(taken)
    data.append(clone(rng, old, location=rng.choice(near)))
    return len(taken)


@flaw('MultipleGlobalDatasets')
def two_global(w, data, rng):
    old = pick(rng, (d for d in data if d['location'] == 'GLO' and d['_mode'] in ('single', 'market') and d['name'] not in ref.DELETED_MARKETS and d['id'] not in constrained(data)))
    if not old:
        return
    new = clone(rng, old)
    if rng.random() < .7:
        new['start date'] = '1999-01-01'
    data.append(new)
    return old['type']


@flaw('IdenticalDatasets')
def same_activity(w, data, rng):
    old = pick(rng, (d for d in data if normal(d) and d['id'] not in constrained(data)))
    if not old:
        return
    new = clone(rng, old)
    for e in new['exchanges']:
        if 'environment' in e['type']:
            e['amount'] = num(rng)
            e.pop('uncertainty', None)
    new['technology level'] = 'outdated'
    # (this one is moved to another place, by its name)
    if rng.random() < .3 and old['name'] != 'transport, pipeline, long distance, natural gas':
        new['name'] = new['name'].upper() if new['name'].upper().lower() == new['name'].lower() else new['name']
    data.append(new)
    return old['type'], new['name'] == old['name']


@flaw('MissingSupplier')
def nobody_makes_it(w, data, rng):
    ds = consumer(data, rng)
    if not ds:
        return
    ds['exchanges'].insert(rng.randint(0, len(ds['exchanges'])), gen.exchange(rng, rng.choice([w.names.new(), 'refinery gas, burned', 'Refinery gas', rp(ds)[0]['name'] + ' ']), num(rng) * rng.choice([1, 1, -1]), 'from technosphere'))
    return ds['type']


@flaw('MissingSupplier', 'UnresolvableActivityLink')
def no_market(w, data, rng):
    """There are producers, but no market"""
    used = {e['name'] for d in data if normal(d) for e in d['exchanges'] if e['type'] == 'from technosphere' and not e.get('activity link') and not any(p['name'] == 'consequential' for p in e['properties'])}
    x = pick(rng, (x for x in w.products if x.kind == 'allocatable product' and x.name in used))
    if not x:
        return
    gone = [d for d in data if d['type'] != 'transforming activity' and rp(d)[0]['name'] == x.name]
    if any(e.get('activity link') in {d['id'] for d in gone} for d in data for e in d['exchanges']):
        return
    # The consumers have to be still there
    if not any(normal(d) and d not in gone and any(e['type'] == 'from technosphere' and e['name'] == x.name and not e.get('activity link') and not any(p['name'] == 'consequential' for p in e['properties'])
                                                   for e in d['exchanges']) for d in data):
        return
    data[:] = [d for d in data if d not in gone]
    return len(gone)


@flaw('ZeroProduction', 'InvalidExchange', 'OverlappingActivities')
def zero_product(w, data, rng):
    ds = pick(rng, (d for d in data if normal(d) and not any(e.get('conditional exchange') for e in d['exchanges'])))
    if not ds:
        return
    rp(ds)[0]['amount'] = rng.choice([0., -0., 0])
    rp(ds)[0].pop('uncertainty', None)
    return ds['type']


@flaw('InvalidMultioutputDataset')
def byproduct_of_market(w, data, rng):
    ds = pick(rng, (d for d in data if d['_mode'] == 'market' and not any(e.get('conditional exchange') for e in d['exchanges'])))
    if not ds:
        return
    x = pick(rng, (x for x in w.products if x.kind == 'allocatable product' and x.name != rp(ds)[0]['name']))
    if not x:
        return
    ds['exchanges'].insert(rng.randint(0, len(ds['exchanges'])), gen.exchange(rng, x.name, num(rng), 'byproduct', x.unit))
    w_price(rng, ds['exchanges'][-1])
    return 'market'


REQUIRED = ['refused by the consequential model'] + ['refused: ' + k for k in FLAWS] + ['accepted without flaw', 'functions: refused', 'functions: accepted', 'functions: on the boundary']


CONSEQUENTIAL = {'same_id', 'same_variable', 'products_of_market', 'market_of_itself', 'two_global', 'same_activity', 'overlapping_markets', 'overlapping_suppliers', 'nobody_makes_it'}


def gen_model(rng, index):
    if index % 6 == 5:
        # The same mistakes are refused by the consequential model
        from . import c28
        return c28.gen_model(rng, index), 'consequential', rng.getrandbits(32)
    return e2e.Case(rng, rng.choice(sorted(gen.PROFILES))), rng.choice(['cutoff', 'cutoff', 'cutoff_ecoinvent_row']), rng.getrandbits(32)


def run_model(case, mon):
    import ocelot
    from ocelot.model import mapping
    case, model, seed = case
    rng = random.Random(seed)
    mon.sample = case
    if rng.random() < .5:
        out = mapping[model](case.data())
        mon.check(isinstance(out, list), 'no result for a valid database')
        mon.count('accepted without flaw')
    names = [k for k in FLAWS if model != 'consequential' or k in CONSEQUENTIAL]
    rng.shuffle(names)
    done = 0
    for name in names:
        f, errors = FLAWS[name]
        data = copy.deepcopy(case.world.data)
        variant = f(case.world, data, rng)
        if not variant:
            continue
        rng.shuffle(data)
        data = gen.strip_notes(data)
        expected = tuple(getattr(ocelot.errors, e) for e in errors)
        try:
            mapping[model](data)
        except expected:
            mon.count('refused: ' + name)
            mon.count('refused by the consequential model', model == 'consequential')
            mon.seen(name, variant, model, sorted(case.world.features)[:3])
        except Exception as err:
            mon.fail('{} ({}): expected {}, got {!r}', name, variant, ' or '.join(errors), err)
        else:
            mon.sample = data
            mon.fail('{} ({}) was accepted, expected {}', name, variant, ' or '.join(errors))
        done += 1
        if done == 5:
            break


# -- single functions, on the boundary

def gen_function(rng, index):
    return rng.getrandbits(32)


def amounts(rng):
    return rng.choice([num(rng), num(rng), -num(rng), 0., 1e-300, -1e-300, 1., -1.])


def run_function(seed, mon):
    from ocelot import errors as E
    from ocelot.transformations.cutoff import validation as v
    from ocelot.transformations import validation as tv
    rng = random.Random(seed)
    names = gen.Names(rng)
    excs = []
    for i in range(rng.choice([1, 1, 1, 0, 2])):
        e = gen.exchange(rng, names.new(), amounts(rng), 'reference product', **{'byproduct classification': rng.choice(['allocatable product', 'allocatable product', 'waste', 'recyclable'])})
        if rng.random() < .7:
            e['variable'] = 'v{}'.format(i)
        excs.append(e)
    for i in range(rng.choice([0, 0, 1, 1, 2])):
        excs.append(gen.exchange(rng, names.new(), amounts(rng), 'byproduct', **{'byproduct classification': rng.choice(['allocatable product', 'waste', 'recyclable'])}))
    for e in excs:
        if rng.random() < .8:
            w_price(rng, e, rng.choice([num(rng), num(rng), num(rng), num(rng), 0., -num(rng), -1e-300]))
        if rng.random() < .08:
            del e['production volume']
    excs += [gen.exchange(rng, names.new(), amounts(rng), 'from technosphere'), gen.emission(rng, 0)]
    rng.shuffle(excs)
    ds = gen.dataset(rng, names.new(), 'GLO', rng.choice(['transforming activity', 'market activity']), excs)
    refs = [e for e in excs if e['type'] == 'reference product']
    byp = [e for e in excs if e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product']
    made = ref_made = refs + byp
    price = lambda e: next((p['amount'] for p in e['properties'] if p['name'] == 'price'), None)
    which = rng.choice(['no allocation', 'merge', 'economic', 'recycling', 'treatment', 'combined', 'single', 'volume', 'markets'])
    one = len(refs) == 1
    multi = (E.InvalidMultioutputDataset, ValueError)
    result = object()
    calls = []

    def inner(x):
        calls.append(x)
        return result

    boundary = any(e['amount'] == 0 or price(e) == 0 for e in made)
    if which == 'no allocation':
        f, bad = v.valid_no_allocation_dataset(inner), None if one and not byp else E.InvalidMultioutputDataset
    elif which == 'merge':
        f, bad = v.valid_merge_datasets(inner), E.InvalidExchange if byp else None
    elif which == 'economic':
        wrong = any(price(e) is None or price(e) < 0 or e['amount'] < 0 for e in made)
        f, bad = v.valid_economic_activity(inner), E.InvalidExchange if wrong else None
    elif which == 'recycling':
        f, bad = v.valid_recycling_activity(inner), multi if not one else E.InvalidExchange if refs[0]['amount'] >= 0 or not byp else None
    elif which == 'treatment':
        f, bad = v.valid_waste_treatment_activity(inner), multi if not one else E.InvalidExchange if refs[0]['amount'] >= 0 or refs[0]['byproduct classification'] != 'waste' else None
    elif which == 'combined':
        wrong = any(e['amount'] and not e.get('variable') for e in refs)
        f, bad = v.valid_combined_production_activity(inner), E.InvalidExchange if wrong else None
    elif which == 'single':
        f, bad = tv.check_single_output_activity, None if one and not byp else E.InvalidMultioutputDataset
    elif which == 'volume':
        f, bad = tv.ensure_production_exchanges_have_production_volume, E.InvalidExchange if any('production volume' not in e for e in made) else None
    else:
        f, bad = tv.ensure_markets_only_have_one_reference_product, E.InvalidMarket if ds['type'] == 'market activity' and not one else None
    arg = [ds] if which in ('merge', 'volume', 'markets') else ds
    if which in ('merge', 'volume', 'markets') and rng.random() < .3:
        arg = arg * 2
    before = copy.deepcopy(arg)
    mon.sample = ds
    keyword = {'merge': 'data'}.get(which, 'dataset')
    try:
        got = f(arg)
    except Exception as err:
        mon.check(bad is not None, '{}: valid dataset was refused: {!r}', which, err)
        mon.check(isinstance(err, bad), '{}: refused with {!r}, expected {}', which, err, bad)
        mon.check(not calls, '{}: refused only after the function was called', which)
        mon.count('functions: refused')
    else:
        mon.check(bad is None, '{}: should have been refused with {}', which, bad)
        if which in ('single', 'volume', 'markets'):
            mon.check(got is arg or got == arg, '{}: returned something else', which)
        else:
            mon.check(got is result and len(calls) == 1 and calls[0] is arg, '{}: function was not called with the dataset', which)
        mon.count('functions: accepted')
    mon.count('functions: on the boundary', boundary)
    mon.check(arg == before, '{}: validation changed the dataset', which)
    mon.seen(which, bad is None, boundary, len(refs), len(byp))


KINDS = {'model': (gen_model, run_model), 'function': (gen_function, run_function)}
PLAN = {'quick': dict(model=300, function=4000), 'thorough': dict(model=9000, function=100000)}
