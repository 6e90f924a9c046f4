"""Queries of datasets answer for exactly the exchanges they document, and change nothing"""
import copy
import math
import random
from .. import gen, ref
from ..gen import num, uid
ID = 'C37'
RULE = ('distinct = (query, kind of answer, kinds of exchanges in the dataset); every answer about datasets with all mixtures of products, byproducts, missing fields and zero amounts is compared '
        'with an independent statement, and the dataset with what it was before')


def some(rng, zero=.2):
    return rng.choice([0., -0., 0]) if rng.random() < zero else num(rng) * rng.choice([1, 1, 1, -1])


def unsure(rng, o, p=.3):
    if rng.random() < p and o['amount']:
        o['uncertainty'] = gen.uncertainty(rng, o['amount'])
    if rng.random() < .25:
        o['variable'] = 'v{}'.format(rng.randrange(10 ** 6))
    if rng.random() < .25:
        o['formula'] = 'a * {}'.format(rng.randrange(9))
    return o


def make(rng):
    names = gen.Names(rng)
    flows = [names.new() for _ in range(rng.randint(1, 5))]
    excs = []
    for k in ['reference product'] * rng.choice([1, 1, 1, 0, 2, 3]) + [rng.choice(['byproduct', 'byproduct', 'from technosphere', 'from technosphere', 'to environment', 'from environment', 'dropped product'])
                                                                     for _ in range(gen.size(rng, 0, 6, 30))]:
        e = gen.exchange(rng, rng.choice(flows), some(rng), k, p_unc=0)
        unsure(rng, e)
        if k in ('reference product', 'byproduct'):
            e['byproduct classification'] = rng.choice(['allocatable product', 'allocatable product', 'waste', 'recyclable'])
            e['production volume'] = unsure(rng, {'amount': some(rng)})
            if rng.random() < .3:
                e['production volume']['original amount'] = some(rng)
        ps = [gen.prop(rng, rng.choice(['price', 'true value relation', 'dry mass', 'Price', 'price ', 'prices', 'water content']), some(rng)) for _ in range(rng.choice([0, 1, 2, 3]))]
        seen = set()
        e['properties'] = [unsure(rng, p) for p in ps if not (p['name'] in seen or seen.add(p['name']))]
        if rng.random() < .15:
            del e['properties']
        excs.append(e)
    rng.shuffle(excs)
    ds = gen.dataset(rng, names.new(), 'GLO', rng.choice(['transforming activity', 'market activity']), excs)
    ds['parameters'] = [unsure(rng, {'id': uid(rng), 'name': names.new(), 'unit': 'kg', 'amount': some(rng)}) for _ in range(rng.choice([0, 1, 3]))]
    if rng.random() < .1:
        del ds['parameters']
    return ds


def gen_queries(rng, index):
    return [make(rng) for _ in range(4)], rng.getrandbits(32)


class Raises:
    def __init__(self, *errors):
        self.errors = errors


def things(ds):
    for e in ds['exchanges']:
        yield e
        if 'production volume' in e:
            yield e['production volume']
        yield from e.get('properties', ())
    yield from ds.get('parameters', ())


def price(e, name='price'):
    v = [p['amount'] for p in e.get('properties', ()) if p['name'] == name]
    return v[0] if v else None


def expected(ds):
    """{query: answer}; lists of objects are compared by identity"""
    from ocelot import errors as E
    prods = [e for e in ds['exchanges'] if ref.is_product(e)]
    refs = ref.refs(ds)
    pv = refs[0]['production volume'] if len(refs) == 1 else None
    ratios = [e['production volume']['amount'] / e['amount'] for e in refs if e['amount']]
    big = max(map(abs, ratios), default=None)
    return {
        'utils.allocatable_production': ('same', prods),
        'utils.nonproduction_exchanges': ('same', [e for e in ds['exchanges'] if not any(e is p for p in prods)]),
        'utils.get_single_reference_product': ('is', refs[0]) if len(refs) == 1 else Raises(E.InvalidMultioutputDataset) if refs else Raises(ValueError),
        'utils.iterate_all_parameters': ('same', [o for o in things(ds) if 'variable' in o or 'formula' in o]),
        'utils.iterate_all_uncertainties': ('same', [o for o in things(ds) if 'uncertainty' in o]),
        'utils.get_biggest_pv_to_exchange_ratio': ('one of', [r for r in ratios if abs(r) == big]) if ratios else Raises(E.ZeroProduction),
        'utils.extract_products_as_tuple': ('equal', tuple(sorted(e['name'] for e in prods))),
        'utils.activity_grouper': ('equal', (ds['name'], tuple(sorted(e['name'] for e in prods)))),
        'data.production_volume': ('equal', pv['amount'] if pv else None),
        'data.original_production_volume': ('equal', pv.get('original amount', pv['amount']) if pv else None),
        'data.reference_products_as_string': ('equal', '|'.join(sorted(e['name'] for e in refs)) if refs else 'None found'),
    }


def check_answer(mon, name, want, get):
    try:
        got = get()
        if isinstance(want, tuple) and want[0] == 'same':
            got = list(got)
    except Exception as err:
        mon.check(isinstance(want, Raises) and isinstance(err, want.errors), '{}: {!r}, expected {}', name, err, want)
        mon.count('refused: ' + name)
        return 'refused'
    mon.check(not isinstance(want, Raises), '{}: answered {!r}, should have been refused', name, got)
    how, want = want
    if how == 'same':
        mon.check(sorted(map(id, got)) == sorted(map(id, want)), '{}: {} objects, expected {}; wrong: {!r}', name, len(got), len(want),
                  [o for o in got if not any(o is x for x in want)][:1] + [o for o in want if not any(o is x for x in got)][:1])
    elif how == 'is':
        mon.check(got is want, '{}: {!r}, expected {!r}', name, got, want)
    elif how == 'one of':
        mon.check(any(math.isclose(got, x, rel_tol=1e-12) or got == x for x in want), '{}: {}, expected {}', name, got, want)
    else:
        mon.check(got == want and type(got) == type(want) or got is want or (isinstance(want, (int, float)) and got == want and got is not None), '{}: {!r}, expected {!r}', name, got, want)
    mon.count(name)
    return 'none' if want in (None, [], ()) else 'some'


def run_queries(case, mon):
    from ocelot import data_helpers
    from ocelot.transformations import utils
    sets, seed = case
    rng = random.Random(seed)
    for ds in sets:
        if rng.random() < .1:
            for e in ds['exchanges']:
                if 'production volume' in e and rng.random() < .5 and not e['type'] == 'reference product':
                    del e['production volume']
        mon.sample = ds
        before = copy.deepcopy(ds)
        kinds = sorted({e['type'] + ' ' + e.get('byproduct classification', '') for e in ds['exchanges']})[:5]
        for name, want in expected(ds).items():
            where, f = name.split('.')
            answer = check_answer(mon, f, want, lambda: getattr(data_helpers if where == 'data' else utils, f)(ds))
            mon.seen(f, answer, kinds)
        default = rng.choice([0, -1., 'x', 7])
        refs = ref.refs(ds)
        for f in (data_helpers.production_volume, data_helpers.original_production_volume):
            if len(refs) != 1:
                mon.check(f(ds, default) == default, '{}: default is {!r} instead of {!r}', f.__name__, f(ds, default), default)
                mon.count('defaults')
            else:
                # No volume at all
                less = copy.deepcopy(ds)
                r, = ref.refs(less)
                if rng.random() < .5:
                    del r['production volume']
                    want = default
                else:
                    r['production volume'].pop('amount')
                    want = r['production volume'].get('original amount', default) if f is data_helpers.original_production_volume else default
                mon.check(f(less, default) == want, '{}: {!r} instead of {!r}', f.__name__, f(less, default), want)
                mon.count('defaults')
        for e in ds['exchanges']:
            for n in ('price', 'true value relation', 'no such property'):
                p = [p for p in e.get('properties', ()) if p['name'] == n]
                got = utils.get_property_by_name(e, n)
                mon.check(got is p[0] if p else got == {}, 'property {!r}: {!r}', n, got)
                got = utils.get_numerical_property(e, n)
                mon.check(got == (p[0]['amount'] if p else None) and (got is None) == (not p), 'value of {!r}: {!r}', n, got)
                mon.count('properties found' if p else 'properties not found')
        prods = [e for e in ds['exchanges'] if ref.is_product(e)]
        if prods:
            df = utils.allocatable_production_as_dataframe(ds)
            mon.check(set(df.columns) == {'name', 'amount', 'type', 'price', 'has true value', 'true value', 'revenue'}, 'columns {}', list(df.columns))
            rows = [tuple(r) for r in df[['name', 'amount', 'type', 'price', 'has true value', 'true value', 'revenue']].values.tolist()]
            # In the order of the products, which is how the rows are used
            want = [(e['name'], e['amount'], e['type'], price(e) or 0, price(e, 'true value relation') is not None, price(e, 'true value relation') or 0, (price(e) or 0) * e['amount']) for e in prods]
            mon.check(rows == want, 'table of products {}, expected {}', rows, want)
            mon.count('tables of products')
        mon.check(ds == before, 'a query changed the dataset')


# -- one product of several

def gen_choose(rng, index):
    return make(rng), rng.choice([1, 1., .5, num(rng, -2, 0), -1., 0., num(rng)]), rng.getrandbits(32)


def run_choose(case, mon):
    from ocelot.errors import ZeroProduction
    from ocelot.transformations.utils import choose_reference_product_exchange, nonreference_product
    ds, factor, seed = case
    rng = random.Random(seed)
    # Equal exchanges can't be told apart
    mon.sample = case
    prods = [e for e in ds['exchanges'] if ref.is_product(e)]
    chosen = rng.choice(prods) if prods and rng.random() < .9 else gen.exchange(rng, 'stranger', some(rng), 'byproduct')
    inside = any(chosen is e for e in prods)
    before, keep = copy.deepcopy(ds), copy.deepcopy(chosen)
    try:
        out = choose_reference_product_exchange(ds, chosen, factor) if factor != 1 or rng.random() < .5 else choose_reference_product_exchange(ds, chosen)
    except ZeroProduction:
        mon.check(not chosen['amount'], 'refused to choose {!r}', chosen)
        mon.check(ds == before, 'dataset was changed')
        mon.count('zero products refused')
        return
    mon.check(chosen['amount'], 'product with amount zero was chosen')
    mon.check(ds == before and chosen == keep, 'original was changed')
    f = 1 / abs(chosen['amount'])
    want = []
    e = copy.deepcopy(chosen)
    e.pop('uncertainty', None)
    e.pop('byproduct classification', None)
    e['type'] = 'reference product'
    e['amount'] *= f
    want.append(e)
    for e in copy.deepcopy(ds['exchanges']):
        if inside and e['id'] == chosen['id']:
            continue
        if ref.is_product(e):
            for k in ('formula', 'production volume', 'uncertainty'):
                e.pop(k, None)
            e.update(type='dropped product', amount=0.)
        else:
            ref.scale(e, factor)
            ref.scale(e, f)
        want.append(e)
    from .c35 import compare
    compare(mon, [dict(out, parameters=out.get('parameters', []))], [dict(before, exchanges=want, parameters=before.get('parameters', []))], 'choose_reference_product_exchange')
    mon.count('products chosen')
    mon.count('products from elsewhere', not inside)
    mon.seen('choose', len(prods), factor in (0, 1), factor < 0, len(ds['exchanges']) > 4)


# -- collections of functions

class F:
    def __init__(self, name):
        self.name = self.__name__ = name

    def __call__(self, data):
        return data + [self.name]

    def __repr__(self):
        return self.name


def gen_collection(rng, index):
    return rng.getrandbits(32)


def nest(rng, fs, depth=0):
    """The same functions in any nesting of lists, tuples and collections"""
    from ocelot.collection import Collection
    out = []
    i = 0
    while i < len(fs):
        n = rng.randint(0, 3)
        if rng.random() < .4 and depth < 3:
            part = nest(rng, fs[i:i + n], depth + 1)
            out.append(rng.choice([lambda: part, lambda: tuple(part), lambda: Collection('inner', *part), lambda: iter(part)])())
            i += n
        else:
            out.append(fs[i])
            i += 1
    return out


def run_collection(seed, mon):
    from ocelot.collection import Collection, unwrap_functions
    rng = random.Random(seed)
    counter = iter(range(10 ** 6))
    new = lambda: F('f{}'.format(next(counter)))
    model = [new() for _ in range(gen.size(rng, 0, 6, 30))]
    if model and rng.random() < .3:
        model.append(rng.choice(model))
    mon.check(unwrap_functions(nest(rng, model)) == model, 'unwrapped functions differ')
    c = Collection('some name', *nest(rng, model))
    ops = []
    for _ in range(rng.randint(1, 12)):
        mon.sample = ops
        op = rng.choice(['insert', 'append', 'delete', 'set', 'pop', 'extend', 'reverse', 'remove', 'slice', 'inner'])
        i = rng.randint(-len(model) - 2, len(model) + 2)
        j = rng.randrange(-len(model), len(model)) if model else None
        ops.append((op, i, j))
        if op == 'insert':
            f = new()
            model.insert(i, f)
            c.insert(i, f)
        elif op == 'append':
            model.append(new())
            c.append(model[-1])
        elif op == 'extend':
            fs = [new() for _ in range(rng.randint(0, 3))]
            model.extend(fs)
            c.extend(fs)
        elif op == 'reverse':
            model.reverse()
            c.reverse()
        elif op == 'slice':
            mon.check(list(c[i:]) == model[i:] and list(c[:i]) == model[:i] and list(c[::2]) == model[::2], 'slices differ')
        elif op == 'inner':
            # A collection with this one inside of it
            more = [new() for _ in range(rng.randint(0, 2))]
            k = rng.randint(0, len(more))
            c = Collection('outer', *(more[:k] + [c] + more[k:]))
            model = more[:k] + model + more[k:]
        elif j is None:
            for f in (lambda: c[0], lambda: c.pop(), lambda: c.__delitem__(0)):
                try:
                    f()
                except IndexError:
                    mon.count('nothing there: refused')
                else:
                    mon.fail('empty collection has something')
        elif op == 'delete':
            del model[j]
            del c[j]
        elif op == 'set':
            model[j] = new()
            c[j] = model[j]
        elif op == 'pop':
            mon.check(c.pop(j) is model.pop(j), 'another function was removed')
        elif op == 'remove':
            f = model[j]
            model.remove(f)
            c.remove(f)
        mon.count('changes of collections')
        mon.check(list(c) == model and len(c) == len(model), '{}: {}, expected {}', op, list(c), model)
        mon.check(list(reversed(c)) == model[::-1], 'reversed functions differ')
        mon.check(bool(c) == bool(model), 'truth of a collection')
        mon.check(all(f in c for f in model) and new() not in c, 'membership differs')
        mon.check(all(c[k] is model[k] for k in range(-len(model), len(model))), 'items differ')
        mon.check(all(c.index(f) == model.index(f) and c.count(f) == model.count(f) for f in model), 'index or count differ')
        mon.check(c([]) == [f.name for f in model], 'called as a function: {}, expected {}', c([]), [f.name for f in model])
        mon.check(str(len(model)) in str(c) and str(len(model)) in repr(c), 'description {!r}', str(c))
    mon.seen('collection', sorted({o for o, _, _ in ops}), min(len(model), 8))


QUERIES = ['allocatable_production', 'nonproduction_exchanges', 'get_single_reference_product', 'iterate_all_parameters', 'iterate_all_uncertainties', 'get_biggest_pv_to_exchange_ratio',
           'extract_products_as_tuple', 'activity_grouper', 'production_volume', 'original_production_volume', 'reference_products_as_string']
REQUIRED = QUERIES + ['refused: get_single_reference_product', 'refused: get_biggest_pv_to_exchange_ratio', 'defaults', 'properties found', 'properties not found', 'tables of products', 'products chosen',
                      'zero products refused', 'products from elsewhere', 'changes of collections', 'nothing there: refused']
KINDS = {'queries': (gen_queries, run_queries), 'choose': (gen_choose, run_choose), 'collection': (gen_collection, run_collection)}
PLAN = {'quick': dict(queries=2000, choose=3000, collection=1500), 'thorough': dict(queries=50000, choose=80000, collection=30000)}
