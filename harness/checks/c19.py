"""Recalculation brings all values in line with the formulas, in any order"""
import copy
import random
from .. import formula, gen
from .c17 import compare, repaired
ID = 'C19'
RULE = ('distinct = (operators, place, named) of evaluated formulas and shapes of dependency graphs; every value of every dataset is compared with an independent '
        'evaluation in dependency order, also after shuffling the dataset and after changing an independent value')
REQUIRED = ['formulas evaluated', 'values without formula', 'divisions by zero', 'dependents of a division by zero', 'repeated', 'shuffled', 'changed', 'volumes kept', 'circular references survived',
            'distributions follow', 'distributions of nothing', 'named parameters', 'formulas nobody can evaluate']


def gen_sheet(rng, index):
    s = formula.Sheet(rng, False, p_reserved=0)
    if rng.random() < .5:
        # a division by zero, and something which depends on it
        names = [p for p in s.places if p['name'] and p['want'].v and p['want'].e == 0]
        if names:
            p = rng.choice(names)
            n = p['name']
            obj = {'id': gen.uid(rng), 'name': 'zero', 'unit': 'kg', 'amount': 3., 'variable': 'zerodiv', 'formula': rng.choice(['1 / ({0} - {0})', '{0} / (0 * {0})', '3 + 5 / ({0} * 0)']).format(n)}
            s.ds['parameters'].append(obj)
            s.places.append(dict(kind='parameter', obj=obj, name='zerodiv', tree=('num', '0'), want=formula.Value(0.), zero=True, amount=3.))
            obj = {'id': gen.uid(rng), 'name': 'depends', 'unit': 'kg', 'amount': 3., 'formula': 'zerodiv + {}'.format(n)}
            if rng.random() < .5:
                obj['variable'] = 'depends_on'
            s.ds['parameters'].insert(0, obj)
            s.places.append(dict(kind='parameter', obj=obj, name=obj.get('variable'), tree=('var', 'zerodiv'), want=p['want'], zero=False, amount=3., dep=True))
            s.index = {id(x['obj']): x for x in s.places}
    for p in s.places:
        v, e = p['want'].v, p['want'].e
        if (v and e < abs(v) * 1e-6 and rng.random() < .3 and 1e-9 < abs(v) < 1e9) or (v == 0 and e == 0 and rng.random() < .6):
            p['obj']['uncertainty'] = distribution(rng, v, p['kind'])
    return s, rng.randrange(10 ** 6), rng.random() < .5


def distribution(rng, v, place):
    """Somewhere around (or away from) the value which the formula is going to have"""
    kind = rng.choice(['lognormal', 'lognormal', 'normal', 'triangular', 'uniform', 'undefined'])
    if kind == 'lognormal':
        return {'type': 'lognormal', 'mean': 1., 'mu': 0., 'variance': .1, 'variance with pedigree uncertainty': .1}
    if kind == 'uniform' and place == 'production volume':
        # volumes which aren't recalculated may be outside, which is refused
        kind = 'triangular'
    if kind == 'normal':
        return {'type': 'normal', 'mean': 1., 'variance': .1, 'variance with pedigree uncertainty': rng.choice([.1, .1, 0.])}
    if kind == 'undefined':
        return {'type': 'undefined', 'minimum': -1., 'maximum': 2., 'standard deviation 95%': .5}
    w = abs(v) or 1.
    at = v + w * rng.choice([0, 0, .25, -.25] + [3, -3] * (kind == 'triangular'))
    if kind == 'uniform' and abs(v) < 1e-5:
        # (tiny differences count as none)
        at = v
    u = {'type': kind, 'minimum': at - w, 'maximum': at + w}
    if rng.random() < .2:
        u['minimum'], u['maximum'] = u['maximum'], u['minimum']
    if kind == 'triangular':
        u['mode'] = at
    return u


def check_values(mon, out, expected, s, what):
    new = list(s.objects(out))
    mon.check(len(new) == len(expected), '{}: values appeared or disappeared', what)
    for o, p in zip(new, expected):
        mon.check(formula.agree(o['amount'], p['want']), '{}: {!r} evaluates to {}, expected {}', what, p['obj'].get('formula', p['obj'].get('variable')), o['amount'], p['want'].v)
        if not p['tree']:
            mon.check(o['amount'] == p['amount'], '{}: value without formula changed from {} to {}', what, p['amount'], o['amount'])
        if 'uncertainty' in p['obj']:
            u = p['obj']['uncertainty']
            compare(mon, o.get('uncertainty'), repaired({'amount': o['amount'], 'uncertainty': u}), dict(p['obj'], amount=o['amount']))
            mon.count('distributions follow')
            mon.count('distributions of nothing', not o['amount'])
            mon.seen('distribution', u['type'], bool(o.get('uncertainty')), p['kind'])


def run_sheet(case, mon):
    from ocelot.transformations.parameterization import recalculate, create_pv_parameters, variable_names_are_unique
    from ocelot.transformations.parameterization.recalculation import extract_named_parameters, recalculate_all_parameterized_datasets
    s, seed, pv = case
    r = random.Random(seed)
    expected = s.expected()
    named = extract_named_parameters(copy.deepcopy(s.ds))
    want = {p['name']: {k: p['obj'][k] for k in ('amount', 'formula') if p['obj'].get(k) is not None} for p in s.places if p['name']}
    mon.check(named == want, 'named parameters {}, expected {}', named, want)
    mon.count('named parameters', len(named))
    variable_names_are_unique([copy.deepcopy(s.ds)])
    out = recalculate(copy.deepcopy(s.ds))
    check_values(mon, out, expected, s, 'first')
    for p in expected:
        mon.count('formulas evaluated' if p['tree'] else 'values without formula')
        mon.count('divisions by zero', p['zero'])
        mon.count('dependents of a division by zero', bool(p.get('dep')))
        if p['tree']:
            mon.seen(sorted(formula.ops(p['tree'])), p['kind'], bool(p['name']))
    check_values(mon, recalculate(copy.deepcopy(out)), expected, s, 'again')
    mon.count('repeated')
    # Neither the order of exchanges and parameters nor stale amounts of formulas matter
    shuffled = copy.deepcopy(s.ds)
    for a, b in zip(s.objects(shuffled), expected):
        a['_p'] = b
    for o in s.objects(shuffled):
        if 'formula' in o:
            o['amount'] = gen.num(r)
    r.shuffle(shuffled['exchanges'])
    r.shuffle(shuffled['parameters'])
    exp2 = [o.pop('_p') for o in s.objects(shuffled)]
    check_values(mon, recalculate(shuffled), exp2, s, 'shuffled')
    mon.count('shuffled')
    if pv:
        # Production volumes are fixed, but still known under their names
        moved, = create_pv_parameters([copy.deepcopy(s.ds)])
        vols = [e['production volume']['amount'] for e in moved['exchanges'] if 'production volume' in e]
        n = sum(1 for p in s.places if p['kind'] == 'production volume' and p['name'])
        mon.check(len(moved['parameters']) == len(s.ds['parameters']) + n, 'moved {} named volumes', len(moved['parameters']) - len(s.ds['parameters']))
        mon.check(not any(k in e.get('production volume', {}) for e in moved['exchanges'] for k in ('formula', 'variable')), 'volumes are still parameterized')
        mon.check(vols == [e['production volume']['amount'] for e in s.ds['exchanges'] if 'production volume' in e], 'volumes changed')
        got = recalculate(moved)
        mon.check(vols == [e['production volume']['amount'] for e in got['exchanges'] if 'production volume' in e], 'recalculation changed a production volume')
        for o, p in zip([o for o in s.objects(dict(got, parameters=got['parameters'][:len(s.ds['parameters'])]))], expected):
            if p['kind'] != 'production volume':
                mon.check(formula.agree(o['amount'], p['want']), 'volumes moved: {!r} evaluates to {}, expected {}', p['obj'].get('formula'), o['amount'], p['want'].v)
        mon.count('volumes kept', len(vols))


def gen_change(rng, index):
    """A linear chain, so that the effect of changing one value is known"""
    n = gen.size(rng, 2, 12)
    names = formula.names(rng, n, 0)
    coef = [rng.choice([2., 3., .5, -1., 4.]) for _ in range(n)]
    ds = gen.dataset(rng, 'a', 'GLO', 'transforming activity', [gen.exchange(rng, 'x', 1., 'reference product', p_unc=0)])
    ds['reference product'] = 'x'
    start = gen.num(rng, wide=0)
    objs = [{'id': gen.uid(rng), 'name': 'p', 'unit': 'kg', 'amount': start, 'variable': names[0]}]
    for i in range(1, n):
        objs.append({'id': gen.uid(rng), 'name': 'p', 'unit': 'kg', 'amount': gen.num(rng), 'variable': names[i], 'formula': '{} * {}'.format(coef[i], names[i - 1])})
    rng.shuffle(objs)
    ds['parameters'] = objs
    ds['exchanges'].append(gen.exchange(rng, 'y', 1., 'from technosphere', p_unc=0, formula='{} * 2'.format(names[-1])))
    value, circular = gen.num(rng, wide=0), rng.random() < .4
    # Formulas nobody can evaluate, as they use names which don't exist
    strange = []
    for i in range(rng.choice([0, 0, 1, 2])):
        text = rng.choice(['unknown_thing * 2', '{0} + not_there', 'no_such_function({0})', '2 * ({0} - missing) / {0}', '{0}({0})']).format(rng.choice(names))
        o = {'id': gen.uid(rng), 'name': 'strange {}'.format(i), 'unit': 'kg', 'amount': gen.num(rng) * rng.choice([1, -1, 1, 0]), 'formula': text}
        place = rng.choice(['exchange', 'property', 'parameter'])
        if place == 'exchange':
            o = gen.exchange(rng, 'strange {}'.format(i), o['amount'], 'from technosphere', p_unc=0, formula=text)
            ds['exchanges'].insert(rng.randint(1, 2), o)
        elif place == 'property':
            rng.choice(ds['exchanges']).setdefault('properties', []).append(o)
        else:
            ds['parameters'].insert(rng.randint(0, len(objs)), o)
        strange.append((place, o['id'], o['amount']))
    return ds, names, coef, value, circular, strange


def strange_values(ds):
    for e in ds['exchanges']:
        yield e['id'], e['amount']
        for p in e.get('properties', []):
            yield p['id'], p['amount']
    for p in ds['parameters']:
        yield p['id'], p['amount']


def run_change(case, mon):
    from ocelot.transformations.parameterization import recalculate
    from ocelot.transformations.parameterization.recalculation import recalculate_all_parameterized_datasets
    from bw2parameters.errors import ParameterError
    ds, names, coef, value, circular, strange = case
    work = copy.deepcopy(ds)
    recalculate(work)
    [p for p in work['parameters'] if p.get('variable') == names[0]][0]['amount'] = value
    recalculate(work)
    x = value
    by = {p.get('variable'): p['amount'] for p in work['parameters']}
    for n, c in zip(names[1:], coef[1:]):
        x *= c
        mon.check(abs(by[n] - x) <= 1e-9 * abs(x), '{} is {}, expected {}', n, by[n], x)
    y, = [e['amount'] for e in work['exchanges'] if e['name'] == 'y']
    mon.check(abs(y - 2 * x) <= 1e-9 * abs(x), 'exchange does not follow: {}', y)
    after = dict(strange_values(work))
    for place, key, amount in strange:
        mon.check(after[key] == amount, '{} whose formula cannot be evaluated has become {} instead of {}', place, after[key], amount)
        mon.count('formulas nobody can evaluate')
        mon.seen('cannot be evaluated', place)
    mon.count('changed')
    mon.seen('chain', len(names))
    if circular:
        bad = copy.deepcopy(ds)
        [p for p in bad['parameters'] if p.get('variable') == names[0]][0]['formula'] = '{} + 1'.format(names[-1])
        other = copy.deepcopy(ds)
        before = [p['amount'] for p in bad['parameters']]
        data = recalculate_all_parameterized_datasets([bad, other])
        mon.check(len(data) == 2, 'a dataset with circular references was dropped')
        mon.check([p['amount'] for p in data[0]['parameters']] == before, 'a dataset with circular references was changed halfway')
        mon.check(all(isinstance(e['amount'], (int, float)) for e in data[0]['exchanges']), 'amounts lost in dataset with circular references')
        got = {p.get('variable'): p['amount'] for p in data[1]['parameters']}
        x = [p['amount'] for p in ds['parameters'] if p.get('variable') == names[0]][0]
        for n, c in zip(names[1:], coef[1:]):
            x *= c
            mon.check(abs(got[n] - x) <= 1e-9 * abs(x), 'dataset after a circular one: {} is {}, expected {}', n, got[n], x)
        mon.count('circular references survived')


KINDS = {'sheet': (gen_sheet, run_sheet), 'change': (gen_change, run_change)}
PLAN = {'quick': dict(sheet=1800, change=600), 'thorough': dict(sheet=40000, change=12000)}
CHUNK = {'sheet': 60, 'change': 60}
