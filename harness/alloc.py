"""Workloads and comparison for allocation steps"""
import copy
import math

from . import e2e, gen, ref
from .gen import exchange, num, prop, uid


def priced(rng, name, kind, amount, p_tv=.3, price=None, **kw):
    e = exchange(rng, name, amount, kind, p_unc=.2, **dict({'production volume': {'amount': num(rng, 0, 4)}}, **kw))
    e['properties'] = [prop(rng, 'mass', num(rng))] * rng.randint(0, 1) + [prop(rng, 'price', num(rng, -3, 3) if price is None else price)]
    if rng.random() < p_tv:
        e['properties'].append(prop(rng, 'true value relation', num(rng, -2, 2)))
    rng.shuffle(e['properties'])
    return e


def burdens(rng, n=None, p_unc=.6):
    out = []
    for i in range(gen.size(rng, 0, 6) if n is None else n):
        x = rng.random()
        if x < .45:
            out.append(exchange(rng, 'input {}'.format(i), num(rng) * rng.choice([1, 1, 1, -1]), 'from technosphere', p_unc=p_unc))
        elif x < .8:
            out.append(gen.emission(rng, i, p_unc))
        elif x < .9:
            out.append(exchange(rng, 'by-waste {}'.format(i), num(rng), 'byproduct', p_unc=p_unc, **{'byproduct classification': rng.choice(['waste', 'recyclable'])}))
        else:
            out.append(exchange(rng, 'nothing {}'.format(i), 0., 'from technosphere'))
    return out


def idle(rng, products):
    """Some products aren't made at all"""
    if rng.random() < .15:
        for e in products:
            if rng.random() < .5:
                e['amount'] = 0.
                e.pop('uncertainty', None)


def economic(rng, index, p_tv=None):
    p_tv = rng.choice([0, 0, .3, .7, 1]) if p_tv is None else p_tv
    n = gen.size(rng, 1, 5)
    ex = [priced(rng, 'main', 'reference product', num(rng, -2, 2), p_tv, price=None if rng.random() < .9 else 0.)]
    for i in range(n):
        ex.append(priced(rng, 'co {}'.format(i), 'byproduct', num(rng, -2, 2), p_tv, price=None if rng.random() < .9 else 0.))
    idle(rng, ex[1:])
    if not any(ref.prop(e, 'price') and e['amount'] for e in ex):
        for p in ex[0]['properties']:
            if p['name'] == 'price':
                p['amount'] = 1.5
    ex += burdens(rng)
    rng.shuffle(ex)
    return gen.dataset(rng, gen.Names(rng).new(), 'GLO', 'transforming activity', ex)


def treatment(rng, index, kind=None):
    # Anything negative which isn't a waste is recycled
    kind = kind or rng.choice(['waste', 'waste', 'recyclable', 'recyclable', 'allocatable product'])
    ex = [exchange(rng, 'thing to treat', -num(rng, -2, 2), 'reference product', p_unc=.4,
                   **{'byproduct classification': kind, 'production volume': {'amount': num(rng)}})]
    n = gen.size(rng, 1, 4) if kind != 'waste' else gen.size(rng, 0, 4)
    for i in range(n):
        ex.append(priced(rng, 'co {}'.format(i), 'byproduct', num(rng, -2, 2), rng.choice([0, .5])))
    idle(rng, ex[2:] if kind != 'waste' else ex[1:])
    if kind == 'waste':
        for e in ex[1:]:
            if rng.random() < .06:
                e['amount'] = -e['amount']
                e.pop('uncertainty', None)
    ex += burdens(rng)
    rng.shuffle(ex)
    return gen.dataset(rng, gen.Names(rng).new(), 'GLO', 'transforming activity', ex)


def combined(rng, index, mode=None):
    """Parameterised joint production"""
    mode = mode or rng.choice(['plain', 'by', 'without'])
    ds = gen.dataset(rng, gen.Names(rng).new(), 'GLO', 'transforming activity', [])
    ds['_vars'] = []
    n = rng.randint(2, 4)
    sign = -1 if mode == 'without' else 1
    w = rng.randrange(n)
    for i in range(n):
        v = 'rp_{}'.format('abcdef'[i])
        e = priced(rng, 'product {}'.format(i), 'reference product', sign * num(rng, -1, 1, 0), .3, variable=v,
                   **{'byproduct classification': 'allocatable product' if mode != 'without' else 'waste' if i == w else 'recyclable'})
        if rng.random() < .15 and mode != 'without' and len(ds['_vars']) > 1:
            e['amount'] = 0.
            e.pop('uncertainty', None)
            del e['variable']
        else:
            ds['_vars'].append(v)
        ds['exchanges'].append(e)
    if mode != 'plain':
        for i in range(rng.randint(1, 2)):
            e = priced(rng, 'by {}'.format(i), 'byproduct', 1., .3)
            e.pop('uncertainty', None)
            # Recycling must make something from each product
            linear(rng, ds, e, everywhere=mode == 'without' and not i or rng.random() < .6, sign=sign)
            ds['exchanges'].append(e)
    for e in burdens(rng, rng.randint(1, 5)):
        if e['amount'] and rng.random() < .85:
            linear(rng, ds, e, sign=rng.choice([1, -1]) if e['type'] == 'from technosphere' else sign)
        ds['exchanges'].append(e)
    if rng.random() < .12:
        # Names which already look like what they will become
        ds['name'] = rng.choice(['{}, from {}', '{} {}', '{1}', '{1}, from {1}']).format(ds['name'], rng.choice(ds['exchanges'])['name'])
    if rng.random() < .5:
        rng.shuffle(ds['exchanges'])
    ds['_combined'] = mode
    return ds


def linear(rng, ds, e, everywhere=False, sign=1):
    terms = {v: sign * round(num(rng, -1, 1, 0) + 1e-4, 6) for v in ds['_vars'] if everywhere or rng.random() < .75}
    if not terms:
        terms = {rng.choice(ds['_vars']): 1.5 * sign}
    text = ' + '.join(rng.choice(['{0} * ({1!r})', '({1!r}) * {0}', '(({0}) * {1!r})']).format(k, v) for k, v in terms.items())
    if rng.random() < .35:
        text, e['formula'] = None, text
    if text is not None:
        p = 'par{}_{}'.format(len(ds['parameters']), rng.randrange(100))
        chain = rng.random() < .3
        ds['parameters'].append({'id': uid(rng), 'name': p, 'unit': 'dimensionless', 'variable': p, 'amount': 1., 'formula': text})
        e['formula'] = p
        if chain:
            q = 'chain{}_{}'.format(len(ds['parameters']), rng.randrange(100))
            ds['parameters'].append({'id': uid(rng), 'name': q, 'unit': 'dimensionless', 'variable': q, 'amount': 1., 'formula': '2 * ' + p})
            e['formula'] = q + ' / 2'
        rng.shuffle(ds['parameters'])
    e['_terms'] = terms
    vals = {x['variable']: x['amount'] for x in ds['exchanges'] if x.get('variable')}
    e['amount'] = sum(vals[k] * v for k, v in terms.items())
    u = e.get('uncertainty')
    if u:
        e['uncertainty'] = gen.uncertainty(rng, e['amount'])
        if e['uncertainty']['type'] in ('uniform', 'triangular', 'undefined', 'normal'):
            del e['uncertainty']


def clean(ds):
    return gen.strip_notes([ds])[0]


def normal(ds):
    """Per unit of product"""
    ds = copy.deepcopy(ds)
    rp = ref.refs(ds)[0]
    f = 1 / abs(rp['amount'])
    for e in ds['exchanges']:
        ref.scale(e, f)
    return ds


def same(mon, got, want, label, unc=True):
    """Both lists of single-output datasets, regardless of order"""
    def index(data, who):
        out = {}
        for ds in data:
            r = ref.refs(ds)
            mon.check(len(r) == 1, '{}: {} dataset with {} products', label, who, len(r))
            k = ds['name'], r[0]['name']
            mon.check(k not in out, '{}: {} two datasets for {}', label, who, k)
            out[k] = ds
        return out
    g, w = index(got, 'got'), index(want, 'expected')
    mon.check(set(g) == set(w), '{}: datasets for {}, expected {}', label, sorted(g), sorted(w))
    for k in g:
        a, b = normal(g[k]), normal(w[k])
        rg, rw = ref.refs(a)[0], ref.refs(b)[0]
        mon.check(rg['id'] == rw['id'] and rg['unit'] == rw['unit'] and e2e.close(rg['amount'], rw['amount'], tol=1e-12), '{}: product of {} is {} {}',
                  label, k, rg['amount'], rg['name'])
        mon.check(e2e.close(rg['production volume']['amount'], rw['production volume']['amount'], tol=1e-9), '{}: production volume of {} is {}, expected {}',
                  label, k, rg['production volume']['amount'], rw['production volume']['amount'])
        mon.check(not rg.get('uncertainty'), '{}: product of {} is uncertain', label, k)
        ga = {e['id']: e for e in a['exchanges'] if e is not rg and (e['amount'] or not ref_dropped(e))}
        wa = {e['id']: e for e in b['exchanges'] if e is not rw}
        for i in set(ga) | set(wa):
            x, y = ga.get(i, {}).get('amount', 0.), wa.get(i, {}).get('amount', 0.)
            name = (ga.get(i) or wa.get(i))['name']
            mon.check(e2e.close(x, y, tol=1e-8), '{}: {} in {} is {}, expected {}', label, name, k, x, y)
            mon.count('burdens compared')
            if i in ga and i in wa and (x or y):
                mon.check(ga[i]['type'] == wa[i]['type'], '{}: {} in {} became {}', label, name, k, ga[i]['type'])
                if unc and wa[i].get('uncertainty') and not wa[i].get('_merged'):
                    e2e.same_uncertainty(mon, ga[i].get('uncertainty'), wa[i]['uncertainty'], '{}: {} in {}'.format(label, name, k), abs(y))
        for f in ('location', 'type', 'id', 'start date', 'end date', 'filepath'):
            mon.check(a.get(f) == b.get(f), '{}: {} of {} changed', label, f, k)
    mon.count('allocated datasets compared', len(g))


def ref_dropped(e):
    return e['type'] == 'dropped product' or (e['type'] in ('byproduct', 'reference product') and not e['amount'])


def conserved(mon, before, after, label):
    """Together, the new datasets (run as often as the old one makes their product) have the burdens of the old one"""
    made = {e['id']: abs(e['amount']) for e in before['exchanges'] if ref.is_product(e)}
    total, scale = {}, {}
    for ds in after:
        rp = ref.refs(ds)[0]
        runs = made[rp['id']] / abs(rp['amount'])
        for e in ds['exchanges']:
            if e is not rp and e['amount']:
                total.setdefault(e['id'], []).append(runs * e['amount'])
    for e in before['exchanges']:
        if not ref.is_product(e):
            t = math.fsum(total.pop(e['id'], [0.]))
            mon.check(e2e.close(t, e['amount'], tol=1e-9), '{}: {} of {} before, {} after', label, e['amount'], e['name'], t)
            mon.count('burdens conserved')
    mon.check(not {k for k in total if k not in made}, '{}: burdens from nowhere', label)
