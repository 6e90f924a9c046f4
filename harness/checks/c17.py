"""Uncertainty: repaired once, exported faithfully, adjusted in time by the table"""
import copy
import math
from .. import e2e, gen
ID = 'C17'
RULE = ('distinct = (distribution, what was wrong with it, sign, pedigree) of repaired values, (distribution, sign) of exported ones and (score, years) of adjusted '
        'ones; every field is compared with an independent statement of the rules')
REQUIRED = ['repaired lognormal', 'repaired normal', 'repaired triangular', 'repaired uniform', 'repaired undefined', 'removed', 'extreme variances', 'off-centre uniform',
            'swapped bounds', 'values in datasets', 'exported lognormal', 'exported normal', 'exported triangular', 'exported uniform', 'exported undefined', 'exported certain',
            'samples', 'years adjusted', 'years unchanged', 'scores with original factors', 'scores with published factors']

ORIGINAL = {
    "reliability": (0, 0.0006, 0.002, 0.008, 0.04), "completeness": (0, 0.0001, 0.0006, 0.002, 0.008),
    "temporal correlation": (0, 0.0002, 0.002, 0.008, 0.04), "geographical correlation": (0, 0.000025, 0.0001, 0.0006, 0.002),
    "further technological correlation": (0, 0.0006, 0.008, 0.04, 0.12), "sample size": (0, 9.8e-05, 0.0006, 0.0023, 0.0083)}
CIROTH = dict({k: (0, .00022, .0023, .0076, .016) for k in ('temporal correlation', 'geographical correlation', 'further technological correlation')}, **{
    'reliability': (0, .047, .057, .069, .069), 'completeness': (0, .00022, .00038, .0015, .0015), 'sample size': (0,) * 5})
close = e2e.close


def pedigree(rng):
    x = rng.random()
    if x < .4:
        return None
    if x < .5:
        return {}
    keys = list(ORIGINAL)[:5] if x < .9 else list(ORIGINAL)
    return {k: rng.randint(1, 5) for k in keys}


def extra(pm):
    return math.fsum(ORIGINAL[k][v - 1] for k, v in (pm or {}).items())


def make_value(rng):
    """(object with a possibly flawed distribution, what is wrong with it)"""
    a = gen.num(rng, wide=.05) * rng.choice([1, 1, -1])
    kind = rng.choice(['lognormal', 'lognormal', 'normal', 'triangular', 'uniform', 'undefined'])
    pm = pedigree(rng)
    flaw = 'none'
    if kind == 'lognormal':
        ped = extra(pm)
        v = 10 ** rng.uniform(-6, -.3)
        x = rng.random()
        if x < .12:
            v, flaw = rng.uniform(1.001, math.e - .001), 'large'
        elif x < .24:
            v, flaw = rng.choice([rng.uniform(math.e + .001, 20), 3., 100.]), 'huge'
        elif x < .3 and not pm:
            v, flaw = rng.choice([1., math.e, math.nextafter(1., 0), math.nextafter(math.e, 9)]), 'edge'
        u = {'type': kind, 'variance': v, 'variance with pedigree uncertainty': v + ped, 'mean': abs(a), 'mu': math.log(abs(a))}
        x = rng.random()
        if x < .2:
            u['mean'] = a * rng.choice([-1, 2, .1])
        elif x < .3:
            u['mu'] = rng.uniform(-9, 9)
        elif x < .45:
            u['variance'] = rng.choice([0, v * 3, v + ped, 10., -1.])
        if rng.random() < .07:
            u['variance with pedigree uncertainty'] = rng.choice([0, 0.])
            flaw = 'none left'
        if rng.random() < .07:
            a, flaw = 0., 'zero amount'
    elif kind == 'normal':
        v = (abs(a) * 10 ** rng.uniform(-3, 0)) ** 2
        u = {'type': kind, 'mean': a * rng.choice([1, 1, -1, 2]), 'variance': v * .5, 'variance with pedigree uncertainty': v}
        if rng.random() < .07:
            u['variance with pedigree uncertainty'] = rng.choice([0, 0.])
            flaw = 'none left'
        if rng.random() < .07:
            a = 0.
    elif kind == 'triangular':
        lo, hi = a - abs(a) * rng.uniform(.05, 2), a + abs(a) * rng.uniform(.05, 2)
        x = rng.random()
        if x < .1:
            lo = a
        elif x < .2:
            hi = a
        elif x < .27:
            lo = hi = a
            flaw = 'point'
        elif x < .37:
            lo, hi, flaw = a + abs(a) * .01, a + abs(a) * 2, 'outside'
            if rng.random() < .5:
                lo, hi = a - abs(a) * 2, a - abs(a) * .01
        u = {'type': kind, 'minimum': lo, 'maximum': hi, 'mode': a * rng.choice([1, 1, 1.1, -1])}
        if rng.random() < .25:
            u['minimum'], u['maximum'] = u['maximum'], u['minimum']
            flaw += ' swapped'
    elif kind == 'uniform':
        a = math.copysign(max(abs(a), .01), a)
        w = abs(a) * rng.choice([.25, .5, .125, 1., 2.])
        lo, hi = a - w, a + w
        x = rng.random()
        if x < .1:
            lo = hi = a
            flaw = 'point'
        elif x < .35:
            hi, flaw = a + w * rng.choice([0, .1, .5, 3, 1.01, .98]), 'off-centre'
        u = {'type': kind, 'minimum': lo, 'maximum': hi}
        if rng.random() < .25:
            u['minimum'], u['maximum'] = u['maximum'], u['minimum']
            flaw += ' swapped'
    else:
        u = {'type': kind, 'minimum': a - rng.uniform(-1, 1), 'maximum': a + rng.uniform(-1, 1), 'standard deviation 95%': rng.uniform(0, 3)}
    obj = {'amount': a, 'uncertainty': u}
    if pm is not None:
        obj['pedigree matrix'] = pm
    return obj, flaw


def repaired(obj):
    """What the documented rules make of the distribution of ``obj``; None if there is none left"""
    a, u = obj['amount'], dict(obj['uncertainty'])
    ped = extra(obj.get('pedigree matrix'))
    if u['type'] == 'lognormal':
        if a == 0 or u['variance with pedigree uncertainty'] == 0:
            return None
        v = u['variance with pedigree uncertainty'] - ped
        total = u['variance with pedigree uncertainty']
        if 1 <= v <= math.e:
            v = math.log(v)
            total = v + ped
        elif v > math.e:
            v, total = .25, .25 + ped
        u.update(mean=abs(a), mu=math.log(abs(a)), negative=a < 0, variance=v, **{'variance with pedigree uncertainty': total})
    elif u['type'] == 'normal':
        if u['variance with pedigree uncertainty'] == 0:
            return None
        u['mean'] = a
    elif u['type'] in ('triangular', 'uniform'):
        lo, hi = sorted([u['minimum'], u['maximum']])
        if lo == hi == a:
            return None
        if not lo <= a <= hi:
            return None
        u['minimum'], u['maximum'] = lo, hi
        if u['type'] == 'uniform' and abs(a - (lo + hi) / 2) > 1e-3 * (hi - lo):
            u['type'] = 'triangular'
        if u['type'] == 'triangular':
            u['mode'] = a
    return u


def compare(mon, got, want, obj):
    if want is None:
        mon.check(not got, 'distribution left on {}: {}', obj, got)
        mon.count('removed')
        return
    mon.check(got is not None, 'distribution of {} was removed', obj)
    mon.check(set(got) == set(want), 'fields {} instead of {} for {}', sorted(got), sorted(want), obj)
    for k, v in want.items():
        if isinstance(v, float):
            tol = 1e-12 * max(abs(v), 1. if 'variance' in k or k == 'mu' else 0, max(abs(x) for x in want.values() if isinstance(x, float)) if k in ('minimum', 'maximum') else 0)
            mon.check(abs(got[k] - v) <= tol, '{} is {}, expected {} for {}', k, got[k], v, obj)
        else:
            mon.check(got[k] == v, '{} is {}, expected {} for {}', k, got[k], v, obj)


def gen_repair(rng, index):
    ds = gen.dataset(rng, 'a', 'GLO', 'transforming activity', [])
    flaws = []

    def value(p=.7):
        obj, flaw = make_value(rng)
        if rng.random() > p:
            obj.pop('uncertainty')
        else:
            flaws.append((obj['uncertainty']['type'], flaw, obj['amount'] < 0, 'pedigree matrix' in obj))
        return obj
    for i in range(gen.size(rng, 1, 5)):
        e = value()
        e.update(name='x{}'.format(i), type=rng.choice(['reference product', 'from technosphere', 'to environment']), id=gen.uid(rng))
        if rng.random() < .4:
            e['production volume'] = value(.6)
        if rng.random() < .5:
            e['properties'] = [dict(value(.6), name='p{}'.format(j)) for j in range(rng.randint(1, 3))]
        ds['exchanges'].append(e)
    ds['parameters'] = [dict(value(), variable='v{}'.format(j)) for j in range(rng.randint(0, 3))]
    return ds, flaws


def values(ds):
    for e in ds['exchanges']:
        yield e
        if 'production volume' in e:
            yield e['production volume']
        yield from e.get('properties', [])
    yield from ds['parameters']


def run_repair(case, mon):
    from ocelot.transformations.parameterization.uncertainty import repair_all_uncertainty_distributions
    ds, flaws = case
    work = copy.deepcopy(ds)
    out, = repair_all_uncertainty_distributions([work])
    olds, news = list(values(ds)), list(values(out))
    mon.check(len(olds) == len(news), 'values appeared or disappeared')
    for a, b in zip(olds, news):
        skip = ('uncertainty', 'production volume', 'properties')
        mon.check({k: v for k, v in a.items() if k not in skip} == {k: v for k, v in b.items() if k not in skip}, 'repair changed {} to {}', a, b)
        mon.count('values in datasets')
        if 'uncertainty' not in a:
            mon.check('uncertainty' not in b, 'a certain value became uncertain: {}', b)
            continue
        want = repaired(a)
        compare(mon, b.get('uncertainty'), want, a)
        kind = a['uncertainty']['type']
        mon.count('repaired ' + kind)
        if want and kind == 'lognormal' and abs(want['variance with pedigree uncertainty'] - a['uncertainty']['variance with pedigree uncertainty']) > 1e-6:
            mon.count('extreme variances')
        mon.count('off-centre uniform', bool(want) and want['type'] != kind)
        mon.count('swapped bounds', bool(want) and 'minimum' in want and kind != 'undefined' and want['minimum'] != a['uncertainty']['minimum'])
    # Repairing what has been repaired changes nothing (unless no variance is left)
    again, = repair_all_uncertainty_distributions([copy.deepcopy(out)])
    for a, b in zip(values(out), values(again)):
        if a.get('uncertainty') and a['uncertainty'].get('variance with pedigree uncertainty') != 0 and 0 <= a['uncertainty'].get('variance', .5) < .999:
            compare(mon, b.get('uncertainty'), a['uncertainty'], a)
    for f in flaws:
        mon.seen(*f)


IDS = {'lognormal': 2, 'normal': 3, 'uniform': 4, 'triangular': 5, 'undefined': 0, None: 1}


def gen_export(rng, index):
    a = gen.num(rng) * rng.choice([1, 1, -1])
    e = gen.exchange(rng, 'x', a, 'from technosphere', p_unc=.9)
    if e.get('uncertainty', {}).get('type') == 'lognormal' and rng.random() < .7:
        # (added by the repair, which the value may not have gone through)
        e['uncertainty']['negative'] = a < 0
    return e, rng.choice([1, 3, 50]), rng.randrange(2 ** 31)


def run_export(case, mon):
    from ocelot.transformations.uncertainty import get_uncertainty_class
    import numpy as np
    e, n, seed = case
    u = e.get('uncertainty') or {}
    cls = get_uncertainty_class(e)
    before = copy.deepcopy(e)
    got = cls.to_stats_arrays(e)
    kind = u.get('type')
    a = e['amount']
    want = {'uncertainty type': IDS[kind], 'amount': a}
    if kind in (None, 'undefined'):
        want['loc'] = a
    elif kind == 'lognormal':
        want.update(loc=math.log(abs(a)), scale=math.sqrt(u['variance with pedigree uncertainty']), negative=a < 0)
    elif kind == 'normal':
        want.update(loc=a, scale=math.sqrt(u['variance with pedigree uncertainty']))
    else:
        want.update(minimum=u['minimum'], maximum=u['maximum'])
        if kind == 'triangular':
            want['loc'] = a
    mon.check(set(got) == set(want), 'exported fields {} of {}', sorted(got), u)
    for k, v in want.items():
        mon.check(got[k] == v or close(got[k], v, tol=1e-12) or (k == 'loc' and abs(got[k] - v) < 1e-12), 'exported {} of {} is {}, expected {}', k, u, got[k], v)
    mon.check(e == before, 'exporting changed the value')
    mon.count('exported ' + (kind or 'certain'))
    np.random.seed(seed)
    x = cls.sample(e, size=n)
    mon.check(x.shape == (n,), 'asked for {} samples, got {}', n, x.shape)
    mon.check(np.isfinite(x).all(), 'samples of {} are not finite', u)
    eps = 1e-6 * abs(a)
    if kind in (None, 'undefined'):
        mon.check(np.allclose(x, a, rtol=1e-6, atol=0), 'samples of {} are {}', a, x[:3])
    elif kind == 'lognormal':
        s = math.sqrt(u['variance with pedigree uncertainty'])
        mon.check(((x > 0) == (a > 0)).all(), 'samples of {} with the wrong sign', a)
        mon.check((np.abs(np.log(np.abs(x) / abs(a))) <= 8 * s + 1e-5).all(), 'samples {} far from {}', x[:3], a)
    elif kind == 'normal':
        s = math.sqrt(u['variance with pedigree uncertainty'])
        mon.check((np.abs(x - a) <= 8 * s + eps).all(), 'samples {} far from {}', x[:3], a)
    else:
        tol = 1e-6 * (abs(u['minimum']) + abs(u['maximum']))
        mon.check((x >= u['minimum'] - tol).all() and (x <= u['maximum'] + tol).all(), 'samples {} out of bounds {}', x[:3], u)
    mon.count('samples', n)
    mon.seen('export', kind, a < 0, round(math.log10(abs(a))))


def gen_time(rng, index):
    a = gen.num(rng) * rng.choice([1, -1])
    e = gen.exchange(rng, 'x', a, 'from technosphere', p_unc=0)
    if rng.random() < .9:
        e['pedigree matrix'] = {k: rng.randint(1, 5) for k in list(ORIGINAL)[:5]}
        if rng.random() < .3:
            e['pedigree matrix']['sample size'] = rng.randint(1, 5)
    x = rng.random()
    if x < .6:
        v = 10 ** rng.uniform(-6, -.5)
        e['uncertainty'] = {'type': 'lognormal', 'mean': abs(a), 'mu': math.log(abs(a)), 'variance': v, 'variance with pedigree uncertainty': v + extra(e.get('pedigree matrix'))}
    elif x < .85:
        e['uncertainty'] = gen.uncertainty(rng, a)
        if e['uncertainty']['type'] == 'lognormal':
            e.pop('uncertainty')
    end = rng.randint(1980, 2030)
    year = end + rng.choice([-1, 1]) * rng.choice(list(range(0, 16)) + [3, 5, 7, 12, 4, 8, 13, 30])
    date = rng.choice([end, '{}-12-31'.format(end), '{}-01-01'.format(end)])
    target = rng.choice([year, '{}-06-30'.format(year)])
    return {'end date': date, 'name': 'x'}, e, target, abs(end - year)


def run_time(case, mon):
    from ocelot.transformations.uncertainty import adjust_pedigree_matrix_time
    ds, e, year, diff = case
    old = copy.deepcopy(e)
    got = adjust_pedigree_matrix_time(ds, copy.deepcopy(e), year)
    want = copy.deepcopy(e)
    if 'pedigree matrix' in e:
        c = e['pedigree matrix']['temporal correlation']
        if diff:
            new = 5
            if c == 1:
                new = 2 if diff <= 3 else 3 if diff <= 7 else 4 if diff <= 12 else 5
            elif c == 2:
                new = 3 if diff < 5 else 4 if diff == 5 else 5
            elif c == 3 and diff <= 5:
                new = 4
            want['pedigree matrix']['temporal correlation'] = new
            mon.count('years adjusted')
        else:
            mon.count('years unchanged')
        mon.seen('time', c, diff)
    u = want.get('uncertainty')
    if u and u['type'] == 'lognormal':
        u['variance with pedigree uncertainty'] = u['variance'] + extra(want.get('pedigree matrix'))
        mon.check(got['uncertainty']['variance with pedigree uncertainty'] >= old['uncertainty']['variance with pedigree uncertainty'] - 1e-12, 'data got better with age')
    a, b = got.pop('uncertainty', None), want.pop('uncertainty', None)
    mon.check(got == want, 'adjusted to {}, expected {} ({} years)', got, want, diff)
    if b:
        compare(mon, a, b, old)
    else:
        mon.check(a is None, 'a certain value became uncertain')


def gen_scores(rng, index):
    return {k: rng.randint(1, 5) for k in rng.sample(sorted(ORIGINAL), rng.randint(0, 6))}, rng.choice(['original', 'Ciroth et al', None])


def run_scores(case, mon):
    from ocelot.transformations.uncertainty import get_pedigree_variance
    pm, version = case
    table = CIROTH if version == 'Ciroth et al' else ORIGINAL
    got = get_pedigree_variance(pm, version=version) if version else get_pedigree_variance(pm)
    want = math.fsum(table[k][v - 1] for k, v in pm.items())
    mon.check(abs(got - want) <= 1e-12, 'scores {} give {} ({}), expected {}', pm, got, version, want)
    mon.count('scores with ' + ('published' if table is CIROTH else 'original') + ' factors')
    mon.seen('scores', version, sorted(pm.items()))


KINDS = {'repair': (gen_repair, run_repair), 'export': (gen_export, run_export), 'time': (gen_time, run_time), 'scores': (gen_scores, run_scores)}
PLAN = {'quick': dict(repair=4000, export=4000, time=6000, scores=1000), 'thorough': dict(repair=120000, export=80000, time=150000, scores=20000)}
CHUNK = {'repair': 250, 'export': 250, 'time': 500, 'scores': 500}
