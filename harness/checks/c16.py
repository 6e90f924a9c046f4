"""Scaling an exchange scales the random variable"""
import copy
import math
from .. import e2e, gen, ref
ID = 'C16'
RULE = ('distinct = (distribution, sign and zeroness of amount and factor, magnitudes) of scaled exchanges; amount and every distribution parameter are '
        'compared after one and after two scalings')
REQUIRED = ['lognormal', 'normal', 'triangular', 'uniform', 'undefined', 'no distribution', 'zero factor', 'negative factor', 'composed', 'zero amount', 'datasets normalised']


def gen_scale(rng, index):
    amount = gen.num(rng) * rng.choice([1, 1, -1])
    e = gen.exchange(rng, 'x', amount, rng.choice(['from technosphere', 'to environment', 'byproduct', 'reference product']), p_unc=.92)
    u = e.get('uncertainty')
    if u and u['type'] == 'triangular' and rng.random() < .2:
        u[rng.choice(['minimum', 'maximum'])] = amount
    if u and u['type'] in ('lognormal', 'normal') and rng.random() < .1:
        e['amount'] = 0.
        if u['type'] == 'normal':
            u['mean'] = 0.
    if u and u['type'] == 'normal' and rng.random() < .2:
        del u[rng.choice(['variance', 'variance with pedigree uncertainty'])]
    f = lambda: rng.choice([gen.num(rng), gen.num(rng), -gen.num(rng), -1, 1, 1., .5, 0, 2])
    return e, f(), f()


def compare(mon, e, factor, old):
    want_amount = old['amount'] * factor
    mon.check(e2e.close(e['amount'], want_amount, tol=1e-12), '{} times {} is {}', old['amount'], factor, e['amount'])
    u = old.get('uncertainty')
    want = ref.scale_unc(u, old['amount'], factor)
    got = e.get('uncertainty')
    if want is None:
        mon.check(got is None, 'a certain value has the distribution {}', got)
        return
    if want['type'] == 'undefined':
        mon.check(got and got['type'] == 'undefined', 'distribution is {}', got)
        for p in ('minimum', 'maximum'):
            mon.check(e2e.close(got[p], want[p], tol=1e-12), '{} of undefined distribution: {}, expected {}', p, got[p], want[p])
        return
    e2e.same_uncertainty(mon, got, want, repr(u), abs(want_amount))
    for p in ('minimum', 'maximum'):
        if p in want:
            mon.check(got['minimum'] <= e['amount'] <= got['maximum'], 'amount outside of its distribution')
    for p in want:
        mon.check(p in got, '{} got lost', p)
    if 'variance with pedigree uncertainty' in want:
        mon.check(e2e.close(got['variance with pedigree uncertainty'], want['variance with pedigree uncertainty'], tol=1e-9), 'total variance {}, expected {}',
                  got['variance with pedigree uncertainty'], want['variance with pedigree uncertainty'])


def run_scale(case, mon):
    from ocelot.transformations.uncertainty import scale_exchange
    e, f, g = case
    u = e.get('uncertainty')
    one = scale_exchange(copy.deepcopy(e), f)
    mon.check({k: v for k, v in one.items() if k not in ('amount', 'uncertainty')} == {k: v for k, v in e.items() if k not in ('amount', 'uncertainty')},
              'scaling changed something else')
    compare(mon, one, f, e)
    mon.count(u['type'] if u else 'no distribution')
    mon.count('zero factor', not f)
    mon.count('negative factor', f < 0)
    mon.count('zero amount', not e['amount'])
    if f and one['amount']:
        two = scale_exchange(scale_exchange(copy.deepcopy(e), f), g)
        direct = copy.deepcopy(e)
        compare(mon, two, f * g, direct)
        mon.count('composed')
    mon.seen(u and u['type'], (e['amount'] > 0) - (e['amount'] < 0), (f > 0) - (f < 0), round(math.log10(abs(f))) if f else None,
             round(math.log10(abs(e['amount'])) / 3) if e['amount'] else None)


def gen_ds(rng, index):
    a = gen.num(rng) * rng.choice([1, 1, -1])
    ex = [gen.exchange(rng, 'p', a, 'reference product', p_unc=.2)]
    for i in range(gen.size(rng, 0, 6)):
        ex.append(gen.exchange(rng, 'i{}'.format(i), gen.num(rng) * rng.choice([1, -1]), 'from technosphere', p_unc=.7))
    rng.shuffle(ex)
    return gen.dataset(rng, 'a', 'GLO', 'transforming activity', ex)


def run_ds(ds, mon):
    from ocelot.transformations.utils import normalize_reference_production_amount
    a = ref.refs(ds)[0]['amount']
    out, = normalize_reference_production_amount(copy.deepcopy(ds))
    mon.check(len(out['exchanges']) == len(ds['exchanges']), 'exchanges appeared or disappeared')
    for x, y in zip(out['exchanges'], ds['exchanges']):
        compare(mon, x, 1 / abs(a), y)
    mon.check(e2e.close(ref.refs(out)[0]['amount'], math.copysign(1, a), tol=1e-12), 'production amount {}', ref.refs(out)[0]['amount'])
    mon.count('datasets normalised')
    mon.seen('ds', len(ds['exchanges']), a < 0, round(math.log10(abs(a))))


KINDS = {'scale': (gen_scale, run_scale), 'dataset': (gen_ds, run_ds)}
PLAN = {'quick': dict(scale=30000, dataset=1500), 'thorough': dict(scale=600000, dataset=40000)}
CHUNK = {'scale': 1000}
