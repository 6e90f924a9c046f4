"""End-to-end runs of the cutoff system model on generated databases, next to the reference model."""
import collections
import math
import random

from . import gen, ref
from .core import HarnessError

TOL = 1e-8


class Case:
    """A generated database together with what the reference model makes of it"""

    def __init__(self, rng, profile, **opts):
        self.profile = profile
        for attempt in range(40):
            o = dict(gen.PROFILES[profile])
            o.update(opts)
            self.world = gen.World(random.Random(rng.getrandbits(64)), **o)
            try:
                self.ref = ref.Cutoff(self.world.data)
                return
            except (ref.Ambiguous, ref.Missing):
                # Missing: a product whose only market is one the model drops by name
                continue
        raise HarnessError('only ambiguous worlds')

    def __repr__(self):
        return 'World(profile={!r}, features={}, data=\n{})'.format(
            self.profile, sorted(self.world.features), __import__('pprint').pformat(self.world.clean(), width=160, compact=True))

    def data(self):
        return self.world.clean()


def key(ds):
    return ds['name'], ds['location'], ds['reference product']


def plain(k):
    return k[:2] + (k[2][:-len(ref.RC)] if k[2].endswith(ref.RC) else k[2],)


def close(a, b, scale=0., tol=TOL):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b), scale)


class Output:
    """The linked database which the code under test returned"""

    def __init__(self, mon, data):
        self.data = data
        self.by_key, self.by_code = {}, {}
        for ds in data:
            mon.check(isinstance(ds.get('code'), str) and ds['code'], 'activity without code: {}', ds.get('name'))
            mon.check(ds['code'] not in self.by_code, 'two activities have the code {}: {}', ds['code'], key(ds))
            mon.check(key(ds) not in self.by_key, 'activity is there twice: {}', key(ds))
            self.by_key[key(ds)] = ds
            self.by_code[ds['code']] = ds

    def product(self, mon, ds):
        found = [e for e in ds['exchanges'] if e['type'] == 'reference product']
        mon.check(len(found) == 1, '{} has {} products', key(ds), len(found))
        return found[0]

    def inputs(self, mon, ds):
        """[(name, unit, supplier key, exchange)]"""
        out = []
        for e in ds['exchanges']:
            if e['type'] == 'from technosphere':
                mon.check(e.get('code') in self.by_code, 'input of {!r} ({}) into {} leads nowhere: {!r}', e['name'], e['amount'], key(ds), e.get('code'))
                out.append((e['name'], e.get('unit'), key(self.by_code[e['code']]), e))
        return out


def before(case, mon, config):
    """An earlier run of another version of the same database, which shouldn't matter now"""
    data, rng = case.data(), mon.rng
    moves = rng.random() < .3
    for ds in data:
        for e in ds['exchanges']:
            e['amount'] *= rng.uniform(.2, 3)
            e.pop('uncertainty', None)
            e.pop('formula', None)
            if 'production volume' in e:
                e['production volume']['amount'] *= rng.choice([0, rng.uniform(.2, 3), 1])
            for p in e['properties']:
                if p['name'] != 'consequential':
                    p['amount'] *= rng.uniform(.2, 3)
        if rng.random() < .3:
            ds['exchanges'] = [e for e in ds['exchanges'] if 'technosphere' not in e['type'] and 'environment' not in e['type'] or rng.random() < .8]
        if ds['location'] not in ('GLO', 'RoW') and moves and rng.random() < .15:
            ds['location'] = rng.choice(['FR', 'DE', 'CH', 'US', 'CN', 'RER'])
    try:
        config(data)
        mon.count('earlier runs of other versions')
    except Exception:
        mon.count('earlier runs which failed')


def run(case, mon, config=None):
    import ocelot
    mon.sample = case
    config = config or ocelot.cutoff_config
    if mon.rng.random() < .15:
        before(case, mon, config)
    out = config(case.data())
    mon.check(isinstance(out, list), 'the model returned a {}', type(out))
    mon.count('worlds')
    mon.count('activities out', len(out))
    for f in case.world.features:
        mon.count('worlds with ' + f)
    return Output(mon, out)


def activities(case, mon, out):
    want, got = set(case.ref.by_key), set(out.by_key)
    mon.check(not want - got, 'missing from the result: {}', sorted(want - got)[:5])
    mon.check(not got - want, 'should not be in the result: {}', sorted(got - want)[:5])
    mon.count('activities compared', len(got))
    for k in got:
        mon.check(out.by_key[k]['type'] == case.ref.by_key[k]['type'], '{} has type {}', k, out.by_key[k]['type'])


def products(case, mon, out):
    for k, ds in out.by_key.items():
        want = ref.product(case.ref.by_key[k])
        got = out.product(mon, ds)
        mon.check(close(got['amount'], want['amount'], tol=1e-12) and close(abs(got['amount']), 1, tol=1e-12),
                  '{} makes {} of its product, expected {}', k, got['amount'], want['amount'])
        mon.check(got['unit'] == want['unit'], '{}: unit {} instead of {}', k, got['unit'], want['unit'])
        mon.check(got['name'] == k[2], '{}: product is called {}', k, got['name'])
        mon.check(not [e for e in ds['exchanges'] if e['type'] == 'byproduct' and e['amount']], '{} has other outputs', k)
        mon.count('products compared')


def environment(case, mon, out, select=lambda k, ds: True):
    for k, ds in out.by_key.items():
        if not select(k, ds):
            continue
        want, got, scale = collections.Counter(), collections.Counter(), collections.Counter()
        for side, src in ((want, case.ref.by_key[k]), (got, ds)):
            for e in src['exchanges']:
                if 'environment' in e['type']:
                    q = e['type'], e['name'], e.get('compartment'), e.get('subcompartment'), e['unit']
                    side[q] += e['amount']
                    scale[q] += abs(e['amount'])
        for q in set(want) | set(got):
            mon.check(close(got[q], want[q], scale[q]), '{}: {} is {}, expected {}', k, q, got[q], want[q])
            mon.count('environmental exchanges compared')


def inputs(case, mon, out, select=lambda k, ds: True, count='inputs compared', names=None, amounts=True):
    """Who delivers how much to whom"""
    for k, ds in out.by_key.items():
        if not select(k, ds):
            continue
        want, got, scale, n = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
        for name, unit, sup, e in out.inputs(mon, ds):
            if names is None or names(k, ds, name):
                got[name, unit, sup] += e['amount']
                scale[name, unit, sup] += abs(e['amount'])
        for e in case.ref.by_key[k]['exchanges']:
            if e['type'] == 'from technosphere' and (names is None or names(k, ds, e['name'])):
                want[e['name'], e['unit'], plain(e['to'])] += e['amount']
        for q in set(want) | set(got):
            if amounts:
                mon.check(close(got[q], want[q], scale[q]),
                          '{} takes {} of {!r} from {}, expected {}', k, got[q], q[0], q[2], want[q])
            mon.check((q in got) == (q in want) or not (want[q] or got[q]), '{}: {} {!r} from {}', k,
                      'unexpected input of' if q in got else 'missing input of', q[0], q[2])
            mon.count(count)
        mon.seen(ds['type'], len(got), len({q[0] for q in got}), ds['location'] == 'RoW', sum(1 for v in got.values() if v < 0))


def volumes(case, mon, out, select=lambda k, ds: True):
    for k, ds in out.by_key.items():
        if not select(k, ds):
            continue
        want, got = ref.pvol(case.ref.by_key[k]), out.product(mon, ds)['production volume']['amount']
        mon.check(got >= 0, '{} has the production volume {}', k, got)
        mon.check(close(got, want, tol=1e-6), '{} has the production volume {}, expected {}', k, got, want)
        mon.count('production volumes compared')
        mon.seen('pv', ds['type'], ds['location'] in ('RoW', 'GLO') and ds['location'], bool(want), len(ds['exchanges']) > 3)


PARAMS = {
    'lognormal': ('mean', 'mu', 'variance'),
    'normal': ('mean', 'variance', 'variance with pedigree uncertainty'),
    'triangular': ('minimum', 'mode', 'maximum'),
    'uniform': ('minimum', 'maximum'),
}


def same_uncertainty(mon, got, want, where, scale):
    gt = (got or {}).get('type')
    if want is None or want['type'] == 'undefined':
        return
    mon.check(gt == want['type'], '{}: distribution is {}, expected {}', where, gt, want['type'])
    for p in PARAMS[gt]:
        if p in want:
            mon.check(p in got and close(got[p], want[p], 1e-3 if p == 'mu' else 0 if 'variance' in p else scale, 1e-7),
                      '{}: {} of the {} distribution is {}, expected {}', where, p, gt, got.get(p), want[p])
    mon.count('distributions compared')


def uncertainties(case, mon, out, select=lambda k, ds: True):
    """Distributions follow their amounts"""
    for k, ds in out.by_key.items():
        if not select(k, ds):
            continue
        want = {}
        for e in case.ref.by_key[k]['exchanges']:
            if e.get('id') and e['type'] != 'reference product' and not e.get('_merged') and e['amount']:
                want.setdefault((e['id'], plain(e['to']) if 'to' in e else None), e)
        for e in ds['exchanges']:
            if e['type'] == 'reference product' or not e['amount'] or 'original id' not in e:
                continue
            to = key(out.by_code[e['code']]) if e['type'] == 'from technosphere' else None
            w = want.get((e['original id'], to))
            if w is not None and w.get('uncertainty'):
                same_uncertainty(mon, e.get('uncertainty'), w['uncertainty'], '{} / {}'.format(k, e['name']), abs(w['amount']))
