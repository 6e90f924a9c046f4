"""The consequential model: no allocation, best technologies only, constrained markets"""
import collections
import copy
import random
from .. import e2e, gen, ref
from ..core import HarnessError
ID = 'C28'
RULE = ('distinct = (kinds of activities, numbers of suppliers and levels, constrained markets) of consequential model runs and single functions; every activity, product, byproduct, input and '
        'production volume is compared with a restatement of the model')
REQUIRED = ['model runs', 'activities compared', 'inputs compared', 'byproducts compared', 'environmental exchanges compared', 'markets with pruned suppliers', 'combined productions split',
            'constrained markets', 'hard links deleted', 'worlds with market groups', 'distributions compared', 'missing alternatives refused', 'supplier lists pruned', 'unsuitable levels refused', 'formulas compared', 'constrained databases', 'combined productions of one product']


class Case(e2e.Case):
    def __init__(self, rng, profile):
        self.profile = profile
        for attempt in range(40):
            o = dict(gen.PROFILES[profile], p_conseq=0, p_idle=0, p_everywhere=1)
            self.world = gen.World(random.Random(rng.getrandbits(64)), **o)
            some = rng.random() < .3
            for ds in self.world.data:
                if ds['technology level'] == 'undefined' and not (some and rng.random() < .3):
                    ds['technology level'] = rng.choice(ref.LEVELS)
            if rng.random() < .5:
                constrained(self.world, rng)
            if rng.random() < .3:
                one_left(self.world, rng)
            made = {e['name'] for ds in self.world.data for e in ds['exchanges'] if e['type'] == 'reference product'}
            if any(e['type'] == 'byproduct' and not e['conditional exchange'] and e['name'] not in made for ds in self.world.data for e in ds['exchanges']):
                continue
            try:
                self.ref = ref.Consequential(self.world.data)
                return
            except (ref.Ambiguous, ref.Missing):
                continue
        raise HarnessError('only ambiguous worlds')


def constrained(world, rng):
    """Markets with a conditional output, linked to an activity which takes the product"""
    markets = [ds for ds in world.data if ds['type'] == 'market activity']
    for m in rng.sample(markets, min(len(markets), rng.randint(1, 2))):
        a = world.names.new()
        # what the target made before is something with a market
        old = rng.choice([x for x in world.products if x.kind == 'allocatable product'])
        t = gen.dataset(rng, world.names.new('use of {}'), rng.choice(['GLO', 'FR', 'DE']), 'transforming activity', [
            gen.exchange(rng, old.name, gen.num(rng), 'reference product', old.unit, **{'production volume': {'amount': gen.num(rng)}}),
            gen.exchange(rng, a, gen.num(rng), 'from technosphere'), gen.emission(rng, 0)], **{'technology level': 'outdated'})
        t['_mode'] = 'single'
        rng.shuffle(t['exchanges'])
        m['exchanges'].append(gen.exchange(rng, a, -gen.num(rng), 'byproduct', **{'activity link': t['id'], 'conditional exchange': True}))
        world.data.append(t)
        world.features.add('constrained market')
    rng.shuffle(world.data)


def one_left(world, rng):
    """Activities of several reference products of which only one is really made"""
    for ds in world.data:
        rp = ref.refs(ds)
        if len(rp) < 2 or not ds.get('_vars') or rng.random() < .4:
            continue
        keep = rng.choice(rp)
        for e in rp:
            if e is not keep:
                e['amount'] = 0.
                e.pop('uncertainty', None)
        for e in ds['exchanges']:
            if '_terms' in e:
                e['amount'] = e['_terms'].get(keep['variable'], 0) * keep['amount']
                if e.get('uncertainty'):
                    ref.fix_unc(e)
        world.features.add('one of several products made')


def gen_model(rng, index):
    return Case(rng, rng.choice(['mixed', 'small', 'alloc', 'places', 'row', 'recycling', 'combined', 'links', 'zero', 'groups', 'groups']))


def run_model(case, mon):
    import ocelot
    out = e2e.run(case, mon, ocelot.consequential_config)
    e2e.activities(case, mon, out)
    mon.count('constrained markets', 'constrained market' in case.world.features)
    mon.count('model runs')
    mon.count('combined productions of one product', 'one of several products made' in case.world.features)
    mon.count('combined productions split', sum(1 for ds in case.world.data if len(ref.refs(ds)) > 1))
    mon.count('hard links deleted', sum(1 for ds in case.world.data for e in ds['exchanges'] if e.get('activity link') and not e.get('conditional exchange')))
    for k, ds in out.by_key.items():
        r = case.ref.by_key[k]
        got, want = out.product(mon, ds), ref.product(r)
        mon.check(e2e.close(got['amount'], want['amount'], tol=1e-12) and e2e.close(abs(got['amount']), 1, tol=1e-12), '{} makes {}, expected {}', k, got['amount'], want['amount'])
        mon.check(got['unit'] == want['unit'], '{}: unit {}', k, got['unit'])
        lists = []
        for side in (r, ds):
            c, scale = collections.Counter(), 0
            for e in side['exchanges']:
                if e['type'] == 'byproduct':
                    c[e['name'], e['unit'], e['byproduct classification']] += e['amount']
            lists.append(c)
        want, got = lists
        for q in set(want) | set(got):
            mon.check(e2e.close(got[q], want[q], tol=1e-7), '{}: byproduct {} is {}, expected {}', k, q[0], got[q], want[q])
            mon.count('byproducts compared')
        if ds['type'] == 'market activity':
            levels = {s['technology level'] for s in r.get('sup', ())}
            mon.count('markets with pruned suppliers', bool(levels))
            mon.seen('market', sorted(levels), len(r.get('sup', ())), ds['location'])
    e2e.environment(case, mon, out)
    e2e.inputs(case, mon, out)
    e2e.volumes(case, mon, out, lambda k, ds: 'production volume' in ref.product(case.ref.by_key[k]))
    e2e.uncertainties(case, mon, out)


def gen_missing(rng, index):
    case = Case(rng, 'small')
    ds = rng.choice([d for d in case.world.data if d['type'] == 'transforming activity'])
    name = case.world.names.new()
    kind = rng.choice(['allocatable product', 'waste', 'recyclable'])
    if rng.random() < .5:
        # made and used, but never on purpose
        rng.choice(case.world.data)['exchanges'].append(gen.exchange(rng, name, 1., 'from technosphere'))
    ds['exchanges'].insert(rng.randint(0, len(ds['exchanges'])), gen.exchange(rng, name, gen.num(rng), 'byproduct', **{'byproduct classification': kind}))
    return case, name


def run_missing(case, mon):
    import ocelot
    from ocelot.errors import MissingAlternativeProducer
    case, name = case
    try:
        ocelot.consequential_config(case.data())
    except MissingAlternativeProducer as e:
        mon.check(name in str(e), 'error does not name {}: {}', name, e)
        mon.count('missing alternatives refused')
        mon.seen('missing', len(case.world.data))
        return
    mon.fail('byproduct {} without alternative producer was accepted', name)


def gen_levels(rng, index):
    data = []
    for i in range(rng.randint(1, 5)):
        kind = rng.choice(['market activity', 'market activity', 'market group', 'transforming activity'])
        bad = rng.random() < .04
        sup = [{'name': 's{}'.format(k), 'technology level': rng.choice(['undefined'] if bad else ref.LEVELS + ('undefined',)), 'amount': k} for k in range(rng.choice([0, 1, 2, 3, 6]))]
        ds = {'type': kind, 'name': 'a{}'.format(i), 'location': 'GLO', 'suppliers': sup}
        if rng.random() < .1:
            del ds['suppliers']
        data.append(ds)
    return data


def run_levels(data, mon):
    from ocelot.transformations.consequential import prune_suppliers_by_technology_level
    before = copy.deepcopy(data)
    bad = any(ds['type'].startswith('market') and ds.get('suppliers') and all(s['technology level'] == 'undefined' for s in ds['suppliers']) for ds in data)
    try:
        out = prune_suppliers_by_technology_level(copy.deepcopy(data))
    except Exception:
        mon.check(bad, 'refused {}', data)
        mon.count('unsuitable levels refused')
        return
    mon.check(not bad, 'suppliers without any suitable technology level were accepted: {}', data)
    for a, b in zip(before, out):
        if a['type'].startswith('market') and a.get('suppliers'):
            best = min(ref.LEVELS.index(s['technology level']) for s in a['suppliers'] if s['technology level'] != 'undefined')
            a['suppliers'] = [s for s in a['suppliers'] if s['technology level'] == ref.LEVELS[best]]
            mon.seen('levels', best, len(a['suppliers']))
        mon.check(a == b, 'suppliers are {}, expected {}', b.get('suppliers'), a.get('suppliers'))
        mon.count('supplier lists pruned')


def gen_step(rng, index):
    from .. import conseq
    data, links, cond = conseq.constrained(rng)
    for ds in data:
        for e in ds['exchanges']:
            if rng.random() < .5:
                a = rng.choice([1., 2., .5, -3.])
                e['formula'] = rng.choice(['{0!r} * {1!r}', '{0!r} * {1!r} + 0', '0 - {2!r} * {1!r}']).format(e['amount'] / a, a, -e['amount'] / a)
        if rng.random() < .5:
            # hard links of others, which can't be fulfilled
            e = gen.exchange(rng, '(something else)', gen.num(rng), 'from technosphere', **{'activity link': rng.choice(data)['id']})
            ds['exchanges'].append(e)
    return data


def run_step(data, mon):
    from ocelot.transformations.consequential import delete_activity_links_to_constrained_markets, handle_constrained_markets
    want = copy.deepcopy(data)
    for ds in want:
        for e in ds['exchanges']:
            if not e.get('conditional exchange'):
                e.pop('activity link', None)
    got = delete_activity_links_to_constrained_markets(copy.deepcopy(data))
    mon.check(got == want, 'deleting hard links changed something else or left some')
    got = handle_constrained_markets(got)
    ref.constrain(want)
    mon.check(len(got) == len(want), 'number of datasets changed')
    for a, b in zip(got, want):
        mon.check(len(a['exchanges']) == len(b['exchanges']), 'number of exchanges changed')
        mon.check({k: v for k, v in a.items() if k != 'exchanges'} == {k: v for k, v in b.items() if k != 'exchanges'}, 'dataset changed')
        for x, y in zip(a['exchanges'], b['exchanges']):
            where = '{} / {}'.format(a['name'], x['name'])
            mon.check(x['type'] == y['type'] and x['amount'] == y['amount'], '{} is {} {}, expected {} {}', where, x['amount'], x['type'], y['amount'], y['type'])
            mon.check(x.get('activity link') == y.get('activity link') and x['id'] == y['id'], '{}: wrong link', where)
            mon.check(('formula' in x) == ('formula' in y), '{}: formula lost', where)
            if 'formula' in x:
                v = eval(x['formula'], {})
                mon.check(e2e.close(v, x['amount']), '{}: formula means {}, amount is {}', where, v, x['amount'])
                mon.count('formulas compared')
            if y.get('uncertainty'):
                e2e.same_uncertainty(mon, x.get('uncertainty'), y['uncertainty'], where, abs(y['amount']))
            mon.seen('step', x['type'], x['amount'] > 0, 'formula' in x, (x.get('uncertainty') or {}).get('type'))
    mon.count('constrained databases')


KINDS = {'model': (gen_model, run_model), 'missing': (gen_missing, run_missing), 'levels': (gen_levels, run_levels), 'step': (gen_step, run_step)}
PLAN = {'quick': dict(model=700, missing=120, levels=3000, step=1500), 'thorough': dict(model=15000, missing=2000, levels=60000, step=30000)}
