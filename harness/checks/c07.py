"""Production volume accounting"""
import copy
import math
from .. import direct, e2e, gen, ref
ID = 'C07'
RULE = ('distinct = (activity type, location class, with/without production) in whole databases and (hard links, reserved share, clipped) in direct cases; '
        'the production volume of every activity is compared')
REQUIRED = ['production volumes compared', 'co-product volumes', 'hard links reserved', 'volumes clipped at zero', 'market volumes']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.volumes(case, mon, out)


# -- direct: reserved volumes and co-products before allocation

def gen_direct(rng, index):
    world = gen.World(rng, products=(1, 3), p_link=rng.choice([.2, .6]), p_economic=.5, locs=(1, 2), markets=(1, 2), p_waste=.4, p_recyclable=.2,
                      p_zero_pv=.1, inputs=(1, 3), p_parent=0, p_byPV=.3, emissions=(0, 0), p_zero_input=0, p_unc=0, p_conseq=0)
    return world


def run_direct(world, mon):
    from ocelot.transformations.production_volumes import add_pv_to_allocatable_byproducts
    from ocelot.transformations.activity_links import add_hard_linked_production_volumes, update_transforming_activity_production_volumes
    data = world.clean()
    mon.sample = copy.deepcopy(data)
    before = copy.deepcopy(data)
    data = add_pv_to_allocatable_byproducts(data)
    want = {}
    level = {}
    for ds in before:
        level[ds['id']] = ref.level(ds)
        for e in ds['exchanges']:
            if ref.is_product(e):
                pv = e['production volume']['amount']
                if e['type'] == 'byproduct' and not pv:
                    pv = abs(e['amount']) * level[ds['id']]
                    mon.count('co-product volumes')
                want[ds['id'], e['id']] = pv
    for ds in data:
        for e in ds['exchanges']:
            if ref.is_product(e):
                mon.check(e2e.close(e['production volume']['amount'], want[ds['id'], e['id']], tol=1e-9), '{}: co-product {} has volume {}, expected {}',
                          ds['name'], e['name'], e['production volume']['amount'], want[ds['id'], e['id']])
    data = add_hard_linked_production_volumes(data)
    data = update_transforming_activity_production_volumes(data)
    reserved = {}
    targets = {ds['id']: ds for ds in before}
    for ds in before:
        for e in ds['exchanges']:
            link = e.get('activity link')
            if link and link != ds['id']:
                x, = [x for x in targets[link]['exchanges'] if ref.is_product(x) and x['name'] == e['name']]
                reserved.setdefault((link, x['id']), []).append(e['amount'] * level[ds['id']])
                mon.count('hard links reserved')
    for ds in data:
        for e in ds['exchanges']:
            if not ref.is_product(e):
                continue
            full = want[ds['id'], e['id']]
            r = math.fsum(reserved.get((ds['id'], e['id']), []))
            got = e['production volume']['amount']
            expect = full
            if ds['type'] == 'transforming activity':
                expect = max(full - r, 0)
                if r and not expect:
                    mon.count('volumes clipped at zero')
            mon.check(abs(got - expect) <= 1e-9 * max(full, abs(r)) and got >= 0, '{} ({}): volume of {} is {}, expected {} (of {}, {} hard linked)',
                      ds['name'], ds['location'], e['name'], got, expect, full, r)
            mon.seen(ds['type'], len(reserved.get((ds['id'], e['id']), [])), expect == 0, full == 0)


# -- direct: market volumes

def gen_market(rng, index):
    import random
    m = direct.act(rng, 'market activity', 'market for x', 'x', 'GLO', direct.volume(rng))
    m['suppliers'] = []
    for i in range(gen.size(rng, 0, 7)):
        s = direct.act(rng, 'transforming activity', 'making x {}'.format(i), 'x', 'GLO', direct.volume(rng))['exchanges'][0]
        if rng.random() < .3:
            s['production volume']['original amount'] = s['production volume']['amount'] * rng.uniform(1, 5)
            s['production volume']['subtracted activity link volume'] = s['production volume']['original amount'] - s['production volume']['amount']
        s['code'] = str(i)
        m['suppliers'].append(s)
    if rng.random() < .5:
        m['exchanges'][0]['production volume']['subtracted activity link volume'] = \
            sum(s['production volume']['amount'] for s in m['suppliers']) * rng.choice([.1, .5, 2., -.3]) + rng.choice([0, .25])
    return m


def run_market(case, mon):
    from ocelot.transformations.locations.markets import update_market_production_volumes
    ds = direct.strip([case])[0]
    pv = case['exchanges'][0]['production volume']
    total = math.fsum(s['production volume']['amount'] for s in case['suppliers'])
    want = max(total - pv.get('subtracted activity link volume', 0), 0)
    out = update_market_production_volumes([ds])
    got = out[0]['exchanges'][0]['production volume']['amount']
    mon.check(abs(got - want) <= 1e-9 * max(total, abs(pv.get('subtracted activity link volume', 0))) and got >= 0, 'market volume {}, expected {}', got, want)
    mon.count('market volumes')
    mon.seen('market', len(case['suppliers']), 'subtracted activity link volume' in pv, want == 0)


KINDS = {'direct': (gen_direct, run_direct), 'market': (gen_market, run_market), 'mixed': (make('mixed'), run_world), 'links': (make('links'), run_world),
         'alloc': (make('alloc', p_zero_pv=.05), run_world), 'row': (make('row'), run_world), 'groups': (make('groups'), run_world),
         'recycling': (make('recycling'), run_world)}
PLAN = {'quick': dict(direct=500, market=1500, mixed=50, links=80, alloc=30, row=50, groups=40, recycling=30),
        'thorough': dict(direct=12000, market=40000, mixed=1200, links=1500, alloc=800, row=1200, groups=1000, recycling=800)}
