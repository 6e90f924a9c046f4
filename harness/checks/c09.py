"""The rest of the world"""
import copy
import math
from .. import direct, e2e, gen, ref
from ..topo import topo
ID = 'C09'
RULE = ('distinct = (group size, has global, volumes zero) of activity groups and location class of activities in whole databases; location and volume of '
        'every activity are compared')
REQUIRED = ['groups relabelled', 'groups left alone', 'market groups left alone', 'volumes clipped at zero', 'activities compared', 'production volumes compared',
            'rest of world activities removed', 'rest of world activities kept', 'two global activities refused']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.volumes(case, mon, out, select=lambda k, ds: ds['location'] in ('RoW', 'GLO'))
    # What rest of world stands for decides who takes part in which market, and who supplies it
    e2e.inputs(case, mon, out, select=lambda k, ds: ds['location'] == 'RoW')
    mon.count('rest of world activities removed', len(case.ref.dead))
    mon.count('rest of world activities kept', sum(1 for k in out.by_key if k[1] == 'RoW'))


def gen_direct(rng, index):
    t = topo()
    names = gen.Names(rng)
    data = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(['transforming activity', 'market activity', 'transforming activity', 'market group'])
        name = names.new()
        prods = [names.new() for _ in range(rng.choice([1, 1, 2]))]
        locs = t.cover(rng) if rng.random() < .1 else t.disjoint(rng, gen.size(rng, 0, 6))
        if rng.random() < .7 or not locs:
            locs = locs + ['GLO']
        for p in prods:
            for l in locs:
                ds = direct.act(rng, kind, name, p, l, direct.volume(rng), amount=gen.num(rng) * rng.choice([1, 1, -1]))
                pv = ds['exchanges'][0]['production volume']
                if rng.random() < .15 and kind == 'transforming activity':
                    pv['original amount'] = pv['amount'] * rng.choice([1, 2, 3.5]) + rng.choice([0, 1.])
                if rng.random() < .15:
                    other = gen.exchange(rng, 'other ' + p, 0., 'byproduct', p_unc=0)
                    ds['exchanges'].append(other)
                data.append(ds)
    rng.shuffle(data)
    return data


def run_direct(data, mon):
    from ocelot.transformations.locations import relabel_global_to_row
    want = {}
    groups = {}
    for ds in data:
        groups.setdefault((ds['name'], ds['rp']), []).append(ds)
    for g in groups.values():
        for ds in g:
            want[ds['code']] = (ds['location'], ref.pvol(ds), 0)
            if ds['location'] == 'GLO' and len(g) > 1:
                if ds['type'] == 'market group':
                    mon.count('market groups left alone')
                    continue
                pvs = []
                for o in g:
                    if o is not ds:
                        pv = o['exchanges'][0]['production volume']
                        pvs.append(pv.get('original amount', pv['amount']))
                left = max(ref.pvol(ds) - math.fsum(pvs), 0)
                want[ds['code']] = ('RoW', left, max(ref.pvol(ds), math.fsum(pvs)))
                mon.count('groups relabelled')
                mon.count('volumes clipped at zero', not left)
            elif ds['location'] == 'GLO':
                mon.count('groups left alone')
        mon.seen(g[0]['type'], len(g), any(d['location'] == 'GLO' for d in g), sum(1 for d in g if not ref.pvol(d)))
    out = relabel_global_to_row(direct.strip(data))
    mon.check({d['code'] for d in out} == set(want) and len(out) == len(data), 'activities appeared or disappeared')
    for ds in out:
        loc, pv, scale = want[ds['code']]
        got = [e for e in ds['exchanges'] if e['type'] == 'reference product'][0]['production volume']['amount']
        mon.check(ds['location'] == loc, '{}: location {}, expected {}', ds['name'], ds['location'], loc)
        mon.check(abs(got - pv) <= 1e-9 * scale and got >= 0, '{} ({}): volume {}, expected {}', ds['name'], loc, got, pv)


def gen_bad(rng, index):
    """Two global activities of the same name with the same product"""
    while True:
        data = gen_direct(rng, index)
        globs = [d for d in data if d['location'] == 'GLO' and d['type'] != 'market group']
        if globs:
            break
    ds = rng.choice(globs)
    twin = direct.act(rng, ds['type'], ds['name'], ds['rp'], 'GLO', direct.volume(rng))
    data.insert(rng.randrange(len(data) + 1), twin)
    return data


def run_bad(data, mon):
    from ocelot.errors import MultipleGlobalDatasets
    from ocelot.transformations.locations import relabel_global_to_row
    try:
        relabel_global_to_row(direct.strip(data))
    except MultipleGlobalDatasets:
        mon.count('two global activities refused')
    else:
        mon.fail('two global activities of the same name and product accepted')


KINDS = {'bad': (gen_bad, run_bad), 'direct': (gen_direct, run_direct), 'row': (make('row'), run_world), 'mixed': (make('mixed'), run_world), 'zero': (make('zero', p_glo_market=.95, p_glo_tech=.9), run_world)}
PLAN = {'quick': dict(bad=200, direct=1500, row=200, mixed=50, zero=60), 'thorough': dict(bad=4000, direct=40000, row=4000, mixed=1200, zero=1500)}
