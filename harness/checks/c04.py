"""Which suppliers a consumer gets, by geography"""
from .. import direct, e2e, ref
from ..topo import topo
ID = 'C04'
RULE = ('distinct = (consumer area kind, number of suppliers, markets/groups chosen, fallback, rest of world among them) of resolved inputs; the supplier '
        'set of every input is compared with an independent bit-mask geometry')
REQUIRED = ['inputs resolved', 'suppliers inside the consumer', 'smallest enclosing supplier', 'rest of world consumers', 'rest of world suppliers',
            'market group suppliers', 'no supplier in reach']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.inputs(case, mon, out, names=lambda k, ds, name: ds['type'] == 'transforming activity' or name != k[2], amounts=False)


def run_direct(data, mon):
    t = topo()
    L = direct.Linked(data)
    for ds, e, expected, got, linked in L.records:
        if linked:
            continue
        where = '{} ({}) / {}'.format(ds['name'], ds['location'], e['name'])
        total = sum(ref.pvol(d) for d in expected)
        want = {d['code'] for d in expected if len(expected) == 1 or ref.pvol(d)} if (total or len(expected) == 1) else set()
        have = {x['code'] for x in got if x.get('code')}
        mon.check(have == want, '{}: supplied from {}, expected {}', where, sorted(L.by_code[c]['type'] + ' ' + L.by_code[c]['location'] for c in have),
                  sorted(L.by_code[c]['type'] + ' ' + L.by_code[c]['location'] for c in want))
        mon.count('inputs resolved')
        own = ds['location']
        if own == 'RoW':
            mon.count('rest of world consumers')
        if any(d['location'] == 'RoW' for d in expected):
            mon.count('rest of world suppliers')
        if any(d['type'] == 'market group' for d in expected):
            mon.count('market group suppliers')
        if not expected:
            mon.count('no supplier in reach')
        elif own != 'RoW' and all(t.inside(t.m(d['location']), t.m(own)) for d in expected if d['location'] != 'RoW'):
            mon.count('suppliers inside the consumer')
        else:
            mon.count('smallest enclosing supplier')
        mon.seen(own if own in ('RoW', 'GLO') else '', sorted(d['location'] for d in expected)[:3], len(expected))


KINDS = {'direct': (direct.linking_case, run_direct), 'mixed': (make('mixed'), run_world), 'places': (make('places'), run_world),
         'groups': (make('groups'), run_world), 'row': (make('row'), run_world)}
PLAN = {'quick': dict(direct=2500, mixed=40, places=80, groups=60, row=60),
        'thorough': dict(direct=60000, mixed=1200, places=2000, groups=1500, row=1500)}
