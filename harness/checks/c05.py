"""Markets are supplied by the producers inside their area, and by nobody else"""
from .. import direct, e2e
from ..core import HarnessError
ID = 'C05'
RULE = ('distinct = (market location kind, supplier locations) of markets with suppliers; the supplier set of every market is compared with an independent '
        'bit-mask geometry')
REQUIRED = ['markets compared', 'markets with suppliers', 'markets without suppliers', 'rest of world markets', 'rest of world suppliers', 'inputs compared', 'overlapping markets refused', 'overlapping producers refused']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.inputs(case, mon, out, select=lambda k, ds: ds['type'] == 'market activity', names=lambda k, ds, name: name == k[2], amounts=False)


def run_direct(data, mon):
    from ocelot.transformations.locations.markets import add_suppliers_to_markets
    want = direct.expected_suppliers(data)
    out = add_suppliers_to_markets(direct.strip(data))
    code = {d['code']: d for d in data}
    mon.check({d['code'] for d in out} == set(code) and len(out) == len(data), 'activities appeared or disappeared')
    for ds in out:
        if ds['type'] != 'market activity':
            continue
        got = [s['code'] for s in ds.get('suppliers', [])]
        where = '{} ({})'.format(ds['name'], ds['location'])
        mon.check(len(got) == len(set(got)), '{}: the same supplier twice', where)
        show = lambda cs: sorted(code[c]['name'] + ' ' + code[c]['location'] for c in cs if c in code)
        mon.check(set(got) == want[ds['code']], '{}: extra suppliers {}, missing suppliers {}', where,
                  show(set(got) - want[ds['code']]), show(want[ds['code']] - set(got)))
        for s in ds.get('suppliers', []):
            rp = code[s['code']]['exchanges'][0]
            mon.check(s['name'] == rp['name'] and s['production volume']['amount'] == rp['production volume']['amount'],
                      '{}: wrong data for supplier {}', where, show([s['code']]))
        mon.count('markets compared')
        mon.count('markets with suppliers' if got else 'markets without suppliers')
        mon.count('rest of world markets', ds['location'] == 'RoW')
        mon.count('rest of world suppliers', sum(1 for c in got if code[c]['location'] == 'RoW'))
        mon.seen(ds['location'] in ('RoW', 'GLO') and ds['location'], sorted(code[c]['location'] for c in got)[:4])


def gen_bad(rng, index):
    """A supply case in which two markets of a product, or two producers of one technology, share some area"""
    t = direct.topo()
    for _ in range(100):
        data = direct.supply_case(rng, index)
        kind = rng.choice(['market activity', 'transforming activity'])
        ds = rng.choice([d for d in data if d['type'] == kind and d['location'] != 'RoW'] or [None])
        if ds is None:
            continue
        peers = [d for d in data if d['type'] == kind and d['rp'] == ds['rp'] and d['name'] == ds['name'] and d['location'] != 'RoW']
        at = rng.choice(['GLO', t.related(rng, ds['location']) if ds['location'] != 'GLO' else t.pick(rng), t.pick(rng)])
        if rng.random() < .25:
            # the very same place
            at = ds['location']
        elif at in [d['location'] for d in peers]:
            continue
        if not any(t.m(at) & t.m(d['location']) for d in peers):
            continue
        new = direct.act(rng, kind, ds['name'], ds['rp'], at, direct.volume(rng))
        data.insert(rng.randrange(len(data) + 1), new)
        return kind, at, data
    raise HarnessError('no overlapping case found')


def run_bad(case, mon):
    from ocelot.transformations.locations.markets import add_suppliers_to_markets
    from ocelot.errors import OverlappingActivities
    kind, at, data = case
    try:
        add_suppliers_to_markets(direct.strip(data))
    except OverlappingActivities:
        mon.count('overlapping markets refused' if kind == 'market activity' else 'overlapping producers refused')
        mon.seen('bad', kind, at)
        mon.count('same place refused', len(data) - len({(d['type'], d['rp'], d['name'], d['location']) for d in data}))
    else:
        mon.fail('overlapping {} accepted: {} among {}', kind, at, [(d['name'], d['location']) for d in data if d['type'] == kind])


KINDS = {'bad': (gen_bad, run_bad), 'direct': (direct.supply_case, run_direct), 'mixed': (make('mixed'), run_world), 'places': (make('places'), run_world), 'row': (make('row'), run_world)}
PLAN = {'quick': dict(bad=300, direct=2500, mixed=40, places=80, row=80), 'thorough': dict(bad=8000, direct=60000, mixed=1000, places=2000, row=2000)}
