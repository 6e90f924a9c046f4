"""Market mixes add up to the market's output and follow production volumes"""
import copy
import math
from .. import direct, e2e, gen, ref
ID = 'C06'
RULE = ('distinct = (suppliers, suppliers without production, amount class) of market mixes; every mix is compared share by share')
REQUIRED = ['mixes with several suppliers', 'mixes of one supplier without production', 'empty mixes', 'inputs compared', 'mixes that add up']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.inputs(case, mon, out, select=lambda k, ds: ds['type'] == 'market activity', names=lambda k, ds, name: name == k[2])
    for k, ds in out.by_key.items():
        if ds['type'] != 'market activity':
            continue
        mix = [e for e in case.ref.by_key[k]['exchanges'] if e.get('_mix')]
        if mix:
            sups = {e2e.plain(e['to']) for e in mix}
            total = math.fsum(e['amount'] for name, unit, sup, e in out.inputs(mon, ds) if name == k[2] and sup in sups and sup != k)
            others = math.fsum(e['amount'] for e in case.ref.by_key[k]['exchanges'] if e['type'] == 'from technosphere' and not e.get('_mix')
                               and e['name'] == k[2] and e2e.plain(e['to']) in sups)
            mon.check(e2e.close(total - others, out.product(mon, ds)['amount'], abs(others)), '{}: the mix adds up to {}', k, total)
            mon.count('mixes that add up')


def gen_direct(rng, index):
    amount = gen.num(rng, -2, 2) * rng.choice([1, 1, 1, -1])
    ds = direct.act(rng, rng.choice(['market activity', 'market group']), 'market for x', 'x', 'GLO', 0., amount=amount)
    n = gen.size(rng, 0, 8)
    pz = rng.choice([0, .2, .5, 1])
    ds['suppliers'] = []
    for i in range(n):
        s = direct.act(rng, 'transforming activity', 'making x {}'.format(i), 'x', 'GLO', direct.volume(rng, pz), amount=gen.num(rng))
        e = copy.deepcopy(s['exchanges'][0])
        e.update(code=s['code'], location=s['location'], activity=s['name'])
        ds['suppliers'].append(e)
    ds['exchanges'] += [gen.emission(rng, i) for i in range(rng.randint(0, 2))]
    return ds


def run_direct(case, mon):
    from ocelot.transformations.locations.markets import allocate_suppliers
    ds = direct.strip([case])[0]
    before = copy.deepcopy(ds)
    allocate_suppliers(ds)
    amount = before['exchanges'][0]['amount']
    pvs = {s['code']: s['production volume']['amount'] for s in before['suppliers']}
    total = math.fsum(pvs.values())
    if total:
        want = {c: v / total for c, v in pvs.items() if v}
        mon.count('mixes with several suppliers', len(want) > 1)
    elif len(pvs) == 1:
        want = {c: 1. for c in pvs}
        mon.count('mixes of one supplier without production')
    else:
        want = {}
        mon.count('empty mixes')
    n = len(before['exchanges'])
    mon.check(ds['exchanges'][:n] == before['exchanges'], 'existing exchanges were changed')
    new = ds['exchanges'][n:]
    got = {e['code']: e for e in new}
    mon.check(len(got) == len(new) and set(got) == set(want), 'wrong suppliers in the mix: {} instead of {}', len(new), len(want))
    for c, f in want.items():
        mon.check(e2e.close(got[c]['amount'], f * amount, tol=1e-9), 'share {} instead of {} (of {})', got[c]['amount'], f * amount, amount)
        mon.check(got[c]['type'] == 'from technosphere' and got[c]['name'] == 'x' and got[c]['unit'] == 'kg', 'wrong flow {}', got[c])
        # an exact share has no distribution of its own
        mon.check(not got[c].get('uncertainty'), 'share got an uncertainty')
    if want:
        mon.check(e2e.close(math.fsum(e['amount'] for e in new), amount, tol=1e-9), 'the mix adds up to {}, not {}',
                  math.fsum(e['amount'] for e in new), amount)
    mon.seen(len(pvs), len(want), round(math.log10(abs(amount))), amount < 0)


KINDS = {'direct': (gen_direct, run_direct), 'mixed': (make('mixed'), run_world), 'places': (make('places'), run_world), 'zero': (make('zero'), run_world),
         'recycling': (make('recycling'), run_world), 'links': (make('links'), run_world)}
PLAN = {'quick': dict(direct=3000, mixed=50, places=60, zero=50, recycling=50, links=60),
        'thorough': dict(direct=80000, mixed=1200, places=1500, zero=1200, recycling=1200, links=1200)}
