"""Market groups: whose mix, in which shares, with which volume"""
import math
from .. import direct, e2e, ref
from ..topo import topo
ID = 'C08'
RULE = ('distinct = (group area kind, suppliers, nesting) of market groups; suppliers, shares and volumes of every group are compared with an independent '
        'bit-mask geometry')
REQUIRED = ['groups compared', 'groups in groups', 'groups without suppliers', 'rest of world in a group', 'inputs compared', 'production volumes compared']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    sel = lambda k, ds: ds['type'] == 'market group'
    e2e.inputs(case, mon, out, select=sel)
    e2e.volumes(case, mon, out, select=sel)


def run_direct(data, mon):
    from ocelot.transformations.locations.market_groups import link_market_group_suppliers
    from ocelot.transformations.locations.markets import update_market_production_volumes, allocate_all_market_suppliers
    t, c = topo(), direct.chooser()
    code = {d['code']: d for d in data}
    sup, pv = {}, {d['code']: ref.pvol(d) for d in data}
    groups = [d for d in data if d['type'] == 'market group']
    for g in groups:
        sup[g['code']] = c.choose(t.m(g['location']), [x for x in data if x['type'] in ('market activity', 'market group') and x['rp'] == g['rp']], skip=g)
    for g in sorted(groups, key=lambda d: t.size(t.m(d['location']))):
        pv[g['code']] = math.fsum(pv[s['code']] for s in sup[g['code']])
    out = link_market_group_suppliers(direct.strip(data))
    out = update_market_production_volumes(out, kind='market group')
    out = allocate_all_market_suppliers(out, kind='market group')
    mon.check({d['code'] for d in out} == set(code), 'activities appeared or disappeared')
    show = lambda cs: sorted(code[x]['type'] + ' ' + code[x]['location'] for x in cs)
    for ds in out:
        if ds['type'] != 'market group':
            continue
        where = '{} ({})'.format(ds['name'], ds['location'])
        rp = [e for e in ds['exchanges'] if e['type'] == 'reference product'][0]
        got = {}
        for e in ds['exchanges']:
            if e['type'] == 'from technosphere':
                mon.check(e['code'] not in got, '{}: the same supplier twice', where)
                got[e['code']] = e['amount']
        want = {s['code'] for s in sup[ds['code']]}
        total = pv[ds['code']]
        share = {s: pv[s] / total for s in want if pv[s]} if total else {s: 1. for s in want} if len(want) == 1 else {}
        mon.check(set(got) == set(share), '{}: mix of {}, expected {}', where, show(got), show(share))
        for s, f in share.items():
            mon.check(e2e.close(got[s], f * rp['amount'], tol=1e-9), '{}: {} from {}, expected {}', where, got[s], show([s]), f * rp['amount'])
        mon.check(e2e.close(rp['production volume']['amount'], total, tol=1e-9), '{}: volume {}, expected {}', where, rp['production volume']['amount'], total)
        mon.check(ds['code'] not in got, '{}: supplies itself', where)
        mon.count('groups compared')
        mon.count('groups in groups', any(code[s]['type'] == 'market group' for s in want))
        mon.count('groups without suppliers', not want)
        mon.count('rest of world in a group', any(code[s]['location'] == 'RoW' for s in want))
        mon.seen(ds['location'], sorted(code[s]['location'] for s in want)[:4])


KINDS = {'direct': (direct.group_case, run_direct), 'groups': (make('groups'), run_world), 'mixed': (make('mixed', p_group=1.), run_world)}
PLAN = {'quick': dict(direct=1500, groups=130, mixed=60), 'thorough': dict(direct=40000, groups=3000, mixed=1500)}
