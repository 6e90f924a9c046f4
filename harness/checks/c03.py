"""Inputs are divided between suppliers, never changed in total"""
import math
from .. import direct, e2e, ref
ID = 'C03'
RULE = ('distinct = (number of suppliers, how many without production, sign, distribution type) of divided inputs and the shape of consumers in '
        'whole databases; amounts, shares and distributions of every divided input are compared')
REQUIRED = ['inputs divided', 'inputs passed on whole', 'inputs without any production behind them', 'inputs compared', 'distributions compared']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    e2e.activities(case, mon, out)
    e2e.inputs(case, mon, out, names=lambda k, ds, name: ds['type'] == 'transforming activity' or name != k[2])
    e2e.uncertainties(case, mon, out)


def run_direct(data, mon):
    L = direct.Linked(data)
    mon.check(L.n_after == len(data), 'activities appeared or disappeared')
    for ds, e, expected, got, linked in L.records:
        where = '{} ({}) / {}'.format(ds['name'], ds['location'], e['name'])
        if linked:
            mon.check(len(got) == 1 and got[0]['code'] == e['code'] and got[0]['amount'] == e['amount'], '{}: existing link was changed', where)
            continue
        pvs = {d['code']: ref.pvol(d) for d in expected}
        total = math.fsum(pvs.values())
        if len(expected) == 1:
            share = {expected[0]['code']: 1.}
            mon.count('inputs passed on whole')
        elif not total:
            share = {}
            mon.count('inputs without any production behind them')
        else:
            share = {c: p / total for c, p in pvs.items() if p}
            mon.count('inputs divided')
        left = [x for x in got if not x.get('code')]
        done = {}
        for x in got:
            if x.get('code'):
                mon.check(x['code'] not in done, '{}: linked twice to the same supplier', where)
                done[x['code']] = x
        mon.check(not share or not left, '{}: an unlinked rest is left', where)
        mon.check(set(done) == set(share), '{}: divided between {}, expected {}', where,
                  [L.by_code[c]['location'] for c in done], [L.by_code[c]['location'] for c in share])
        if share:
            mon.check(e2e.close(math.fsum(x['amount'] for x in done.values()), e['amount'], tol=1e-9), '{}: parts add up to {}, not {}', where,
                      math.fsum(x['amount'] for x in done.values()), e['amount'])
        for c, f in share.items():
            x = done[c]
            mon.check(e2e.close(x['amount'], e['amount'] * f, tol=1e-9), '{}: part {} instead of {}', where, x['amount'], e['amount'] * f)
            mon.check(x['name'] == e['name'] and x['unit'] == e['unit'] and x['type'] == 'from technosphere', '{}: flow was changed', where)
            e2e.same_uncertainty(mon, x.get('uncertainty'), ref.scale_unc(e.get('uncertainty'), e['amount'], f), where, abs(x['amount']))
        mon.seen(len(share), len(expected), e['amount'] < 0, e.get('uncertainty', {}).get('type'), ds['location'] in ('RoW', 'GLO'))
    for ds in data:
        # everything else stays as it was
        ids = {e['id'] for e in ds['exchanges']}
        after = L.after[ds['code']]
        mon.check({e.get('id') for e in after['exchanges']} <= ids, 'new exchanges in {}', ds['name'])
        mon.check([e['amount'] for e in after['exchanges'] if e['type'] == 'reference product']
                  == [e['amount'] for e in ds['exchanges'] if e['type'] == 'reference product'], 'product of {} changed', ds['name'])


KINDS = {'direct': (direct.linking_case, run_direct),
         'mixed': (make('mixed', p_unc=.7), run_world), 'places': (make('places', p_unc=.7), run_world),
         'groups': (make('groups', p_unc=.5), run_world), 'zero': (make('zero'), run_world)}
PLAN = {'quick': dict(direct=1500, mixed=60, places=80, groups=60, zero=40),
        'thorough': dict(direct=40000, mixed=1500, places=2000, groups=1500, zero=1000)}
