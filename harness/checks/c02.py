"""Every input leads to exactly one activity which makes that product"""
import collections
from .. import e2e, ref
ID = 'C02'
RULE = ('distinct = (consumer type, supplier type, recycled content, negative, rest of world on either side, hard linked) of followed links; '
        'every input of every output activity is followed')
REQUIRED = ['links followed', 'worlds with recyclable output', 'worlds with waste output', 'worlds with hard link', 'inputs without any production behind them']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run(case, mon):
    import ocelot
    from ocelot import configuration
    configs = [ocelot.cutoff_config]
    if mon.rng.random() < .2 and hasattr(configuration, 'cutoff_config_ecoinvent_row'):
        configs.append(configuration.cutoff_config_ecoinvent_row)
    for config in configs:
        out = e2e.run(case, mon, config)
        for k, ds in out.by_key.items():
            rp = out.product(mon, ds)
            mon.check(rp.get('code') == ds['code'], '{}: its product carries the code of something else', k)
            for e in ds['exchanges']:
                mon.check(e['type'] in ('reference product', 'from technosphere', 'from environment', 'to environment', 'dropped product')
                          or not e['amount'], '{}: {!r} is left as {}', k, e['name'], e['type'])
            for name, unit, sup, e in out.inputs(mon, ds):
                made = out.product(mon, out.by_key[sup])
                mon.check(made['name'] == name, '{}: input of {!r} comes from {}, which makes {!r}', k, name, sup, made['name'])
                mon.check(made['unit'] == unit, '{}: input of {!r} in {} comes from {}, which makes {}', k, name, unit, sup, made['unit'])
                mon.count('links followed')
                sd = out.by_key[sup]
                mon.seen(ds['type'], sd['type'], ref.RC in sup[0], e['amount'] < 0, ds['location'] == 'RoW', sd['location'] == 'RoW',
                         bool(e.get('activity link')), sup == k)
        # Nothing got lost on the way
        if set(out.by_key) == set(case.ref.by_key):
            for k, ds in out.by_key.items():
                got = {name for name, unit, sup, e in out.inputs(mon, ds) if e['amount']}
                want = {e['name'] for e in case.ref.by_key[k]['exchanges'] if e['type'] == 'from technosphere' and e['amount']}
                mon.check(not want - got, '{}: inputs of {} are gone', k, sorted(want - got))
                # Also not one of several inputs of the same product
                got = {e['original id'] for name, unit, sup, e in out.inputs(mon, ds) if e['amount'] and 'original id' in e}
                lost = {e['id']: e['name'] for e in case.ref.by_key[k]['exchanges']
                        if e['type'] == 'from technosphere' and e['amount'] and e.get('id') and not e.get('_merged') and e['id'] not in got}
                mon.check(not lost or not got, '{}: inputs are gone: {}', k, lost)
                mon.count('single inputs followed', len(got))
        mon.count('inputs without any production behind them', len(case.ref.deleted))


KINDS = {k: (make(k), run) for k in ('mixed', 'small', 'recycling', 'zero', 'links', 'row', 'combined')}
PLAN = {'quick': dict(mixed=60, small=160, recycling=60, zero=40, links=60, row=60, combined=20),
        'thorough': dict(mixed=1500, small=4000, recycling=1500, zero=1000, links=1500, row=1500, combined=600)}
