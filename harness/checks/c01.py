"""Single-output, normalised, complete result of the cutoff model"""
from .. import e2e, ref
ID = 'C01'
RULE = ('distinct = kind of activity x inputs x producers x rest-of-world seen in compared output activities; every output activity of every '
        'generated database is compared with an independent reference model (which products, amount, unit, environmental exchanges)')
ASSUMPTIONS = ['generated databases are valid input (no documented error applies) and have no result that hinges on rounding noise']
LEVEL = 'exploration'
REQUIRED = ['activities compared', 'products compared', 'environmental exchanges compared', 'worlds with economic', 'worlds with zero coproduct', 'worlds with combined',
            'worlds with treat waste', 'worlds with treat recyclable by', 'worlds with zero byproduct']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run(case, mon):
    import ocelot
    from ocelot import configuration
    configs = [ocelot.cutoff_config]
    if mon.rng.random() < .2 and hasattr(configuration, 'cutoff_config_ecoinvent_row'):
        configs.append(configuration.cutoff_config_ecoinvent_row)
        mon.count('runs of the second cutoff configuration')
    for config in configs:
        out = e2e.run(case, mon, config)
        e2e.activities(case, mon, out)
        e2e.products(case, mon, out)
        e2e.environment(case, mon, out)
    mon.seen('features', sorted(case.world.features))


KINDS = {
    'mixed': (make('mixed', emissions=(1, 4)), run),
    'small': (make('small', emissions=(1, 3)), run),
    'alloc': (make('alloc', emissions=(1, 3)), run),
    'combined': (make('combined', emissions=(1, 3)), run),
    'recycling': (make('recycling', emissions=(1, 3)), run),
    'zero': (make('zero', emissions=(1, 3)), run),
}
PLAN = {'quick': dict(mixed=60, small=250, alloc=60, combined=60, recycling=60, zero=30),
        'thorough': dict(mixed=1500, small=5000, alloc=1500, combined=1500, recycling=1500, zero=800)}
